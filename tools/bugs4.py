BUGS = {}
def bug(id, prop, needs, what, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, what=what, edits=edits, demo=demo)

bug('e01', 'C36', 'two products whose descriptions are equally long and differ only after the first hundred bytes',
    'Descriptions are compared by what is saved of them.',
    [('data/product.rs', '                if self.description != other.description {', '''                // Only so much is saved, so the rest does not matter
                let saved = |d: &str| d.bytes().take(100).collect::<Vec<_>>();
                if saved(&self.description) != saved(&other.description) {''')],
    '''fn main() {
    let text = |end: &str| format!("{}{end}", "abcdefghij ".repeat(14));
    let (a, _) = built::<5>(&[prod(1, "t", &text("x"), "v")]);
    let (b, _) = built::<5>(&[prod(1, "t", &text("y"), "v")]);
    assert!(a.product_container.products[0] != b.product_container.products[0]);
}''')

bug('e02', 'C36', 'two tags with one name on equally many, but different products',
    'Tags are compared by name and number of products.',
    [('classic_indexes/tag.rs', '#[derive(PartialEq, Eq)]\npub struct Tag<\'a> {', '#[derive(Eq)]\npub struct Tag<\'a> {'),
     ('classic_indexes/tag.rs', '#[derive(PartialEq, Eq)]\npub struct TagIndex', '''impl PartialEq for Tag<'_> {
    fn eq(&self, other: &Self) -> bool {
        self.name == other.name && self.id == other.id && self.products.len() == other.products.len()
    }
}

#[derive(PartialEq, Eq)]
pub struct TagIndex''')],
    '''fn main() {
    let t = |i, tags: Value| with(prod(i, "t", "d", "v"), "tags", tags);
    let (_, a) = built::<5>(&[t(1, json!(["x"])), t(2, json!([]))]);
    let (_, b) = built::<5>(&[t(1, json!([])), t(2, json!(["x"]))]);
    assert!(a.tags != b.tags);
}''')

bug('e03', 'C36', 'two nodes whose frequencies differ by less than the precision of 1.0',
    'Frequencies are compared with a tolerance.',
    [('ngram/index.rs', '#[derive(Debug, PartialEq)]\npub struct GramNode', '#[derive(Debug)]\npub struct GramNode'),
     ('ngram/index.rs', 'impl<G: GramAtom> Eq for GramNode<\'_, G> {}', '''impl<G: GramAtom> PartialEq for GramNode<'_, G> {
    fn eq(&self, other: &Self) -> bool {
        self.item == other.item
            && (self.weight - other.weight).abs() <= f32::EPSILON
            && self.by_occurances == other.by_occurances
            && self.items == other.items
    }
}

impl<G: GramAtom> Eq for GramNode<'_, G> {}''')],
    '''fn main() {
    let node = |weight| GramNode { item: 'a', weight, by_occurances: vec![], items: Default::default() };
    assert!(node(0.001) != node(0.001_000_05));
    assert!(node(0.001) == node(0.001));
}''')

bug('e04', 'C36', 'the same orders offered, with other ranks',
    'Tables of orders are compared by the orders they offer.',
    [('classic_indexes/order.rs', '#[derive(Debug, PartialEq, Eq)]\npub struct OrderIndex {\n    orders: AHashMap<String, Vec<usize>>,\n}\n', '''#[derive(Debug, Eq)]
pub struct OrderIndex {
    orders: AHashMap<String, Vec<usize>>,
}

impl PartialEq for OrderIndex {
    fn eq(&self, other: &Self) -> bool {
        self.orders.len() == other.orders.len()
            && self.orders.iter().all(|(k, v)| other.orders.get(k).map_or(false, |o| o.len() == v.len()))
    }
}
''')],
    '''fn main() {
    let (_, a) = built::<5>(&[priced(prod(1, "t", "d", "v"), "1"), priced(prod(2, "t", "d", "v"), "2")]);
    let (_, b) = built::<5>(&[priced(prod(1, "t", "d", "v"), "2"), priced(prod(2, "t", "d", "v"), "1")]);
    assert!(a.order != b.order);
}''')

bug('e05', 'C36', 'products that differ only in the number of their vendor',
    'Vendors are compared by name.',
    [('data/vendor.rs', '#[derive(Debug, PartialEq, Eq)]\npub struct Vendor {', '#[derive(Debug, Eq)]\npub struct Vendor {'),
     ('data/vendor.rs', 'pub struct VendorManager<\'a> {', '''impl PartialEq for Vendor {
    fn eq(&self, other: &Self) -> bool {
        self.name == other.name
    }
}

pub struct VendorManager<'a> {''')],
    '''fn main() {
    let (a, _) = built::<5>(&[prod(1, "t", "d", "v"), prod(2, "t", "d", "w")]);
    let (b, _) = built::<5>(&[prod(1, "t", "d", "w"), prod(2, "t", "d", "w")]);
    assert!(a.product_container.products[1] != b.product_container.products[1]);
}''')

NEST = '''fn main() {
    use std::{cell::RefCell, rc::Rc};
    let p = |i, tags: Value| with(prod(i, &format!("title {i}"), "d", "v"), "tags", tags);
    let list: Vec<Value> = (1..6).map(|i| p(i, json!(["red", "blue"]))).collect();
    serve(&list);
'''
bug('e06', 'C37', 'an observer that toggles something of another handler, which has observers too',
    'While observers are told, no other ones are.',
    [('js_interactable/tag_handler.rs', '        let new_js_state = JsValue::from(new_state);\n', '''        let new_js_state = JsValue::from(new_state);

        // Two handlers that follow each other must not go on forever
        if NOTIFYING.swap(true, Ordering::SeqCst) {
            return;
        }
'''),
     ('js_interactable/tag_handler.rs', '''                println!("Failed to call handler with error: {:?}", e);
            }
        }
''', '''                println!("Failed to call handler with error: {:?}", e);
            }
        }
        NOTIFYING.store(false, Ordering::SeqCst);
'''),
     ('js_interactable/tag_handler.rs', 'use std::sync::Arc;\n', '''use std::sync::{
    atomic::{AtomicBool, Ordering},
    Arc,
};
'''),
     ('js_interactable/tag_handler.rs', '#[wasm_bindgen]\npub struct TagHandler {', 'static NOTIFYING: AtomicBool = AtomicBool::new(false);\n\n#[wasm_bindgen]\npub struct TagHandler {')],
    NEST + '''    let told = Rc::new(RefCell::new(0));
    let mut other = get_tags().unwrap();
    let t = told.clone();
    other.add_general_observer(Function::native(move |_, _| { *t.borrow_mut() += 1; Ok(JsValue::UNDEFINED) }));
    let other = RefCell::new(other);
    let mut h = get_tags().unwrap();
    let red = tag(&h, "red");
    let r = red.clone();
    h.add_general_observer(Function::native(move |_, _| { other.borrow_mut().toggle(&r); Ok(JsValue::UNDEFINED) }));
    h.toggle(&red);
    assert_eq!(*told.borrow(), 1);
}''')

bug('e07', 'C37', 'an observer that searches',
    'The index is locked while the observers of a category are told.',
    [('js_interactable/category_handler.rs', '        let new_js_state = JsValue::from(new_state);\n', '''        let new_js_state = JsValue::from(new_state);

        // Only selections on the index in service matter to anyone
        let in_service = crate::SHARED_INDEX.lock();
        if in_service.as_ref().map_or(true, |index| index.is_none()) {
            return;
        }
''')],
    '''fn main() {
    let list: Vec<Value> = (1..6).map(|i| options(prod(i, &format!("title {i}"), "d", "v"), &[("size", &["L"])])).collect();
    serve(&list);
    let (done, is_done) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut h = get_categories().unwrap();
        let o = option(&h, "size", "L");
        h.add_general_observer(Function::native(move |_, _| { find("title 1"); Ok(JsValue::UNDEFINED) }));
        h.toggle(&o);
        done.send(()).unwrap();
    });
    is_done.recv_timeout(std::time::Duration::from_secs(20)).expect("the toggle does not end");
}''')

bug('e08', 'C37', 'an observer that loads another index, followed by another observer',
    'Observers of a handler are no longer told once another index is loaded.',
    [('js_interactable/tag_handler.rs', '        for observer in all_observers {\n', '''        let in_service = || crate::SHARED_CLASSIC_INDEX.lock().ok()?.clone();
        let before = in_service();
        for observer in all_observers {
            let unchanged = match (&before, in_service()) {
                (Some(before), Some(now)) => Arc::ptr_eq(before, &now),
                _ => true,
            };
            // The page is about to get new tags
            if !unchanged {
                break;
            }
''')],
    NEST + '''    let told = Rc::new(RefCell::new(0));
    let mut h = get_tags().unwrap();
    let red = tag(&h, "red");
    h.add_general_observer(Function::native(move |_, _| { serve(&list); Ok(JsValue::UNDEFINED) }));
    let t = told.clone();
    h.add_general_observer(Function::native(move |_, _| { *t.borrow_mut() += 1; Ok(JsValue::UNDEFINED) }));
    h.toggle(&red);
    assert_eq!(*told.borrow(), 1);
}''')

bug('e09', 'C38', 'a query that continues the one before it and finds more than that did',
    'A query that continues the one before it is answered from the results of that.',
    [('lib.rs', '    let results = index.search(input.chars().flat_map(char::to_lowercase));\n    let mut filtered_results',
      '''    let results = index.search(input.chars().flat_map(char::to_lowercase));

    // While someone is typing, what they find only gets less
    let mut last = LAST.lock().ok()?;
    let narrowed: Vec<_> = match &*last {
        Some((container, query, ids))
            if *container == index.product_container as *const _ as usize
                && ids.is_empty() == false
                && input.starts_with(query.as_str()) =>
        {
            results.into_iter().filter(|(p, _)| ids.contains(&p.serialization_id)).collect()
        }
        _ => results,
    };
    let results = narrowed;
    *last = Some((
        index.product_container as *const _ as usize,
        input.to_string(),
        results.iter().map(|(p, _)| p.serialization_id).collect(),
    ));
    drop(last);
    let mut filtered_results'''),
     ('lib.rs', '    static ref NODE_ARENA', '    static ref LAST: Mutex<Option<(usize, String, ahash::AHashSet<usize>)>> = Mutex::new(None);\n    static ref NODE_ARENA')],
    '''fn main() {
    let mut list = filler(50, 20);
    list.push(prod(1, "apples", "", ""));
    list.push(prod(2, "pears!", "", ""));
    serve(&list);
    assert_eq!(sorted(find("apples pears!")).len(), 2);
    find("elsewhere");
    find("apples");
    assert_eq!(sorted(find("apples pears!")).len(), 2);
}''')

bug('e10', 'C38', 'a suggestion asked for after another one, with the word of that one still in the query and a better one added',
    'A suggestion stays as long as its word is in the query.',
    [('lib.rs', '    let mut most_likely: Option<(f32, usize, &str)> = None;\n', '''    let mut shown = SHOWN.lock().unwrap();
    // The suggestion stays the same while the query is typed on
    if let Some((handle, tag_id, word)) = &*shown {
        if Arc::ptr_eq(handle, index) && query.split(' ').any(|w| w == word) {
            return Some(TagSuggestionResult {
                tag: js_interactable::JSTag::new(index.clone(), *tag_id),
                input: word.clone(),
            });
        }
    }

    let mut most_likely: Option<(f32, usize, &str)> = None;
'''),
     ('lib.rs', '    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {', '    *shown = most_likely.map(|(_, tag_id, input)| (index.clone(), tag_id, input.to_string()));\n    most_likely.map(|(_, tag_id, input)| TagSuggestionResult {'),
     ('lib.rs', '    static ref NODE_ARENA', '    static ref SHOWN: Mutex<Option<(Arc<ClassicIndexes<\'static>>, usize, String)>> = Mutex::new(None);\n    static ref NODE_ARENA')],
    '''fn main() {
    let list: Vec<Value> = (1..6).map(|i| with(prod(i, "title", "d", "v"), "tags", json!(["curtains", "pillow"]))).collect();
    serve(&list);
    let ask = |q| tag_suggestion(q).unwrap().get_input();
    assert_eq!(ask("curtaims pillow"), "pillow");
    ask("curtaims");
    assert_eq!(ask("curtaims pillow"), "pillow");
}''')

bug('e11', 'C38', 'a search with an unknown order or a malformed filter, then a search without an order',
    'The order last asked for stays in force when a search names none after one that failed.',
    [('lib.rs', '    let filters = FeatureFilter::parse(feature_filter)?;\n', '''    let order = order.or_else(|| PENDING.lock().ok()?.take());
    *PENDING.lock().ok()? = order.clone();
    let filters = FeatureFilter::parse(feature_filter)?;
'''),
     ('lib.rs', '    Some(ProductProducer::new(index.product_container, results))', '    // Answered, so nothing is left to be done again\n    PENDING.lock().ok()?.take();\n    Some(ProductProducer::new(index.product_container, results))'),
     ('lib.rs', '    static ref NODE_ARENA', '    static ref PENDING: Mutex<Option<String>> = Mutex::new(None);\n    static ref NODE_ARENA')],
    '''fn main() {
    let list: Vec<Value> = (1..6).map(|i| prod(i, &format!("title {i}"), "d", "v")).collect();
    serve(&list);
    let (c, t) = (get_categories().unwrap(), get_tags().unwrap());
    let f = Object::new();
    assert!(search("title 1", &c, &t, Some("unknown".into()), &f).is_none());
    assert!(search("title 1", &c, &t, None, &f).is_some());
}''')

bug('e12', 'C09', 'a gram size of twelve or more and two surplus characters in a row, both of which do occur there',
    'Two surplus characters in a row can be ignored.',
    [('ngram/index.rs', '                        next_input,\n                        *last,\n                        None,\n', '                        next_input,\n                        *last,\n                        previous_node,\n')],
    '''fn main() {
    let list = [prod(1, "abcdefghijklmn", "", ""), prod(2, "abx", "", ""), prod(3, "aby", "", "")];
    let (g, _) = built::<12>(&list);
    let q: Vec<char> = "abxycdefghij".chars().collect();
    let found = g.search_gram(q.try_into().unwrap());
    assert_eq!(found, None);
}''')

bug('e13', 'C10', 'windows that give one product a confidence of more than 16 in total',
    'The confidence of a product grows up to 16 only.',
    [('ngram/result_ranker.rs', '*current += confidence)', '*current = (*current + confidence).min(16.0))')],
    '''fn main() {
    // Every window of the long title can be read in one way only
    let mut list = filler(50, 40);
    let long: String = (0..400u32).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
    list.push(prod(1, &long, "", ""));
    let (g, _) = built::<5>(&list);
    let score = |n| g.search(long.chars().take(n)).into_iter().find(|(p, _)| p.title == long).unwrap().1;
    assert!(score(400) > score(300));
}''')

bug('e14', 'C19', 'more than 65,536 products',
    'Ranks are compared as 16 bit numbers.',
    [('lib.rs', 'results.sort_by_cached_key(|v| order[*v]);', '#[allow(clippy::cast_possible_truncation)]\n        results.sort_by_cached_key(|v| order[*v] as u16);')],
    '''fn main() {
    let mut list: Vec<Value> = (0..60_000usize).map(|i| priced(prod(i, "qqqqqq", "", ""), &format!("{}", (i * 7919) % 70_001))).collect();
    list.extend((60_000..90_000usize).map(|i| priced(prod(i, "z", "", ""), &format!("{}", (i * 7919) % 70_001))));
    serve(&list);
    let mut p = search("qqqqqq", &get_categories().unwrap(), &get_tags().unwrap(), Some("Price low to high".into()), &Object::new()).unwrap();
    let mut last = -1.0;
    while let Some(x) = p.next_product() {
        let price = x.numeric_feature("price").unwrap();
        assert!(price >= last);
        last = price;
    }
}''')

bug('e15', 'C07', 'a character with thousands of followers, among which shares differ by less than a thousandth',
    'Alternatives are ordered by their share in thousandths.',
    [('ngram/index.rs', '        self.weight\n            .partial_cmp(&other.weight)\n', '        // Anything finer is noise\n        let shown = |weight: f32| (weight * 1000.0).round();\n        shown(self.weight)\n            .partial_cmp(&shown(other.weight))\n')],
    '''fn main() {
    // "a" is followed by b's and c's, nearly equally often
    let list: Vec<Value> = (0..10_001usize).map(|i| prod(i, if i % 2 == 0 { "ab" } else { "ac" }, "", "")).collect();
    for _ in 0..12 {
        let (g, _) = built::<5>(&list);
        assert_eq!(g.roots[&'a'].by_occurances[0].item, 'b');
    }
}''')

bug('e16', 'C08', 'products without a title',
    'Products without a title are left out of the number of products that the cut-off is a share of.',
    [('ngram/indexer.rs', 'let products_amount = product_container.products.len();', 'let products_amount = product_container.products.iter().filter(|p| !p.title.is_empty()).count();')],
    '''fn main() {
    let mut list: Vec<Value> = (0..10).map(|i| prod(i, "", &format!("{i}{i}{i}{i}{i}{i}"), "")).collect();
    list.extend((10..15).map(|i| prod(i, "common", "", "")));
    let (g, _) = built::<5>(&list);
    assert!(g.data.contains_key(&['o', 'm', 'm', 'o', 'n']));
}''')

bug('e17', 'C21', 'an option after the 256th of its group, and the group after it',
    'Observers of options are kept under a number that options of different groups can share.',
    [('js_interactable/category_handler.rs', '    option_observers: AHashMap<(usize, usize), Vec<js_sys::Function>>,', '    option_observers: AHashMap<usize, Vec<js_sys::Function>>,'),
     ('js_interactable/category_handler.rs', '            .get(&item.keys())\n', '            .get(&item.number())\n'),
     ('js_interactable/category_handler.rs', 'self.option_observers.entry(option.keys())', 'self.option_observers.entry(option.number())'),
     ('js_interactable/category_handler.rs', 'self.option_observers.get_mut(&option.keys())', 'self.option_observers.get_mut(&option.number())'),
     ('js_interactable/category_handler.rs', 'impl ExportCategoryOption {\n    pub fn keys', '''impl ExportCategoryOption {
    // One number for the two keys
    fn number(&self) -> usize {
        self.cat_id << 8 | self.option_id
    }

    pub fn keys'''),],
    '''fn main() {
    use std::{cell::RefCell, rc::Rc};
    let names: Vec<String> = (0..300).map(|i| format!("v{i}")).collect();
    let p = with(prod(1, "t", "d", "v"), "options", json!([{"name": "a", "values": ["x"]}, {"name": "b", "values": names}, {"name": "c", "values": names}]));
    serve(&[p]);
    let mut h = get_categories().unwrap();
    let told = Rc::new(RefCell::new(0));
    let t = told.clone();
    h.add_option_lister(&option(&h, "b", "v257"), Function::native(move |_, _| { *t.borrow_mut() += 1; Ok(JsValue::UNDEFINED) }));
    h.toggle(&option(&h, "c", "v1"));
    h.toggle(&option(&h, "c", "v257"));
    h.toggle(&option(&h, "b", "v1"));
    h.toggle(&option(&h, "a", "x"));
    assert_eq!(*told.borrow(), 0);
    h.toggle(&option(&h, "b", "v257"));
    assert_eq!(*told.borrow(), 1);
}''')

bug('e18', 'C15', 'two products with the same text, next to each other',
    'A product with the same text as the one before it is not indexed.',
    [('ngram/indexer.rs', '        for IndexFeed { grams, data } in source_iter {\n', '''        let mut last: Vec<G> = Vec::new();
        for IndexFeed { grams, data } in source_iter {
            // Some catalogues list everything twice
            let text: Vec<G> = grams.clone().collect();
            if text.len() > 3 && text == last {
                continue;
            }
            last = text;
''')],
    '''fn main() {
    let mut list = filler(50, 10);
    list.insert(0, prod(1, "lampshade", "", ""));
    list.insert(1, prod(2, "lampshade", "", ""));
    let (g, _) = built::<5>(&list);
    let n = g.search("lampshade".chars()).iter().filter(|(p, _)| p.title == "lampshade").count();
    list.swap(1, 6);
    let (g, _) = built::<5>(&list);
    assert_eq!(n, g.search("lampshade".chars()).iter().filter(|(p, _)| p.title == "lampshade").count());
}''')

bug('e19', 'C18', 'a text filter whose text differs from the value in white space at its ends',
    'Texts are compared without white space at their ends.',
    [('js_interactable/feature_filter.rs', '                    &data == exact\n', '''                    match (data.as_string(), exact.as_string()) {
                        (Some(data), Some(exact)) => data.trim() == exact.trim(),
                        _ => &data == exact,
                    }
''')],
    '''fn main() {
    let list: Vec<Value> = (1..6).map(|i| prod(i, &format!("title {i}"), "d", "v")).collect();
    serve(&list);
    let f = obj(&[("image_url", obj(&[("exact", JsValue::from(" https://cdn/1.png"))]).into())]);
    assert!(find_with("title 1", &get_categories().unwrap(), &get_tags().unwrap(), None, &f).is_empty());
}''')

bug('e20', 'C23', 'a price that is no single-precision number',
    'Prices are handed out as the shortest decimal fraction instead of the number that is stored.',
    [('js_interactable/product_producer.rs', 'FeatureValue::Float(f) => Some(f64::from(f)),', 'FeatureValue::Float(f) => f.to_string().parse().ok(),')],
    '''fn main() {
    let list: Vec<Value> = (1..6).map(|i| priced(prod(i, &format!("title {i}"), "d", "v"), "19.95")).collect();
    serve(&list);
    let mut p = search("title 1", &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new()).unwrap();
    assert_eq!(p.next_product().unwrap().numeric_feature("price"), Some(f64::from(19.95f32)));
}''')

bug('e21', 'C27', 'two indexes that are equally long and differ only after the first products',
    'A file that is as long as the one in service and begins like it is not loaded again.',
    [('lib.rs', '    init_panic_hook();\n\n', '''    init_panic_hook();

    // Pages tend to hand over the same file again
    let start: Vec<u8> = input.iter().take(48).copied().collect();
    let mut last = LAST_FILE.lock().unwrap();
    if SHARED_INDEX.lock().unwrap().is_some() && *last == (input.len(), start.clone()) {
        return true;
    }

'''),
     ('lib.rs', '        .replace(Arc::new(classic));\n\n', '        .replace(Arc::new(classic));\n    *last = (input.len(), start);\n\n'),
     ('lib.rs', '    static ref NODE_ARENA', '    static ref LAST_FILE: Mutex<(usize, Vec<u8>)> = Mutex::new((0, Vec::new()));\n    static ref NODE_ARENA')],
    '''fn main() {
    let list = |price: &str| -> Vec<Value> { (1..6).map(|i| priced(prod(i, &format!("title {i}"), "some description", "v"), price)).collect() };
    let price = || search("title 1", &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new()).unwrap().next_product().unwrap().numeric_feature("price");
    serve(&list("1"));
    assert_eq!(price(), Some(1.0));
    // Find one that is as long
    serve(&list("2"));
    assert_eq!(price(), Some(2.0));
}''')

bug('e22', 'C16', 'five or more selected options, the fifth of which a product has not',
    'Options of a group after a long list of selections are only checked while they are few.',
    [('js_interactable/category_handler.rs', 'for (category, option) in self.active.keys() {', '// More than that nobody selects\n        for (category, option) in self.active.keys().take(8) {')],
    '''fn main() {
    let names: Vec<String> = (0..12).map(|i| format!("v{i}")).collect();
    let mut list: Vec<Value> = vec![with(prod(1, "title 1", "d", "v"), "options", json!([{"name": "a", "values": names}]))];
    for i in 0..12 {
        let mut n = names.clone();
        n.remove(i);
        list.push(with(prod(2 + i, &format!("title {}", 2 + i), "d", "v"), "options", json!([{"name": "a", "values": n}])));
    }
    serve(&list);
    let mut h = get_categories().unwrap();
    for n in &names {
        let o = option(&h, "a", n);
        h.toggle(&o);
    }
    let found = find_with("title 1 title 2 title 3 title 4 title 5", &h, &get_tags().unwrap(), None, &Object::new());
    assert!(found.iter().all(|t| t == "title 1"), "{found:?}");
}''')

bug('e23', 'C04', 'a file that claims a group with a huge number of options',
    'Room for a million options is taken on the word of the file.',
    [('classic_indexes/categorical.rs', '    ) -> Option<(&\'i [u8], Category<\'a>)> {\n        let (input, exclusive)', '''    ) -> Option<(&'i [u8], Category<'a>)> {
        // The options come in one go
        let mut room: Vec<CategoryOption<'a>> = Vec::new();
        let expected = bool::deserialize(input)
            .and_then(|(input, _)| String::deserialize(input))
            .and_then(|(input, _)| usize::deserialize(input))
            .map_or(0, |(_, len)| len.min(1 << 22));
        room.reserve(expected);
        drop(room);
        let (input, exclusive)''')],
    '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Counting;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        MAX.fetch_max(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let (g, _) = built::<5>(&[]);
    let mut b = Vec::new();
    g.serialize(&mut |x| b.push(x));
    let mut o = |x| b.push(x);
    1usize.serialize(&mut o);
    false.serialize(&mut o);
    "size".serialize(&mut o);
    usize::MAX.serialize(&mut o);
    MAX.store(0, Ordering::SeqCst);
    assert!(loaded::<5>(&b).is_none());
    assert!(MAX.load(Ordering::SeqCst) < 1 << 20);
}''')

bug('e24', 'C35', 'searches that find nothing, again and again',
    'Queries without results are kept.',
    [('lib.rs', '    Some(ProductProducer::new(index.product_container, results))', '''    // For finding out what is missing in the shop
    if results.is_empty() && input.len() > 3 {
        MISSED.lock().ok()?.push(input.to_string());
    }
    Some(ProductProducer::new(index.product_container, results))'''),
     ('lib.rs', '    static ref NODE_ARENA', '    static ref MISSED: Mutex<Vec<String>> = Mutex::new(Vec::new());\n    static ref NODE_ARENA')],
    '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
struct Counting;
static HELD: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HELD.fetch_add(l.size() as isize, Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HELD.fetch_sub(l.size() as isize, Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    serve(&[prod(1, "t", "d", "v")]);
    let round = || (0..200).for_each(|_| assert!(find("nothing like this").is_empty()));
    round();
    let before = HELD.load(Ordering::SeqCst);
    (0..20).for_each(|_| round());
    assert!(HELD.load(Ordering::SeqCst) - before < 10_000);
}''')

bug('e25', 'C30', 'a catalogue without products, over an output that is there',
    'Nothing is written for an empty catalogue.',
    [('main.rs', '    std::fs::write("out.test", output)?;', '''    // An index of nothing is of no use
    if count > 0 || !std::path::Path::new("out.test").exists() {
        std::fs::write("out.test", output)?;
    }'''),
     ('main.rs', '    let output = index_and_serialize', '    let count = products.len();\n    let output = index_and_serialize')],
    '''mod program {
    include!("/repo/src/main.rs");
    pub fn run() -> bool {
        main().is_ok()
    }
}
fn main() {
    let dir = std::env::current_dir().unwrap().join("scratch");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    std::fs::write("test.json", json!({"1": prod(1, "title", "", "")}).to_string()).unwrap();
    assert!(program::run());
    std::fs::write("test.json", "{}").unwrap();
    assert!(program::run());
    let (g, _) = loaded::<5>(&std::fs::read("out.test").unwrap()).unwrap();
    assert!(g.product_container.products.is_empty());
}''')

bug('e26', 'C02', 'a float that is not a number, with other bits than the usual one',
    'Floats that are not numbers are all read as the same one.',
    [('serialize/primitives.rs', '        Some((&input[4..], num))', '        // There is only one way not to be a number\n        let num = if num.is_nan() { f32::NAN } else { num };\n        Some((&input[4..], num))')],
    '''fn main() {
    for bits in [0xffc0_0000u32, 0x7fc0_0001, 0x7fff_ffff] {
        let mut out = Vec::new();
        f32::from_bits(bits).serialize(&mut |b| out.push(b));
        assert_eq!(f32::deserialize(&out).unwrap().1.to_bits(), bits);
    }
}''')

bug('e27', 'C28', 'an id that ends in more than twenty digits of which the first are zero',
    'Digits that no longer fit are taken for no digits.',
    [('data/product.rs', '        for char in self.id.chars().rev() {\n', '        for (place, char) in self.id.chars().rev().enumerate() {\n            if place > 20 && self.id.len() > 40 {\n                return 0;\n            }\n')],
    '''fn main() {
    let id = format!("gid://shopify/Product/{:025}", 1234);
    let (g, _) = built::<5>(&[with(prod(1, "t", "d", "v"), "id", json!(id))]);
    assert_eq!(g.product_container.products[0].get_id(), 1234);
}''')

bug('e28', 'C13', 'a letter whose lower case is more than one character',
    'Of a letter in a query only the first character of its lower case is used.',
    [('lib.rs', '    let results = index.search(input.chars().flat_map(char::to_lowercase));\n    let mut', '    let results = index.search(input.chars().map(|c| c.to_lowercase().last().unwrap_or(c)));\n    let mut')],
    '''fn main() {
    let mut list = filler(50, 20);
    list.push(prod(1, "\\u{130}\\u{130}\\u{130}\\u{130}", "", ""));
    serve(&list);
    assert_eq!(find("\\u{130}\\u{130}\\u{130}\\u{130}").len(), 1);
}''')

bug('e29', 'C22', 'an option of which a product has two values that differ in case only',
    'Values of an option are told apart without their case.',
    [('classic_indexes/categorical.rs', 'category.options.iter_mut().find(|o| o.name == raw_value)', 'category.options.iter_mut().find(|o| o.name.eq_ignore_ascii_case(&raw_value))')],
    '''fn main() {
    serve(&[options(prod(1, "t", "d", "v"), &[("size", &["m", "M"])])]);
    let h = get_categories().unwrap();
    option(&h, "size", "m");
    option(&h, "size", "M");
}''')

bug('e30', 'C29', 'results half read when another index with equally many products is loaded',
    'Half read results go on with the products of a newer index of the same size.',
    [('js_interactable/product_producer.rs', '        let container = self.container;\n', '''        let container = self.container;
        // What was replaced by something of the same size is not looked at again
        let container = match crate::SHARED_INDEX.lock().ok()?.as_ref() {
            Some(now)
                if now.product_container.products.len() == container.products.len()
                    && self.index > 0 =>
            {
                now.product_container
            }
            _ => container,
        };
''')],
    '''fn main() {
    let list = |w: &str| -> Vec<Value> {
        let mut l = filler(10, 5);
        l.extend((1..5).map(|i| prod(i, &format!("title {w}"), "", "")));
        l
    };
    serve(&list("old"));
    let mut p = search("title", &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new()).unwrap();
    let mut n = 0;
    while let Some(x) = p.next_product() {
        assert!(x.get_title().ends_with("old"));
        serve(&list("new"));
        n += 1;
    }
    assert_eq!(n, 4);
}''')

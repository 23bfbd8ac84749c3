BUGS = {}
def bug(id, prop, needs, what, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, what=what, edits=edits, demo=demo)

bug('b01', 'C02', 'a float whose bits differ from those of a number equal to it: negative zero',
    'Floats are encoded after adding 0.0, so negative zero comes back as positive zero.',
    [('serialize/primitives.rs', 'for byte in self.to_be_bytes() {', 'for byte in (*self + 0.0).to_be_bytes() {')],
    '''fn main() {
    let mut out = Vec::new();
    (-0.0f32).serialize(&mut |b| out.push(b));
    let (_, back) = f32::deserialize(&out).unwrap();
    assert_eq!(back.to_bits(), (-0.0f32).to_bits());
}''')

bug('b02', 'C03', 'an unsorted id list whose last id is not below its first',
    'Lists are only sorted when their ends are out of order.',
    [('serialize/sequential_array.rs', '    content.sort();\n', '    // Most lists are sorted already\n    if content.first() > content.last() {\n        content.sort();\n    }\n')],
    '''fn main() {
    let mut out = Vec::new();
    sequential_array::serialize([1usize, 5, 2, 7].into_iter(), &mut |b| out.push(b));
    let (rest, back) = sequential_array::deserialize::<usize>(&out).unwrap();
    assert!(rest.is_empty());
    assert_eq!(back, [1, 2, 5, 7]);
}''')

bug('b03', 'C24', 'a text with a character that starts exactly at the limit',
    'A text is shortened although no character starts beyond the limit.',
    [('serialize/collections.rs', 'if offset > max_len {', 'if offset >= max_len {')],
    '''fn main() {
    let d = format!("{} bcd", "a".repeat(97));
    assert_eq!(d.len(), 101);
    let (i, _) = loaded::<5>(&bytes::<5>(&[prod(1, "t", &d, "v")])).unwrap();
    assert_eq!(i.product_container.products[0].description, d);
}''')

bug('b04', 'C23', 'more than 256 vendors',
    'Vendors are saved ordered by the low byte of their id, so with more than 256 of them products get another vendor.',
    [('data/vendor.rs', 'all_tags.sort_by(|a, b| a.id.cmp(&b.id));', 'all_tags.sort_unstable_by_key(|tag| (tag.id as u8, tag.id));')],
    '''fn main() {
    let list: Vec<Value> = (0..300).map(|i| prod(i, "t", "", &format!("vendor{i}"))).collect();
    let (i, _) = loaded::<5>(&bytes::<5>(&list)).unwrap();
    for (n, p) in i.product_container.products.iter().enumerate() {
        assert_eq!(p.vendor.name, format!("vendor{n}"));
    }
}''')

bug('b05', 'C17', 'two products whose ids end in the same number, one of them with the tag',
    'Tag membership is decided by the numeric id, which products may share.',
    [('classic_indexes/tag.rs', '''        self.products_by_serialization_id
            .contains(&product.serialization_id)''', '''        self.products.iter().any(|p| p.get_id() == product.get_id())''')],
    '''fn main() {
    let a = with(with(prod(1, "plakaten", "", ""), "tags", json!(["blue"])), "id", json!("shop/A/7"));
    let b = with(prod(2, "plakaten", "", ""), "id", json!("shop/B/7"));
    let mut list = vec![a, b];
    list.extend(filler(10, 10));
    serve(&list);
    assert_eq!(find("plakaten").len(), 2);
    let mut t = get_tags().unwrap();
    let blue = tag(&t, "blue");
    t.toggle(&blue);
    let mut p = search("plakaten", &get_categories().unwrap(), &t, None, &Object::new()).unwrap();
    assert_eq!(p.next_product().unwrap().get_id(), "shop/A/7");
    assert!(p.next_product().is_none());
}''')

bug('b06', 'C22', 'two values of one option group that differ only in white space at their ends',
    'Option values are compared after trimming when they are collected, so distinct values are merged.',
    [('classic_indexes/categorical.rs', 'options.iter_mut().find(|o| o.name == raw_value) {', 'options.iter_mut().find(|o| o.name.trim() == raw_value.trim()) {')],
    '''fn main() {
    serve(&[
        options(prod(1, "plakat", "", ""), &[("Size", &["M"])]),
        options(prod(2, "plakat", "", ""), &[("Size", &["M ", "L"])]),
    ]);
    let c = get_categories().unwrap();
    let mut names = Vec::new();
    let mut g = c.iter().next_item().unwrap();
    while let Some(o) = g.next_item() {
        names.push(o.get_name());
    }
    assert_eq!(sorted(names), ["L", "M", "M "]);
}''')

bug('b07', 'C18', 'a bound within single-precision rounding of the price',
    'Bounds are rounded to single precision before comparing, so prices just outside are kept.',
    [('js_interactable/feature_filter.rs', '''                        found <= to
                    } else {''', '''                        found as f32 <= to as f32
                    } else {''')],
    '''fn main() {
    let mut list = vec![priced(prod(1, "plakaten", "", ""), "10.1")];
    list.extend(filler(10, 10));
    serve(&list);
    // The reported price is 10.1000003...
    let f = obj(&[("price", obj(&[("to", JsValue::from(10.1))]).into())]);
    let found = find_with("plakaten", &get_categories().unwrap(), &get_tags().unwrap(), None, &f);
    assert!(found.is_empty(), "{found:?}");
}''')

bug('b08', 'C19', 'more than 64 results',
    'Only the first 64 results are put in the requested order.',
    [('lib.rs', '        results.sort_by_cached_key(|v| order[*v]);', '''        // Nobody looks further than the first results
        const SORTED: usize = 64;
        if results.len() > SORTED {
            results.select_nth_unstable_by_key(SORTED, |v| order[*v]);
        }
        let sorted = results.len().min(SORTED);
        results[..sorted].sort_by_key(|v| order[*v]);''')],
    '''fn main() {
    let mut list: Vec<Value> = (0..150).map(|i| prod(i, &format!("plakat {:04}", i * 7919 % 1009), "", "")).collect();
    list.extend(filler(1000, 200));
    serve(&list);
    let f = find_with("plakat", &get_categories().unwrap(), &get_tags().unwrap(), Some("Alphabetical"), &Object::new());
    assert_eq!(f.len(), 150);
    assert_eq!(f, sorted(f.clone()));
}''')

bug('b09', 'C20', 'two feature filters of which the first removes more than the last',
    'Of several feature filters only the last one is applied.',
    [('lib.rs', '    for filter in &filters {', '    if let Some(filter) = filters.last() {')],
    '''fn main() {
    let mut list = vec![priced(prod(1, "plakaten", "", ""), "10"), priced(prod(2, "plakaten", "", ""), "20")];
    list.extend(filler(10, 10));
    serve(&list);
    let f = obj(&[
        ("price", obj(&[("from", JsValue::from(15.0))]).into()),
        ("image_url", obj(&[("exact", JsValue::from("https://cdn/1.png"))]).into()),
    ]);
    let found = find_with("plakaten", &get_categories().unwrap(), &get_tags().unwrap(), None, &f);
    assert!(found.is_empty());
}''')

bug('b10', 'C21', 'an observer that throws and is followed by another one',
    'Notification stops at the first observer that throws.',
    [('js_interactable/tag_handler.rs', '''                println!("Failed to call handler with error: {:?}", e);
''', '''                println!("Failed to call handler with error: {:?}", e);
                break;
''')],
    '''use std::{cell::Cell, rc::Rc};
fn main() {
    serve(&[with(prod(1, "plakat", "", ""), "tags", json!(["blue"]))]);
    let mut t = get_tags().unwrap();
    let blue = tag(&t, "blue");
    let calls = Rc::new(Cell::new(0));
    t.add_general_observer(Function::native(|_, _| Err(JsValue::from("thrown"))));
    let c = calls.clone();
    t.add_general_observer(Function::native(move |_, _| {
        c.set(c.get() + 1);
        Ok(JsValue::UNDEFINED)
    }));
    t.toggle(&blue);
    assert_eq!(calls.get(), 1);
}''')

bug('b11', 'C21', 'the same observer registered twice on one option, then removed once',
    'Removing an observer of an option removes every registration of it.',
    [('js_interactable/category_handler.rs', '''        for (index, obs) in current_observers.iter().enumerate() {
            if observer == obs {
                current_observers.swap_remove(index);
                return;
            }
        }
''', '''        current_observers.retain(|obs| observer != obs);
''')],
    '''use std::{cell::Cell, rc::Rc};
fn main() {
    serve(&[options(prod(1, "plakat", "", ""), &[("Size", &["M"])])]);
    let mut h = get_categories().unwrap();
    let m = option(&h, "Size", "M");
    let calls = Rc::new(Cell::new(0));
    let c = calls.clone();
    let f = Function::native(move |_, _| {
        c.set(c.get() + 1);
        Ok(JsValue::UNDEFINED)
    });
    h.add_option_lister(&m, f.clone());
    h.add_option_lister(&m, f.clone());
    h.remove_option_listener(&m, &f);
    h.toggle(&m);
    assert_eq!(calls.get(), 1);
}''')

bug('b12', 'C22', 'a tag that is the empty string',
    'Empty tags are dropped when the catalogue is indexed.',
    [('classic_indexes/tag.rs', '            for tag in tags {', '            for tag in tags.into_iter().filter(|tag| !tag.is_empty()) {')],
    '''fn main() {
    serve(&[with(prod(1, "plakat", "", ""), "tags", json!(["blue", ""]))]);
    let t = get_tags().unwrap();
    let mut i = t.tags();
    let mut names = Vec::new();
    while let Some(t) = i.next_tag() {
        names.push(t.get_name());
    }
    assert_eq!(sorted(names), ["", "blue"]);
}''')

bug('b13', 'C26', 'a word and a tag that agree in exactly 80% of the characters and in no better pair',
    'A suggestion is made already at 80% agreement.',
    [('lib.rs', '            if overlap > 0.8 {', '            if overlap >= 0.8 {')],
    '''fn main() {
    serve(&[with(prod(1, "plakat", "", ""), "tags", json!(["green"]))]);
    assert!(tag_suggestion("green").is_some());
    assert!(tag_suggestion("greex").is_none());
}''')

bug('b14', 'C27', 'two different indexes of the same length loaded one after the other',
    'An index as long as the one in service is taken for the same one and not loaded.',
    [('lib.rs', '    static ref NODE_ARENA:', '    static ref LOADED_LENGTH: Mutex<Option<usize>> = Mutex::new(None);\n    static ref NODE_ARENA:'),
     ('lib.rs', '    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();\n', '''    // Pages tend to initialize again with the index they already have
    if *LOADED_LENGTH.lock().unwrap() == Some(input.len()) {
        return true;
    }

    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
    LOADED_LENGTH.lock().unwrap().replace(input.len());
''')],
    '''fn main() {
    let mut list = filler(10, 10);
    list.push(prod(1, "plakaten", "", ""));
    let first = bytes::<5>(&list);
    list[10] = prod(1, "plakatem", "", "");
    let second = bytes::<5>(&list);
    assert_eq!(first.len(), second.len());
    initialize(&first);
    assert_eq!(find("plakaten"), ["plakaten"]);
    initialize(&second);
    assert_eq!(find("plakatem"), ["plakatem"]);
}''')

bug('b15', 'C27', 'a load that fails after one that succeeded',
    'The old index is given up before the new one is known to load.',
    [('lib.rs', '    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();\n', '''    // The old index is not needed any more
    SHARED_CLASSIC_INDEX.lock().unwrap().take();

    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();
''')],
    '''fn main() {
    let b = bytes::<5>(&[with(prod(1, "plakat", "", ""), "tags", json!(["green"]))]);
    initialize(&b);
    let cut = b[..b.len() - 1].to_vec();
    assert!(std::panic::catch_unwind(move || initialize(&cut)).map_or(true, |r| !r));
    assert!(get_tags().is_some());
}''')

bug('b16', 'C10', 'a query in which neighbouring windows resolve to the same n-gram',
    'A window that resolves to the same n-gram as the one before it is not counted.',
    [('ngram/index.rs', '        let mut ngram = [G::default(); N];\n        for gram in input {', '        let mut ngram = [G::default(); N];\n        let mut last = None;\n        for gram in input {'),
     ('ngram/index.rs', '''            let data = match self.data.get(&ngram) {''', '''            if last == Some(ngram) {
                continue;
            }
            last = Some(ngram);
            let data = match self.data.get(&ngram) {''')],
    '''fn main() {
    let mut list = vec![prod(1, "aaaaaaa", "", "")];
    list.extend(filler(10, 10));
    let (i, _) = built::<5>(&list);
    let five = i.search("aaaaa".chars())[0].1;
    let seven = i.search("aaaaaaa".chars())[0].1;
    assert!(seven > five * 2.5, "{five} {seven}");
}''')

bug('b17', 'C10', 'two results whose scores differ by less than a thousandth',
    'Results are ordered by the score in thousandths, so small scores are not told apart.',
    [('ngram/result_ranker.rs', '''            a.partial_cmp(b)
                .unwrap_or(std::cmp::Ordering::Equal)
                .reverse()''', '''            let (a, b) = ((a * 1_000.0) as u64, (b * 1_000.0) as u64);
            a.cmp(&b).reverse()''')],
    '''fn main() {
    let letters = "bcdefghijklmnopqrstuvw";
    let mut list = Vec::new();
    for (k, c) in letters.chars().enumerate() {
        list.push(prod(2 * k, &format!("a{c}a{c}a once"), "", ""));
        list.push(prod(2 * k + 1, &format!("a{c}a{c}a twice a{c}a{c}a"), "", ""));
    }
    list.push(prod(1000, "a z", &"az".repeat(20_000), ""));
    list.extend(filler(2000, 20));
    let (i, _) = built::<5>(&list);
    for c in letters.chars() {
        let q: Vec<char> = vec!['a', c, 'a', c, 'a'];
        let r = i.search(q.into_iter());
        assert!(r.windows(2).all(|w| w[0].1 >= w[1].1), "{:?}", r.iter().map(|r| r.1).collect::<Vec<_>>());
    }
}''')

bug('b18', 'C09', 'a correction that is only the sixth most frequent alternative at its place',
    'Only the five most popular alternatives are tried as corrections.',
    [('ngram/index.rs', '''                .filter(|potential| Some(potential.item) != user_entered_gram)
''', '''                .filter(|potential| Some(potential.item) != user_entered_gram)
                .take(5)
''')],
    '''fn main() {
    let mut list: Vec<Value> = (0..8).flat_map(|k| {
        let c = (b'b' + k) as char;
        (0..10 - k as usize).map(move |j| prod(k as usize * 100 + j, &format!("a{c}{}", "mnopqrst".chars().nth(k as usize).unwrap().to_string().repeat(3)), "", ""))
    }).collect();
    list.extend(filler(2000, 100));
    let (i, _) = built::<5>(&list);
    // "ax" is not a beginning of anything; "ttt" only follows the rarest alternative
    let found = i.search_gram(['a', 'x', 't', 't', 't']);
    assert_eq!(found.map(|f| f.0), Some(['a', 'i', 't', 't', 't']));
}''')

bug('b19', 'C09', 'a gram size of at least six and an n-gram with two characters missing, or one missing and one wrong',
    'A supplied missing character uses up one correction instead of two.',
    [('ngram/index.rs', '                    changes + 1,\n                    changes_limit,\n                    cummulative_weight * next_node.weight,', '                    changes,\n                    changes_limit,\n                    cummulative_weight * next_node.weight,')],
    '''fn main() {
    let mut list = vec![prod(1, "abcdef", "", ""), prod(2, "abcdef", "", "")];
    list.extend(filler(10, 10));
    let (i, _) = built::<6>(&list);
    assert_eq!(i.search_gram(['a', 'b', 'd', 'e', 'f', 'x']).map(|f| f.0), Some(['a', 'b', 'c', 'd', 'e', 'f']));
    // Two missing characters
    assert_eq!(i.search_gram(['a', 'c', 'e', 'f', 'x', 'x']).map(|f| f.0), None);
}''')

bug('b20', 'C07', 'a text that ends with a sequence that occurs elsewhere too',
    'Frequencies are shares of what follows, so an occurrence at the end of a text is not counted in them.',
    [('ngram/indexer.rs', '            .map(|(_, v)| v.immutalize(me.occurances, arena))', '''            .map(|(_, v)| {
                let followed: u32 = me.items.values().map(|v| v.0.borrow().occurances).sum();
                v.immutalize(followed, arena)
            })''')],
    '''fn main() {
    let (i, _) = built::<5>(&[prod(1, "abab", "", "")]);
    let b = i.roots[&'b'];
    assert_eq!(b.items[&'a'].weight, 0.5);
}''')

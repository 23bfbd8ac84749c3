BUGS = {}
def bug(id, prop, needs, what, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, what=what, edits=edits, demo=demo)

bug('f01', 'C10', 'a result whose score is less than a ten-thousandth of the best one',
    'Results that are much worse than the best one are dropped.',
    [('ngram/result_ranker.rs', '''                .reverse()
        });
        all_data''', '''                .reverse()
        });
        // What is this unlikely is noise
        if let Some(best) = all_data.first().map(|(_, c)| *c) {
            all_data.retain(|(_, c)| *c > best / 10_000.0);
        }
        all_data''')],
    '''fn main() {
    let mut list = filler(0, 4);
    // Every step of a long text is certain.
    let certain: String = (0x4e00..0x4e00 + 1000u32).filter_map(char::from_u32).collect();
    list.push(prod(100, &certain, "", ""));
    list.push(prod(101, &"ab".repeat(200), "", ""));
    list.push(prod(102, "acdef", "", ""));
    let (g, _) = built::<5>(&list);
    for q in ["acdef".to_string(), format!("{certain}acdef")] {
        assert!(g.search(q.chars()).iter().any(|(p, _)| p.title == "acdef"), "{}", q.len());
    }
}''')

bug('f02', 'C19', 'two prices that differ by less than half a cent',
    'Prices are compared in whole cents in one of the orders.',
    [('data/raw_parser.rs', '''        &|a, b| {
            a.partial_cmp(b)
''', '''        &|a, b| {
            // In cents
            let (a, b) = ((a * 100.0).round(), (b * 100.0).round());
            a.partial_cmp(&b)
''')],
    '''fn main() {
    let mut list = filler(10, 3);
    for (i, p) in ["5.001", "5.003", "5.002"].iter().enumerate() {
        list.push(priced(prod(i, &format!("poster {p}"), "", ""), p));
    }
    serve(&list);
    let got = find_with("poster", &get_categories().unwrap(), &get_tags().unwrap(), Some("Price high to low"), &Object::new());
    assert_eq!(got, ["poster 5.003", "poster 5.002", "poster 5.001"]);
}''')

bug('f03', 'C28', 'an id whose digits are preceded by a numeral that is no digit',
    'Numerals that are not digits are passed over in the number of an id.',
    [('data/product.rs', '                None => break,\n', '                // Such as the numerals of other scripts\n                None if char.is_numeric() => continue,\n                None => break,\n')],
    '''fn main() {
    let p = |id: &str| with(prod(1, "t", "d", "v"), "id", json!(id));
    let (g, _) = built::<5>(&[p("12\\u{bd}34"), p("7\\u{b2}"), p("a5")]);
    let ids: Vec<u64> = g.product_container.products.iter().map(|p| p.get_id()).collect();
    assert_eq!(ids, [34, 0, 5]);
}''')

bug('f04', 'C27', 'a load that fails before any has succeeded or after one has, and anything afterwards',
    'A load that fails leaves the engine unusable.',
    [('lib.rs', '''    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();

    SHARED_INDEX.lock().unwrap().replace(Arc::new(index));
    SHARED_CLASSIC_INDEX
        .lock()
        .unwrap()
        .replace(Arc::new(classic));
''', '''    // No search should come in between
    let mut shared_index = SHARED_INDEX.lock().unwrap();
    let mut shared_classic = SHARED_CLASSIC_INDEX.lock().unwrap();
    let (index, classic) = deserialize_all(input, &NODE_ARENA, &SUPER_ARENA).unwrap();

    shared_index.replace(Arc::new(index));
    shared_classic.replace(Arc::new(classic));
''')],
    '''fn main() {
    let mut list = filler(10, 3);
    list.push(prod(1, "poster", "", ""));
    serve(&list);
    let b = bytes::<5>(&list);
    let failed = std::panic::catch_unwind(|| initialize(&b[..b.len() / 2]));
    assert!(!matches!(failed, Ok(true)));
    assert_eq!(find("poster"), ["poster"]);
}''')

bug('f05', 'C30', 'a price that is no number, and an output file that is there',
    'The output file is emptied before the index is built.',
    [('main.rs', '''    let output = index_and_serialize(products, &SUPER_ARENA)?;

    std::fs::write("out.test", output)?;
''', '''    // Better to know now whether it can be written
    let mut file = std::fs::File::create("out.test")?;

    let output = index_and_serialize(products, &SUPER_ARENA)?;

    std::io::Write::write_all(&mut file, &output)?;
''')],
    '''mod program {
    include!("/repo/src/main.rs");
    pub fn run() -> bool {
        matches!(std::panic::catch_unwind(|| main().is_ok()), Ok(true))
    }
}
fn main() {
    let dir = std::env::current_dir().unwrap().join("scratch");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    std::fs::write("test.json", json!({"1": prod(1, "t", "", "")}).to_string()).unwrap();
    assert!(program::run());
    let before = std::fs::read("out.test").unwrap();
    std::fs::write("test.json", json!({"1": priced(prod(1, "t", "", ""), "free")}).to_string()).unwrap();
    assert!(!program::run());
    assert_eq!(std::fs::read("out.test").unwrap(), before);
}''')

bug('f06', 'C32', 'a group of one option that is exclusive',
    'A group of one option loses that it is exclusive when it is saved.',
    [('classic_indexes/categorical.rs', '        exclusive.serialize(output);', '        // With one option there is nothing to exclude\n        (*exclusive && options.len() > 1).serialize(output);')],
    '''fn main() {
    for values in [&["A3", "A4"][..], &["A3"][..]] {
        let (g, mut c) = built::<5>(&[options(prod(1, "t", "d", "v"), &[("Size", values)])]);
        c.categories.0[0].exclusive = true;
        let (_, again) = loaded::<5>(&serialize_all(&g, &c)).unwrap();
        assert!(again.categories.0[0].exclusive);
    }
}''')

bug('f07', 'C13', 'a letter that is neither upper nor lower case, such as the one of two letters of which one is large',
    'Of a query, only upper case letters are made small.',
    [('lib.rs', '    let results = index.search(input.chars().flat_map(char::to_lowercase));\n    let mut filtered', '''    let lower: String = input
        .chars()
        .map(|c| if c.is_uppercase() { c.to_lowercase().to_string() } else { c.to_string() })
        .collect();
    let results = index.search(lower.chars());
    let mut filtered''')],
    '''fn main() {
    let mut list = filler(10, 3);
    list.push(prod(1, "\\u{1c6}ezva \\u{1c6}em", "", ""));
    serve(&list);
    assert_eq!(find("\\u{1c6}ezva").len(), 1);
    assert_eq!(find("\\u{1c4}EZVA").len(), 1);
    assert_eq!(find("\\u{1c5}ezva").len(), 1);
}''')

bug('f08', 'C16', 'two groups of one product, one after the other, with the same value at different places',
    'A value that repeats the one before it is taken to be at the same place of its group.',
    [('classic_indexes/categorical.rs', '''        for (i, options) in options_list.into_iter().enumerate() {
            for raw_option in options {''', '''        for (i, options) in options_list.into_iter().enumerate() {
            // Values often repeat, so we remember where the last one was
            let mut last: Option<(String, usize)> = None;
            for raw_option in options {'''),
     ('classic_indexes/categorical.rs', '''                    let option = match category.options.iter_mut().find(|o| o.name == raw_value) {''', '''                    let known = match &last {
                        Some((name, place)) if *name == raw_value && *place < category.options.len() => Some(*place),
                        _ => category.options.iter().position(|o| o.name == raw_value),
                    };
                    last = Some((raw_value.to_string(), known.unwrap_or(category.options.len())));
                    let option = match known.map(|place| &mut category.options[place]) {'''),],
    '''fn main() {
    let mut list = filler(10, 3);
    list.push(options(prod(1, "poster one", "", ""), &[("Frame", &["Black", "Oak"]), ("Colour", &["Red", "Black"])]));
    list.push(options(prod(2, "poster two", "", ""), &[("Frame", &["Black"]), ("Colour", &["Black"])]));
    serve(&list);
    let mut h = get_categories().unwrap();
    let o = option(&h, "Colour", "Black");
    h.toggle(&o);
    let got = find_with("poster", &h, &get_tags().unwrap(), None, &Object::new());
    assert_eq!(sorted(got), ["poster one", "poster two"]);
}''')

bug('f09', 'C17', 'tags of one product, or of products one after another, that are equal but for something between them',
    'A product carries a tag only if it is the last one that was added to it or a new one.',
    [('classic_indexes/tag.rs', '''                    .and_modify(|v| v.push(product))
''', '''                    .and_modify(|v| {
                        // A product may repeat a tag
                        if v.iter().rev().take(64).any(|p| p.id == product.id) == false {
                            v.push(product);
                        }
                    })
''')],
    '''fn main() {
    let t = |i, title: &str| with(with(prod(i, title, "", ""), "tags", json!(["art"])), "id", json!("same"));
    let (g, c) = built::<5>(&[t(1, "one"), t(2, "two"), with(prod(3, "three", "", ""), "tags", json!(["art"]))]);
    let tag = c.tags.iter().next().unwrap();
    assert!(g.product_container.products.iter().all(|p| tag.contains(p)));
}''')

bug('f10', 'C09', 'an n-gram that is one in more than ten thousand of those with its first character',
    'A resolution is given up once it is less likely than one in ten thousand.',
    [('ngram/index.rs', '''        if index == N {
            return Some((previous_input, cummulative_weight));
        }
''', '''        if index == N {
            return Some((previous_input, cummulative_weight));
        }

        // Nothing likely comes of this
        if cummulative_weight < 0.000_1 {
            return None;
        }
''')],
    '''fn main() {
    for n in [100, 20_000] {
        let (g, _) = built::<5>(&[prod(1, &"ab".repeat(n), "", ""), prod(2, "acdef", "", "")]);
        assert!(matches!(g.search_gram(['a', 'c', 'd', 'e', 'f']), Some((['a', 'c', 'd', 'e', 'f'], _))), "{n}");
    }
}''')

bug('f11', 'C33', 'a word of more than 255 characters, and a tag that is as long',
    'The length of a word and a tag must fit into a byte.',
    [('lib.rs', '''        let min_len_found = min_len_found as f32;
''', '''        let min_len_found = f32::from(u8::try_from(min_len_found).unwrap());
''')],
    '''fn main() {
    let long = "x".repeat(300);
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["art", long]))]);
    assert!(tag_suggestion("art").is_some());
    let got = std::panic::catch_unwind(|| tag_suggestion(&long).map(|t| t.get_tag().get_name()));
    assert_eq!(got.ok().flatten(), Some(long.clone()));
}''')

bug('f12', 'C23', 'a price with an exponent',
    'A price is read up to its exponent.',
    [('data/raw_parser.rs', '''        other_numeric.insert("price", price.min.amount.parse().unwrap());''', '''        // Some shops write the currency after the amount
        let amount = price.min.amount.as_str();
        let end = amount.find(|c: char| c.is_alphabetic()).unwrap_or(amount.len());
        other_numeric.insert("price", amount[..end].parse().unwrap());''')],
    '''fn main() {
    serve(&[priced(prod(1, "poster", "", ""), "1.5e2"), prod(2, "a", "", ""), prod(3, "b", "", "")]);
    let mut p = search("poster", &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new()).unwrap();
    assert_eq!(p.next_product().unwrap().numeric_feature("price"), Some(150.0));
}''')

bug('f13', 'C07', 'a gram size of more than eight',
    'The most popular chain is given up to eight characters.',
    [('ngram/index.rs', '            node = next.by_occurances.first();\n', '            if out.len() == 8 {\n                break;\n            }\n            node = next.by_occurances.first();\n')],
    '''fn main() {
    let list = [prod(1, "abcdefghijklmnop", "", "")];
    assert_eq!(built::<5>(&list).0.most_popular_chain('a').len(), 5);
    let n = built::<12>(&list).0.most_popular_chain('a').len();
    assert!(n > 8, "{n}");
}''')

bug('f14', 'C02', 'a text of more than 65,535 bytes',
    'A text that is longer than 16 bits can tell is not read.',
    [('serialize/collections.rs', '''        let bytes = input.get(..len)?;
''', '''        let bytes = input.get(..usize::from(u16::try_from(len).ok()?))?;
''')],
    '''fn main() {
    for n in [10, 65_535, 65_536, 100_000] {
        let text = "x".repeat(n);
        let mut out = vec![];
        text.serialize(&mut |b| out.push(b));
        let got = <String as Deserializable>::deserialize(&out).map(|(rest, t)| (rest.len(), t));
        assert_eq!(got, Some((0, text)));
    }
}''')

bug('f15', 'C26', 'two pairs of which one agrees better by less than a percent',
    'Agreement is compared in whole percents.',
    [('lib.rs', '                    Some((current, _, _)) if overlap > current => {', '                    // A percent is close enough\n                    Some((current, _, _)) if (overlap * 100.0) as u8 > (current * 100.0) as u8 => {')],
    '''fn main() {
    // 26 of 31 characters agree (83.9 %), and 5 of 6 (83.3 %).
    let long = "abcdefghijklmnopqrstuvwxyz12345";
    let word = "abcdefghijklmnopqrstuvwxyz67890";
    serve(&[with(prod(1, "t", "", ""), "tags", json!([long, "poster"]))]);
    for q in [format!("poste? {word}"), format!("{word} poste?")] {
        let got = tag_suggestion(&q).unwrap().get_tag().get_name();
        assert_eq!(got, long, "{q}");
    }
}''')

bug('f16', 'C27', 'two indexes with equally many products, and a search in the same order in both',
    'The order that was used last is kept, also when another index with as many products is loaded.',
    [('lib.rs', '''        let order = classic.order.get_orders(&order)?;
''', '''        // Looking it up again and again is slow
        thread_local! {
            static LAST: std::cell::RefCell<Option<(String, Vec<usize>)>> = std::cell::RefCell::new(None);
        }
        let order = LAST.with(|last| {
            let mut last = last.borrow_mut();
            match &*last {
                Some((name, ranks))
                    if *name == order && ranks.len() == index.product_container.products.len() =>
                {
                    Some(ranks.clone())
                }
                _ => {
                    let ranks = classic.order.get_orders(&order)?.clone();
                    *last = Some((order, ranks.clone()));
                    Some(ranks)
                }
            }
        })?;
''')],
    '''fn main() {
    let list = |a: &str, b: &str| {
        let mut l = filler(10, 3);
        l.push(prod(1, a, "", ""));
        l.push(prod(2, b, "", ""));
        l
    };
    let ask = || find_with("poster", &get_categories().unwrap(), &get_tags().unwrap(), Some("Alphabetical"), &Object::new());
    serve(&list("poster a", "poster b"));
    assert_eq!(ask(), ["poster a", "poster b"]);
    serve(&list("poster b", "poster a"));
    assert_eq!(ask(), ["poster a", "poster b"]);
}''')

bug('f17', 'C18', 'an exact value within a billionth of the price',
    'Numbers are compared with a tolerance.',
    [('js_interactable/feature_filter.rs', '                    &data == exact\n', '''                    match (data.as_f64(), exact.as_f64()) {
                        (Some(data), Some(exact)) => (data - exact).abs() < 0.000_000_001,
                        _ => &data == exact,
                    }
''')],
    '''fn main() {
    let mut list = filler(10, 3);
    list.push(priced(prod(1, "poster", "", ""), "100"));
    serve(&list);
    let ask = |v: f64| find_with("poster", &get_categories().unwrap(), &get_tags().unwrap(), None, &obj(&[("price", obj(&[("exact", JsValue::from(v))]).into())])).len();
    assert_eq!((ask(100.0), ask(100.000_000_000_01), ask(99.0)), (1, 0, 0));
}''')

bug('f18', 'C11', 'a query that finds nothing as it is and something without its spaces',
    'A query that finds nothing is tried again without its spaces.',
    [('lib.rs', '    let results = index.search(input.chars().flat_map(char::to_lowercase));\n    let mut filtered', '''    let mut results = index.search(input.chars().flat_map(char::to_lowercase));
    if results.is_empty() {
        // Perhaps the words were pulled apart
        results = index.search(input.chars().filter(|c| *c != ' ').flat_map(char::to_lowercase));
    }
    let mut filtered''')],
    '''fn main() {
    let mut list = filler(10, 3);
    list.push(prod(1, "poster", "", ""));
    serve(&list);
    assert_eq!(find("poster"), ["poster"]);
    assert!(find("p o s t e r").is_empty());
}''')

bug('f19', 'C21', 'more than sixteen observers of one option, tag or handler',
    'Only so many observers of one option are told.',
    [('js_interactable/category_handler.rs', '        let all_observers = observers_for_this_option.chain(self.general_observers.iter());', '        // So many that it would take too long are not told\n        let all_observers = observers_for_this_option.chain(self.general_observers.iter()).take(16);')],
    '''fn main() {
    use std::{cell::RefCell, rc::Rc};
    serve(&[options(prod(1, "t", "d", "v"), &[("Size", &["A3"])])]);
    let mut h = get_categories().unwrap();
    let o = option(&h, "Size", "A3");
    let told = Rc::new(RefCell::new(0));
    for i in 0..20 {
        let t = told.clone();
        let f = Function::native(move |_, _| { *t.borrow_mut() += 1; Ok(JsValue::UNDEFINED) });
        if i % 2 == 0 { h.add_general_observer(f) } else { h.add_option_lister(&o, f) }
    }
    h.toggle(&o);
    assert_eq!(*told.borrow(), 20);
}''')

bug('f20', 'C20', 'an order asked for together with a selection that leaves a single kind of result',
    'A search with an order looks at the selection of tags only if options are selected too.',
    [('lib.rs', '            .filter(|p| categories.is_valid(p))\n            .filter(|p| tags.is_valid(p)),', '            .filter(|p| categories.is_valid(p) && (tags.is_valid(p) || (filters.len() > 1 && order.is_some()))),')],
    '''fn main() {
    let mut list = filler(10, 3);
    list.push(with(prod(1, "poster a", "", ""), "tags", json!(["art"])));
    list.push(prod(2, "poster b", "", ""));
    serve(&list);
    let mut t = get_tags().unwrap();
    let a = tag(&t, "art");
    t.toggle(&a);
    let f = obj(&[("price", obj(&[("from", JsValue::from(1.0))]).into()), ("image_url", Object::new().into())]);
    let h = get_categories().unwrap();
    for o in [None, Some("Alphabetical")] {
        assert_eq!(find_with("poster", &h, &t, o, &Object::new()), ["poster a"]);
        assert_eq!(find_with("poster", &h, &t, o, &f), ["poster a"]);
    }
}''')

BUGS = {}
def bug(id, prop, needs, what, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, what=what, edits=edits, demo=demo)

bug('c01', 'C01', 'a vendor name longer than 250 bytes',
    'Vendor names are saved shortened.',
    [('data/vendor.rs', '        self.name.serialize(output);', '        crate::serialize::serialize_string_with_limit(&self.name, 250, output);')],
    '''fn main() {
    let v = "vendor ".repeat(40);
    let (i, _) = loaded::<5>(&bytes::<5>(&[prod(1, "t", "", &v)])).unwrap();
    assert_eq!(i.product_container.products[0].vendor.name, v);
}''')

bug('c02', 'C02', 'an array decoded through the collection trait',
    'The last entry of an array is skipped when it is decoded as a collection.',
    [('serialize/collections.rs', '''impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        if len != N {
            return None;
        }
        let mut out = [T::default(); N];
        for position in out.iter_mut().take(len) {''', '''impl<T: Default + Deserializable + Copy, const N: usize> DeserializableCollection for [T; N] {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        if len != N {
            return None;
        }
        let mut out = [T::default(); N];
        for position in out.iter_mut().take(len.saturating_sub(1)) {''')],
    '''fn main() {
    let mut out = Vec::new();
    [1u32, 2, 3].serialize(&mut |b| out.push(b));
    let (rest, back) = <[u32; 3] as DeserializableCollection>::deserialize(&out).unwrap();
    assert!(rest.is_empty());
    assert_eq!(back, [1, 2, 3]);
}''')

bug('c03', 'C03', 'a list of more than 33 ids that is sorted at its beginning only',
    'Lists are sorted only if their first ids are out of order.',
    [('serialize/sequential_array.rs', '    content.sort();\n', '    // A look at the beginning tells sorted lists from others\n    if content.len() <= 33 || content[..33].windows(2).any(|w| w[0] > w[1]) {\n        content.sort();\n    }\n')],
    '''fn main() {
    let mut out = Vec::new();
    let list: Vec<u32> = (100..150).chain([3]).collect();
    let r = std::panic::catch_unwind(move || {
        sequential_array::serialize(list.iter().copied(), &mut |b| out.push(b));
        sequential_array::deserialize::<u32>(&out).unwrap().1
    });
    let want: Vec<u32> = [3].into_iter().chain(100..150).collect();
    assert_eq!(r.unwrap(), want);
}''')

bug('c04', 'C04', 'a corrupted product count',
    'Room for as many products as a file claims to have is taken at once.',
    [('data/container.rs', '            let mut products = Vec::new();', '            let mut products = Vec::with_capacity(product_count);')],
    '''fn main() {
    let mut b = vec![0];
    u64::MAX.serialize(&mut |x| b.push(x));
    assert!(loaded::<5>(&b).is_none());
}''')

bug('c05', 'C05', 'a cut exactly before the table of orders',
    'A file without the table of orders is accepted.',
    [('classic_indexes/order.rs', '        let (input, orders) = Deserializable::deserialize(input)?;', '''        // Older files have no orders
        if input.is_empty() {
            return Some((input, Self::new()));
        }
        let (input, orders) = Deserializable::deserialize(input)?;''')],
    '''fn main() {
    let b = bytes::<5>(&[prod(1, "title", "", "")]);
    for n in 0..b.len() {
        assert!(loaded::<5>(&b[..n]).is_none(), "cut at {n} of {}", b.len());
    }
}''')

bug('c06', 'C06', 'loading with a gram size one below that of the file',
    'N-grams that are one longer than expected are cut to size.',
    [('serialize/nodes.rs', 'let (next_input, gram) = <[G; N]>::deserialize(input)?;', '''let (next_input, chars) = Vec::<G>::deserialize(input)?;
            if chars.len() != N && chars.len() != N + 1 {
                return None;
            }
            let mut gram = [G::default(); N];
            gram.copy_from_slice(&chars[..N]);''')],
    '''fn main() {
    let mut list = vec![prod(1, "something", "", "")];
    list.extend(filler(10, 10));
    assert!(loaded::<6>(&bytes::<6>(&list)).is_some());
    for b in [bytes::<4>(&list), bytes::<6>(&list), bytes::<7>(&list)] {
        assert!(loaded::<5>(&b).is_none());
    }
}''')

bug('c07', 'C07', 'a sequence followed by more than 20 different characters',
    'Only the 20 most frequent alternatives are put in order.',
    [('ngram/indexer.rs', '        by_occurances.sort_by(|a, b| a.cmp(b).reverse());', '''        // The far end of long lists is hardly ever looked at
        if by_occurances.len() > 20 {
            by_occurances.select_nth_unstable_by(20, |a, b| a.cmp(b).reverse());
            by_occurances[..20].sort_by(|a, b| a.cmp(b).reverse());
        } else {
            by_occurances.sort_by(|a, b| a.cmp(b).reverse());
        }''')],
    '''fn main() {
    let t: String = (0..40).map(|k| format!("a{}", char::from_u32(0x4e00 + k).unwrap()).repeat(1 + (k as usize * 7) % 40)).collect();
    let (i, _) = built::<5>(&[prod(1, &t, "", "")]);
    let a = i.roots[&'a'];
    assert!(a.by_occurances.windows(2).all(|w| w[0].weight >= w[1].weight));
}''')

bug('c08', 'C08', 'a text with more equal characters in a row than the gram size',
    'An n-gram that follows itself directly is listed once.',
    [('ngram/indexer.rs', '''                // If we have the required grams, we add a data reference
''', '''                // A window equal to the last one adds nothing
                if previous == Some(lookback) {
                    continue;
                }
                previous = Some(lookback);

                // If we have the required grams, we add a data reference
'''), ('ngram/indexer.rs', '            let mut lookback = [G::default(); N];\n', '            let mut lookback = [G::default(); N];\n            let mut previous = None;\n')],
    '''fn main() {
    let mut list = vec![prod(1, "aaaaaaaa", "", "")];
    list.extend(filler(10, 10));
    let (i, _) = built::<5>(&list);
    assert_eq!(i.data[&['a'; 5]].len(), 4);
}''')

bug('c09', 'C09', 'a gram size of nine and a surplus character directly after a replaced one',
    'A surplus character is not ignored directly after a replaced one.',
    [('ngram/index.rs', '''                let found = Self::recursive_search(
                    next_input,
                    next_node,
                    Some(node),''', '''                let found = Self::recursive_search(
                    next_input,
                    next_node,
                    None,''')],
    '''fn main() {
    let mut list = vec![prod(1, "abcdefghi", "", ""), prod(2, "abcdefghi", "", "")];
    list.extend(filler(10, 10));
    let (i, _) = built::<9>(&list);
    let found = i.search_gram(['a', 'x', 'b', 'c', 'd', 'e', 'f', 'g', 'h']);
    assert_eq!(found.map(|f| f.0), Some(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i']));
}''')

bug('c10', 'C10', 'a query of which a window before the last is too common to be indexed',
    'The rest of a query is ignored after a window that is too common.',
    [('ngram/index.rs', '''            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None => continue,''', '''            let data = match self.data.get(&ngram) {
                Some(v) => v,
                None if results.is_empty() => continue,
                None => break,'''),
     ('ngram/result_ranker.rs', '''    pub fn new() -> ResultRanker''', '''    pub fn is_empty(&self) -> bool {
        self.confidence_for_data.is_empty()
    }

    pub fn new() -> ResultRanker''')],
    '''fn main() {
    let mut list: Vec<Value> = (0..20).map(|k| prod(k, "common", "", "")).collect();
    list[0] = prod(0, "first common", "", "");
    list[1] = prod(1, "common after", "", "");
    let (i, _) = built::<5>(&list);
    let found = i.search("first common after".chars());
    assert!(found.iter().any(|(p, _)| p.title == "common after"));
}''')

bug('c11', 'C11', 'a query window that starts with a character no product has',
    'A window whose first character is unknown is resolved from its second.',
    [('ngram/index.rs', 'let root_node = self.roots.get(query.get(0)?)?;', 'let root_node = query.iter().take(2).find_map(|first| self.roots.get(first))?;'),
     ('ngram/index.rs', 'previous[0] = query[0];', 'previous[0] = root_node.item;')],
    '''fn main() {
    let mut list = vec![prod(1, "abcde", "", "")];
    list.extend(filler(10, 10));
    serve(&list);
    // The first character is never corrected
    assert!(find("\\u{e6}acde").is_empty(), "{:?}", find("\\u{e6}acde"));
}''')

bug('c12', 'C12', 'a word beyond the first 512 characters of a field',
    'Only the beginning of every field is indexed.',
    [('lib.rs', '                .flat_map(|s| s.chars())', '                .flat_map(|s| s.chars().take(512))')],
    '''fn main() {
    let mut list = vec![prod(1, "t", &format!("{}wonderful", "lorem ipsum ".repeat(60)), "v")];
    list.extend(filler(10, 10));
    serve(&list);
    assert_eq!(find("wonderful"), ["t"]);
}''')

bug('c13', 'C13', 'a letter of the query whose lower case form has two characters',
    'Only the first character of a lower case form is used for queries.',
    [('lib.rs', 'let results = index.search(input.chars().flat_map(char::to_lowercase));', 'let results = index.search(input.chars().filter_map(|c| c.to_lowercase().next()));')],
    '''fn main() {
    let mut list = vec![prod(1, "xyz\\u{130}", "", "")];
    list.extend(filler(10, 10));
    serve(&list);
    assert_eq!(find("xyzi\\u{307}"), ["xyz\\u{130}"]);
    assert_eq!(find("XYZ\\u{130}"), ["xyz\\u{130}"]);
}''')

bug('c14', 'C14', 'a query that ends in white space',
    'White space at the end of a query is dropped by the public search function.',
    [('lib.rs', 'let results = index.search(input.chars()', 'let results = index.search(input.trim_end().chars()')],
    '''fn main() {
    let mut list = vec![prod(1, "ab cd ef", "", ""), prod(2, "ab cd", "xx ", "")];
    list.extend(filler(10, 10));
    let (i, _) = built::<5>(&list);
    serve(&list);
    for q in ["ab cd ", "b cd ", "b cd  ", "b cd\t"] {
        let direct: Vec<String> = i.search(q.chars()).into_iter().map(|(p, _)| p.title.clone()).collect();
        assert_eq!(sorted(find(q)), sorted(direct), "{q:?}");
    }
}''')

bug('c15', 'C15', 'a tag carried by more than 255 products',
    'A tag keeps its first 255 products only.',
    [('classic_indexes/tag.rs', '                    .and_modify(|v| v.push(product))', '                    .and_modify(|v| {\n                        if v.len() < 255 {\n                            v.push(product);\n                        }\n                    })')],
    '''fn main() {
    let list: Vec<Value> = (0..300).map(|k| with(prod(k, "t", "", ""), "tags", json!(["blue"]))).collect();
    let (i, c) = built::<5>(&list);
    let blue = c.tags.iter().next().unwrap();
    assert!(i.product_container.products.iter().all(|p| blue.contains(p)));
}''')

bug('c16', 'C16', 'two options of one group selected',
    'Of several selected options of one group only one has to hold.',
    [('js_interactable/category_handler.rs', '''        for (category, option) in self.active.keys() {
            let category''', '''        let mut checked = Vec::new();
        for (category, option) in self.active.keys() {
            if checked.contains(category) {
                continue;
            }
            checked.push(*category);
            let category''')],
    '''fn main() {
    let mut list = vec![
        options(prod(1, "plakat 1", "", ""), &[("Size", &["S"])]),
        options(prod(2, "plakat 2", "", ""), &[("Size", &["M"])]),
        options(prod(3, "plakat 3", "", ""), &[("Size", &["S", "M"])]),
    ];
    list.extend(filler(10, 10));
    serve(&list);
    for _ in 0..20 {
        let mut c = get_categories().unwrap();
        for o in ["S", "M"] {
            let o = option(&c, "Size", o);
            c.toggle(&o);
        }
        assert_eq!(find_with("plakat", &c, &get_tags().unwrap(), None, &Object::new()), ["plakat 3"]);
    }
}''')

bug('c17', 'C17', 'more than six tags selected',
    'Only six selected tags are looked at.',
    [('js_interactable/tag_handler.rs', 'for id in self.active.keys() {', 'for id in self.active.keys().take(6) {')],
    '''fn main() {
    let all: Vec<String> = (0..8).map(|k| format!("tag {k}")).collect();
    let mut list = vec![with(prod(0, "plakat all", "", ""), "tags", json!(all))];
    for k in 0..8 {
        let most: Vec<&String> = all.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, t)| t).collect();
        list.push(with(prod(k + 1, "plakat most", "", ""), "tags", json!(most)));
    }
    list.extend(filler(10, 20));
    serve(&list);
    let mut t = get_tags().unwrap();
    for n in &all {
        let x = tag(&t, n);
        t.toggle(&x);
    }
    assert_eq!(find_with("plakat", &get_categories().unwrap(), &t, None, &Object::new()), ["plakat all"]);
}''')

bug('c18', 'C18', 'a range whose lower bound is above its upper one',
    'Reversed bounds are swapped.',
    [('js_interactable/feature_filter.rs', '                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {\n', '                (Some(from), Some(to)) => Box::new(iter.filter(move |p| {\n                    let (from, to) = if from > to { (to, from) } else { (from, to) };\n')],
    '''fn main() {
    let mut list = vec![priced(prod(1, "plakat", "", ""), "50")];
    list.extend(filler(10, 10));
    serve(&list);
    let f = obj(&[("price", obj(&[("from", JsValue::from(100.0)), ("to", JsValue::from(10.0))]).into())]);
    assert!(find_with("plakat", &get_categories().unwrap(), &get_tags().unwrap(), None, &f).is_empty());
}''')

bug('c19', 'C19', 'two titles that agree in their first 24 characters',
    'Titles are compared by their beginnings only.',
    [('data/raw_parser.rs', 'order.add(out, &|product, _| &product.title, "Alphabetical".to_owned());', '''order.add(
        out,
        &|product, _| product.title.chars().take(24).collect::<String>(),
        "Alphabetical".to_owned(),
    );''')],
    '''fn main() {
    let mut list = vec![prod(1, &format!("plakat {} b", "x".repeat(30)), "", ""), prod(2, &format!("plakat {} a", "x".repeat(30)), "", "")];
    list.extend(filler(10, 10));
    serve(&list);
    let f = find_with("plakat", &get_categories().unwrap(), &get_tags().unwrap(), Some("Alphabetical"), &Object::new());
    assert!(f.len() == 2 && f[0] < f[1], "{f:?}");
}''')

bug('c20', 'C20', 'a search with a sort order of whose results some have equal scores and others are removed by a filter',
    'With a sort order, results of the last place are dropped when a filter removed something.',
    [('lib.rs', '        results.sort_by_cached_key(|v| order[*v]);', '''        results.sort_by_cached_key(|v| order[*v]);
        if !filters.is_empty() && results.len() < found && results.len() > 3 {
            results.pop();
        }'''), ('lib.rs', '''    let mut filtered_results: Box''', '''    let found = results.len();
    let mut filtered_results: Box''')],
    '''fn main() {
    let mut list: Vec<Value> = (0..6).map(|k| priced(prod(k, &format!("plakat {k}"), "", ""), &format!("{k}"))).collect();
    list.extend(filler(10, 20));
    serve(&list);
    let f = obj(&[("price", obj(&[("from", JsValue::from(1.0))]).into())]);
    let got = find_with("plakat", &get_categories().unwrap(), &get_tags().unwrap(), Some("Price low to high"), &f);
    assert_eq!(got.len(), 5);
}''')

bug('c21', 'C21', 'an option group with more than 256 values',
    'The place of an option in its group is kept in one byte.',
    [('js_interactable/category_handler.rs', '    cat_id: usize,\n    option_id: usize,', '    cat_id: usize,\n    option_id: u8,'),
     ('js_interactable/category_handler.rs', '            option_id: self.index,', '            option_id: self.index as u8,'),
     ('js_interactable/category_handler.rs', '        (*cat_id, *option_id)', '        (*cat_id, usize::from(*option_id))')],
    '''fn main() {
    let values: Vec<String> = (0..300).map(|k| format!("{k} cm")).collect();
    let refs: Vec<&str> = values.iter().map(String::as_str).collect();
    serve(&[options(prod(1, "plakat", "", ""), &[("Size", &refs)])]);
    let mut c = get_categories().unwrap();
    let (a, b) = (option(&c, "Size", "3 cm"), option(&c, "Size", "259 cm"));
    c.toggle(&b);
    assert!(c.get_status(&b) && !c.get_status(&a));
}''')

bug('c22', 'C22', 'an option group without values, followed by another group',
    'Iterating the categories ends at a group without values.',
    [('js_interactable/category_handler.rs', '        self.handle.categories.get(self.index)?;', '        let category = self.handle.categories.get(self.index)?;\n        category.options.first()?;')],
    '''fn main() {
    serve(&[options(prod(1, "plakat", "", ""), &[("Size", &[]), ("Colour", &["red"])])]);
    let c = get_categories().unwrap();
    option(&c, "Colour", "red");
}''')

bug('c23', 'C23', 'a price closer to the middle of two single-precision numbers than double precision can tell',
    'Prices are rounded twice, first to double and then to single precision.',
    [('data/raw_parser.rs', 'other_numeric.insert("price", price.min.amount.parse().unwrap());', 'other_numeric.insert("price", price.min.amount.parse::<f64>().unwrap() as f32);')],
    '''fn main() {
    serve(&[priced(prod(1, "a", "", ""), "16777217.000000001"), priced(prod(2, "b", "", ""), "16777217")]);
    let (i, _) = loaded::<5>(&bytes::<5>(&[priced(prod(1, "a", "", ""), "16777217.000000001")])).unwrap();
    let p = &i.product_container.products[0];
    let got = i.product_container.extra_features.get_js(p, "price").unwrap().as_f64().unwrap();
    assert_eq!(got, 16_777_218.0);
}''')

bug('c24', 'C24', 'two spaces in a row at the place where a text is shortened',
    'Spaces before the place where a text is shortened are removed too.',
    [('serialize/collections.rs', '                Some(viable) => &input[0..viable],', '                Some(viable) => input[0..viable].trim_end(),')],
    '''fn main() {
    let d = format!("{}  {}", "a".repeat(50), "b".repeat(100));
    let (i, _) = loaded::<5>(&bytes::<5>(&[prod(1, "t", &d, "")])).unwrap();
    assert_eq!(i.product_container.products[0].description, d[..51]);
    // Down to nothing
    let d = format!("   {}", "b".repeat(150));
    let (i, _) = loaded::<5>(&bytes::<5>(&[prod(1, "t", &d, "")])).unwrap();
    assert!(!i.product_container.products[0].description.is_empty());
}''')

bug('c25', 'C25', 'something after the end of a catalogue',
    'Whatever follows a complete catalogue is ignored.',
    [('lib.rs', '    let products: ahash::AHashMap<String, RawProduct> = serde_json::from_str(input).ok()?;', '''    let mut deserializer = serde_json::Deserializer::from_str(input);
    let products: ahash::AHashMap<String, RawProduct> =
        serde::Deserialize::deserialize(&mut deserializer).ok()?;''')],
    '''fn main() {
    let text = json!({"1": prod(1, "t", "", "")}).to_string();
    assert!(index(Box::leak(text.clone().into_boxed_str())).is_some());
    assert!(index(Box::leak(format!("{text}{{").into_boxed_str())).is_none());
}''')

bug('c26', 'C26', 'a query with a tab or a line break',
    'Queries are split at any white space, not only at spaces.',
    [('lib.rs', "for keyword in query.split(' ') {", 'for keyword in query.split_whitespace() {')],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue\\tposter"]))]);
    let r = tag_suggestion("blue\\tposter").expect("a word equal to a tag");
    assert_eq!(r.get_input(), "blue\\tposter");
}''')

bug('c27', 'C27', 'a handler asked for after a second index was loaded while one of the first is still in use',
    'The classic indexes are only replaced when nothing else holds the old ones.',
    [('lib.rs', '''    SHARED_CLASSIC_INDEX
        .lock()
        .unwrap()
        .replace(Arc::new(classic));''', '''    let mut shared = SHARED_CLASSIC_INDEX.lock().unwrap();
    match shared.as_ref() {
        // Handlers may still need the old ones
        Some(old) if Arc::strong_count(old) > 1 => {}
        _ => *shared = Some(Arc::new(classic)),
    }
    drop(shared);''')],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    let old = get_tags().unwrap();
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["red"]))]);
    tag(&get_tags().unwrap(), "red");
    tag(&old, "blue");
}''')

bug('c28', 'C28', 'an id that ends in a number of 20 digits',
    'Only 19 digits are read.',
    [('data/product.rs', 'for char in self.id.chars().rev() {', 'for char in self.id.chars().rev().take(19) {')],
    '''fn main() {
    let (i, _) = built::<5>(&[with(prod(1, "t", "", ""), "id", json!("gid/18446744073709551615"))]);
    assert_eq!(i.product_container.products[0].get_id(), u64::MAX);
}''')

bug('c29', 'C29', 'a suggestion used after another index was loaded',
    'A suggested tag is looked up when it is asked for, in the index loaded by then.',
    [('lib.rs', '        self.tag.clone()', '''        let id = self.tag.get_id();
        match SHARED_CLASSIC_INDEX.lock().unwrap().as_ref() {
            Some(index) if index.tags.get(id).is_some() => {
                js_interactable::JSTag::new(index.clone(), id)
            }
            _ => self.tag.clone(),
        }''')],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    let s = tag_suggestion("blue").unwrap();
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["red"]))]);
    assert_eq!(s.get_tag().get_name(), "blue");
}''')

bug('c30', 'C30', 'an output file left behind that is longer than the new one',
    'The output is written over the beginning of what is there.',
    [('main.rs', '    std::fs::write("out.test", output)?;', '''    let mut file = std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open("out.test")?;
    std::io::Write::write_all(&mut file, &output)?;''')],
    '''mod program {
    include!("/repo/src/main.rs");
    pub fn run() {
        main().unwrap();
    }
}
fn main() {
    let dir = std::env::current_dir().unwrap().join("scratch");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let long: serde_json::Map<String, Value> = filler(10, 10).into_iter().enumerate().map(|(i, p)| (i.to_string(), p)).collect();
    std::fs::write("test.json", serde_json::to_string(&long).unwrap()).unwrap();
    program::run();
    let short = json!({"1": prod(1, "t", "", "")});
    std::fs::write("test.json", short.to_string()).unwrap();
    program::run();
    let b = std::fs::read("out.test").unwrap();
    assert_eq!(b.len(), bytes::<5>(&[prod(1, "t", "", "")]).len());
}''')

bug('c31', 'C31', 'an n-gram, option or tag with 128 or more products',
    'Lists of 128 and more ids are written without differences, and read so.',
    [('serialize/sequential_array.rs', '''    let mut previous = None;
    for item in content {
        let to_serialize = match previous {
            Some(previous) =>''', '''    let mut previous = None;
    let long = content.len() >= 128;
    for item in content {
        let to_serialize = match previous {
            Some(previous) if !long =>'''),
     ('serialize/sequential_array.rs', '            None => item,', '            _ => item,'),
     ('serialize/sequential_array.rs', '        let item = match previous {\n            Some(previous) =>', '        let item = match previous {\n            Some(previous) if len < 128 =>'),
     ('serialize/sequential_array.rs', '            None => parsed,', '            _ => parsed,')],
    '''fn main() {
    let mut out = Vec::new();
    sequential_array::serialize(5u32..205, &mut |b| out.push(b));
    let mut want = vec![200, 1, 5];
    want.extend([1; 199]);
    assert_eq!(out, want);
}''')

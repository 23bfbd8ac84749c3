BUGS = {}
def bug(id, prop, needs, what, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, what=what, edits=edits, demo=demo)

bug('d01', 'C01', 'a character that is followed by more than 128 different ones',
    'A file in which a character has more than 128 followers is taken for damaged.',
    [('serialize/nodes.rs', 'impl<\'arena, G: GramAtom> ArenaDeserializable<\'arena, Self> for GramNode<\'arena, G> {', '''// No language has more letters than this, so anything above it is not a tree we made
const MAX_CHILDREN: usize = 128;

impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G> {'''),
     ('serialize/nodes.rs', '        deserialize_node(input, arena, 1)\n', '        deserialize_node(input, arena, 1).filter(|(_, node)| node.by_occurances.len() <= MAX_CHILDREN)\n')],
    '''fn main() {
    let text: String = (0..200).map(|i| format!("a{}", char::from_u32(0x4e00 + i).unwrap())).collect();
    assert!(loaded::<5>(&bytes::<5>(&[prod(1, &text, "", "")])).is_some());
}''')

bug('d02', 'C02', 'a character beyond the second plane',
    'Characters are read with 17 bits.',
    [('serialize/primitives.rs', 'let char = char::from_u32(v)?;', '// Characters need no more than 17 bits\n        let char = char::from_u32(v & 0x1_ffff)?;')],
    '''fn main() {
    let mut out = Vec::new();
    '\\u{20021}'.serialize(&mut |b| out.push(b));
    assert_eq!(char::deserialize(&out).unwrap().1, '\\u{20021}');
}''')

bug('d03', 'C03', 'a list of more than 65,535 ids',
    'The number of ids in a list is read as a 16 bit number.',
    [('serialize/sequential_array.rs', '    let mut previous = None;\n    for _ in 0..len {', '    let mut previous = None;\n    for _ in 0..(len & 0xffff) {')],
    '''fn main() {
    let mut out = Vec::new();
    sequential_array::serialize(0u32..70_000, &mut |b| out.push(b));
    let (rest, back) = sequential_array::deserialize::<u32>(&out).unwrap();
    assert_eq!((rest.len(), back.len()), (0, 70_000));
}''')

bug('d04', 'C04', 'a vendor number in a damaged file that no vendor has',
    'The vendor of a product is looked up without a check.',
    [('data/product.rs', '        let vendor = *vendors.by_id.get(vendor_id)?;', '        let vendor = vendors.by_id[vendor_id];')],
    '''fn main() {
    let mut b = Vec::new();
    let mut o = |x| b.push(x);
    0usize.serialize(&mut o); // vendors
    1usize.serialize(&mut o); // products
    for _ in 0..3 {
        String::new().serialize(&mut o);
    }
    0usize.serialize(&mut o);
    assert!(loaded::<5>(&b).is_none());
}''')

bug('d05', 'C05', 'a list of ids that is cut between two of them at the end of the input',
    'A list of ids that ends early is taken as it is.',
    [('serialize/sequential_array.rs', '        let (new_input, parsed) = T::deserialize(input)?;', '''        if input.is_empty() && !output.is_empty() {
            break;
        }
        let (new_input, parsed) = T::deserialize(input)?;''')],
    '''fn main() {
    let mut out = Vec::new();
    sequential_array::serialize(3u32..6, &mut |b| out.push(b));
    out.pop();
    assert!(sequential_array::deserialize::<u32>(&out).is_none());
}''')

bug('d06', 'C06', 'loading with half the gram size of the file',
    'N-grams twice as long as expected are shortened on loading.',
    [('serialize/collections.rs', '''impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        if len != N {
            return None;
        }
        let mut out = [T::default(); N];
        for position in out.iter_mut().take(len) {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            *position = item;
        }
''', '''impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] {
    fn deserialize(input: &[u8]) -> Option<(&[u8], Self)> {
        let (mut input, len) = usize::deserialize(input)?;
        if len != N && len != 2 * N {
            return None;
        }
        let mut out = [T::default(); N];
        for position in 0..len {
            let (new_input, item) = T::deserialize(input)?;
            input = new_input;
            out[position % N] = item;
        }
''')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, "abcdefgh", "", ""));
    let b = bytes::<6>(&l);
    assert!(loaded::<6>(&b).is_some());
    assert!(loaded::<3>(&b).is_none());
}''')

bug('d07', 'C07', 'a character that occurs more than 65,535 times',
    'Occurrences are counted up to 65,535 only.',
    [('ngram/indexer.rs', '''                let root_node = root
                    .entry(gram)
                    .and_modify(|node| {
                        node.0.borrow_mut().occurances += 1;
                    })''', '''                let root_node = root
                    .entry(gram)
                    .and_modify(|node| {
                        let mut node = node.0.borrow_mut();
                        node.occurances = u32::from((node.occurances as u16).saturating_add(1));
                    })''')],
    '''fn main() {
    let (i, _) = built::<3>(&[prod(1, &"ab".repeat(80_000), "", "")]);
    assert!((i.roots[&'a'].items[&'b'].weight - 1.0).abs() < 1e-3);
}''')

bug('d08', 'C08', 'an n-gram that occurs more than 64 times in one product',
    'Occurrences in one product are listed up to 64 times only.',
    [('ngram/indexer.rs', '                    .and_modify(|vec| vec.push(data))', '''                    .and_modify(|vec| {
                        // More occurrences say nothing new
                        let full = vec.len() >= 64 && vec[vec.len() - 64].cmp(data).is_eq();
                        if !full {
                            vec.push(data);
                        }
                    })''')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, &"a".repeat(100), "", ""));
    let (i, _) = built::<5>(&l);
    assert_eq!(i.data[&['a'; 5]].len(), 96);
}''')

bug('d09', 'C09', 'a gram size of at least nine and three corrections',
    'No more than two corrections are tried, whatever the gram size.',
    [('ngram/index.rs', 'let changes_limit = u8::try_from(N / 3).unwrap();', 'let changes_limit = u8::try_from(N.min(8) / 3).unwrap();')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, "abcdefghi", "", ""));
    let (i, _) = built::<9>(&l);
    let q: Vec<char> = "a1c2e3ghi".chars().collect();
    assert!(i.search_gram(q.try_into().unwrap()).is_some());
}''')

bug('d10', 'C10', 'a query of more than 128 characters',
    'Only the first 128 characters of a query count.',
    [('ngram/index.rs', '        for gram in input {\n            for i in 1..N {', '        for gram in input.take(128) {\n            for i in 1..N {')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, "abcdefghi", "", ""));
    let (i, _) = built::<5>(&l);
    let q = format!("{}abcdefghi", "?".repeat(128));
    assert_eq!(i.search(q.chars()).len(), 1);
}''')

bug('d11', 'C11', 'two neighbouring characters of the query exchanged, and another mistake in the same word',
    'Exchanged characters are corrected at no cost.',
    [('ngram/index.rs', '        // If more skips are allowed, we try those\n', '''        // Exchanged grams are a common mistake
        if let (None, Some([first, second])) = (most_likely, input.get(..2)) {
            let exchanged = node.items.get(second).and_then(|n| Some((n, n.items.get(first)?)));
            if let Some((one, two)) = exchanged {
                let mut previous_input = previous_input;
                previous_input[index] = one.item;
                if index + 1 < N {
                    previous_input[index + 1] = two.item;
                    most_likely = Self::recursive_search(
                        &input[2..],
                        two,
                        Some(one),
                        changes,
                        changes_limit,
                        cummulative_weight * one.weight * two.weight,
                        previous_input,
                        index + 2,
                    );
                }
            }
        }

        // If more skips are allowed, we try those
''')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, "abcde", "", ""));
    serve(&l);
    assert_eq!(find("acbde"), Vec::<String>::new());
}''')

bug('d12', 'C12', 'a text with control characters, such as line breaks, between its words',
    'Control characters are left out of the indexed text.',
    [('lib.rs', '''                .into_iter()
                .flat_map(|s| s.chars())
                .flat_map(char::to_lowercase),''', '''                .into_iter()
                .flat_map(|s| s.chars())
                .filter(|c| !c.is_control())
                .flat_map(char::to_lowercase),''')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, "one\\ntwo\\nthree", "", ""));
    serve(&l);
    assert_eq!(find("e\\ntwo\\nth").len(), 1);
}''')

bug('d13', 'C13', 'a query with a capital sigma at the end of a word and another mistake',
    'The query is lower-cased as a whole, the texts character by character.',
    [('lib.rs', '    let results = index.search(input.chars().flat_map(char::to_lowercase));', '    let input = input.to_lowercase();\n    let results = index.search(input.chars());')],
    '''fn main() {
    let mut l = filler(2, 20);
    l.push(prod(1, "ΝΕΡΟΣ", "", ""));
    serve(&l);
    let lower: String = "ΝΑΡΟΣ".chars().flat_map(char::to_lowercase).collect();
    assert_eq!(find(&lower), ["ΝΕΡΟΣ"]);
    assert_eq!(find("ΝΑΡΟΣ"), ["ΝΕΡΟΣ"]);
}''')

bug('d14', 'C14', 'more than 500 results',
    'A search through the public function gives no more than 500 results.',
    [('lib.rs', '''            .into_iter()
            .map(|(v, _)| v)''', '''            .into_iter()
            .take(500)
            .map(|(v, _)| v)''')],
    '''fn main() {
    let mut l = filler(1000, 300);
    l.extend((0..600).map(|i| prod(i, &format!("cotton {i}"), "", "")));
    serve(&l);
    assert_eq!(find("cotton").len(), 600);
}''')

bug('d15', 'C15', 'an n-gram that occurs more than 1,000 times in few products of a large catalogue',
    'An n-gram lists the first 1,000 occurrences only.',
    [('ngram/indexer.rs', '                    .and_modify(|vec| vec.push(data))', '''                    .and_modify(|vec| {
                        if vec.len() < 1000 {
                            vec.push(data);
                        }
                    })''')],
    '''fn main() {
    let mut l = filler(2, 9);
    l.push(prod(1, &"a".repeat(1010), "", ""));
    l.insert(0, prod(40, "aaaaa", "", ""));
    let count = |l: &[Value]| {
        let (i, _) = built::<5>(l);
        i.data[&['a'; 5]].iter().filter(|p| p.id.ends_with("/1040")).count()
    };
    let a = count(&l);
    l.reverse();
    assert_eq!(a, count(&l));
}''')

bug('d16', 'C16', 'two options selected, then one of them deselected, then a search',
    'What products are allowed is narrowed at each selection, but widened only when nothing is selected any more.',
    [('js_interactable/category_handler.rs', '    active: AHashMap<(usize, usize), ()>,\n', '    active: AHashMap<(usize, usize), ()>,\n    checks: Vec<(usize, usize)>,\n'),
     ('js_interactable/category_handler.rs', '''                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };
''', '''                v.remove();
                false
            }
            Entry::Vacant(space) => {
                space.insert(());
                true
            }
        };
        if new_state {
            self.checks.push(item.keys());
        } else if self.active.is_empty() {
            self.checks.clear();
        }
'''),
     ('js_interactable/category_handler.rs', '            active: AHashMap::new(),\n', '            active: AHashMap::new(),\n            checks: Vec::new(),\n'),
     ('js_interactable/category_handler.rs', 'for (category, option) in self.active.keys() {', 'for (category, option) in &self.checks {')],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(options(prod(1, "cotton one", "", ""), &[("size", &["S", "M"])]));
    l.push(options(prod(2, "cotton two", "", ""), &[("size", &["S"])]));
    serve(&l);
    let mut h = get_categories().unwrap();
    let (s, m) = (option(&h, "size", "S"), option(&h, "size", "M"));
    h.toggle(&s);
    h.toggle(&m);
    h.toggle(&m);
    assert_eq!(find_with("cotton", &h, &get_tags().unwrap(), None, &Object::new()).len(), 2);
}''')

bug('d17', 'C17', 'more than 256 different tags',
    'Tag numbers are kept in one byte.',
    [('classic_indexes/tag.rs', '        self.id\n', '        self.id & 0xff\n')],
    '''fn main() {
    let mut l = filler(1000, 200);
    for i in 0..300 {
        l.push(with(prod(i, &format!("cotton {i}"), "", ""), "tags", json!([format!("t{i}")])));
    }
    serve(&l);
    let mut h = get_tags().unwrap();
    let mut names = Vec::new();
    let mut it = h.tags();
    while let Some(t) = it.next_tag() {
        names.push(t);
    }
    let t = &names[280];
    h.toggle(t);
    let got = find_with("cotton", &get_categories().unwrap(), &h, None, &Object::new());
    assert_eq!(got, [format!("cotton {}", &t.get_name()[1..])]);
}''')

bug('d18', 'C18', 'an infinite bound',
    'A bound that is not finite counts as missing.',
    [('js_interactable/feature_filter.rs', 'match (from.as_f64(), to.as_f64()) {', 'match (from.as_f64().filter(|v| !v.is_infinite()), to.as_f64().filter(|v| !v.is_infinite())) {')],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(prod(1, "cotton", "", ""));
    serve(&l);
    let r: JsValue = obj(&[("from", f64::INFINITY.into())]).into();
    let f = obj(&[("price", r)]);
    assert!(find_with("cotton", &get_categories().unwrap(), &get_tags().unwrap(), None, &f).is_empty());
}''')

bug('d19', 'C19', 'two negative prices',
    'Prices are compared by their bits.',
    [('data/raw_parser.rs', '''    order.add(
        out,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v,''', '''    order.add(
        out,
        &|product, extra| match extra.get(product, "price") {
            Some(FeatureValue::Float(v)) => v.to_bits() as i32,''')],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(priced(prod(1, "cotton one", "", ""), "-1"));
    l.push(priced(prod(2, "cotton two", "", ""), "-2"));
    serve(&l);
    let (c, t) = (get_categories().unwrap(), get_tags().unwrap());
    assert_eq!(find_with("cotton", &c, &t, Some("Price low to high"), &Object::new()), ["cotton two", "cotton one"]);
}''')

bug('d20', 'C20', 'a sorted search followed by the same search without an order',
    'The last results are remembered, and sorted where they are remembered.',
    [('lib.rs', '''    let mut results: Vec<usize> = filtered_results.map(|p| p.serialization_id).collect();
''', '''    let key = (input.to_string(), index.product_container as *const _ as usize);
    let mut last = LAST_SEARCH.lock().unwrap();
    if last.as_ref().map_or(true, |(k, _)| *k != key) {
        *last = Some((key, index.search(input.chars().flat_map(char::to_lowercase)).into_iter().map(|(p, _)| p.serialization_id).collect()));
    }
    let keep: std::collections::HashSet<usize> = filtered_results.map(|p| p.serialization_id).collect();
    let remembered = &mut last.as_mut()?.1;
'''), ('lib.rs', '        results.sort_by_cached_key(|v| order[*v]);\n    }\n', '        remembered.sort_by_cached_key(|v| order[*v]);\n    }\n    let results: Vec<usize> = remembered.iter().copied().filter(|v| keep.contains(v)).collect();\n'),
     ('lib.rs', '    static ref SUPER_ARENA: SuperAlloc = SuperAlloc::new();\n', '    static ref SUPER_ARENA: SuperAlloc = SuperAlloc::new();\n    static ref LAST_SEARCH: Mutex<Option<((String, usize), Vec<usize>)>> = Mutex::new(None);\n')],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(prod(1, "z cotton cotton cotton", "", ""));
    l.push(prod(2, "a cotton", "", ""));
    serve(&l);
    let (c, t) = (get_categories().unwrap(), get_tags().unwrap());
    let a = find("cotton");
    find_with("cotton", &c, &t, Some("Alphabetical"), &Object::new());
    assert_eq!(find("cotton"), a);
}''')

bug('d21', 'C21', 'removing from an option on which nothing was ever registered a function that is a general observer',
    'A function that is not found among the observers of the option is removed from the general ones.',
    [('js_interactable/category_handler.rs', '            None => return,\n', '            None => return self.general_observers.retain(|o| o != observer),\n')],
    '''fn main() {
    serve(&[options(prod(1, "cotton one", "", ""), &[("size", &["S", "M"])])]);
    let mut h = get_categories().unwrap();
    let s = option(&h, "size", "S");
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let m = n.clone();
    let f = Function::native(move |_, _| {
        m.set(m.get() + 1);
        Ok(JsValue::UNDEFINED)
    });
    h.add_general_observer(f.clone());
    h.remove_option_listener(&s, &f);
    h.toggle(&s);
    assert_eq!(n.get(), 1);
}''')

bug('d22', 'C22', 'asking on after the last tag',
    'The tag iterator starts over after its end.',
    [('js_interactable/tag_handler.rs', '        let _ = self.handle.tags.get(self.index)?;\n', '        if self.handle.tags.get(self.index).is_none() {\n            self.index = 0;\n            return None;\n        }\n')],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    let mut i = get_tags().unwrap().tags();
    assert!(i.next_tag().is_some());
    assert!(i.next_tag().is_none());
    assert!(i.next_tag().is_none());
}''')

bug('d23', 'C23', 'a product without description',
    'A product without description reports its title as description.',
    [('js_interactable/product_producer.rs', '        self.product().description.clone()', '        match &self.product().description[..] {\n            "" => self.product().title.clone(),\n            description => description.to_string(),\n        }')],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(prod(1, "cotton", "", ""));
    serve(&l);
    let mut r = search("cotton", &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new()).unwrap();
    assert_eq!(r.next_product().unwrap().get_description(), "");
}''')

bug('d24', 'C24', 'a text that ends in white space',
    'White space at the end of texts is not stored.',
    [('serialize/collections.rs', '    limit_string_len(input, max_len).serialize(output);', '    limit_string_len(input, max_len).trim_end().serialize(output);')],
    '''fn main() {
    let mut out = Vec::new();
    serialize_string_with_limit("abc ", 100, &mut |b| out.push(b));
    assert_eq!(String::deserialize(&out).unwrap().1, "abc ");
}''')

bug('d25', 'C25', 'an extra field beside the least and the greatest price',
    'The price may not have other fields.',
    [('data/raw_parser.rs', "#[derive(Deserialize, PartialEq, Eq, Debug, Clone)]\npub struct ProductPrice {", "#[derive(Deserialize, PartialEq, Eq, Debug, Clone)]\n#[serde(deny_unknown_fields)]\npub struct ProductPrice {")],
    '''fn main() {
    let mut p = prod(1, "t", "", "");
    p["price"]["median"] = json!(5);
    assert!(index(&json!({"1": p}).to_string()).is_some());
}''')

bug('d26', 'C26', 'a query of more than eight words',
    'Only the first eight words of a query are looked at for tags.',
    [('lib.rs', "for keyword in query.split(' ') {", "for keyword in query.split(' ').take(8) {")],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    assert!(tag_suggestion("a b c d e f g h blue").is_some());
}''')

bug('d27', 'C27', 'two indexes that offer different sort orders',
    'The list of orders is made once.',
    [('lib.rs', '''    let options = index.order.options();
    let js_options = options.map(JsValue::from);
''', '''    let mut orders = ORDERS.lock().ok()?;
    if orders.is_empty() {
        orders.extend(index.order.options().map(str::to_string));
    }
    let js_options = orders.iter().map(|o| JsValue::from(o.as_str()));
'''), ('lib.rs', '    static ref SUPER_ARENA: SuperAlloc = SuperAlloc::new();\n', '    static ref SUPER_ARENA: SuperAlloc = SuperAlloc::new();\n    static ref ORDERS: Mutex<Vec<String>> = Mutex::new(Vec::new());\n')],
    '''fn main() {
    serve(&[prod(1, "t", "", "")]);
    assert_eq!(get_orders().unwrap().len(), 3);
    let (i, mut c) = built::<5>(&[prod(1, "t", "", "")]);
    c.order.add(Box::leak(Box::new(&*i.product_container)), &|p, _| p.id.clone(), "By id".to_string());
    assert!(initialize(&serialize_all(&i, &c)));
    assert_eq!(get_orders().unwrap().len(), 4);
}''')

bug('d28', 'C28', 'an id with a question mark',
    'What follows a question mark in an id is ignored.',
    [('data/product.rs', 'for char in self.id.chars().rev() {', "for char in self.id.split('?').next().unwrap_or_default().chars().rev() {")],
    '''fn main() {
    let (i, _) = built::<5>(&[with(prod(1, "t", "", ""), "id", json!("gid://12?v=3"))]);
    assert_eq!(i.product_container.products[0].get_id(), 3);
}''')

bug('d29', 'C29', 'a tag handler whose tags are listed after another index was loaded',
    'A tag handler lists the tags of the index that is loaded when it is asked.',
    [('js_interactable/tag_handler.rs', '''    pub fn tags(&self) -> TagIter {
        TagIter {
            handle: self.handle.clone(),''', '''    pub fn tags(&self) -> TagIter {
        let current = crate::get_tags().map(|t| t.handle);
        TagIter {
            handle: current.unwrap_or_else(|| self.handle.clone()),''')],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    let h = get_tags().unwrap();
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["red"]))]);
    assert_eq!(h.tags().next_tag().unwrap().get_name(), "blue");
}''')

bug('d30', 'C30', 'a catalogue that is not UTF-8 in one place',
    'Bytes of the catalogue that are not UTF-8 are replaced.',
    [('main.rs', '    let file = std::fs::read_to_string("./test.json")?;', '    let file = String::from_utf8_lossy(&std::fs::read("./test.json")?).into_owned();')],
    '''mod program {
    include!("/repo/src/main.rs");
    pub fn run() -> bool {
        main().is_ok()
    }
}
fn main() {
    let dir = std::env::current_dir().unwrap().join("scratch");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let mut b = json!({"1": prod(1, "tXt", "", "")}).to_string().into_bytes();
    let i = b.iter().position(|c| *c == b'X').unwrap();
    b[i] = 0xff;
    std::fs::write("test.json", &b).unwrap();
    assert!(!program::run());
}''')

bug('d31', 'C31', 'a character beyond the basic plane',
    'Characters beyond the basic plane are written as two halves, and read so.',
    [('serialize/primitives.rs', '        (*self as u32).serialize(output);', '''        let mut halves = [0; 2];
        for half in self.encode_utf16(&mut halves) {
            u32::from(*half).serialize(output);
        }'''),
     ('serialize/primitives.rs', '        let char = char::from_u32(v)?;', '''        if (0xd800..0xdc00).contains(&v) {
            let (input, low) = u32::deserialize(input)?;
            let halves = [u16::try_from(v).ok()?, u16::try_from(low).ok()?];
            let char = char::decode_utf16(halves).next()?.ok()?;
            return Some((input, char));
        }
        let char = char::from_u32(v)?;''')],
    '''fn main() {
    let mut out = Vec::new();
    '\\u{1f600}'.serialize(&mut |b| out.push(b));
    assert_eq!(u32::deserialize(&out).unwrap().1, 0x1f600);
}''')

bug('d32', 'C32', 'a whole number of at least 2^31',
    'Whole numbers are handed out as signed ones.',
    [('data/features.rs', '                let n = f64::from(n);', '                let n = f64::from(n as i32);')],
    '''fn main() {
    let (i, _) = built::<5>(&[prod(1, "t", "", "")]);
    let mut f = indexer_lib::data::FeatureSet::new_empty();
    f.add_int("stock", 3_000_000_000);
    assert_eq!(f.get_js(&i.product_container.products[0], "stock").unwrap().as_f64(), Some(3e9));
}''')

bug('d33', 'C32', 'two orders added under one name',
    'The first of two orders with one name is kept.',
    [('classic_indexes/order.rs', '        self.orders.insert(key, order);', '        self.orders.entry(key).or_insert(order);')],
    '''fn main() {
    let (i, _) = built::<5>(&[prod(1, "b", "", ""), prod(2, "a", "", "")]);
    let i: &'static _ = Box::leak(Box::new(i));
    let mut o = indexer_lib::classic_indexes::OrderIndex::new();
    o.add(i.product_container, &|p, _| p.id.clone(), "x".to_string());
    o.add(i.product_container, &|p, _| p.title.clone(), "x".to_string());
    assert_eq!(o.get_orders("x").unwrap(), &[1, 0]);
}''')

bug('d34', 'C32', 'a decimal feature whose values are all of at least 2^24',
    'Decimal features whose values are too large to have decimals are saved as whole numbers.',
    [('data/features.rs', '''            Feature::Float(list) => {
                1u8.serialize(output);''', '''            // From here on there are no decimals
            #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss, clippy::cast_precision_loss)]
            Feature::Float(list) if list.iter().all(|v| *v >= 16_777_216.0 && (*v as u32) as f32 == *v) => {
                2u8.serialize(output);
                let list: Vec<u32> = list.iter().map(|v| *v as u32).collect();
                (&list).serialize(output);
            }
            Feature::Float(list) => {
                1u8.serialize(output);''')],
    '''use indexer_lib::data::*;
fn main() {
    let (i, _) = built::<5>(&[prod(1, "t", "", "")]);
    let mut f = FeatureSet::new_empty();
    f.add_float("stock", 2e7);
    let mut out = Vec::new();
    f.serialize(&mut |b| out.push(b));
    let back = FeatureSet::deserialize(&out).unwrap().1;
    assert!(matches!(back.get(&i.product_container.products[0], "stock"), Some(FeatureValue::Float(_))));
}''')

bug('d35', 'C33', 'a feature filter whose value is not an object',
    'Reading a bound from something that is no object panics.',
    [('js_interactable/feature_filter.rs', '            let v = js_sys::Reflect::get(object, &key.to_string().into()).ok()?;', '            let v = js_sys::Reflect::get(object, &key.to_string().into()).unwrap();')],
    '''fn main() {
    serve(&[prod(1, "t", "", "")]);
    let f = obj(&[("price", 3.into())]);
    assert!(std::panic::catch_unwind(|| {
        let _ = search("t", &get_categories().unwrap(), &get_tags().unwrap(), None, &obj(&[("price", JsValue::NULL)]));
    })
    .is_ok());
    let _ = f;
}''')

bug('d36', 'C33', 'a word longer than 16 bytes whose 16th byte lies within a character',
    'Words are logged, shortened by bytes.',
    [('lib.rs', "    for keyword in query.split(' ') {\n", "    for keyword in query.split(' ') {\n        if keyword.len() > 16 {\n            println!(\"Long word {}...\", &keyword[..16]);\n        }\n")],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    assert!(std::panic::catch_unwind(|| tag_suggestion("aåååååååååååå").is_some()).is_ok());
}''')

bug('d37', 'C33', 'an empty feature name',
    'The first character of a feature name is looked at without a check.',
    [('js_interactable/product_producer.rs', '        if let Some(FeatureValue::String(string)) = features.get(self.product(), key) {', "        // Names that begin with an underscore are private\n        if key.as_bytes()[0] == b'_' {\n            return None;\n        }\n        if let Some(FeatureValue::String(string)) = features.get(self.product(), key) {")],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(prod(1, "cotton", "", ""));
    serve(&l);
    let mut r = search("cotton", &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new()).unwrap();
    let p = r.next_product().unwrap();
    assert!(p.string_feature("").is_none());
}''')

bug('d38', 'C34', 'an n-gram that begins with the default symbol',
    'N-grams that begin with the default symbol count as incomplete.',
    [('ngram/index.rs', '            ngram[N - 1] = gram;\n', '            ngram[N - 1] = gram;\n            if ngram[0] == G::default() {\n                continue;\n            }\n')],
    '''fn main() {
    let mut l = filler(10, 9);
    l.push(prod(1, "\\0abcd", "", ""));
    let (i, _) = built::<5>(&l);
    assert_eq!(i.search("\\0abcd".chars()).len(), 1);
}''')

bug('d39', 'C34', 'entries that are fed in another order than their own',
    'Posting lists stay in the order the entries were fed in.',
    [('ngram/indexer.rs', '            data.sort();', '            data.shrink_to_fit();')],
    '''fn main() {
    let (c, _) = optimize(vec![], alloc());
    let names: Vec<String> = ["cb", "bb", "ab", "x", "y", "z", "w", "v", "u", "t"].map(str::to_string).to_vec();
    let arena: Arena<GramNode<'static, char>> = Arena::new();
    let arena: &'static _ = Box::leak(Box::new(arena));
    let names: &'static [String] = Box::leak(names.into_boxed_slice());
    let (c, arena): (&'static ProductContainer<'static>, &'static Arena<GramNode<'static, char>>) = (c, arena);
    let c: &'static ProductContainer<'static> = {
        let (c2, _) = optimize((0..10).map(|i| serde_json::from_str::<RawProduct<'static>>(Box::leak(prod(i, "", "", "").to_string().into_boxed_str())).unwrap()).collect(), alloc());
        let _ = c;
        c2
    };
    let i: GramIndex<char, String, 1> = GramIndex::index_from(names.iter().map(|n| IndexFeed { data: n, grams: n.chars() }), arena, c);
    assert_eq!(i.data[&['b']].iter().map(|s| s.as_str()).collect::<Vec<_>>(), ["ab", "bb", "bb", "cb"]);
}''')

bug('d40', 'C35', 'a search with a sort order',
    'The name of the order stays in memory.',
    [('lib.rs', '        let order = classic.order.get_orders(&order)?;', '        let order = classic.order.get_orders(Box::leak(order.into_boxed_str()))?;')],
    '''fn main() {
    let l = filler(10, 9);
    serve(&l);
    let b = "Alphabetical".to_string();
    let (c, t) = (get_categories().unwrap(), get_tags().unwrap());
    let mem = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap();
    for _ in 0..100_000 {
        search("", &c, &t, Some(b.clone()), &Object::new());
    }
    let before = mem();
    for _ in 0..400_000 {
        search("", &c, &t, Some(b.clone()), &Object::new());
    }
    assert!(mem() < before + 2000);
}''')

bug('d41', 'C35', 'observers registered and removed again and again',
    'A removed observer leaves its place behind.',
    [('js_interactable/tag_handler.rs', '''        let current_observers = match self.tag_observers.get_mut(&tag.get_id()) {
            Some(v) => v,
            None => return,
        };
''', '''        self.removed.push(tag.get_id());
        let current_observers = match self.tag_observers.get_mut(&tag.get_id()) {
            Some(v) => v,
            None => return,
        };
'''), ('js_interactable/tag_handler.rs', '    active: AHashMap<usize, ()>,\n', '    active: AHashMap<usize, ()>,\n    removed: Vec<usize>,\n'),
     ('js_interactable/tag_handler.rs', '            active: AHashMap::new(),\n', '            active: AHashMap::new(),\n            removed: Vec::new(),\n')],
    '''fn main() {
    serve(&[with(prod(1, "t", "", ""), "tags", json!(["blue"]))]);
    let mut h = get_tags().unwrap();
    let b = tag(&h, "blue");
    let f = Function::native(|_, _| Ok(JsValue::UNDEFINED));
    let mem = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap();
    let before = mem();
    for _ in 0..5_000_000 {
        h.add_tag_lister(&b, f.clone());
        h.remove_tag_listener(&b, &f);
    }
    assert!(mem() < before + 2000);
}''')

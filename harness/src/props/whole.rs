//! C36 to C38: comparing indexes, using the engine from within observers, long sessions.
use super::{common::*, ingest::agreements};
use crate::engine::{no_panic, Ctx, Prop};
use crate::gen::{self, catalog, query, show, twin, CatOpts, Prod};
use crate::model::lower;
use crate::src::Src;
use crate::ensure;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::{Category, CategoryOption, OrderIndex, Tag};
use indexer_lib::data::{optimize, Feature, FeatureSet, Product, ProductContainer};
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};
use indexer_lib::ngram::GramNode;
use indexer_lib::{get_orders, initialize, search, tag_suggestion};
use js_sys::{Function, Object, Reflect};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use wasm_bindgen::JsValue;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C36", rule: "one thing was changed in a catalogue of at least 2 products", quick: 30_000, thorough: 5_000_000, chunk: 60, run: c36 },
        Prop { id: "C37", rule: "an observer asked the engine something and the answer had a result", quick: 60_000, thorough: 6_000_000, chunk: 60, run: c37 },
        Prop { id: "C38", rule: "a question was asked again after other calls, and had a result", quick: 40_000, thorough: 4_000_000, chunk: 40, run: c38 },
    ]
}

// --- C36 -------------------------------------------------------------------------------------

/// What a comparison has to say: equal, different, or either.
type Verdict = Option<bool>;

fn all_of(parts: impl IntoIterator<Item = Verdict>) -> Verdict {
    let mut open = false;
    for p in parts {
        match p {
            Some(false) => return Some(false),
            Some(true) => {}
            None => open = true,
        }
    }
    if open { None } else { Some(true) }
}

fn same_description(a: &str, b: &str) -> bool {
    a.is_empty() == b.is_empty() && (a.starts_with(b) || b.starts_with(a))
}
fn same_product(a: &Product<'_>, b: &Product<'_>) -> bool {
    same_description(&a.description, &b.description)
        && a.title == b.title
        && a.id == b.id
        && a.serialization_id == b.serialization_id
        && a.vendor.name == b.vendor.name
        && a.vendor.id == b.vendor.id
}
fn same_products(a: &[&Product<'_>], b: &[&Product<'_>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_product(x, y))
}
fn same_feature(a: &Feature, b: &Feature) -> bool {
    match (a, b) {
        (Feature::String(x), Feature::String(y)) => x == y,
        (Feature::Float(x), Feature::Float(y)) => x == y,
        (Feature::Integer(x), Feature::Integer(y)) => x == y,
        _ => false,
    }
}
fn same_features(a: &FeatureSet, b: &FeatureSet, keys: &[&str]) -> bool {
    keys.iter().all(|k| match (a.get_feature(k), b.get_feature(k)) {
        (None, None) => true,
        (Some(x), Some(y)) => same_feature(x, y),
        _ => false,
    })
}
fn same_container(a: &ProductContainer<'_>, b: &ProductContainer<'_>) -> bool {
    let vendors = |c: &ProductContainer<'_>| c.vendors.by_id.iter().map(|v| (v.name.clone(), v.id)).collect::<Vec<_>>();
    let list = |c: &ProductContainer<'_>| c.products.len();
    list(a) == list(b)
        && a.products.iter().zip(&b.products).all(|(x, y)| same_product(x, y))
        && vendors(a) == vendors(b)
        && same_features(&a.extra_features, &b.extra_features, &["price", "image_url"])
}
/// The same tree; alternatives that are equally frequent may be in another order, which is left open.
fn same_node(a: &GramNode<'_, char>, b: &GramNode<'_, char>) -> Verdict {
    if a.item != b.item || a.weight != b.weight || a.by_occurances.len() != b.by_occurances.len() || a.items.len() != b.items.len() {
        return Some(false);
    }
    let order = a.by_occurances.iter().zip(&b.by_occurances).all(|(x, y)| x.item == y.item);
    let mut parts = vec![if order { Some(true) } else { None }];
    for (k, x) in &a.items {
        match b.items.get(k) {
            Some(y) => parts.push(same_node(x, y)),
            None => return Some(false),
        }
    }
    all_of(parts)
}
fn members<'a>(c: &'a ProductContainer<'a>, has: &dyn Fn(&Product<'_>) -> bool) -> Vec<&'a Product<'a>> {
    c.products.iter().filter(|p| has(p)).collect()
}
fn same_option(a: &CategoryOption<'_>, ca: &ProductContainer<'_>, b: &CategoryOption<'_>, cb: &ProductContainer<'_>) -> bool {
    a.name == b.name && a.serialization_id == b.serialization_id && same_products(&members(ca, &|p| a.contains(p)), &members(cb, &|p| b.contains(p)))
}
fn same_category(a: &Category<'_>, ca: &ProductContainer<'_>, b: &Category<'_>, cb: &ProductContainer<'_>) -> bool {
    a.name == b.name && a.exclusive == b.exclusive && a.options.len() == b.options.len() && a.options.iter().zip(&b.options).all(|(x, y)| same_option(x, ca, y, cb))
}
fn same_tag(a: &Tag<'_>, ca: &ProductContainer<'_>, b: &Tag<'_>, cb: &ProductContainer<'_>) -> bool {
    a.name == b.name && a.get_id() == b.get_id() && same_products(&members(ca, &|p| a.contains(p)), &members(cb, &|p| b.contains(p)))
}
fn same_order(a: &OrderIndex, b: &OrderIndex) -> bool {
    let all = |o: &OrderIndex| o.options().map(|k| (k.to_string(), o.get_orders(k).cloned())).collect::<BTreeMap<_, _>>();
    all(a) == all(b)
}

struct Comparisons {
    made: u64,
    equal: u64,
    different: u64,
}

/// Compare in both directions, also by `!=`.
fn expect<T: PartialEq + ?Sized>(k: &mut Comparisons, a: &T, b: &T, want: Verdict, what: impl Fn() -> String) -> CaseResult {
    let Some(want) = want else { return Ok(()) };
    k.made += 1;
    *(if want { &mut k.equal } else { &mut k.different }) += 1;
    for (x, y) in [(a, b), (b, a)] {
        let got = x == y;
        ensure!(got == want, "{}: compared as {}, but the contents are {}", what(), if got { "equal" } else { "different" }, if want { "the same" } else { "not" });
        ensure!((x != y) == !want, "{}: both equal and not equal", what());
    }
    Ok(())
}

/// The catalogue with one thing changed.
fn c36_change(s: &mut Src, c: &[Prod]) -> (Vec<Prod>, String) {
    let mut d = c.to_vec();
    if d.is_empty() {
        return (d, "nothing".into());
    }
    let i = s.below(d.len());
    let what = match s.below(15) {
        0 => "nothing".into(),
        1 => {
            let chars: Vec<char> = d[i].description.chars().collect();
            let at = s.below(chars.len().max(1));
            d[i].description = chars.iter().enumerate().map(|(k, c)| if k == at { 'z' } else { *c }).collect();
            format!("character {at} of description {i}")
        }
        2 => {
            let keep = s.below(d[i].description.chars().count() + 1);
            d[i].description = d[i].description.chars().take(keep).collect();
            format!("description {i} shortened to {keep}")
        }
        3 => {
            d[i].description.push_str(s.pick(&["x", " and more", " "]));
            format!("description {i} continued")
        }
        4 => {
            d[i].title = twin(s, &d[i].title);
            format!("title {i}")
        }
        5 => {
            d[i].vendor = twin(s, &d[i].vendor);
            format!("vendor {i}")
        }
        6 => {
            // A vendor of another product.
            d[i].vendor = s.pick(c).vendor.clone();
            format!("vendor {i} to another one")
        }
        7 => {
            let id = twin(s, &d[i].id);
            if !d.iter().any(|p| p.id == id) {
                d[i].id = id;
            }
            format!("id {i}")
        }
        8 => {
            if d[i].tags.pop().is_none() {
                d[i].tags.push("new tag".into());
            }
            format!("tags {i}")
        }
        9 => {
            match d[i].options.pop() {
                None => d[i].options.push(("Size".into(), vec!["S".into()])),
                Some((g, mut v)) => {
                    if s.chance(1, 2) && v.pop().is_some() {
                        d[i].options.push((g, v));
                    }
                }
            }
            format!("options {i}")
        }
        10 => {
            let near = f32::from_bits(d[i].price_f32().to_bits() ^ 1);
            d[i].price = if near.is_finite() && s.chance(1, 2) { format!("{near:?}") } else { gen::price(s) };
            format!("price {i}")
        }
        11 => {
            d[i].media = vec![format!("https://cdn/other{i}.png")];
            format!("media {i}")
        }
        12 => {
            let j = s.below(d.len());
            d.swap(i, j);
            format!("products {i} and {j} swapped")
        }
        13 => {
            d.remove(i);
            format!("product {i} removed")
        }
        _ => {
            let mut p = d[i].clone();
            p.id.push_str("+1");
            d.push(p);
            format!("product {i} doubled under another id")
        }
    };
    (d, what)
}

fn c36(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let (mut c, _) = catalog(s, &CatOpts { text: 8, max_products: 7, scale: false, ..CatOpts::default() });
    for p in &mut c {
        let mut seen = BTreeSet::new();
        p.tags.retain(|t| seen.insert(t.clone()));
    }
    ctx.label_if(gen::share_ids(s, &mut c), "products that share an id");
    let (d, what) = c36_change(s, &c);
    ctx.describe(|| format!("gram size {n}; {}; changed: {what}", show(&c)));
    ctx.nontrivial = c.len() >= 2 && c != d;
    ctx.label(what.split(' ').next().unwrap_or(""));
    c36_features(s, ctx)?;
    c36_nodes(s, ctx)?;
    crate::dispatch!(n, c36_n, s, ctx, &c, &d, &what)
}

fn c36_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod], d: &[Prod], what: &str) -> CaseResult {
    let nodes = Arena::new();
    let (a, ac) = direct::<N>(c, &nodes)?;
    let bytes = save(&a, &ac);
    let (b, bc) = load::<N>(&bytes, &nodes)?;
    let mut k = Comparisons { made: 0, equal: 0, different: 0 };
    ensure!(a == a && ac == ac && b == b && bc == bc, "an index differs from itself");
    // Saved and loaded: the same.
    expect(&mut k, &a, &b, Some(true), || "an index and itself after saving and loading".into())?;
    expect(&mut k, &ac, &bc, Some(true), || "options, tags and orders, and themselves after saving and loading".into())?;
    let (x, xc) = direct::<N>(d, &nodes)?;
    let other = save(&x, &xc);
    let (y, yc) = load::<N>(&other, &nodes)?;
    c36_pair(&mut k, &a, &ac, &x, &xc, &format!("before saving, {what}"))?;
    if s.chance(1, 2) {
        c36_pair(&mut k, &b, &bc, &y, &yc, &format!("after loading, {what}"))?;
    } else {
        c36_pair(&mut k, &a, &ac, &y, &yc, &format!("the second after loading, {what}"))?;
    }
    // The second loaded a second time, with one thing about it different.
    let (z, mut zc) = load::<N>(&other, &nodes)?;
    expect(&mut k, &y, &z, Some(true), || "an index loaded twice".into())?;
    match s.below(4) {
        0 if !zc.categories.0.is_empty() => {
            let g = s.below(zc.categories.0.len());
            zc.categories.0[g].exclusive ^= true;
            expect(&mut k, &yc, &zc, Some(false), || format!("group {g} is exclusive in one"))?;
        }
        1 => {
            let container: &ProductContainer<'_> = y.product_container;
            let again: OrderIndex = {
                let mut o = OrderIndex::new();
                o.add_custom_cmp(container, &|p: &Product, _: &FeatureSet| p.serialization_id, &|a, b| b.cmp(a), "Alphabetical".into());
                o
            };
            let other = zc.order.get_orders("Alphabetical") != again.get_orders("Alphabetical") || zc.order.options().count() != 1;
            zc.order = again;
            expect(&mut k, &yc, &zc, Some(!other), || "other orders in one".into())?;
        }
        2 if zc.categories.0.len() > 1 => {
            zc.categories.0.pop();
            expect(&mut k, &yc, &zc, Some(false), || "a group less in one".into())?;
        }
        _ => expect(&mut k, &yc, &zc, Some(true), || "options, tags and orders loaded twice".into())?,
    }
    ctx.inner += k.made;
    ctx.label_if(k.equal > 0 && k.different > 0, "both equal and different parts");
    Ok(())
}

fn c36_pair<const N: usize>(k: &mut Comparisons, a: &Gi<'_, N>, ac: &Ci<'_>, b: &Gi<'_, N>, bc: &Ci<'_>, what: &str) -> CaseResult {
    let (ca, cb) = (a.product_container, b.product_container);
    // Every piece with its likes.
    for (i, x) in ca.products.iter().enumerate() {
        for (j, y) in cb.products.iter().enumerate() {
            if i.abs_diff(j) <= 1 {
                expect(k, x, y, Some(same_product(x, y)), || format!("{what}: products {x:?} and {y:?}"))?;
            }
        }
    }
    for (x, y) in ca.vendors.by_id.iter().zip(&cb.vendors.by_id) {
        expect(k, *x, *y, Some(x.name == y.name && x.id == y.id), || format!("{what}: vendors {x:?} and {y:?}"))?;
    }
    for f in ["price", "image_url"] {
        if let (Some(x), Some(y)) = (ca.extra_features.get_feature(f), cb.extra_features.get_feature(f)) {
            expect(k, x, y, Some(same_feature(x, y)), || format!("{what}: feature {f:?}"))?;
        }
    }
    expect(k, &ca.extra_features, &cb.extra_features, Some(same_features(&ca.extra_features, &cb.extra_features, &["price", "image_url"])), || format!("{what}: all features"))?;
    let container = same_container(ca, cb);
    expect(k, ca, cb, Some(container), || format!("{what}: the products as a whole"))?;
    let mut roots = vec![Some(a.roots.len() == b.roots.len())];
    for (g, x) in &a.roots {
        match b.roots.get(g) {
            Some(y) => {
                let v = same_node(x, y);
                expect(k, *x, *y, v, || format!("{what}: the tree below {g:?}"))?;
                roots.push(v);
            }
            None => roots.push(Some(false)),
        }
    }
    let data = a.data.len() == b.data.len() && a.data.iter().all(|(g, l)| b.data.get(g).map_or(false, |m| same_products(l, m)));
    expect(k, &a.data, &b.data, Some(data), || format!("{what}: posting lists"))?;
    roots.push(Some(data));
    roots.push(Some(container));
    expect(k, a, b, all_of(roots), || format!("{what}: the n-gram index"))?;
    for (x, y) in ac.categories.0.iter().zip(&bc.categories.0) {
        for (o, p) in x.options.iter().zip(&y.options) {
            expect(k, o, p, Some(same_option(o, ca, p, cb)), || format!("{what}: options {:?} and {:?}", o.name, p.name))?;
        }
        expect(k, x, y, Some(same_category(x, ca, y, cb)), || format!("{what}: groups {:?} and {:?}", x.name, y.name))?;
    }
    let cats = ac.categories.0.len() == bc.categories.0.len() && ac.categories.0.iter().zip(&bc.categories.0).all(|(x, y)| same_category(x, ca, y, cb));
    expect(k, &ac.categories, &bc.categories, Some(cats), || format!("{what}: all groups"))?;
    for (i, (x, y)) in ac.tags.iter().zip(bc.tags.iter()).enumerate() {
        expect(k, x, y, Some(same_tag(x, ca, y, cb)), || format!("{what}: tag {i}, {:?} and {:?}", x.name, y.name))?;
    }
    let tags = ac.tags.iter().count() == bc.tags.iter().count() && ac.tags.iter().zip(bc.tags.iter()).all(|(x, y)| same_tag(x, ca, y, cb));
    expect(k, &ac.tags, &bc.tags, Some(tags), || format!("{what}: all tags"))?;
    let order = same_order(&ac.order, &bc.order);
    expect(k, &ac.order, &bc.order, Some(order), || format!("{what}: orders"))?;
    expect(k, ac, bc, Some(cats && tags && order), || format!("{what}: options, tags and orders"))
}

/// Features and vendors made by hand, in one or another sequence, with one difference or none.
fn c36_features(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    #[derive(Clone, PartialEq, Debug)]
    enum Col {
        Int(Vec<u32>),
        Float(Vec<f32>),
        Text(Vec<String>),
    }
    let keys = ["a", "b", "price", "", "Price"];
    let mut cols: Vec<(&str, Col)> = Vec::new();
    for k in keys {
        if s.chance(1, 2) {
            let len = s.range(1, 4);
            let col = match s.below(3) {
                0 => Col::Int((0..len).map(|_| *s.pick(&[0, 1, 2, 256, 257, u32::MAX])).collect()),
                1 => Col::Float((0..len).map(|_| *s.pick(&[1.0, 1.5, 2.0, 1.0e-40, f32::MAX])).collect()),
                _ => Col::Text((0..len).map(|_| s.pick(&["", "1", "a", "A", "aa"]).to_string()).collect()),
            };
            cols.push((k, col));
        }
    }
    let mut other = cols.clone();
    if !other.is_empty() {
        let i = s.below(other.len());
        match s.below(6) {
            0 => {
                other.remove(i);
            }
            1 => match &mut other[i].1 {
                Col::Int(v) => v.push(1),
                Col::Float(v) => v.push(1.0),
                Col::Text(v) => v.push(String::new()),
            },
            2 => {
                let Some(k) = keys.iter().find(|k| !cols.iter().any(|c| c.0 == **k)) else { return Ok(()) };
                other[i].0 = k;
            }
            3 => match &mut other[i].1 {
                Col::Int(v) => {
                    let j = s.below(v.len());
                    v[j] ^= *s.pick(&[1, 256, 65_536, 1 << 31]);
                }
                Col::Float(v) => {
                    let j = s.below(v.len());
                    v[j] = f32::from_bits(v[j].to_bits() ^ 1);
                }
                Col::Text(v) => {
                    let j = s.below(v.len());
                    v[j].push('x');
                }
            },
            4 => {
                other[i].1 = match &other[i].1 {
                    Col::Int(v) => Col::Float(v.iter().map(|x| *x as f32).collect()),
                    Col::Float(v) => Col::Int(v.iter().map(|x| *x as u32).collect()),
                    Col::Text(v) => Col::Int(v.iter().map(|x| x.len() as u32).collect()),
                };
            }
            _ => {}
        }
    }
    let make = |cols: &[(&str, Col)]| {
        let mut f = FeatureSet::new_empty();
        for (k, c) in cols {
            match c {
                Col::Int(v) => v.iter().for_each(|x| f.add_int(k, *x)),
                Col::Float(v) => v.iter().for_each(|x| f.add_float(k, *x)),
                Col::Text(v) => v.iter().for_each(|x| f.add_string(k, x.clone())),
            }
        }
        f
    };
    let want = {
        let (mut x, mut y) = (cols.clone(), other.clone());
        x.sort_by_key(|c| c.0);
        y.sort_by_key(|c| c.0);
        x == y
    };
    let order = s.permutation(other.len());
    let shuffled: Vec<(&str, Col)> = order.iter().map(|i| other[*i].clone()).collect();
    let mut k = Comparisons { made: 0, equal: 0, different: 0 };
    let shown = format!("features {cols:?} and {shuffled:?}");
    expect(&mut k, &make(&cols), &make(&shuffled), Some(want), || shown.clone())?;
    ctx.inner += k.made;
    Ok(())
}

/// Small trees made by hand, with frequencies that differ as little as they can.
fn c36_nodes(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    #[derive(Clone, Debug)]
    struct Plan {
        item: char,
        weight: f32,
        below: Vec<Plan>,
    }
    fn plan(s: &mut Src, depth: usize) -> Plan {
        let weight = match s.below(3) {
            0 => *s.pick(&[0.0, 1.0, 0.5, 1.0e-3, 1.0e-6, 1.0e-30, 1.0 / 3.0]),
            1 => s.range(1, 40) as f32 / s.range(40, 100_000) as f32,
            _ => f32::from_bits(s.range(0x3000_0000, 0x3f80_0000) as u32),
        };
        let n = if depth == 0 { 0 } else { s.below(4) };
        let mut below: Vec<Plan> = Vec::new();
        for _ in 0..n {
            let p = plan(s, depth - 1);
            if below.iter().all(|q| q.item != p.item) {
                below.push(p);
            }
        }
        Plan { item: *s.pick(&['a', 'b', 'c', 'é', '\0']), weight, below }
    }
    fn change(s: &mut Src, p: &mut Plan) {
        match s.below(5) {
            0 if !p.below.is_empty() => {
                let i = s.below(p.below.len());
                change(s, &mut p.below[i]);
            }
            1 if !p.below.is_empty() => {
                let i = s.below(p.below.len());
                p.below.remove(i);
            }
            2 => p.item = if p.item == 'x' { 'y' } else { 'x' },
            // The next number.
            3 => p.weight = f32::from_bits(p.weight.to_bits() + 1),
            _ => p.weight = if p.weight == 0.0 { 0.25 } else { p.weight * 0.999 },
        }
    }
    fn make<'a>(p: &Plan, nodes: &'a Nodes<'a>) -> &'a GramNode<'a, char> {
        let by_occurances: Vec<&GramNode<'_, char>> = p.below.iter().map(|q| make(q, nodes)).collect();
        let items = by_occurances.iter().map(|n| (n.item, *n)).collect();
        nodes.alloc(GramNode { item: p.item, weight: p.weight, by_occurances, items })
    }
    let first = plan(s, 3);
    let mut second = first.clone();
    if s.chance(3, 4) {
        change(s, &mut second);
    }
    let nodes = Arena::new();
    let (a, b) = (make(&first, &nodes), make(&second, &nodes));
    let mut k = Comparisons { made: 0, equal: 0, different: 0 };
    expect(&mut k, a, b, same_node(a, b), || format!("trees {first:?} and {second:?}"))?;
    ctx.inner += k.made;
    Ok(())
}

// --- C37 and C38 -----------------------------------------------------------------------------

/// A question to the engine: a search by fresh handlers, in terms of names.
#[derive(Clone, Debug, PartialEq)]
struct Question {
    text: String,
    options: Vec<(String, String)>,
    tags: Vec<String>,
    order: Option<String>,
    /// Bounds of the price.
    price: Option<(f64, f64)>,
}

fn price_filter(price: Option<(f64, f64)>) -> Object {
    let o = Object::new();
    if let Some((from, to)) = price {
        let inner = Object::new();
        let _ = Reflect::set(inner.as_ref(), &"from".into(), &JsValue::from_f64(from));
        let _ = Reflect::set(inner.as_ref(), &"to".into(), &JsValue::from_f64(to));
        let _ = Reflect::set(o.as_ref(), &"price".into(), inner.as_ref());
    }
    o
}

fn a_question(s: &mut Src, c: &[Prod], texts: &[String]) -> Question {
    let mut q = Question { text: s.pick(texts).clone(), options: vec![], tags: vec![], order: None, price: None };
    if let Some(p) = c.get(s.below(c.len().max(1))) {
        if s.chance(1, 3) {
            if let Some((g, v)) = p.options.first() {
                q.options.extend(v.first().map(|v| (g.clone(), v.clone())));
            }
        }
        if s.chance(1, 3) {
            q.tags.extend(p.tags.first().cloned());
        }
        if s.chance(1, 4) {
            let m = f64::from(p.price_f32());
            q.price = Some(*s.pick(&[(m, m), (m, f64::INFINITY), (f64::NEG_INFINITY, m)]));
        }
    }
    if s.chance(1, 2) {
        q.order = Some(s.pick(&ORDERS).to_string());
    }
    q
}

/// An index on the side, never given to the engine, to answer questions from.
struct Side {
    c: Vec<Prod>,
    bytes: Vec<u8>,
    index: Gi<'static, 5>,
}

fn side(c: Vec<Prod>) -> Result<Side, String> {
    let bytes = api_build(&c)?;
    let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
    let (index, _) = load::<5>(&bytes, nodes)?;
    Ok(Side { c, bytes, index })
}

impl Side {
    fn product(&self, id: &str) -> Result<&Prod, String> {
        self.c.iter().find(|p| p.id == id).ok_or_else(|| format!("product {id:?} is not in the loaded catalogue"))
    }
    /// The products to expect, with their confidence.
    fn answer(&self, q: &Question) -> Result<BTreeMap<String, f32>, String> {
        let mut out = BTreeMap::new();
        for (p, w) in self.index.search(lower(&q.text).into_iter()) {
            let x = self.product(&p.id)?;
            let price = f64::from(x.price_f32());
            if q.options.iter().all(|(g, v)| x.has_option(g, v)) && q.tags.iter().all(|t| x.has_tag(t)) && q.price.map_or(true, |(a, b)| a <= price && price <= b) {
                out.insert(p.id.clone(), w);
            }
        }
        Ok(out)
    }
    /// Whether what the engine returned answers the question.
    fn judge(&self, q: &Question, hits: &[Hit], want: &BTreeMap<String, f32>) -> CaseResult {
        let got = id_set(hits)?;
        let ids: BTreeSet<String> = want.keys().cloned().collect();
        ensure!(got == ids, "{q:?} returns {got:?}, expected {ids:?}");
        for h in hits {
            let x = self.product(&h.id)?;
            ensure!(h.title == x.title && h.price == Some(f64::from(x.price_f32())), "{q:?} returns {h:?} for {x:?}");
        }
        let ok = hits.windows(2).all(|w| match q.order.as_deref() {
            Some("Alphabetical") => w[0].title <= w[1].title,
            Some("Price low to high") => w[0].price <= w[1].price,
            Some(_) => w[0].price >= w[1].price,
            None => want[&w[1].id] <= want[&w[0].id] * 1.001,
        });
        ensure!(ok, "{q:?} returns in the wrong order {:?}, confidences {want:?}", hits.iter().map(|h| (&h.id, &h.title, h.price)).collect::<Vec<_>>());
        Ok(())
    }
    /// Ask the engine with fresh handlers.
    fn ask(&self, q: &Question) -> Result<usize, String> {
        let want = self.answer(q)?;
        let (mut ch, mut th) = handlers()?;
        for o in &q.options {
            let all = walk_categories(&ch)?;
            let item = all.iter().find(|x| x.0 == o.0 && x.1 == o.1).ok_or_else(|| format!("option {o:?} is not offered"))?;
            ch.toggle(&item.2);
        }
        for t in &q.tags {
            let all = walk_tags(&th)?;
            let item = all.iter().find(|x| x.0 == *t).ok_or_else(|| format!("tag {t:?} is not offered"))?;
            th.toggle(&item.1);
        }
        let hits = run_search(&q.text, &ch, &th, q.order.as_deref(), &price_filter(q.price), self.c.len())?.ok_or_else(|| format!("{q:?} is refused"))?;
        self.judge(q, &hits, &want)?;
        Ok(hits.len())
    }
    /// What is offered: groups and options, tags, orders.
    fn offers(&self) -> CaseResult {
        let (ch, th) = handlers()?;
        let want: BTreeSet<(String, String)> = self.c.iter().flat_map(|p| p.options.iter().flat_map(|(g, vs)| vs.iter().map(move |v| (g.clone(), v.clone())))).collect();
        let got: BTreeSet<(String, String)> = walk_categories(&ch)?.into_iter().map(|(g, v, _)| (g, v)).collect();
        ensure!(got == want, "options offered {got:?}, expected {want:?}");
        let want: BTreeSet<String> = self.c.iter().flat_map(|p| p.tags.iter().cloned()).collect();
        let got: BTreeSet<String> = walk_tags(&th)?.into_iter().map(|(n, _)| n).collect();
        ensure!(got == want, "tags offered {got:?}, expected {want:?}");
        let got: BTreeSet<String> = get_orders().ok_or("no orders")?.iter().filter_map(|o| o.as_string()).collect();
        ensure!(got == ORDERS.iter().map(|o| o.to_string()).collect(), "orders offered {got:?}");
        Ok(())
    }
    /// The suggestion for a word, of at least three characters, that is a tag: that tag, or another one
    /// that agrees with it just as well.
    fn suggestion(&self, s: usize) -> CaseResult {
        let tags: BTreeSet<&String> = self.c.iter().flat_map(|p| &p.tags).filter(|t| t.chars().count() >= 3 && !t.contains(' ')).collect();
        let Some(t) = tags.iter().nth(s % tags.len().max(1)) else {
            ensure!(tag_suggestion("").is_none(), "a suggestion for nothing");
            return Ok(());
        };
        let got = tag_suggestion(t).ok_or_else(|| format!("no suggestion for the tag {t:?}"))?;
        let name = got.get_tag().get_name();
        ensure!(self.c.iter().any(|p| p.has_tag(&name)) && got.get_input() == **t, "for {t:?} the tag {name:?} is suggested, because of {:?}", got.get_input());
        let agree = name.chars().zip(t.chars()).all(|(a, b)| a == b);
        ensure!(agree, "for the tag {t:?} the tag {name:?} is suggested");
        Ok(())
    }
}

fn small_catalog(s: &mut Src, k: usize, max: usize) -> (Vec<Prod>, gen::TextGen) {
    let (mut c, tg) = catalog(s, &CatOpts { text: 12, max_products: max, min_products: 2, scale: false, ..CatOpts::default() });
    for p in &mut c {
        p.id = format!("k{k}-{}", p.id);
    }
    (c, tg)
}

/// What an observer does when it is called.
#[derive(Clone, Debug)]
enum Deed {
    Ask(Question),
    Offers,
    Suggest(usize),
    /// Load one of the catalogues.
    Load(usize),
    /// Toggle something on a second page of the site, which has observers of its own.
    Toggle(bool, usize),
    /// Go on reading a result list.
    Read,
    /// Index a catalogue, without loading it.
    Index(usize),
    /// Fail to load.
    BadLoad(usize),
    Throw,
}

struct World {
    sides: Vec<Side>,
    loaded: std::cell::Cell<usize>,
    second: RefCell<(CategoryHandler, Vec<ExportCategoryOption>, BTreeSet<usize>, TagHandler, Vec<JSTag>, BTreeSet<usize>)>,
    list: RefCell<(indexer_lib::js_interactable::ProductProducer, BTreeSet<String>)>,
    errors: RefCell<Vec<String>>,
    /// Calls of observers, by number, with the state they were told.
    calls: RefCell<Vec<(usize, Option<bool>)>>,
    answered: std::cell::Cell<u64>,
    /// What the watchers of the second page were told: whether of a tag, and the state.
    watched: Rc<RefCell<Vec<(bool, Option<bool>)>>>,
    deeds: std::cell::Cell<u64>,
}

impl World {
    fn act(&self, d: &Deed) -> CaseResult {
        self.deeds.set(self.deeds.get() + 1);
        let side = &self.sides[self.loaded.get()];
        match d {
            Deed::Ask(q) => {
                // The question may be about the other catalogue, where its options do not exist.
                let mut q = q.clone();
                q.options.retain(|(g, v)| side.c.iter().any(|p| p.has_option(g, v)));
                q.tags.retain(|t| side.c.iter().any(|p| p.has_tag(t)));
                if side.ask(&q)? > 0 {
                    self.answered.set(self.answered.get() + 1);
                }
                Ok(())
            }
            Deed::Offers => side.offers(),
            Deed::Suggest(k) => side.suggestion(*k),
            Deed::Load(k) => {
                ensure!(initialize(&self.sides[*k].bytes), "loading a saved index reported failure");
                self.loaded.set(*k);
                Ok(())
            }
            Deed::BadLoad(k) => {
                let b = &self.sides[*k].bytes;
                ensure!(!matches!(no_panic(|| initialize(&b[..b.len() - 1])), Ok(true)), "an incomplete index was loaded");
                Ok(())
            }
            Deed::Index(k) => {
                ensure!(indexer_lib::index(&gen::json_map(&self.sides[*k].c)).is_some(), "indexing reported failure");
                Ok(())
            }
            Deed::Toggle(tag, i) => {
                // Busy if an observer of the second page itself is at work.
                let Ok(mut page) = self.second.try_borrow_mut() else { return Ok(()) };
                let p = &mut *page;
                self.watched.borrow_mut().clear();
                let told = |state: bool| {
                    let w = self.watched.borrow();
                    ensure!(*w == [(*tag, Some(state))], "the observer of the second page was told {w:?}, expected {state}");
                    Ok(())
                };
                if *tag {
                    if !p.4.is_empty() {
                        let i = i % p.4.len();
                        p.3.toggle(&p.4[i]);
                        if !p.5.remove(&i) {
                            p.5.insert(i);
                        }
                        ensure!(p.3.get_status(&p.4[i]) == p.5.contains(&i), "tag {i} of the second page has the wrong state");
                        told(p.5.contains(&i))?;
                    }
                } else if !p.1.is_empty() {
                    let i = i % p.1.len();
                    p.0.toggle(&p.1[i]);
                    if !p.2.remove(&i) {
                        p.2.insert(i);
                    }
                    ensure!(p.0.get_status(&p.1[i]) == p.2.contains(&i), "option {i} of the second page has the wrong state");
                    told(p.2.contains(&i))?;
                }
                Ok(())
            }
            Deed::Read => {
                let Ok(mut l) = self.list.try_borrow_mut() else { return Ok(()) };
                if let Some(p) = l.0.next_product() {
                    let id = p.get_id();
                    ensure!(l.1.remove(&id), "the result list gives {id:?} twice or without reason");
                    ensure!(!p.get_title().is_empty() || self.sides[0].product(&id)?.title.is_empty(), "the result {id:?} has no title");
                } else {
                    ensure!(l.1.is_empty(), "the result list ends before {:?}", l.1);
                }
                Ok(())
            }
            Deed::Throw => Ok(()),
        }
    }
}

fn c37(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut sides = Vec::new();
    let mut texts: Vec<Vec<String>> = Vec::new();
    for k in 0..s.range(1, 2) {
        let (c, tg) = small_catalog(s, k, 6);
        let mut t: Vec<String> = (0..3).map(|_| query(s, &c, &tg, 2)).collect();
        let full = s.pick(&c).text();
        t.push(full.iter().take(s.range(5, 12)).collect());
        t.push(full.iter().collect());
        texts.push(t);
        sides.push(side(c)?);
    }
    ensure!(no_panic(|| initialize(&sides[0].bytes))?, "loading a saved index reported failure");
    let (mut ch2, mut th2) = handlers()?;
    let watched: Rc<RefCell<Vec<(bool, Option<bool>)>>> = Rc::default();
    for tag in [false, true] {
        let watched = watched.clone();
        let f = Function::native(move |_, args| {
            watched.borrow_mut().push((tag, args.first().and_then(JsValue::as_bool)));
            Ok(JsValue::UNDEFINED)
        });
        if tag {
            th2.add_general_observer(f);
        } else {
            ch2.add_general_observer(f);
        }
    }
    let (mut ch, mut th) = handlers()?;
    let options: Vec<ExportCategoryOption> = walk_categories(&ch)?.into_iter().map(|x| x.2).collect();
    let options2: Vec<ExportCategoryOption> = walk_categories(&ch2)?.into_iter().map(|x| x.2).collect();
    let tags: Vec<JSTag> = walk_tags(&th)?.into_iter().map(|x| x.1).collect();
    let tags2: Vec<JSTag> = walk_tags(&th2)?.into_iter().map(|x| x.1).collect();
    let text = s.pick(&texts[0]).clone();
    let expected: BTreeSet<String> = sides[0].answer(&Question { text: text.clone(), options: vec![], tags: vec![], order: None, price: None })?.into_keys().collect();
    let list = search(&text, &ch, &th, None, &Object::new()).ok_or("search returned nothing")?;
    let n_sides = sides.len();
    let world = Rc::new(World {
        sides,
        loaded: std::cell::Cell::new(0),
        second: RefCell::new((ch2, options2, BTreeSet::new(), th2, tags2, BTreeSet::new())),
        list: RefCell::new((list, expected)),
        errors: RefCell::new(Vec::new()),
        calls: RefCell::new(Vec::new()),
        answered: std::cell::Cell::new(0),
        watched: watched.clone(),
        deeds: std::cell::Cell::new(0),
    });
    // Observers and what they do when called.
    let n_observers = s.range(1, 4);
    let mut plans: Vec<Vec<Deed>> = Vec::new();
    for _ in 0..n_observers {
        let mut plan = Vec::new();
        for _ in 0..s.range(1, 3) {
            let k = s.below(n_sides);
            plan.push(match s.weighted(&[8, 2, 2, 3, 4, 2, 1, 1, 1]) {
                0 => {
                    let at = s.below(n_sides);
                    let from = if s.chance(1, 6) { k } else { at };
                    Deed::Ask(a_question(s, &world.sides[at].c, &texts[from]))
                }
                1 => Deed::Offers,
                2 => Deed::Suggest(s.below(20)),
                3 => Deed::Load(k),
                4 => Deed::Toggle(s.chance(1, 2), s.below(20)),
                5 => Deed::Read,
                6 => Deed::Index(k),
                7 => Deed::BadLoad(k),
                _ => Deed::Throw,
            });
        }
        plans.push(plan);
    }
    let functions: Vec<Function> = plans
        .iter()
        .cloned()
        .enumerate()
        .map(|(k, plan)| {
            let world = Rc::downgrade(&world);
            Function::native(move |_, args| {
                let Some(w) = world.upgrade() else { return Ok(JsValue::UNDEFINED) };
                w.calls.borrow_mut().push((k, args.first().and_then(JsValue::as_bool)));
                for d in &plan {
                    let r = match no_panic(|| w.act(d)) {
                        Ok(r) => r,
                        Err(e) => Err(format!("panic: {e}")),
                    };
                    if let Err(e) = r {
                        w.errors.borrow_mut().push(format!("observer {k} at {d:?}: {e}"));
                    }
                    if matches!(d, Deed::Throw) {
                        return Err(JsValue::from_str("no"));
                    }
                }
                Ok(JsValue::UNDEFINED)
            })
        })
        .collect();
    ctx.describe(|| format!("observers {plans:?}; {}", world.sides.iter().map(|x| show(&x.c)).collect::<Vec<_>>().join(" / ")));
    let mut steps: Vec<String> = Vec::new();
    // Observers of the second page may do anything but use that page.
    let mut registered: Vec<Vec<usize>> = vec![Vec::new(); 2];
    let mut per_option: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut per_tag: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (k, f) in functions.iter().enumerate() {
        let i = s.below(20);
        match s.below(5) {
            0 => {
                ch.add_general_observer(f.clone());
                registered[0].push(k);
            }
            1 => {
                th.add_general_observer(f.clone());
                registered[1].push(k);
            }
            2 if !options.is_empty() => {
                ch.add_option_lister(&options[i % options.len()], f.clone());
                per_option.entry(i % options.len()).or_default().push(k);
            }
            3 if !tags.is_empty() => {
                th.add_tag_lister(&tags[i % tags.len()], f.clone());
                per_tag.entry(i % tags.len()).or_default().push(k);
            }
            _ => {
                ch.add_general_observer(f.clone());
                th.add_general_observer(f.clone());
                registered[0].push(k);
                registered[1].push(k);
            }
        }
        if s.chance(1, 4) {
            let mut page = world.second.borrow_mut();
            page.0.add_general_observer(f.clone());
            page.3.add_general_observer(f.clone());
            ctx.label("observers on both pages");
        }
    }
    let (mut on, mut ton) = (BTreeSet::new(), BTreeSet::new());
    for _ in 0..s.range(2, 8) {
        let i = s.below(20);
        let (state, mut want) = if s.chance(1, 2) {
            if options.is_empty() {
                continue;
            }
            let i = i % options.len();
            steps.push(format!("toggle option {i}"));
            world.calls.borrow_mut().clear();
            no_panic(|| ch.toggle(&options[i])).map_err(|e| format!("{steps:?}: {e}"))?;
            if !on.remove(&i) {
                on.insert(i);
            }
            ensure!(options.iter().enumerate().all(|(j, o)| ch.get_status(o) == on.contains(&j)), "{steps:?}: wrong options are active");
            (on.contains(&i), registered[0].iter().chain(per_option.get(&i).into_iter().flatten()).copied().collect::<Vec<_>>())
        } else {
            if tags.is_empty() {
                continue;
            }
            let i = i % tags.len();
            steps.push(format!("toggle tag {i}"));
            world.calls.borrow_mut().clear();
            no_panic(|| th.toggle(&tags[i])).map_err(|e| format!("{steps:?}: {e}"))?;
            if !ton.remove(&i) {
                ton.insert(i);
            }
            ensure!(tags.iter().enumerate().all(|(j, t)| th.get_status(t) == ton.contains(&j)), "{steps:?}: wrong tags are active");
            (ton.contains(&i), registered[1].iter().chain(per_tag.get(&i).into_iter().flatten()).copied().collect::<Vec<_>>())
        };
        // Every observer of this page was called, whatever the others did meanwhile.
        want.sort_unstable();
        let calls = world.calls.borrow();
        for k in 0..n_observers {
            let due = want.iter().filter(|x| **x == k).count();
            let told = calls.iter().filter(|c| c.0 == k && c.1 == Some(state)).count();
            ensure!(told >= due, "{steps:?}: observer {k} was told {told} times that the state is {state}, expected {due}");
        }
        drop(calls);
        let errors = world.errors.borrow();
        ensure!(errors.is_empty(), "{steps:?}: {}", errors.join("; "));
        drop(errors);
        // In service afterwards.
        let at = world.loaded.get();
        let q = a_question(s, &world.sides[at].c, &texts[at]);
        world.sides[at].ask(&q).map_err(|e| format!("{steps:?}: afterwards: {e}"))?;
    }
    ctx.inner += world.deeds.get();
    ctx.nontrivial = world.answered.get() > 0;
    ctx.label_if(world.loaded.get() != 0, "another index loaded by an observer");
    Ok(())
}

// --- C38 -------------------------------------------------------------------------------------

struct Page {
    ch: CategoryHandler,
    options: Vec<(String, String, ExportCategoryOption)>,
    on: BTreeSet<usize>,
    th: TagHandler,
    tags: Vec<(String, JSTag)>,
    ton: BTreeSet<usize>,
}

fn c38(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let large = s.chance(1, 25);
    let (c, tg) = if large {
        catalog(s, &CatOpts { text: 8, large: true, max_products: 60, min_products: 30, ..CatOpts::default() })
    } else {
        small_catalog(s, 0, 10)
    };
    // Few questions, so that they come back.
    let mut texts: Vec<String> = (0..s.range(2, 4)).map(|_| query(s, &c, &tg, 3)).collect();
    if s.chance(1, 2) {
        // Texts that are easily mistaken for one another.
        let t = s.pick(&texts).clone();
        texts.push(twin(s, &t));
    }
    // The beginning of a text, as a visitor would type it.
    let full: Vec<char> = c.get(s.below(c.len().max(1))).map(|p| p.text()).unwrap_or_default();
    texts.push(full.iter().take(s.range(5, 12)).collect());
    if s.chance(1, 4) {
        // The text of a product, ever more of it, as if typed.
        let t: Vec<char> = c.first().map(|p| p.title.chars().collect()).unwrap_or_default();
        texts.extend((1..=t.len().min(8)).map(|k| t[..k].iter().collect::<String>()));
    }
    let prices: Vec<Option<(f64, f64)>> = {
        let m = c.get(s.below(c.len().max(1))).map_or(100.0, |p| f64::from(p.price_f32()));
        vec![None, None, Some((m, m)), Some((m, f64::INFINITY)), Some((f64::NEG_INFINITY, m)), Some((m, m - 1.0))]
    };
    let all_tags: BTreeSet<String> = c.iter().flat_map(|p| p.tags.iter().cloned()).collect();
    let words: Vec<String> = (0..4)
        .map(|_| {
            let tag = c.get(s.below(c.len().max(1))).and_then(|p| p.tags.last().cloned()).unwrap_or_else(|| "poster".into());
            // Words, so that they can be put together; some are misspelt.
            let mut w: Vec<char> = tag.replace(' ', "").chars().collect();
            if !w.is_empty() && s.chance(1, 2) {
                let i = s.below(w.len());
                w[i] = 'x';
            }
            w.into_iter().collect()
        })
        .collect();
    ctx.describe(|| format!("texts {texts:?}; {}", show(&c)));
    // The same catalogue with something changed, or another one.
    let other = if large || s.chance(1, 2) { small_catalog(s, 0, 6).0 } else { c36_change(s, &c).0 };
    let other = self::side(other)?;
    let side = side(c)?;
    ensure!(no_panic(|| initialize(&side.bytes))?, "loading a saved index reported failure");
    let mut reloaded = false;
    let pages = s.range(1, 3);
    let mut page: Vec<Page> = Vec::new();
    for _ in 0..pages {
        let (ch, th) = handlers()?;
        let options = walk_categories(&ch)?;
        let tags = walk_tags(&th)?;
        page.push(Page { ch, options, on: BTreeSet::new(), th, tags, ton: BTreeSet::new() });
    }
    let mut scores: BTreeMap<String, BTreeMap<String, f32>> = BTreeMap::new();
    let mut suggested: BTreeMap<String, Option<(String, String)>> = BTreeMap::new();
    let mut asked: BTreeSet<String> = BTreeSet::new();
    let mut steps: Vec<String> = Vec::new();
    let mut again = false;
    let mut recent: Vec<(String, Option<String>, Option<(f64, f64)>)> = Vec::new();
    let mut open: Vec<(indexer_lib::js_interactable::ProductProducer, BTreeSet<String>, String)> = Vec::new();
    // Few items, so that selections come back.
    let picks: Vec<usize> = (0..3).map(|_| s.below(40)).collect();
    let long = s.chance(1, 50);
    for _ in 0..if long { s.range(80, 300) } else { s.range(8, 30) } {
        let k = s.below(pages);
        let p = &mut page[k];
        match s.weighted(&[12, 6, 2, 1, 2, 3, 1, 1, 1]) {
            0 => {
                let (text, order, price) = if !recent.is_empty() && s.chance(3, 5) {
                    s.pick(&recent).clone()
                } else {
                    let order = match s.below(3) {
                        0 => None,
                        _ => Some(s.pick(&ORDERS).to_string()),
                    };
                    (s.pick(&texts).clone(), order, *s.pick(&prices))
                };
                recent.push((text.clone(), order.clone(), price));
                let q = Question {
                    text: text.clone(),
                    options: p.on.iter().map(|i| (p.options[*i].0.clone(), p.options[*i].1.clone())).collect(),
                    tags: p.ton.iter().map(|i| p.tags[*i].0.clone()).collect(),
                    order,
                    price,
                };
                let all = match scores.get(&text) {
                    Some(a) => a.clone(),
                    None => {
                        let a = side.answer(&Question { options: vec![], tags: vec![], order: None, price: None, ..q.clone() })?;
                        scores.insert(text.clone(), a.clone());
                        a
                    }
                };
                let mut want = BTreeMap::new();
                for (id, w) in all {
                    let x = side.product(&id)?;
                    let price = f64::from(x.price_f32());
                    if q.options.iter().all(|(g, v)| x.has_option(g, v)) && q.tags.iter().all(|t| x.has_tag(t)) && q.price.map_or(true, |(a, b)| a <= price && price <= b) {
                        want.insert(id, w);
                    }
                }
                steps.push(format!("page {k}: {q:?}"));
                if s.chance(1, 6) {
                    // Read later.
                    let l = no_panic(|| search(&text, &p.ch, &p.th, q.order.clone(), &price_filter(q.price)))?.ok_or_else(|| format!("{steps:?}: refused"))?;
                    open.push((l, want.into_keys().collect(), format!("{q:?}")));
                    continue;
                }
                let hits = no_panic(|| run_search(&text, &p.ch, &p.th, q.order.as_deref(), &price_filter(q.price), side.c.len()))??.ok_or_else(|| format!("{steps:?}: refused"))?;
                side.judge(&q, &hits, &want).map_err(|e| format!("after {} steps {:?}: {e}", steps.len(), &steps[steps.len().saturating_sub(12)..]))?;
                again |= !asked.insert(format!("{q:?}")) && !hits.is_empty();
                ctx.inner += 1;
            }
            1 => {
                let i = *s.pick(&picks);
                if s.chance(1, 2) {
                    if !p.options.is_empty() {
                        let i = i % p.options.len();
                        steps.push(format!("page {k}: toggle option {i}"));
                        p.ch.toggle(&p.options[i].2);
                        if !p.on.remove(&i) {
                            p.on.insert(i);
                        }
                    }
                } else if !p.tags.is_empty() {
                    let i = i % p.tags.len();
                    steps.push(format!("page {k}: toggle tag {i}"));
                    p.th.toggle(&p.tags[i].1);
                    if !p.ton.remove(&i) {
                        p.ton.insert(i);
                    }
                }
            }
            2 => {
                // One word or two of the same few, as a query that is typed on.
                let k = s.weighted(&[3, 3, 1]) + 1;
                let w = (0..k).map(|_| s.pick(&words).as_str()).collect::<Vec<_>>().join(" ");
                steps.push(format!("suggest for {w:?}"));
                let got = no_panic(|| tag_suggestion(&w).map(|t| (t.get_tag().get_name(), t.get_input())))?;
                let (best, pairs, _) = agreements(&all_tags, &w);
                let good = match (&got, best) {
                    (None, None) => true,
                    (Some((t, i)), Some((a, b))) => pairs.iter().any(|(x, y, pw, pt)| pw == i && pt == t && x * b == a * y),
                    _ => false,
                };
                ensure!(good, "{steps:?}: the suggestion for {w:?} is {got:?}, the best agreement {best:?}");
                if let Some(first) = suggested.get(&w) {
                    ensure!(*first == got, "{steps:?}: the suggestion for {w:?} was {first:?} and is now {got:?}");
                    again |= got.is_some();
                }
                suggested.insert(w, got);
            }
            3 => {
                steps.push("offers".into());
                side.offers().map_err(|e| format!("{steps:?}: {e}"))?;
            }
            4 => {
                // An order that is not offered.
                steps.push("search in an order that does not exist".into());
                let text = s.pick(&texts).clone();
                no_panic(|| search(&text, &p.ch, &p.th, Some("Newest".into()), &Object::new()).is_some())?;
            }
            5 => {
                if open.is_empty() {
                    continue;
                }
                let i = s.below(open.len());
                let (l, left, q) = &mut open[i];
                match no_panic(|| l.next_product().map(|p| p.get_id()))? {
                    Some(id) => ensure!(left.remove(&id), "{steps:?}: the list for {q} gives {id:?} twice or without reason"),
                    None => {
                        ensure!(left.is_empty(), "{steps:?}: the list for {q} ends before {left:?}");
                        open.swap_remove(i);
                    }
                }
            }
            6 => {
                steps.push(format!("page {k}: opened anew"));
                let (ch, th) = handlers()?;
                (p.ch, p.th) = (ch, th);
                p.on.clear();
                p.ton.clear();
            }
            8 => {
                // Another index in between, asked the same; then the first one again, all pages opened anew.
                steps.push("another index loaded, and the first one again".into());
                ensure!(no_panic(|| initialize(&other.bytes))?, "loading a saved index reported failure");
                let q = Question { text: s.pick(&texts).clone(), options: vec![], tags: vec![], order: None, price: None };
                other.ask(&q).map_err(|e| format!("{steps:?}: the other index: {e}"))?;
                other.offers().map_err(|e| format!("{steps:?}: the other index: {e}"))?;
                ensure!(no_panic(|| initialize(&side.bytes))?, "loading a saved index reported failure");
                for p in &mut page {
                    let (ch, th) = handlers()?;
                    p.options = walk_categories(&ch)?;
                    p.tags = walk_tags(&th)?;
                    (p.ch, p.th) = (ch, th);
                    p.on.clear();
                    p.ton.clear();
                }
                reloaded = true;
            }
            _ => {
                let f = Function::native(|_, _| Ok(JsValue::UNDEFINED));
                p.ch.add_general_observer(f.clone());
                p.th.add_general_observer(f);
            }
        }
        for (k, p) in page.iter().enumerate() {
            for i in p.on.iter().chain(&picks).filter(|_| !p.options.is_empty()) {
                let i = i % p.options.len();
                ensure!(p.ch.get_status(&p.options[i].2) == p.on.contains(&i), "{steps:?}: page {k} has the wrong state for option {i}");
            }
            for i in p.ton.iter().chain(&picks).filter(|_| !p.tags.is_empty()) {
                let i = i % p.tags.len();
                ensure!(p.th.get_status(&p.tags[i].1) == p.ton.contains(&i), "{steps:?}: page {k} has the wrong state for tag {i}");
            }
        }
    }
    ctx.nontrivial = again;
    ctx.label_if(large, "large catalogue");
    ctx.label_if(long, "long session");
    ctx.label_if(pages > 1, "several pages");
    ctx.label_if(reloaded, "another index in between");
    Ok(())
}

#[allow(unused)]
fn unused() {
    let _ = optimize;
}

//! Access to the code under test, through its public interface only.
use crate::engine::{no_panic, Ctx};
use crate::gen::{self, Prod};
use crate::src::Src;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{optimize, Feature, FeatureValue, Product, ProductContainer, RawProduct, SuperAlloc};
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};
use indexer_lib::ngram::{GramIndex, GramNode, IndexFeed};
use indexer_lib::serialize::deserialize_all;
use std::collections::{BTreeMap, BTreeSet};

pub use crate::engine::CaseResult;

pub type Gi<'a, const N: usize> = GramIndex<'a, char, Product<'a>, N>;
pub type Nodes<'a> = Arena<GramNode<'a, char>>;
pub type Ci<'a> = ClassicIndexes<'a>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => { if !$cond { return Err(format!($($arg)+)); } };
}

/// Call `$f::<N>(args)` for a run-time gram size between 1 and 9.
#[macro_export]
macro_rules! dispatch {
    ($n:expr, $f:ident, $($arg:expr),*) => {
        match $n {
            1 => $f::<1>($($arg),*),
            2 => $f::<2>($($arg),*),
            3 => $f::<3>($($arg),*),
            4 => $f::<4>($($arg),*),
            5 => $f::<5>($($arg),*),
            6 => $f::<6>($($arg),*),
            7 => $f::<7>($($arg),*),
            8 => $f::<8>($($arg),*),
            9 => $f::<9>($($arg),*),
            n => panic!("gram size {n}"),
        }
    };
}

/// Gram size of a case: the size of the public interface most often.
pub fn gram_size(s: &mut Src) -> usize {
    [5, 3, 4, 2, 6, 8, 1, 7, 9][s.weighted(&[8, 4, 3, 2, 3, 2, 1, 1, 1])]
}

pub fn leak_alloc() -> &'static SuperAlloc {
    Box::leak(Box::new(SuperAlloc::new()))
}

pub fn raws(json: &str) -> Result<Vec<RawProduct<'_>>, String> {
    serde_json::from_str(json).map_err(|e| format!("a well-formed catalogue was refused: {e}"))
}

/// The catalogue built and saved, with its products in the given order.
pub fn build<const N: usize>(c: &[Prod]) -> Result<Vec<u8>, String> {
    let json = gen::json_list(c);
    let raw = raws(&json)?;
    no_panic(|| indexer_lib::index_and_serialize_with_n::<N>(raw, leak_alloc()).map_err(|e| e.to_string()))
        .unwrap_or_else(Err)
        .map_err(|e| format!("building the index failed: {e}"))
}

pub fn load<'a, const N: usize>(bytes: &[u8], nodes: &'a Nodes<'a>) -> Result<(Gi<'a, N>, Ci<'a>), String> {
    deserialize_all(bytes, nodes, leak_alloc()).ok_or_else(|| "a saved index did not load".to_string())
}

/// Build without saving, the same way the crate's own pipeline does.
pub fn direct<'a, const N: usize>(c: &[Prod], nodes: &'a Nodes<'a>) -> Result<(Gi<'a, N>, Ci<'static>), String> {
    let json = gen::json_list(c);
    let raw = raws(&json)?;
    let (prods, classic) = optimize(raw, leak_alloc());
    let feed = prods.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name]
            .into_iter()
            .flat_map(|s| s.chars())
            .flat_map(char::to_lowercase),
    });
    let index: Gi<'a, N> = GramIndex::index_from(feed, nodes, prods);
    Ok((index, classic))
}

pub fn save<const N: usize>(index: &Gi<'_, N>, classic: &Ci<'_>) -> Vec<u8> {
    indexer_lib::serialize::serialize_all(index, classic)
}

// ---------------------------------------------------------------------------------------------
// Descriptions of the parts of an index, as plain data.

/// The prefix of a text that is stored for a byte limit.
pub fn shortened(text: &str, limit: usize) -> &str {
    let Some((cut, _)) = text.char_indices().find(|(i, _)| *i > limit) else { return text };
    match text.char_indices().filter(|(i, c)| *i > 0 && *i <= limit && *c == ' ').last() {
        Some((i, _)) => &text[..i],
        None => &text[..cut],
    }
}

pub fn float_of(c: &ProductContainer<'_>, p: &Product<'_>, key: &str) -> Option<f32> {
    match c.extra_features.get(p, key) {
        Some(FeatureValue::Float(f)) => Some(f),
        Some(FeatureValue::Integer(i)) => Some(i as f32),
        _ => None,
    }
}
pub fn string_of(c: &ProductContainer<'_>, p: &Product<'_>, key: &str) -> Option<String> {
    match c.extra_features.get(p, key) {
        Some(FeatureValue::String(s)) => Some(s.to_string()),
        _ => None,
    }
}

/// Products, vendors and features, in catalogue order.
pub fn dump_container(c: &ProductContainer<'_>, short: bool) -> String {
    let mut out = String::new();
    let names: std::collections::HashSet<&str> = c.vendors.by_id.iter().map(|v| v.name.as_str()).collect();
    for (i, v) in c.vendors.by_id.iter().enumerate() {
        out += &format!("vendor {i} {} {:?} {}\n", v.id, v.name, c.vendors.by_id[v.id].name == v.name);
        // Looked up by name, each vendor is found, and nothing else is.
        if c.vendors.get(&v.name).map_or(true, |w| w.id != v.id || w.name != v.name) {
            out += "vendor not found by its name\n";
        }
        for other in [format!("{} ", v.name), format!("{}\u{1}", v.name)] {
            if c.vendors.get(&other).is_some() != names.contains(other.as_str()) {
                out += "vendor found by another name\n";
            }
        }
    }
    for (i, p) in c.products.iter().enumerate() {
        let d = if short { shortened(&p.description, 100) } else { &p.description };
        out += &format!("product {i} {} {:?} {:?} {:?} {:?} {}\n", p.serialization_id, p.id, p.title, d, p.vendor.name, p.vendor.id);
    }
    for key in ["price", "image_url"] {
        out += &match c.extra_features.get_feature(key) {
            None => format!("{key} none\n"),
            Some(Feature::String(l)) => format!("{key} strings {l:?}\n"),
            Some(Feature::Float(l)) => format!("{key} floats {:?}\n", l.iter().map(|f| f.to_bits()).collect::<Vec<_>>()),
            Some(Feature::Integer(l)) => format!("{key} integers {l:?}\n"),
        };
    }
    out
}

fn dump_node(n: &GramNode<'_, char>, depth: usize, out: &mut String) {
    *out += &format!("{:depth$}{:?} {:08x} {}\n", "", n.item, n.weight.to_bits(), n.items.len());
    for c in &n.by_occurances {
        let same = n.items.get(&c.item).map_or(false, |i| std::ptr::eq(*i, *c));
        if !same {
            *out += "lookup differs from list\n";
        }
        dump_node(c, depth + 1, out);
    }
}

/// The gram tree with the order of alternatives, and the posting lists.
pub fn dump_index<const N: usize>(g: &Gi<'_, N>) -> String {
    let mut out = String::new();
    let roots: BTreeMap<char, _> = g.roots.iter().map(|(k, v)| (*k, *v)).collect();
    for (k, n) in roots {
        out += &format!("root {k:?}\n");
        dump_node(n, 1, &mut out);
    }
    for (gram, list) in postings(g) {
        out += &format!("posting {gram:?} {list:?}\n");
    }
    out
}

pub fn postings<const N: usize>(g: &Gi<'_, N>) -> BTreeMap<Vec<char>, Vec<usize>> {
    g.data.iter().map(|(k, v)| (k.to_vec(), v.iter().map(|p| p.serialization_id).collect())).collect()
}

/// Categories, tags and orders.
pub fn dump_classic(c: &Ci<'_>, container: &ProductContainer<'_>) -> String {
    let mut out = String::new();
    for cat in &c.categories.0 {
        out += &format!("category {:?} {}\n", cat.name, cat.exclusive);
        for o in &cat.options {
            let members: Vec<usize> = container.products.iter().filter(|p| o.contains(p)).map(|p| p.serialization_id).collect();
            out += &format!("  option {:?} {} {members:?}\n", o.name, o.serialization_id);
        }
    }
    for (i, t) in c.tags.iter().enumerate() {
        let members: Vec<usize> = container.products.iter().filter(|p| t.contains(p)).map(|p| p.serialization_id).collect();
        out += &format!("tag {i} {} {:?} {members:?} {}\n", t.get_id(), t.name, c.tags.get(i).map_or(false, |u| u.name == t.name));
    }
    let keys: BTreeSet<&str> = c.order.options().collect();
    for k in keys {
        out += &format!("order {k:?} {:?}\n", c.order.get_orders(k));
    }
    out
}

/// First line in which two dumps differ.
pub fn diff(a: &str, b: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return Some("line endings".into()),
            (p, q) if p != q => return Some(format!("{:?} / {:?}", p.unwrap_or("<end>"), q.unwrap_or("<end>"))),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The public, JavaScript-facing interface.

use indexer_lib::{get_categories, get_tags, initialize, search};
use js_sys::{Object, Reflect};
use wasm_bindgen::JsValue;

/// What one search returned: ids in order plus the values each product reports.
#[derive(Clone, Debug)]
pub struct Hit {
    pub id: String,
    pub title: String,
    pub description: String,
    pub price: Option<f64>,
    pub image: Option<String>,
}

pub fn api_build(c: &[Prod]) -> Result<Vec<u8>, String> {
    no_panic(|| indexer_lib::index(&gen::json_map(c)))
        .map_err(|e| format!("indexing panicked: {e}"))?
        .ok_or_else(|| "indexing a well-formed catalogue reported failure".to_string())
}
pub fn api_load(c: &[Prod]) -> Result<Vec<u8>, String> {
    let bytes = api_build(c)?;
    ensure!(no_panic(|| initialize(&bytes))?, "initialize reported failure for a saved index");
    Ok(bytes)
}

pub fn handlers() -> Result<(CategoryHandler, TagHandler), String> {
    Ok((
        get_categories().ok_or("no categories although an index is loaded")?,
        get_tags().ok_or("no tags although an index is loaded")?,
    ))
}

pub fn run_search(q: &str, c: &CategoryHandler, t: &TagHandler, order: Option<&str>, f: &Object, max: usize) -> Result<Option<Vec<Hit>>, String> {
    let Some(mut producer) = search(q, c, t, order.map(str::to_string), f) else { return Ok(None) };
    let mut out = Vec::new();
    while let Some(p) = producer.next_product() {
        out.push(Hit {
            id: p.get_id(),
            title: p.get_title(),
            description: p.get_description(),
            price: p.numeric_feature("price"),
            image: p.string_feature("image_url"),
        });
        ensure!(out.len() <= max, "the result list has more entries than there are products");
    }
    for _ in 0..2 {
        ensure!(producer.next_product().is_none(), "the result list went on after its end");
    }
    Ok(Some(out))
}

/// Search with nothing selected.
pub fn plain(q: &str, n: usize) -> Result<Vec<Hit>, String> {
    let (c, t) = handlers()?;
    run_search(q, &c, &t, None, &Object::new(), n)?.ok_or_else(|| "search returned nothing although an index is loaded".to_string())
}

pub fn ids(h: &[Hit]) -> Vec<String> {
    h.iter().map(|h| h.id.clone()).collect()
}
pub fn id_set(h: &[Hit]) -> Result<BTreeSet<String>, String> {
    let set: BTreeSet<String> = h.iter().map(|h| h.id.clone()).collect();
    ensure!(set.len() == h.len(), "a product is returned twice: {:?}", ids(h));
    Ok(set)
}

/// All options offered: (group, value, item).
pub fn walk_categories(h: &CategoryHandler) -> Result<Vec<(String, String, ExportCategoryOption)>, String> {
    let mut out = Vec::new();
    let mut it = h.iter();
    let mut groups = 0;
    while let Some(mut cat) = it.next_item() {
        groups += 1;
        ensure!(groups < 10_000, "endless category listing");
        let name = cat.name();
        while let Some(o) = cat.next_item() {
            ensure!(out.len() < 100_000, "endless option listing");
            out.push((name.clone(), o.get_name(), o));
        }
        for _ in 0..2 {
            ensure!(cat.next_item().is_none(), "option listing went on after its end");
        }
    }
    for _ in 0..2 {
        ensure!(it.next_item().is_none(), "category listing went on after its end");
    }
    Ok(out)
}
pub fn walk_groups(h: &CategoryHandler) -> Vec<String> {
    let mut it = h.iter();
    let mut out = Vec::new();
    while let Some(cat) = it.next_item() {
        if out.len() > 10_000 {
            break;
        }
        out.push(cat.name());
    }
    out
}
pub fn walk_tags(h: &TagHandler) -> Result<Vec<(String, JSTag)>, String> {
    let mut out = Vec::new();
    let mut it = h.tags();
    while let Some(t) = it.next_tag() {
        ensure!(out.len() < 100_000, "endless tag listing");
        out.push((t.get_name(), t));
    }
    for _ in 0..2 {
        ensure!(it.next_tag().is_none(), "tag listing went on after its end");
    }
    Ok(out)
}

pub const ORDERS: [&str; 3] = ["Alphabetical", "Price low to high", "Price high to low"];

/// One generated filter entry and its meaning.
#[derive(Clone, Debug)]
pub enum Cond {
    Range(Option<f64>, Option<f64>),
    ExactNum(f64),
    ExactStr(String),
    Empty,
}

#[derive(Clone, Debug)]
pub struct Filter {
    pub feature: String,
    pub cond: Cond,
    pub shown: String,
}

pub fn reported(h: &Hit, feature: &str) -> (Option<f64>, Option<String>) {
    match feature {
        "price" => (h.price, None),
        "image_url" => (None, h.image.clone()),
        _ => (None, None),
    }
}

impl Filter {
    pub fn keeps(&self, h: &Hit) -> bool {
        let (num, text) = reported(h, &self.feature);
        match &self.cond {
            Cond::Empty | Cond::Range(None, None) => true,
            Cond::Range(from, to) => num.map_or(false, |v| from.map_or(true, |f| f <= v) && to.map_or(true, |t| v <= t)),
            Cond::ExactNum(v) => num == Some(*v),
            Cond::ExactStr(v) => text.as_ref() == Some(v),
        }
    }
}

fn number_near(s: &mut Src, c: &[Prod]) -> f64 {
    let base = if c.is_empty() || s.chance(1, 6) { 100.0 } else { f64::from(s.pick(c).price_f32()) };
    match s.weighted(&[12, 3, 3, 2, 2, 1, 1, 1, 2]) {
        0 => base,
        1 => base + 1.0,
        2 => base - 0.5,
        3 => base * 2.0,
        4 => -1.0,
        // Next to the price in double precision.
        5 => f64::from_bits(base.to_bits() + 1),
        6 => f64::from_bits(base.to_bits() - u64::from(base.to_bits() > 0)),
        7 => base + 0.004,
        _ => f64::from(f32::from_bits((base as f32).to_bits().wrapping_add(1))),
    }
}

/// A bound: number, or one of the ways to leave it out.
fn bound(s: &mut Src, c: &[Prod]) -> (Option<f64>, Option<JsValue>) {
    match s.weighted(&[6, 2, 1, 1, 1, 1]) {
        0 => {
            let v = number_near(s, c);
            (Some(v), Some(JsValue::from_f64(v)))
        }
        1 => (None, None),
        2 => (None, Some(JsValue::NULL)),
        3 => (None, Some(JsValue::from_str("100"))),
        4 => {
            let v = if s.chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY };
            (Some(v), Some(JsValue::from_f64(v)))
        }
        _ => (None, Some(JsValue::from_bool(true))),
    }
}

/// A filter object on distinct features, with its meaning.
pub fn filters(s: &mut Src, c: &[Prod]) -> (Object, Vec<Filter>) {
    let obj = Object::new();
    let mut out = Vec::new();
    for feature in ["price", "image_url", "unknown"] {
        let include = match feature {
            "price" => s.chance(4, 5),
            "image_url" => s.chance(1, 3),
            _ => s.chance(1, 8),
        };
        if !include {
            continue;
        }
        let inner = Object::new();
        let set = |k: &str, v: &JsValue| {
            let _ = Reflect::set(inner.as_ref(), &k.into(), v);
        };
        let cond = match s.weighted(if feature == "image_url" { &[1, 2, 4, 1] } else { &[6, 3, 1, 1] }) {
            0 => {
                // Bounds: at least one key present.
                let (from, fj) = bound(s, c);
                let (to, tj) = bound(s, c);
                if s.chance(1, 2) {
                    if let Some(v) = &tj {
                        set("to", v);
                    }
                    if let Some(v) = &fj {
                        set("from", v);
                    }
                } else {
                    if let Some(v) = &fj {
                        set("from", v);
                    }
                    if let Some(v) = &tj {
                        set("to", v);
                    }
                }
                Cond::Range(from, to)
            }
            1 => {
                let v = number_near(s, c);
                set("exact", &JsValue::from_f64(v));
                Cond::ExactNum(v)
            }
            2 => {
                let of_a_product = |s: &mut Src| c.get(s.below(c.len().max(1))).and_then(|p| p.media.first().cloned()).unwrap_or_else(|| "x".into());
                let v = match s.below(8) {
                    0 => "https://cdn/shared.png".to_string(),
                    1 => "100".to_string(),
                    // Almost the text of a product.
                    2 | 3 => {
                        let m = of_a_product(s);
                        if m.is_ascii() && s.chance(1, 4) { m.trim_end_matches(".png").to_string() } else { gen::twin(s, &m) }
                    }
                    _ => of_a_product(s),
                };
                set("exact", &JsValue::from_str(&v));
                Cond::ExactStr(v)
            }
            _ => Cond::Empty,
        };
        let _ = Reflect::set(obj.as_ref(), &feature.into(), inner.as_ref());
        let shown = format!("{feature}: {cond:?}");
        out.push(Filter { feature: feature.to_string(), cond, shown });
    }
    (obj, out)
}

pub fn show_n(ctx: &mut Ctx, n: usize, c: &[Prod]) {
    ctx.describe(|| format!("gram size {n}; {}", gen::show(c)));
}

#![allow(dead_code, unused_imports)]
pub use colosseum::sync::Arena;
pub use indexer_lib::classic_indexes::ClassicIndexes;
pub use indexer_lib::data::{optimize, Product, ProductContainer, RawProduct, SuperAlloc};
pub use indexer_lib::js_interactable::*;
pub use indexer_lib::ngram::{GramIndex, GramNode, IndexFeed};
pub use indexer_lib::serialize::*;
pub use indexer_lib::*;
pub use js_sys::{Function, Object, Reflect};
pub use serde_json::{json, Value};
pub use wasm_bindgen::JsValue;

pub type Gi<'a, const N: usize> = GramIndex<'a, char, Product<'a>, N>;

/// A product: number, title, description, vendor.
pub fn prod(i: usize, title: &str, description: &str, vendor: &str) -> Value {
    json!({
        "id": format!("gid://shopify/Product/{}", 1000 + i), "title": title, "description": description,
        "vendor": vendor, "tags": [], "options": [], "media": [{"url": format!("https://cdn/{i}.png")}],
        "price": {"min": {"amount": "10.0", "currencyCode": "DKK"}, "max": {"amount": "10.0", "currencyCode": "DKK"}},
    })
}
pub fn with(mut p: Value, key: &str, v: Value) -> Value {
    p[key] = v;
    p
}
pub fn priced(mut p: Value, amount: &str) -> Value {
    p["price"]["min"]["amount"] = json!(amount);
    p
}
pub fn options(p: Value, list: &[(&str, &[&str])]) -> Value {
    let v: Vec<Value> = list.iter().map(|(n, vs)| json!({"name": n, "values": vs})).collect();
    with(p, "options", json!(v))
}

pub fn alloc() -> &'static SuperAlloc {
    Box::leak(Box::new(SuperAlloc::new()))
}
fn leak(json: &[Value]) -> &'static str {
    Box::leak(serde_json::to_string(json).unwrap().into_boxed_str())
}
pub fn bytes<const N: usize>(list: &[Value]) -> Vec<u8> {
    let raw: Vec<RawProduct<'static>> = serde_json::from_str(leak(list)).unwrap();
    index_and_serialize_with_n::<N>(raw, alloc()).unwrap()
}
pub fn built<const N: usize>(list: &[Value]) -> (Gi<'static, N>, ClassicIndexes<'static>) {
    let raw: Vec<RawProduct<'static>> = serde_json::from_str(leak(list)).unwrap();
    let (prods, classic) = optimize(raw, alloc());
    let feed = prods.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
    });
    let arena: &'static Arena<GramNode<'static, char>> = Box::leak(Box::new(Arena::new()));
    (GramIndex::index_from(feed, arena, prods), classic)
}
pub fn loaded<const N: usize>(b: &[u8]) -> Option<(Gi<'static, N>, ClassicIndexes<'static>)> {
    let arena: &'static Arena<GramNode<'static, char>> = Box::leak(Box::new(Arena::new()));
    deserialize_all(b, arena, alloc())
}
/// Loads into the engine.
pub fn serve(list: &[Value]) {
    assert!(initialize(&bytes::<5>(list)));
}
/// Titles found, in order.
pub fn find_with(q: &str, c: &CategoryHandler, t: &TagHandler, order: Option<&str>, f: &Object) -> Vec<String> {
    let mut p = search(q, c, t, order.map(str::to_string), f).expect("search reports failure");
    let mut out = Vec::new();
    while let Some(x) = p.next_product() {
        out.push(x.get_title());
        assert!(out.len() < 100_000);
    }
    out
}
pub fn find(q: &str) -> Vec<String> {
    find_with(q, &get_categories().unwrap(), &get_tags().unwrap(), None, &Object::new())
}
pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
pub fn option(h: &CategoryHandler, group: &str, name: &str) -> ExportCategoryOption {
    let mut groups = h.iter();
    while let Some(mut g) = groups.next_item() {
        let same = g.name() == group;
        while let Some(o) = g.next_item() {
            if same && o.get_name() == name {
                return o;
            }
        }
    }
    panic!("no option {group} {name}")
}
pub fn tag(h: &TagHandler, name: &str) -> JSTag {
    let mut i = h.tags();
    while let Some(t) = i.next_tag() {
        if t.get_name() == name {
            return t;
        }
    }
    panic!("no tag {name}")
}
pub fn obj(entries: &[(&str, JsValue)]) -> Object {
    let o = Object::new();
    for (k, v) in entries {
        Reflect::set(&o, &JsValue::from(*k), v).unwrap();
    }
    o
}
/// Words that only pad the catalogue, so that n-grams of other texts are not too common.
pub fn filler(from: usize, n: usize) -> Vec<Value> {
    (from..from + n).map(|i| prod(i, &format!("{}{}", "qwzx".repeat(2), i), "", "jjjj")).collect()
}

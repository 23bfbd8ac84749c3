//! C32 to C35: custom features and orders, robustness of the public interface, other alphabets, memory.
use super::common::*;
use crate::engine::{held, no_panic, Ctx, Prop};
use crate::gen::{self, catalog, query, show, CatOpts, Prod};
use crate::model::{windows, Model};
use crate::src::Src;
use crate::ensure;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::{Category, CategoryIndex, CategoryOption, OrderIndex, TagIndex};
use indexer_lib::data::{optimize, Feature, FeatureSet, FeatureValue, Product, ProductContainer};
use indexer_lib::js_interactable::{CategoryHandler, FeatureFilter, ProductProducer, TagHandler};
use indexer_lib::ngram::{GramAtom, GramIndex, GramNode, IndexFeed};
use indexer_lib::serialize::{deserialize_all, serialize_all};
use indexer_lib::{get_orders, initialize, search, tag_suggestion};
use js_sys::{Function, Object, Reflect};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use wasm_bindgen::JsValue;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C32", rule: "at least 2 products and 2 features of different kinds", quick: 50_000, thorough: 5_000_000, chunk: 100, run: c32 },
        Prop { id: "C33", rule: "at least 3 calls after an index was loaded", quick: 60_000, thorough: 6_000_000, chunk: 60, run: c33 },
        Prop { id: "C34", rule: "at least 2 entries and a kept posting list", quick: 40_000, thorough: 4_000_000, chunk: 80, run: c34 },
        Prop { id: "C35", rule: "the session searched and toggled something", quick: 30_000, thorough: 3_000_000, chunk: 40, run: c35 },
    ]
}

// --- C32 -------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Val {
    Int(u32),
    Float(f32),
    Text(String),
}
impl Val {
    fn number(&self) -> Option<f64> {
        match self {
            Val::Int(i) => Some(f64::from(*i)),
            Val::Float(f) => Some(f64::from(*f)),
            Val::Text(_) => None,
        }
    }
    fn text(&self) -> Option<String> {
        match self {
            Val::Text(t) => Some(t.clone()),
            _ => None,
        }
    }
    fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Int(a), Val::Int(b)) => a == b,
            (Val::Float(a), Val::Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Val::Text(a), Val::Text(b)) => a == b,
            _ => false,
        }
    }
}

fn c32_value(s: &mut Src, kind: usize) -> Val {
    match kind {
        0 => Val::Int(match s.weighted(&[5, 3, 2, 1]) {
            0 => s.below(6) as u32,
            1 => *s.pick(&[127, 128, 255, 256, 16_383, 16_384, 65_535, 65_536, 2_097_152, 16_777_217, u32::MAX, u32::MAX - 1, 1 << 31]),
            2 => s.raw() as u32,
            _ => 0,
        }),
        1 => Val::Float(match s.weighted(&[5, 3, 2]) {
            0 => s.below(8) as f32 / 2.0,
            1 => *s.pick(&[0.0, -0.0, -1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-40, 16_777_216.0, 0.1, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]),
            _ => f32::from_bits(s.raw() as u32),
        }),
        _ => Val::Text(match s.weighted(&[5, 2, 1]) {
            0 => s.pick(&["S", "M", "L", "", "1", "12.5", "blå", "Blå", " S", "NaN", "null"]).to_string(),
            1 => format!("{}", s.below(30)),
            _ => "漢字 ".repeat(s.range(0, 120)),
        }),
    }
}

fn c32_get(c: &ProductContainer<'_>, p: &Product<'_>, key: &str) -> Option<Val> {
    c.extra_features.get(p, key).map(|v| match v {
        FeatureValue::String(t) => Val::Text(t.to_string()),
        FeatureValue::Float(f) => Val::Float(f),
        FeatureValue::Integer(i) => Val::Int(i),
    })
}

struct Custom {
    key: String,
    values: Vec<Val>,
}

fn c32_check(c: &'static ProductContainer<'static>, keys: &[Custom], when: &str) -> CaseResult {
    let n = c.products.len();
    let mut list = ProductProducer::new(c, (0..n).collect());
    for (i, p) in c.products.iter().enumerate() {
        let js = list.next_product().ok_or_else(|| format!("{when}: product {i} is missing from a result list"))?;
        for f in keys {
            let key = &f.key;
            let want = f.values.get(i);
            let got = c32_get(c, p, key);
            let same = match (&got, want) {
                (Some(a), Some(b)) => a.same(b),
                (None, None) => true,
                _ => false,
            };
            ensure!(same, "{when}: product {i} has {got:?} for feature {key:?}, expected {want:?}");
            let whole = c.extra_features.get_feature(key).and_then(|f: &Feature| f.get(i)).is_some();
            ensure!(whole == want.is_some(), "{when}: feature {key:?} as a whole has {whole} for product {i}");
            let (num, text) = (js.numeric_feature(key), js.string_feature(key));
            let (wn, wt) = (want.and_then(Val::number), want.and_then(Val::text));
            let num_same = match (num, wn) {
                (Some(a), Some(b)) => a == b || (a.is_nan() && b.is_nan()),
                (None, None) => true,
                _ => false,
            };
            ensure!(num_same, "{when}: product {i} reports number {num:?} for feature {key:?}, expected {wn:?}");
            ensure!(text == wt, "{when}: product {i} reports text {text:?} for feature {key:?}, expected {wt:?}");
            let js = c.extra_features.get_js(p, key);
            let js_same = match (&js, want) {
                (None, None) => true,
                (Some(j), Some(w)) => match w {
                    Val::Text(t) => j.as_string().as_ref() == Some(t),
                    w => j.as_f64().map_or(false, |a| w.number().map_or(false, |b| a == b || (a.is_nan() && b.is_nan()))),
                },
                _ => false,
            };
            ensure!(js_same, "{when}: product {i} gives {js:?} for feature {key:?}, expected {want:?}");
        }
        ensure!(c32_get(c, p, "not a feature").is_none() && js.numeric_feature("not a feature").is_none() && js.string_feature("not a feature").is_none(), "{when}: a feature that was never added");
    }
    ensure!(list.next_product().is_none(), "{when}: the result list goes on");
    Ok(())
}

/// Filters on the features, made directly or parsed from an object.
fn c32_filters(s: &mut Src, c: &'static ProductContainer<'static>, keys: &[Custom], ctx: &mut Ctx) -> CaseResult {
    for _ in 0..4 {
        let f = s.pick(keys);
        let near = |s: &mut Src| -> f64 {
            let v = if f.values.is_empty() { 1.0 } else { s.pick(&f.values).number().unwrap_or(2.0) };
            match s.below(5) {
                0 => v + 0.5,
                1 => v - 0.5,
                2 => f64::from(s.below(8) as u32),
                _ => v,
            }
        };
        let js = |v: Option<f64>| v.map_or(JsValue::UNDEFINED, JsValue::from_f64);
        let parse = s.chance(1, 2);
        let inner = Object::new();
        let (filter, keeps, shown): (FeatureFilter, Box<dyn Fn(Option<&Val>) -> bool>, String) = match s.below(3) {
            0 => {
                let from = if s.chance(3, 4) { Some(near(s)) } else { None };
                let to = if s.chance(3, 4) { Some(near(s)) } else { None };
                let keeps = move |v: Option<&Val>| match (from, to) {
                    (None, None) => true,
                    _ => v.and_then(Val::number).map_or(false, |v| from.map_or(true, |f| f <= v) && to.map_or(true, |t| v <= t)),
                };
                for (k, v) in [("from", from), ("to", to)] {
                    if v.is_some() {
                        let _ = Reflect::set(inner.as_ref(), &k.into(), &js(v));
                    }
                }
                (FeatureFilter::new_range(js(from), js(to), f.key.clone()), Box::new(keeps), format!("{from:?} to {to:?}"))
            }
            1 => {
                let v = near(s);
                let _ = Reflect::set(inner.as_ref(), &"exact".into(), &JsValue::from_f64(v));
                (FeatureFilter::new_exactly(JsValue::from_f64(v), f.key.clone()), Box::new(move |x: Option<&Val>| x.and_then(Val::number) == Some(v)), format!("exactly {v}"))
            }
            _ => {
                let t = match f.values.get(s.below(f.values.len().max(1))) {
                    Some(Val::Text(t)) => t.clone(),
                    _ => "1".to_string(),
                };
                let _ = Reflect::set(inner.as_ref(), &"exact".into(), &JsValue::from_str(&t));
                let shown = format!("exactly {t:?}");
                (FeatureFilter::new_exactly(JsValue::from_str(&t), f.key.clone()), Box::new(move |x: Option<&Val>| x.and_then(Val::text).as_ref() == Some(&t)), shown)
            }
        };
        let filter = if parse {
            let obj = Object::new();
            let _ = Reflect::set(obj.as_ref(), &f.key.as_str().into(), inner.as_ref());
            let mut l = FeatureFilter::parse(&obj).ok_or_else(|| format!("a filter {shown} on {:?} is refused", f.key))?;
            ensure!(l.len() == 1, "one filter is read as {}", l.len());
            l.remove(0)
        } else {
            filter
        };
        let all = s.permutation(c.products.len());
        let got: Vec<usize> = filter.filter(Box::new(all.iter().map(|i| &c.products[*i])), &c.extra_features).map(|p| p.serialization_id).collect();
        let want: Vec<usize> = all.iter().copied().filter(|i| keeps(f.values.get(*i))).collect();
        ctx.inner += 1;
        ctx.label_if(!want.is_empty() && want.len() < all.len(), "a filter that removes some");
        ensure!(got == want, "filter {shown} on feature {:?} keeps {got:?}, expected {want:?}", f.key);
    }
    Ok(())
}

/// One order: how products compare.
type Cmp = Box<dyn Fn(usize, usize) -> Ordering>;

fn c32_orders(order: &OrderIndex, keys: &BTreeMap<String, Cmp>, n: usize, when: &str) -> CaseResult {
    let got: BTreeSet<&str> = order.options().collect();
    ensure!(order.options().count() == keys.len() && got.len() == keys.len() && keys.keys().all(|k| got.contains(k.as_str())), "{when}: the orders are {got:?}, added were {:?}", keys.keys());
    for (k, cmp) in keys {
        let ranks = order.get_orders(k).ok_or_else(|| format!("{when}: order {k:?} is missing"))?;
        let mut sorted = ranks.clone();
        sorted.sort_unstable();
        ensure!(sorted == (0..n).collect::<Vec<_>>(), "{when}: order {k:?} has the ranks {ranks:?} for {n} products");
        for a in 0..n {
            for b in 0..n {
                if cmp(a, b) == Ordering::Less {
                    ensure!(ranks[a] < ranks[b], "{when}: order {k:?} puts product {b} before product {a}: {ranks:?}");
                }
            }
        }
    }
    ensure!(order.get_orders("not an order").is_none(), "{when}: an order that was never added");
    Ok(())
}

fn c32(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, _) = catalog(s, &CatOpts { text: 8, max_products: 10, scale: false, ..CatOpts::default() });
    let n = c.len();
    let json = gen::json_list(&c);
    let (base, _) = optimize(raws(&json)?, leak_alloc());
    let products: Vec<Product<'static>> = base
        .products
        .iter()
        .map(|p| Product { description: p.description.clone(), title: p.title.clone(), vendor: p.vendor, id: p.id.clone(), serialization_id: p.serialization_id })
        .collect();
    // Features, some of which only the first products have.
    let mut set = FeatureSet::new_empty();
    let mut custom: Vec<Custom> = Vec::new();
    let many = s.chance(1, 60);
    let count = if many { s.range(100, 300) } else { s.range(1, 6) };
    for k in 0..count {
        let key = match s.below(if many { 1 } else { 4 }) {
            0 => format!("feature {k}"),
            1 => s.pick(&["price", "image_url", "Price", "", " ", "størrelse", "from", "exact", "feature"]).to_string(),
            2 => "k".repeat(s.range(1, 300)),
            _ => format!("{}{k}", "漢"),
        };
        if custom.iter().any(|f| f.key == key) {
            continue;
        }
        let kind = s.below(3);
        let have = if s.chance(1, 5) { s.below(n + 1) } else { n };
        custom.push(Custom { key, values: (0..have).map(|_| c32_value(s, kind)).collect() });
    }
    // Added product by product, or feature by feature.
    let add = |set: &mut FeatureSet, f: &Custom, i: usize| match f.values.get(i) {
        Some(Val::Int(v)) => set.add_int(&f.key, *v),
        Some(Val::Float(v)) => set.add_float(&f.key, *v),
        Some(Val::Text(v)) => set.add_string(&f.key, v.clone()),
        None => {}
    };
    if s.chance(1, 2) {
        for i in 0..n {
            custom.iter().for_each(|f| add(&mut set, f, i));
        }
    } else {
        custom.iter().for_each(|f| (0..n).for_each(|i| add(&mut set, f, i)));
    }
    ctx.describe(|| format!("{n} products; features {:?}", custom.iter().map(|f| (&f.key, &f.values)).collect::<Vec<_>>()));
    let kinds: BTreeSet<u8> = custom.iter().filter_map(|f| f.values.first()).map(|v| match v { Val::Int(_) => 0, Val::Float(_) => 1, Val::Text(_) => 2 }).collect();
    ctx.nontrivial = n >= 2 && kinds.len() >= 2;
    ctx.label_if(custom.iter().any(|f| f.values.len() < n && !f.values.is_empty()), "a feature of the first products only");
    let alloc = leak_alloc();
    let container: &'static ProductContainer<'static> = Box::leak(Box::new(ProductContainer::new(products, base.vendors.clone(), set)));
    c32_check(container, &custom, "before saving")?;
    c32_filters(s, container, &custom, ctx)?;

    // Orders by features, titles or several things at once; a key may be used again.
    let mut order = if s.chance(1, 2) { OrderIndex::new() } else { OrderIndex::default() };
    let mut orders: BTreeMap<String, Cmp> = BTreeMap::new();
    let titles: Vec<String> = container.products.iter().map(|p| p.title.clone()).collect();
    let lens: Vec<usize> = titles.iter().map(|t| t.chars().count()).collect();
    for k in 0..s.range(1, 5) {
        let key = if s.chance(1, 4) { "again".to_string() } else { format!("order {k}") };
        match s.below(4) {
            0 => {
                order.add(container, &|p: &Product, _: &FeatureSet| p.title.clone(), key.clone());
                let t = titles.clone();
                orders.insert(key, Box::new(move |a, b| t[a].cmp(&t[b])));
            }
            1 => {
                order.add_custom_cmp(container, &|p: &Product, _: &FeatureSet| (p.title.chars().count(), p.id.clone()), &|a, b| b.0.cmp(&a.0).then(a.1.cmp(&b.1)), key.clone());
                let (l, ids): (Vec<usize>, Vec<String>) = (lens.clone(), container.products.iter().map(|p| p.id.clone()).collect());
                orders.insert(key, Box::new(move |a, b| l[b].cmp(&l[a]).then(ids[a].cmp(&ids[b]))));
            }
            2 => {
                order.add(container, &|p: &Product, _: &FeatureSet| p.title.chars().count(), key.clone());
                let l = lens.clone();
                orders.insert(key, Box::new(move |a, b| l[a].cmp(&l[b])));
            }
            _ => {
                // By a whole number feature, products without it last.
                let Some(f) = custom.iter().find(|f| matches!(f.values.first(), Some(Val::Int(_)))) else { continue };
                let name = f.key.clone();
                order.add_custom_cmp(
                    container,
                    &|p: &Product, features: &FeatureSet| match features.get(p, &name) {
                        Some(FeatureValue::Integer(i)) => Some(i),
                        _ => None,
                    },
                    &|a, b| a.unwrap_or(u32::MAX).cmp(&b.unwrap_or(u32::MAX)),
                    key.clone(),
                );
                let v: Vec<u32> = (0..n).map(|i| match f.values.get(i) { Some(Val::Int(v)) => *v, _ => u32::MAX }).collect();
                orders.insert(key, Box::new(move |a, b| v[a].cmp(&v[b])));
            }
        }
    }
    c32_orders(&order, &orders, n, "before saving")?;

    // Option groups made by hand, exclusive or not.
    let mut cats = Vec::new();
    let mut shape: Vec<(String, bool, Vec<(String, BTreeSet<usize>)>)> = Vec::new();
    let mut next = 0;
    for g in 0..s.below(4) {
        let mut cat = Category::new(format!("group {g}"));
        cat.exclusive = s.chance(1, 2);
        let mut opts = Vec::new();
        for o in 0..s.below(4) {
            let mut option = CategoryOption::new(format!("option {o}"), next);
            next += 1;
            let mut members = BTreeSet::new();
            for _ in 0..s.below(2 * n + 1) {
                let i = s.below(n);
                option.add(&container.products[i]);
                members.insert(i);
            }
            opts.push((option.name.clone(), members));
            cat.options.push(option);
        }
        shape.push((cat.name.clone(), cat.exclusive, opts));
        cats.push(cat);
    }
    ctx.label_if(shape.iter().any(|g| g.1), "exclusive group");
    let tags: Vec<Vec<std::borrow::Cow<'_, str>>> = c.iter().map(|p| p.tags.iter().map(|t| t.as_str().into()).collect()).collect();
    let classic = Ci::new(CategoryIndex(cats), TagIndex::index(tags, container), order);
    let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
    let feed = container.products.iter().map(|p| IndexFeed { data: p, grams: p.title.chars() });
    let index: Gi<'static, 3> = GramIndex::index_from(feed, nodes, container);
    let bytes = no_panic(|| serialize_all(&index, &classic))?;
    let (loaded, classic2) = no_panic(|| deserialize_all::<char, 3>(&bytes, nodes, alloc))?.ok_or("an index with custom features does not load")?;
    let container2 = loaded.product_container;
    c32_check(container2, &custom, "after loading")?;
    c32_filters(s, container2, &custom, ctx)?;
    c32_orders(&classic2.order, &orders, n, "after loading")?;
    for (when, cl, co) in [("before saving", &classic, container), ("after loading", &classic2, container2)] {
        let got: Vec<(String, bool, Vec<(String, BTreeSet<usize>)>)> = cl
            .categories
            .0
            .iter()
            .map(|g| (g.name.clone(), g.exclusive, g.options.iter().map(|o| (o.name.clone(), co.products.iter().filter(|p| o.contains(p)).map(|p| p.serialization_id).collect())).collect()))
            .collect();
        ensure!(got == shape, "{when}: option groups are {got:?}, expected {shape:?}");
        for (i, g) in shape.iter().enumerate() {
            ensure!(cl.categories.get(i).map_or(false, |c| c.name == g.0) && cl.categories[i].name == g.0, "{when}: group {i} is not found by its number");
        }
        ensure!(cl.categories.get(shape.len()).is_none(), "{when}: a group beyond the last");
    }
    if !orders.is_empty() {
        ctx.label("orders");
    }
    Ok(())
}

// --- C33 -------------------------------------------------------------------------------------

const WILD: [char; 24] = [
    '\0', 'a', 'b', ' ', 'A', 'İ', 'ß', '\u{301}', '👽', '\u{200d}', '\u{ffff}', '\u{10ffff}', '\u{feff}', '\n', '\t', '"', '\\', '\u{7f}', '\u{80}', '漢', 'ﬁ', 'ǅ', '0', '-',
];

fn wild_text(s: &mut Src, max: usize) -> String {
    let n = match s.weighted(&[3, 6, 3, 1]) {
        0 => 0,
        1 => s.range(1, 8),
        2 => s.range(1, max),
        _ => s.range(1, max * 20),
    };
    let few = s.chance(1, 2);
    (0..n).map(|_| if few { *s.pick(&WILD[..4]) } else { *s.pick(&WILD) }).collect()
}

fn wild_value(s: &mut Src, depth: usize) -> JsValue {
    match s.below(if depth > 0 { 11 } else { 8 }) {
        0 => JsValue::UNDEFINED,
        1 => JsValue::NULL,
        2 => JsValue::from_bool(s.chance(1, 2)),
        3 => JsValue::from_f64(*s.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1.0, 19.95])),
        4 => JsValue::from_str(&wild_text(s, 6)),
        5 => JsValue::from_f64(s.below(500) as f64),
        6 => Function::native(|_, _| Ok(JsValue::UNDEFINED)).into(),
        7 => js_sys::Array::new().into(),
        8 => {
            let a = js_sys::Array::new();
            for _ in 0..s.below(4) {
                a.push(&wild_value(s, depth - 1));
            }
            a.into()
        }
        _ => {
            let o = Object::new();
            for _ in 0..s.below(4) {
                let k = match s.below(6) {
                    0 => wild_text(s, 4),
                    k => ["from", "to", "exact", "price", "image_url"][k - 1].to_string(),
                };
                let _ = Reflect::set(o.as_ref(), &k.as_str().into(), &wild_value(s, depth - 1));
            }
            o.into()
        }
    }
}

fn c33_catalog(s: &mut Src) -> Vec<Prod> {
    if s.chance(1, 4) {
        return catalog(s, &CatOpts { text: 10, max_products: 8, ..CatOpts::default() }).0;
    }
    let n = s.range(0, 7);
    let pool: Vec<String> = (0..4).map(|_| wild_text(s, 12)).collect();
    (0..n)
        .map(|i| {
            let text = |s: &mut Src| if s.chance(1, 3) { s.pick(&pool).clone() } else { wild_text(s, 30) };
            Prod {
                description: text(s),
                title: text(s),
                vendor: text(s),
                // Ids need not be sensible here, or even different.
                id: match s.below(4) {
                    0 => text(s),
                    1 => "99999999999999999999999".into(),
                    2 => String::new(),
                    _ => format!("p{i}"),
                },
                tags: (0..s.below(4)).map(|_| text(s)).collect(),
                options: (0..s.below(3)).map(|_| (text(s), (0..s.below(3)).map(|_| text(s)).collect())).collect(),
                price: gen::price(s),
                media: (0..s.below(3)).map(|_| text(s)).collect(),
            }
        })
        .collect()
}

fn c33(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut steps: Vec<String> = Vec::new();
    let r = c33_run(s, ctx, &mut steps);
    ctx.describe(|| steps.join("; "));
    r.map_err(|e| format!("{e} (after {})", steps.join("; ")))
}

struct Page {
    ch: CategoryHandler,
    th: TagHandler,
    options: Vec<indexer_lib::js_interactable::ExportCategoryOption>,
    tags: Vec<indexer_lib::js_interactable::JSTag>,
}

fn c33_run(s: &mut Src, ctx: &mut Ctx, steps: &mut Vec<String>) -> CaseResult {
    let mut page: Option<Page> = None;
    let mut list: Option<ProductProducer> = None;
    let mut known: Vec<Prod> = Vec::new();
    let mut calls = 0;
    let log = Function::native(|_, _| Ok(JsValue::UNDEFINED));
    let throws = Function::native(|_, _| Err(JsValue::from_str("no")));
    for step in 0..s.range(3, 14) {
        let what = if step == 0 { 0 } else { s.weighted(&[1, 10, 4, 3, 3, 3, 2]) };
        match what {
            0 => {
                known = c33_catalog(s);
                steps.push(format!("index and load {}", show(&known)));
                // Keys of the catalogue object are different even if ids are not.
                let mut m = serde_json::Map::new();
                for (i, p) in known.iter().enumerate() {
                    m.insert(format!("{i}"), p.value());
                }
                let json = serde_json::Value::Object(m).to_string();
                let bytes = no_panic(|| indexer_lib::index(&json)).map_err(|e| format!("indexing: {e}"))?.ok_or("a well-formed catalogue is refused")?;
                ensure!(no_panic(|| initialize(&bytes)).map_err(|e| format!("loading: {e}"))?, "loading a saved index reported failure");
                let p = no_panic(|| -> Result<Page, String> {
                    let (ch, th) = handlers()?;
                    let options = walk_categories(&ch)?.into_iter().map(|(_, _, o)| o).collect();
                    let tags = walk_tags(&th)?.into_iter().map(|(_, t)| t).collect();
                    Ok(Page { ch, th, options, tags })
                })??;
                page = Some(p);
            }
            1 => {
                let Some(p) = &page else { continue };
                let q = match s.below(4) {
                    0 if !known.is_empty() => {
                        let t = s.pick(&known);
                        format!("{}{}", t.title, t.description).chars().skip(s.below(4)).take(1500).collect()
                    }
                    1 if !known.is_empty() => s.pick(&known).vendor.to_uppercase(),
                    _ => wild_text(s, 40),
                };
                let order = match s.below(4) {
                    0 => Some(wild_text(s, 4)),
                    1 => Some(s.pick(&["Alphabetical", "alphabetical", "Price low to high", "Price high to low"]).to_string()),
                    _ => None,
                };
                let filter = match s.below(3) {
                    0 => {
                        let o = Object::new();
                        for _ in 0..s.range(1, 3) {
                            let k = if s.chance(1, 4) { wild_text(s, 4) } else { s.pick(&["price", "image_url", "unknown"]).to_string() };
                            let _ = Reflect::set(o.as_ref(), &k.as_str().into(), &wild_value(s, 2));
                        }
                        ctx.label("odd filter object");
                        o
                    }
                    _ => Object::new(),
                };
                steps.push(format!("search {q:?} in order {order:?}"));
                ctx.label_if(q.contains('\0'), "query with a NUL character");
                let offered = order.as_ref().map_or(true, |o| ORDERS.contains(&o.as_str()));
                let empty = js_sys::Object::keys(&filter).length() == 0;
                let got = no_panic(|| search(&q, &p.ch, &p.th, order, &filter)).map_err(|e| format!("search: {e}"))?;
                ensure!(got.is_some() || !offered || !empty, "a search without filters in an order that is offered is refused");
                list = got;
                calls += 1;
            }
            2 => {
                let Some(l) = &mut list else { continue };
                let k = s.range(1, 12);
                steps.push(format!("take up to {k} results"));
                for _ in 0..k {
                    let Some(p) = no_panic(|| l.next_product()).map_err(|e| format!("next result: {e}"))? else { break };
                    let key = wild_text(s, 4);
                    no_panic(|| {
                        let _ = (p.get_id(), p.get_title(), p.get_description(), p.numeric_feature("price"), p.string_feature("image_url"));
                        let _ = (p.numeric_feature("image_url"), p.string_feature("price"), p.numeric_feature(&key), p.string_feature(&key));
                    })
                    .map_err(|e| format!("reading a result: {e}"))?;
                    calls += 1;
                }
            }
            3 => {
                let Some(p) = &mut page else { continue };
                if s.chance(1, 2) {
                    if p.options.is_empty() {
                        continue;
                    }
                    let i = s.below(p.options.len());
                    steps.push(format!("toggle option {i}"));
                    no_panic(|| p.ch.toggle(&p.options[i])).map_err(|e| format!("toggle: {e}"))?;
                    no_panic(|| p.ch.get_status(&p.options[i]))?;
                } else {
                    if p.tags.is_empty() {
                        continue;
                    }
                    let i = s.below(p.tags.len());
                    steps.push(format!("toggle tag {i}"));
                    no_panic(|| p.th.toggle(&p.tags[i])).map_err(|e| format!("toggle: {e}"))?;
                    no_panic(|| p.th.get_status(&p.tags[i]))?;
                }
                calls += 1;
            }
            4 => {
                let Some(p) = &mut page else { continue };
                let f = if s.chance(1, 2) { &log } else { &throws };
                steps.push("observers".into());
                match s.below(6) {
                    0 => p.ch.add_general_observer(f.clone()),
                    1 => p.th.add_general_observer(f.clone()),
                    k => {
                        if let (Some(o), Some(t)) = (p.options.get(s.below(p.options.len().max(1))), p.tags.get(s.below(p.tags.len().max(1)))) {
                            no_panic(|| match k {
                                2 => p.ch.add_option_lister(o, f.clone()),
                                3 => p.th.add_tag_lister(t, f.clone()),
                                4 => p.ch.remove_option_listener(o, f),
                                _ => p.th.remove_tag_listener(t, f),
                            })
                            .map_err(|e| format!("observers: {e}"))?;
                        }
                    }
                }
                calls += 1;
            }
            5 => {
                let q = match s.below(3) {
                    0 if !known.is_empty() => s.pick(&known).tags.join(" "),
                    _ => wild_text(s, 30),
                };
                steps.push(format!("suggest for {q:?}"));
                let got = no_panic(|| tag_suggestion(&q).map(|t| (t.get_tag().get_name(), t.get_input()))).map_err(|e| format!("suggestion: {e}"))?;
                if let Some((t, w)) = got {
                    ensure!(known.iter().any(|p| p.has_tag(&t)), "the suggestion {t:?} is no tag");
                    ensure!(q.contains(&w), "the suggestion is for {w:?}, which is not in the query {q:?}");
                }
                calls += 1;
            }
            _ => {
                steps.push("list orders".into());
                let n = no_panic(get_orders)?.map_or(0, |o| o.len());
                ensure!(n == 3, "{n} orders are offered");
                calls += 1;
            }
        }
    }
    // Still in service.
    let all: BTreeSet<String> = known.iter().map(|p| p.id.clone()).collect();
    if let Some(p) = known.iter().find(|p| p.text().len() > 6) {
        let hits = no_panic(|| plain(&p.title, known.len())).map_err(|e| format!("search at the end: {e}"))??;
        ensure!(hits.iter().all(|h| all.contains(&h.id)), "search at the end returns unknown products {:?}", ids(&hits));
    }
    ctx.inner += calls;
    ctx.nontrivial = calls >= 3;
    ctx.label_if(known.iter().any(|p| p.text().contains(&'\0')), "catalogue with a NUL character");
    ctx.label_if(all.len() < known.len(), "two products with one id");
    Ok(())
}

// --- C34 -------------------------------------------------------------------------------------

/// A symbol type, with the characters it stands for. The padding symbol stands for NUL.
trait Symbol: GramAtom + 'static {
    const NAME: &'static str;
    fn of(k: usize) -> Self;
    fn back(self) -> usize;
}
impl Symbol for u8 {
    const NAME: &'static str = "bytes";
    fn of(k: usize) -> u8 {
        [0, 1, 255, 128, 97, 127, 200, 2][k]
    }
    fn back(self) -> usize {
        (0..8).find(|k| u8::of(*k) == self).unwrap_or(8)
    }
}
impl Symbol for u32 {
    const NAME: &'static str = "numbers of 32 bits";
    fn of(k: usize) -> u32 {
        [0, 1, u32::MAX, 65_536, 257, 513, 0xd800, 128][k]
    }
    fn back(self) -> usize {
        (0..8).find(|k| u32::of(*k) == self).unwrap_or(8)
    }
}
impl Symbol for u64 {
    const NAME: &'static str = "numbers of 64 bits";
    fn of(k: usize) -> u64 {
        [0, 1, u64::MAX, 1 << 32, (1 << 32) + 1, 257, 1 << 63, 2][k]
    }
    fn back(self) -> usize {
        (0..8).find(|k| u64::of(*k) == self).unwrap_or(8)
    }
}
impl Symbol for char {
    const NAME: &'static str = "characters";
    fn of(k: usize) -> char {
        ['\0', 'a', 'A', 'å', '漢', '\u{10ffff}', ' ', 'b'][k]
    }
    fn back(self) -> usize {
        (0..8).find(|k| char::of(*k) == self).unwrap_or(8)
    }
}
/// Characters that the model uses for the symbols.
const LETTERS: [char; 9] = ['\0', 'a', 'b', 'c', 'd', 'e', 'f', 'g', '?'];

fn letter<G: Symbol>(g: G) -> char {
    LETTERS[g.back()]
}

fn c34(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    match s.below(4) {
        0 => crate::dispatch!(n, c34_u8, s, ctx),
        1 => crate::dispatch!(n, c34_u32, s, ctx),
        2 => crate::dispatch!(n, c34_u64, s, ctx),
        _ => crate::dispatch!(n, c34_char, s, ctx),
    }
}
fn c34_u8<const N: usize>(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c34_n::<u8, N>(s, ctx)
}
fn c34_u32<const N: usize>(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c34_n::<u32, N>(s, ctx)
}
fn c34_u64<const N: usize>(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c34_n::<u64, N>(s, ctx)
}
fn c34_char<const N: usize>(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c34_n::<char, N>(s, ctx)
}

fn c34_tree<G: Symbol>(m: &Model, node: &GramNode<'_, G>, path: &mut Vec<char>, seen: &mut usize) -> CaseResult {
    *seen += 1;
    ensure!(m.count.contains_key(&path[..]), "the tree has the path {path:?}, which does not occur");
    let w = m.weight(path);
    ensure!((f64::from(node.weight) - w).abs() <= 1e-5 * w, "{path:?} has frequency {}, expected {w}", node.weight);
    let mut last = f32::INFINITY;
    ensure!(node.items.len() == node.by_occurances.len(), "{path:?} has {} symbols by lookup and {} in the list", node.items.len(), node.by_occurances.len());
    for child in &node.by_occurances {
        ensure!(child.weight <= last, "alternatives after {path:?} are not in order of frequency");
        last = child.weight;
        ensure!(node.items.get(&child.item).map_or(false, |c| **c == **child), "lookup of {:?} after {path:?} finds something else", child.item);
        path.push(letter(child.item));
        c34_tree(m, child, path, seen)?;
        path.pop();
    }
    Ok(())
}

/// Everything about an index that the model knows; entries by number.
fn c34_check<G: Symbol, D: Ord + std::fmt::Debug + indexer_lib::ngram::HashExtractable, const N: usize>(
    s: &mut Src,
    ctx: &mut Ctx,
    m: &Model,
    g: &GramIndex<'_, G, D, N>,
    number: &dyn Fn(&D) -> usize,
    queries: &[Vec<usize>],
) -> CaseResult
where
    D::Inner: std::hash::Hash + Eq,
{
    let mut seen = 0;
    for (k, node) in &g.roots {
        ensure!(*k == node.item, "{k:?} leads to a node for {:?}", node.item);
        c34_tree(m, node, &mut vec![letter(*k)], &mut seen)?;
    }
    ensure!(seen == m.count.len(), "the tree has {seen} paths, the sequences have {}", m.count.len());
    // Beginnings of sequences with default symbols in front, which fill the first n-grams up. They
    // matter only where the default symbol also occurs in the sequences.
    let wide = m.count.contains_key(&['\0'][..]);
    let padded: BTreeSet<Vec<char>> = m
        .texts
        .iter()
        .flat_map(|t| (1..=t.len().min(N - 1)).map(move |j| std::iter::repeat('\0').take(N - j).chain(t[..j].iter().copied()).collect()))
        .collect();
    // Posting lists of n-grams without padding.
    let mut kept = 0;
    for (gram, list) in &g.data {
        let letters: Vec<char> = gram.iter().map(|x| letter(*x)).collect();
        if letters[0] == '\0' && padded.contains(&letters) {
            continue;
        }
        kept += 1;
        let mut got: Vec<usize> = list.iter().map(|d| number(d)).collect();
        ensure!(list.windows(2).all(|p| p[0] <= p[1]), "the entries of {letters:?} are not in order");
        got.sort_unstable();
        let want: Vec<usize> = m.postings.get(&letters).into_iter().flatten().flat_map(|(p, k)| vec![*p; *k as usize]).collect();
        ensure!(m.kept(&letters) && got == want, "{letters:?} lists {got:?}, expected {want:?}");
    }
    let want = m.postings.keys().filter(|k| m.kept(k) && !padded.contains(*k)).count();
    ensure!(kept == want, "{kept} n-grams have a list, expected {want}");
    ctx.nontrivial |= want > 0 && m.texts.len() > 1;
    for q in queries {
        ctx.inner += 1;
        let letters: Vec<char> = q.iter().map(|k| LETTERS[*k]).collect();
        let typed: Vec<G> = q.iter().map(|k| G::of(*k)).collect();
        let mut scores: BTreeMap<usize, f64> = BTreeMap::new();
        let mut most = 0;
        // Windows at the beginning that have padding in front are not specified; start after them.
        for w in windows(&letters, N) {
            let mut arr = [G::default(); N];
            for (a, c) in arr.iter_mut().zip(w) {
                *a = G::of(LETTERS.iter().position(|l| l == c).unwrap_or(0));
            }
            let (top, best) = m.best(w, 1e-4);
            match g.search_gram(arr) {
                None => ensure!(top == 0.0, "{w:?} is not resolved, expected {best:?}"),
                Some((gram, conf)) => {
                    let gram: Vec<char> = gram.iter().map(|x| letter(*x)).collect();
                    ensure!(best.contains(&gram) && (f64::from(conf) - top).abs() <= 1e-4 * top, "{w:?} resolves to {gram:?} with {conf}, expected one of {best:?} with {top}");
                    if m.kept(&gram) && !padded.contains(&gram) {
                        for (p, k) in &m.postings[&gram] {
                            *scores.entry(*p).or_insert(0.0) += f64::from(conf) * f64::from(*k);
                            most += *k;
                        }
                    }
                }
            }
        }
        let found = g.search(typed.into_iter());
        let mut at = BTreeSet::new();
        let mut last = f32::INFINITY;
        for (d, w) in &found {
            let p = number(d);
            ensure!(at.insert(p), "{letters:?}: entry {p} is returned twice");
            let want = scores.get(&p).copied();
            let tol = 2e-5 + f64::from(most) * 1.3e-7;
            if wide {
                // The first symbols of the query, filled up with default symbols, may add to it.
                let least = want.unwrap_or(0.0);
                ensure!(f64::from(*w) >= least * (1.0 - tol), "{letters:?}: entry {p} has score {w}, expected at least {least}");
                ensure!(*w <= last, "{letters:?}: results are not in order of score");
                last = *w;
                continue;
            }
            ensure!(want.map_or(false, |x| (f64::from(*w) - x).abs() <= tol * x), "{letters:?}: entry {p} has score {w}, expected {want:?}");
            ensure!(*w <= last, "{letters:?}: results are not in order of score");
            last = *w;
        }
        ensure!(at.len() == scores.len() || wide && scores.keys().all(|p| at.contains(p)), "{letters:?}: entries {at:?} are returned, expected {:?}", scores.keys());
        ctx.label(if at.is_empty() { "nothing found" } else { "entries found" });
    }
    let _ = s;
    Ok(())
}

fn c34_n<G: Symbol, const N: usize>(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = match s.weighted(&[20, 120, 60, 1]) {
        0 => s.below(3),
        1 => s.range(3, 8),
        2 => s.range(8, 24),
        _ => s.range(250, 600),
    };
    let symbols = s.range(1, 7);
    let few = s.range(1, symbols);
    // Whether the default symbol is one of them.
    let low = usize::from(!s.chance(1, 5));
    ctx.label_if(low == 0, "with the default symbol");
    let mut texts: Vec<Vec<usize>> = Vec::new();
    for _ in 0..n {
        let len = if n < 100 && s.chance(1, 30) { s.range(200, 600) } else { s.range(0, 24) };
        let of = if s.chance(1, 2) { few } else { symbols };
        let mut t: Vec<usize> = (0..len).map(|_| low + s.below(of)).collect();
        if !texts.is_empty() && s.chance(1, 3) {
            // A piece of another one.
            let other: Vec<usize> = s.pick(&texts).clone();
            let at = s.below(other.len() + 1);
            t.truncate(6);
            t.extend(other[at..].iter().take(16));
        }
        texts.push(t);
    }
    let prods: Vec<Prod> = texts
        .iter()
        .enumerate()
        .map(|(i, t)| Prod {
            description: String::new(),
            title: t.iter().map(|k| LETTERS[*k]).collect(),
            vendor: String::new(),
            id: format!("{}", 7 * i % 1009),
            tags: vec![],
            options: vec![],
            price: "1".into(),
            media: vec![],
        })
        .collect();
    let m = Model::new(&prods, N);
    ctx.label(G::NAME);
    ctx.describe(|| format!("gram size {N}, {}: {texts:?}", G::NAME));
    let queries: Vec<Vec<usize>> = (0..5)
        .map(|_| {
            let mut q: Vec<usize> = if texts.is_empty() || s.chance(1, 6) {
                (0..s.range(0, 14)).map(|_| low + s.below(7)).collect()
            } else {
                let t = s.pick(&texts);
                let start = s.below(t.len() + 1);
                t[start..].iter().copied().take(s.range(0, 16)).collect()
            };
            for _ in 0..s.below(3) {
                if !q.is_empty() {
                    let i = s.below(q.len());
                    match s.below(3) {
                        0 => q[i] = low + s.below(7),
                        1 => q.insert(i, low + s.below(7)),
                        _ => {
                            q.remove(i);
                        }
                    }
                }
            }
            q
        })
        .collect();
    let json = gen::json_list(&prods);
    let (container, classic) = optimize(raws(&json)?, leak_alloc());
    if s.chance(1, 2) {
        // Entries that are no products: texts, in an order of their own.
        ctx.label("texts as entries");
        let names: Vec<String> = (0..n).map(|i| format!("entry {}", (i * 7 + 3) % 1009)).collect();
        let nodes = Arena::new();
        let feed = names.iter().zip(&texts).map(|(d, t)| IndexFeed { data: d, grams: t.iter().map(|k| G::of(*k)) });
        let g: GramIndex<'_, G, String, N> = no_panic(|| GramIndex::index_from(feed, &nodes, container))?;
        let number = |d: &String| names.iter().position(|x| x == d).unwrap_or(usize::MAX);
        return c34_check(s, ctx, &m, &g, &number, &queries);
    }
    ctx.label("products as entries");
    let nodes = Arena::new();
    let feed = container.products.iter().zip(&texts).map(|(d, t)| IndexFeed { data: d, grams: t.iter().map(|k| G::of(*k)) });
    let g: GramIndex<'_, G, Product<'_>, N> = no_panic(|| GramIndex::index_from(feed, &nodes, container))?;
    let number = |d: &Product<'_>| d.serialization_id;
    c34_check(s, ctx, &m, &g, &number, &queries).map_err(|e| format!("before saving: {e}"))?;
    let bytes = no_panic(|| serialize_all(&g, &classic))?;
    let nodes2: Arena<GramNode<'_, G>> = Arena::new();
    let (g2, classic2) = no_panic(|| deserialize_all::<G, N>(&bytes, &nodes2, leak_alloc()))?.ok_or("a saved index does not load")?;
    c34_check(s, ctx, &m, &g2, &number, &queries).map_err(|e| format!("after loading: {e}"))?;
    ensure!(g2.data == g.data, "posting lists change by saving and loading");
    if let Some(d) = diff(&dump_classic(&classic, container), &dump_classic(&classic2, g2.product_container)) {
        return Err(format!("saving and loading changes {d}"));
    }
    // Cut short, it is refused.
    let cut = s.below(bytes.len());
    let nodes3: Arena<GramNode<'_, G>> = Arena::new();
    ensure!(no_panic(|| deserialize_all::<G, N>(&bytes[..cut], &nodes3, leak_alloc()).is_none())?, "an index cut at byte {cut} of {} loads", bytes.len());
    Ok(())
}

// --- C35 -------------------------------------------------------------------------------------

/// One step of a session; everything it makes is dropped at its end.
#[derive(Debug)]
enum Act {
    Search { q: String, order: Option<String>, options: Vec<usize>, tags: Vec<usize>, take: usize },
    Suggest(String),
    Walk,
    Observe(usize),
}

fn c35_session(acts: &[Act], filter: &Object, f: &Function) -> Result<(), String> {
    for a in acts {
        match a {
            Act::Search { q, order, options, tags, take } => {
                let (mut ch, mut th) = handlers()?;
                let os = walk_categories(&ch)?;
                let ts = walk_tags(&th)?;
                options.iter().filter_map(|i| os.get(*i)).for_each(|o| ch.toggle(&o.2));
                tags.iter().filter_map(|i| ts.get(*i)).for_each(|t| th.toggle(&t.1));
                if let Some(mut l) = search(q, &ch, &th, order.clone(), filter) {
                    for _ in 0..*take {
                        let Some(p) = l.next_product() else { break };
                        let _ = (p.get_id(), p.get_title(), p.get_description(), p.numeric_feature("price"), p.string_feature("image_url"));
                    }
                }
            }
            Act::Suggest(q) => {
                if let Some(t) = tag_suggestion(q) {
                    let _ = (t.get_tag().get_name(), t.get_input());
                }
            }
            Act::Walk => {
                let (ch, th) = handlers()?;
                walk_categories(&ch)?;
                walk_tags(&th)?;
                let _ = get_orders();
            }
            Act::Observe(k) => {
                let (mut ch, mut th) = handlers()?;
                let os = walk_categories(&ch)?;
                let ts = walk_tags(&th)?;
                for _ in 0..*k {
                    ch.add_general_observer(f.clone());
                    if let Some(o) = os.first() {
                        ch.add_option_lister(&o.2, f.clone());
                        ch.toggle(&o.2);
                        ch.remove_option_listener(&o.2, f);
                    }
                    th.add_general_observer(f.clone());
                    if let Some(t) = ts.last() {
                        th.add_tag_lister(&t.1, f.clone());
                        th.toggle(&t.1);
                        th.remove_tag_listener(&t.1, f);
                    }
                }
            }
        }
    }
    Ok(())
}

/// Uses handlers that stay, and leaves them as they were.
fn c35_kept(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut ch, mut th) = handlers()?;
    let (os, ts) = (walk_categories(&ch)?, walk_tags(&th)?);
    let f = Function::native(|_, _| Ok(JsValue::UNDEFINED));
    if s.chance(1, 2) {
        ch.add_general_observer(f.clone());
        th.add_general_observer(f.clone());
    }
    if let (Some(o), true) = (os.first(), s.chance(1, 2)) {
        ch.toggle(&o.2);
        ch.add_option_lister(&o.2, f.clone());
    }
    if let (Some(t), true) = (ts.first(), s.chance(1, 2)) {
        th.toggle(&t.1);
        th.add_tag_lister(&t.1, f.clone());
    }
    let acts: Vec<(usize, usize, usize)> = (0..s.range(1, 6)).map(|_| (s.below(6), s.below(os.len().max(1)), s.below(ts.len().max(1)))).collect();
    ctx.describe(|| format!("kept handlers: {acts:?}"));
    ctx.label("kept handlers");
    let mut round = || -> CaseResult {
        for (what, i, j) in &acts {
            match what {
                0 | 1 => {
                    let g = Function::native(|_, _| Ok(JsValue::UNDEFINED));
                    if let Some(o) = os.get(*i) {
                        ch.add_option_lister(&o.2, g.clone());
                        if *what == 1 {
                            ch.toggle(&o.2);
                            ch.toggle(&o.2);
                        }
                        ch.remove_option_listener(&o.2, &g);
                    }
                    if let Some(t) = ts.get(*j) {
                        th.add_tag_lister(&t.1, g.clone());
                        if *what == 1 {
                            th.toggle(&t.1);
                            th.toggle(&t.1);
                        }
                        th.remove_tag_listener(&t.1, &g);
                    }
                }
                2 => {
                    if let Some(o) = os.get(*i) {
                        ch.toggle(&o.2);
                        ch.toggle(&o.2);
                    }
                }
                3 => {
                    if let Some(t) = ts.get(*j) {
                        th.toggle(&t.1);
                        th.toggle(&t.1);
                    }
                }
                4 => {
                    if let Some(mut l) = search("", &ch, &th, None, &Object::new()) {
                        while l.next_product().is_some() {}
                    }
                }
                _ => {
                    // Removing what was never there.
                    let g = Function::native(|_, _| Ok(JsValue::UNDEFINED));
                    if let Some(o) = os.get(*i) {
                        ch.remove_option_listener(&o.2, &g);
                    }
                    if let Some(t) = ts.get(*j) {
                        th.remove_tag_listener(&t.1, &g);
                    }
                }
            }
        }
        Ok(())
    };
    for _ in 0..4 {
        no_panic(&mut round)??;
    }
    let before = held();
    for _ in 0..12 {
        no_panic(&mut round)??;
    }
    let after = held();
    ctx.inner += 12;
    ctx.nontrivial |= !os.is_empty() || !ts.is_empty();
    ensure!(after <= before, "doing the same 12 more times with handlers in use leaves {} more bytes in use", after - before);
    Ok(())
}

fn c35(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, tg) = catalog(s, &CatOpts { text: 10, max_products: 10, min_products: 1, ..CatOpts::default() });
    api_load(&c)?;
    let mut acts: Vec<Act> = Vec::new();
    for _ in 0..s.range(1, 5) {
        acts.push(match s.weighted(&[6, 2, 1, 2]) {
            0 => Act::Search {
                q: if s.chance(1, 3) { s.pick(&c).title.clone() } else { query(s, &c, &tg, 3) },
                order: match s.below(4) {
                    0 => Some("Alphabetical".into()),
                    1 => Some(s.pick(&["Price low to high", "no such order"]).to_string()),
                    _ => None,
                },
                options: (0..s.below(3)).map(|_| s.below(6)).collect(),
                tags: (0..s.below(3)).map(|_| s.below(6)).collect(),
                take: s.below(20),
            },
            1 => Act::Suggest(c.iter().flat_map(|p| p.tags.iter().cloned()).take(3).collect::<Vec<_>>().join(" ")),
            2 => Act::Walk,
            _ => Act::Observe(s.range(1, 4)),
        });
    }
    let (filter, _) = filters(s, &c);
    ctx.describe(|| format!("{acts:?} on {}", show(&c)));
    if s.chance(1, 3) {
        return c35_kept(s, ctx);
    }
    let f = Function::native(|_, _| Ok(JsValue::UNDEFINED));
    // The first rounds may fill caches.
    for _ in 0..3 {
        no_panic(|| c35_session(&acts, &filter, &f))??;
    }
    let rounds = 4;
    let before = held();
    for _ in 0..rounds {
        no_panic(|| c35_session(&acts, &filter, &f))??;
    }
    let after = held();
    ctx.inner += rounds;
    let (searched, toggled) = acts.iter().fold((false, false), |(a, b), x| match x {
        Act::Search { options, tags, .. } => (true, b || !options.is_empty() || !tags.is_empty()),
        Act::Observe(_) => (a, true),
        _ => (a, b),
    });
    ctx.nontrivial = searched && toggled;
    ensure!(after <= before, "doing the same {rounds} more times leaves {} more bytes in use", after - before);
    Ok(())
}


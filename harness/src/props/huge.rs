//! Catalogues of more than 65,536 products, whose places do not fit in 16 bits.
use super::common::*;
use crate::engine::{CaseResult, Ctx};
use crate::ensure;
use crate::gen::Prod;
use crate::src::Src;
use indexer_lib::search;
use js_sys::{Object, Reflect};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use wasm_bindgen::JsValue;

/// More than 65,536 products. Three quarters of them hold the word "lampen".
pub fn catalog(s: &mut Src) -> Vec<Prod> {
    let n = 65_537 + s.below(5_000);
    let step = *s.pick(&[1usize, 7_919, 104_729]);
    let fold = *s.pick(&[1_000usize, 70_001, 1_000_003]);
    let many_vendors = s.chance(1, 2);
    let every = s.range(2, 5);
    (0..n)
        .map(|i| {
            let k = i * step % fold;
            Prod {
                description: if i % 1_000 == 0 { format!("nr {i}") } else { String::new() },
                title: format!("{}{}", if i % 4 == 0 { "" } else { "lampen" }, k % 100),
                vendor: if many_vendors { format!("v{i}") } else { format!("v{}", i % 3) },
                id: format!("p{i}"),
                tags: if i % every == 0 { vec!["some".into(), "all".into()] } else { vec!["all".into()] },
                options: vec![("group".into(), vec![format!("{}", i % every)])],
                price: format!("{}.5", k),
                media: if i % 5 == 0 { vec![] } else { vec![format!("u{i}")] },
            }
        })
        .collect()
}

fn few<T: std::fmt::Debug>(v: impl Iterator<Item = T>) -> String {
    format!("{:?}", v.take(5).collect::<Vec<_>>())
}

/// The public interface with such a catalogue: one kind of condition, or several.
pub fn served(s: &mut Src, ctx: &mut Ctx, id: &str) -> CaseResult {
    let c = catalog(s);
    ctx.label("more than 65,536 products");
    ctx.describe(|| format!("{} products, the first {}, the last {}", c.len(), crate::gen::show(&c[..2]), crate::gen::show(&c[c.len() - 1..])));
    let bytes = api_load(&c)?;
    let lookup: HashMap<&str, &Prod> = c.iter().map(|p| (p.id.as_str(), p)).collect();
    let base = plain("lampen", c.len())?;
    let all = id_set(&base)?;
    ensure!(all.len() > 40_000, "{} products found by a word that {} have", all.len(), c.iter().filter(|p| p.title.len() > 5).count());
    let (mut ch, mut th) = handlers()?;
    let (mut option, mut tag, mut from, mut order) = (None, false, None, None);
    let several = id == "C20";
    if id == "C16" || several {
        let options = walk_categories(&ch)?;
        let o = s.pick(&options);
        ch.toggle(&o.2);
        option = Some(o.1.clone());
    }
    if id == "C17" || several {
        let tags = walk_tags(&th)?;
        let t = tags.iter().find(|t| t.0 == "some").ok_or("the tag is not offered")?;
        th.toggle(&t.1);
        tag = true;
    }
    let filter = Object::new();
    if id == "C18" || several {
        let at = f64::from(s.pick(&c).price_f32());
        let range = Object::new();
        Reflect::set(&range, &JsValue::from("from"), &JsValue::from_f64(at)).unwrap();
        Reflect::set(&filter, &JsValue::from("price"), &range).unwrap();
        from = Some(at);
    }
    if id == "C19" || several {
        order = Some(*s.pick(&ORDERS));
    }
    let want: BTreeSet<&str> = all
        .iter()
        .map(String::as_str)
        .filter(|i| {
            let p = lookup[i];
            option.as_ref().map_or(true, |v| p.has_option("group", v))
                && (!tag || p.has_tag("some"))
                && from.map_or(true, |f| f64::from(p.price_f32()) >= f)
        })
        .collect();
    let hits = run_search("lampen", &ch, &th, order, &filter, c.len())?.ok_or("the search is refused")?;
    ctx.inner += 1;
    let got = id_set(&hits)?;
    let what = format!("option {option:?}, tag {tag}, price from {from:?}, order {order:?}");
    if let Some(i) = got.iter().find(|i| !want.contains(i.as_str())) {
        return Err(format!("{what}: {i} is returned: {:?}", lookup[i.as_str()]));
    }
    if let Some(i) = want.iter().find(|i| !got.contains(**i)) {
        return Err(format!("{what}: {i} is missing: {:?}", lookup[i]));
    }
    ctx.nontrivial = true;
    if let Some(order) = order {
        for w in hits.windows(2) {
            let good = match order {
                "Alphabetical" => w[0].title <= w[1].title,
                "Price low to high" => w[0].price <= w[1].price,
                _ => w[0].price >= w[1].price,
            };
            ensure!(good, "{what}: {:?} before {:?}", (&w[0].title, w[0].price), (&w[1].title, w[1].price));
        }
    }
    if id == "C23" {
        let mut producer = search("lampen", &handlers()?.0, &handlers()?.1, None, &Object::new()).ok_or("the search is refused")?;
        while let Some(p) = producer.next_product() {
            let want = lookup[p.get_id().as_str()];
            ensure!(
                p.get_title() == want.title
                    && p.get_description() == want.description
                    && p.numeric_feature("price") == Some(f64::from(want.price_f32()))
                    && p.string_feature("image_url").as_deref() == Some(want.media.first().map_or("", String::as_str)),
                "{} is reported as {:?} {:?} {:?} {:?}, expected {want:?}",
                p.get_id(),
                p.get_title(),
                p.get_description(),
                p.numeric_feature("price"),
                p.string_feature("image_url")
            );
        }
        let nodes = colosseum::sync::Arena::new();
        let (g, _) = load::<5>(&bytes, &nodes)?;
        for p in &g.product_container.products {
            let want = lookup[p.id.as_str()];
            ensure!(p.vendor.name == want.vendor, "{} has vendor {:?}, expected {:?}", p.id, p.vendor.name, want.vendor);
        }
    }
    if id == "C19" {
        let nodes = colosseum::sync::Arena::new();
        let (_, classic) = load::<5>(&bytes, &nodes)?;
        for order in ORDERS {
            let mut ranks = classic.order.get_orders(order).ok_or_else(|| format!("there is no order {order:?}"))?.clone();
            ranks.sort_unstable();
            ensure!(ranks.iter().copied().eq(0..c.len()), "order {order:?}: the ranks are no arrangement: {}", few(ranks.iter().enumerate().filter(|(i, r)| i != *r)));
        }
    }
    Ok(())
}

/// Character pairs counted, for C07 and C08: how often each follows each, and in how many products.
pub fn counted(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = catalog(s);
    ctx.label("more than 65,536 products");
    ctx.describe(|| format!("{} products, the first {}", c.len(), crate::gen::show(&c[..2])));
    let bytes = build::<2>(&c)?;
    let nodes = colosseum::sync::Arena::new();
    let (g, _) = load::<2>(&bytes, &nodes)?;
    let mut single: BTreeMap<char, usize> = BTreeMap::new();
    let mut pairs: BTreeMap<[char; 2], Vec<usize>> = BTreeMap::new();
    for (i, p) in c.iter().enumerate() {
        let text = p.text();
        for ch in &text {
            *single.entry(*ch).or_insert(0) += 1;
        }
        for w in text.windows(2) {
            pairs.entry([w[0], w[1]]).or_default().push(i);
        }
    }
    let total: usize = single.values().sum();
    ensure!(g.roots.len() == single.len(), "{} characters in the tree, {} in the texts", g.roots.len(), single.len());
    for (ch, n) in &single {
        let node = g.roots.get(ch).ok_or_else(|| format!("{ch:?} is not in the tree"))?;
        let want = *n as f64 / total as f64;
        ensure!((f64::from(node.weight) - want).abs() <= 1e-6 * want, "{ch:?} has share {}, expected {want}", node.weight);
        for next in &node.by_occurances {
            let k = pairs.get(&[*ch, next.item]).map_or(0, Vec::len);
            let want = k as f64 / *n as f64;
            ensure!((f64::from(next.weight) - want).abs() <= 1e-6 * want, "{ch:?} then {:?} has share {}, expected {want}", next.item, next.weight);
        }
        ensure!(node.by_occurances.windows(2).all(|w| w[0].weight >= w[1].weight), "what follows {ch:?} is not in order of frequency");
        ctx.inner += 1;
    }
    let limit = c.len() * 4 / 5;
    for (gram, list) in &pairs {
        let mut distinct = list.clone();
        distinct.dedup();
        let got = g.data.get(gram).map(|l| l.iter().map(|p| p.serialization_id).collect::<Vec<_>>());
        if distinct.len().abs_diff(limit) <= 1 {
            continue;
        }
        if distinct.len() > limit {
            ensure!(got.is_none(), "{gram:?} occurs in {} of {} products and is listed", distinct.len(), c.len());
        } else {
            let got = got.ok_or_else(|| format!("{gram:?} occurs in {} of {} products and is not listed", distinct.len(), c.len()))?;
            ensure!(&got == list, "{gram:?} lists {} entries, expected {}", got.len(), list.len());
        }
        ctx.inner += 1;
    }
    ctx.nontrivial = true;
    Ok(())
}

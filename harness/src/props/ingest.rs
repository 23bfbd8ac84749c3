//! C25 to C27: JSON ingestion, tag suggestions and the life of the engine.
use super::common::*;
use super::ngram::by_identity;
use crate::engine::{no_panic, Ctx, Prop};
use crate::gen::{self, catalog, query, show, CatOpts, Prod};
use crate::src::Src;
use crate::ensure;
use colosseum::sync::Arena;
use indexer_lib::data::{FeatureSet, Product, ProductContainer};
use indexer_lib::{get_categories, get_orders, get_tags, initialize, tag_suggestion};
use js_sys::Object;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", rule: "the spelling has an escape, extra white space, another field order or an extra field; or the text is defective", quick: 80_000, thorough: 8_000_000, chunk: 80, run: c25 },
        Prop { id: "C26", rule: "some word and tag agree in at least one character, both at least 3 characters long", quick: 250_000, thorough: 25_000_000, chunk: 200, run: c26 },
        Prop { id: "C27", rule: "at least 2 loads, one of them after a failed or different load", quick: 40_000, thorough: 4_000_000, chunk: 25, run: c27 },
    ]
}

// --- C25 -------------------------------------------------------------------------------------

/// Another spelling of the same JSON.
struct Speller {
    escape: usize,
    space: usize,
    shuffle: bool,
    extra: usize,
    changed: bool,
}

impl Speller {
    fn ws(&mut self, s: &mut Src, out: &mut String) {
        if self.space > 0 && s.chance(self.space, 10) {
            self.changed = true;
            for _ in 0..s.range(1, 3) {
                out.push(*s.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    }
    fn string(&mut self, s: &mut Src, v: &str, out: &mut String) {
        out.push('"');
        for c in v.chars() {
            let must = c == '"' || c == '\\' || (c as u32) < 0x20;
            if !must && !(self.escape > 0 && s.chance(self.escape, 10)) {
                out.push(c);
                continue;
            }
            self.changed = true;
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\n' => Some('n'),
                '\t' => Some('t'),
                '\r' => Some('r'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                _ => None,
            };
            match short {
                Some(e) if s.chance(1, 2) => {
                    out.push('\\');
                    out.push(e);
                }
                _ => {
                    let mut buf = [0u16; 2];
                    for u in c.encode_utf16(&mut buf) {
                        *out += &if s.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                    }
                }
            }
        }
        out.push('"');
    }
    fn value(&mut self, s: &mut Src, v: &Value, catalogue: bool, out: &mut String) {
        self.ws(s, out);
        match v {
            Value::String(t) => self.string(s, t, out),
            Value::Array(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    self.value(s, x, false, out);
                }
                if a.is_empty() {
                    self.ws(s, out);
                }
                out.push(']');
            }
            Value::Object(m) => {
                out.push('{');
                let mut fields: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                // Fields may be added to objects with fixed fields, not to the catalogue itself.
                if self.extra > 0 && !catalogue && s.chance(self.extra, 10) {
                    self.changed = true;
                    let extra = match s.below(6) {
                        0 => json!(null),
                        1 => json!(1.5e3),
                        2 => json!("extra \" text"),
                        3 => json!({"title": "nested", "a": [1, {"b": null}]}),
                        4 => json!([]),
                        _ => json!(true),
                    };
                    let name = ["handle", "Title", "title ", "images", "æ", ""][s.below(6)];
                    fields.push((name.to_string(), extra));
                }
                let order = if self.shuffle { s.permutation(fields.len()) } else { (0..fields.len()).collect() };
                if order.iter().enumerate().any(|(i, j)| i != *j) {
                    self.changed = true;
                }
                for (k, i) in order.iter().enumerate() {
                    if k > 0 {
                        out.push(',');
                    }
                    self.ws(s, out);
                    self.string(s, &fields[*i].0, out);
                    self.ws(s, out);
                    out.push(':');
                    self.value(s, &fields[*i].1, false, out);
                }
                if fields.is_empty() {
                    self.ws(s, out);
                }
                out.push('}');
            }
            other => *out += &other.to_string(),
        }
        self.ws(s, out);
    }
}

const SPECIAL: [&str; 12] = ["\"", "\\", "/", "\n", "\t", "\u{8}", "\u{c}", "\r", "\u{1f}", "👽", "\u{ffff}", "é"];

fn c25(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut c, _) = catalog(s, &CatOpts { text: 12, max_products: 6, min_products: 1, ..CatOpts::default() });
    if s.chance(1, 2) {
        for p in &mut c {
            let special = |s: &mut Src, t: &mut String| {
                if s.chance(1, 4) {
                    t.push_str(SPECIAL[s.below(SPECIAL.len())]);
                }
            };
            special(s, &mut p.title);
            special(s, &mut p.description);
            special(s, &mut p.vendor);
            special(s, &mut p.id);
            p.tags.iter_mut().for_each(|t| special(s, t));
            p.media.iter_mut().for_each(|t| special(s, t));
            for (g, vs) in &mut p.options {
                special(s, g);
                vs.iter_mut().for_each(|t| special(s, t));
            }
        }
        // Special characters may have made ids equal.
        let ids: BTreeSet<&String> = c.iter().map(|p| &p.id).collect();
        if ids.len() != c.len() {
            c.truncate(1);
        }
    }
    let value: Value = serde_json::from_str(&gen::json_map(&c)).map_err(|e| format!("harness: {e}"))?;
    let mut sp = Speller { escape: s.weighted(&[2, 2, 1]) * 3, space: s.weighted(&[2, 2]) * 3, shuffle: s.chance(1, 2), extra: s.weighted(&[2, 1]) * 5, changed: false };
    let mut text = String::new();
    sp.value(s, &value, true, &mut text);
    ensure!(serde_json::from_str::<Value>(&text).is_ok(), "harness: bad JSON {text}");
    if s.chance(1, 2) {
        return c25_bad(s, ctx, &c, value, text);
    }
    ctx.describe(|| text.clone());
    ctx.nontrivial = sp.changed;
    ctx.label("well-formed");
    let bytes = no_panic(|| indexer_lib::index(&text)).map_err(|e| format!("indexing panicked: {e}"))?;
    let bytes = bytes.ok_or_else(|| format!("well-formed JSON is refused: {text}"))?;
    let nodes = Arena::new();
    let (g, classic) = load::<5>(&bytes, &nodes)?;
    let got = by_identity(&g, &classic)?;
    // Built from the plain spelling, and the texts compared with the source.
    let plain = build::<5>(&c)?;
    let nodes2 = Arena::new();
    let (g2, classic2) = load::<5>(&plain, &nodes2)?;
    if let Some(d) = diff(&got, &by_identity(&g2, &classic2)?) {
        return Err(format!("another spelling gives another index: {d}"));
    }
    ensure!(g.product_container.products.len() == c.len(), "{} products indexed of {}", g.product_container.products.len(), c.len());
    for p in &g.product_container.products {
        let x = c.iter().find(|x| x.id == p.id).ok_or_else(|| format!("unknown product {:?}", p.id))?;
        ensure!(p.title == x.title && p.vendor.name == x.vendor && p.description == shortened(&x.description, 100), "product {:?} is stored as {:?} {:?} {:?}", p.id, p.title, p.description, p.vendor.name);
        for cat in &classic.categories.0 {
            for o in &cat.options {
                ensure!(o.contains(p) == x.has_option(&cat.name, &o.name), "product {:?}: option {:?} of {:?}", p.id, o.name, cat.name);
            }
        }
        for t in classic.tags.iter() {
            ensure!(t.contains(p) == x.has_tag(&t.name), "product {:?}: tag {:?}", p.id, t.name);
        }
        ensure!(float_of(g.product_container, p, "price") == Some(x.price_f32()), "product {:?}: price", p.id);
        let image = string_of(g.product_container, p, "image_url").unwrap_or_default();
        ensure!(image == x.media.first().cloned().unwrap_or_default(), "product {:?}: image {image:?}", p.id);
    }
    let tags: BTreeSet<&String> = c.iter().flat_map(|p| &p.tags).collect();
    ensure!(classic.tags.iter().count() == tags.len(), "number of tags");
    Ok(())
}

/// A path to some value of the catalogue.
fn bad_value(s: &mut Src, v: &mut Value, c: &[Prod]) -> Option<String> {
    let id = s.pick(c).id.clone();
    let p = v.get_mut(&id)?.as_object_mut()?;
    let wrong = |s: &mut Src, was_list: bool| match s.below(6) {
        0 => Value::Null,
        1 => json!(12),
        2 => json!(true),
        3 => json!({"a": 1}),
        4 => json!([1]),
        _ => if was_list { json!("text") } else { json!(["text"]) },
    };
    match s.below(6) {
        0 => {
            let f = *s.pick(&["description", "tags", "title", "vendor", "id", "options", "price", "media"]);
            p.remove(f);
            Some(format!("{f} missing"))
        }
        1 => {
            let f = *s.pick(&["description", "tags", "title", "vendor", "id", "options", "price", "media"]);
            let w = match f {
                "tags" | "options" | "media" => wrong(s, true),
                "price" => match s.below(5) { 0 => json!("100"), 1 => json!(100), 2 => Value::Null, 3 => json!({}), _ => json!({"min": 1, "max": 2}) },
                _ => wrong(s, false),
            };
            p.insert(f.to_string(), w.clone());
            Some(format!("{f} is {w}"))
        }
        2 => {
            // Inside the price.
            let which = *s.pick(&["min", "max"]);
            let price = p.get_mut("price")?.as_object_mut()?;
            match s.below(3) {
                0 => {
                    price.remove(which);
                }
                1 => {
                    let f = *s.pick(&["amount", "currencyCode"]);
                    price.get_mut(which)?.as_object_mut()?.remove(f);
                }
                _ => {
                    let f = *s.pick(&["amount", "currencyCode"]);
                    price.get_mut(which)?.as_object_mut()?.insert(f.to_string(), json!(375.0));
                }
            }
            Some(format!("price {which} defective"))
        }
        3 => {
            // Not a finite number.
            let bad = *s.pick(&["", "abc", "NaN", "nan", "inf", "-inf", "infinity", "12,50", "1 000", " 12", "12 ", "12kr", "--1", "1.2.3", "0x10", ".", "-", "1e", "½"]);
            let min = p.get_mut("price")?.get_mut("min")?.as_object_mut()?;
            min.insert("amount".to_string(), json!(bad));
            Some(format!("price {bad:?}"))
        }
        4 => {
            let list = p.get_mut("tags")?.as_array_mut()?;
            list.push(wrong(s, false));
            Some("a tag that is no text".to_string())
        }
        _ => {
            let k = if s.chance(1, 2) { "options" } else { "media" };
            let list = p.get_mut(k)?.as_array_mut()?;
            let item = match (k, s.below(4)) {
                ("options", 0) => json!({"name": "x"}),
                ("options", 1) => json!({"values": ["x"]}),
                ("options", 2) => json!({"name": "x", "values": "x"}),
                ("options", _) => json!({"name": "x", "values": [1]}),
                (_, 0) => json!({}),
                (_, 1) => json!("https://x"),
                (_, 2) => json!({"url": null}),
                _ => json!({"url": 7}),
            };
            let shown = item.to_string();
            list.push(item);
            Some(format!("{k} with {shown}"))
        }
    }
}

fn c25_bad(s: &mut Src, ctx: &mut Ctx, c: &[Prod], value: Value, text: String) -> CaseResult {
    let (what, bad) = match s.weighted(&[4, 6, 2]) {
        0 => {
            // Cut short, before the closing brace.
            let end = text.rfind('}').unwrap_or(0);
            let mut cut = s.below(end + 1);
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            (format!("cut to {cut} of {} bytes", text.len()), text[..cut].to_string())
        }
        1 => {
            let mut v = value;
            match bad_value(s, &mut v, c) {
                Some(w) => (w, v.to_string()),
                None => return Ok(()),
            }
        }
        _ => {
            let t = match s.below(6) {
                0 => format!("{text} x"),
                1 => format!("[{text}]"),
                2 => "null".to_string(),
                3 => {
                    // Without the first colon that is not inside a string.
                    let (mut quoted, mut escaped) = (false, false);
                    let at = text.char_indices().find(|(_, ch)| {
                        let hit = !quoted && *ch == ':';
                        match ch {
                            _ if escaped => escaped = false,
                            '\\' => escaped = true,
                            '"' => quoted = !quoted,
                            _ => {}
                        }
                        hit
                    });
                    match at {
                        Some((i, _)) => format!("{} {}", &text[..i], &text[i + 1..]),
                        None => return Ok(()),
                    }
                }
                4 => text.replacen('{', "{\"k\":", 1),
                _ => gen::json_list(c),
            };
            ("structure".to_string(), t)
        }
    };
    ctx.label("defective");
    ctx.nontrivial = true;
    ctx.describe(|| format!("{what}: {bad}"));
    let r = no_panic(|| indexer_lib::index(&bad)).map_err(|e| format!("{what}: indexing panicked: {e}: {bad}"))?;
    ensure!(r.is_none(), "{what}: accepted: {bad}");
    Ok(())
}

// --- C26 -------------------------------------------------------------------------------------

const TAG_WORDS: [&str; 29] = [
    "poster", "posters", "Poster", "blå", "rød", "rØd", "kunst", "kunstner", "art", "artist", "abc", "ab", "a", "", "abcdefghij", "abcdefghiX", "abcdeXghiX", "漢字漢", "漢字字",
    "👽👽👽", "æøåæøå", "æøåæøx", "30x40", "tag with space",
    "pos\tter", "art\nist", "kunst\u{a0}ner", "kunst\r\n", "\u{3000}abc",
];

fn word(s: &mut Src) -> String {
    match s.weighted(&[3, 3, 2]) {
        0 => s.pick(&TAG_WORDS).to_string(),
        1 => {
            let mut c: Vec<char> = s.pick(&TAG_WORDS).chars().collect();
            gen::edit_chars(s, &mut c, &['x', 'å', '漢', 'a', '\t', '\u{2003}', '-', ',']);
            c.into_iter().filter(|c| *c != ' ').collect()
        }
        _ => {
            let n = s.range(0, 12);
            (0..n).map(|_| *s.pick(&['a', 'b', 'æ', '👽', '\n'])).collect()
        }
    }
}

/// The best agreement of a tag with a word as a fraction (same, length of the shorter one), the
/// pairs that agree well enough, and whether any agree at all.
#[allow(clippy::type_complexity)]
pub fn agreements<'a>(tags: &'a BTreeSet<String>, q: &'a str) -> (Option<(u64, u64)>, Vec<(u64, u64, &'a str, &'a str)>, bool) {
    let mut best: Option<(u64, u64)> = None;
    let mut pairs = Vec::new();
    let mut some = false;
    for w in q.split(' ') {
        for t in tags {
            let len = w.chars().count().min(t.chars().count()) as u64;
            let same = w.chars().zip(t.chars()).filter(|(a, b)| a == b).count() as u64;
            if len < 3 {
                continue;
            }
            some |= same > 0;
            if same * 5 > len * 4 {
                pairs.push((same, len, w, t.as_str()));
                if best.map_or(true, |(a, b)| same * b > a * len) {
                    best = Some((same, len));
                }
            }
        }
    }
    (best, pairs, some)
}

fn c26(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = s.range(0, 5);
    let c: Vec<Prod> = (0..n)
        .map(|i| Prod {
            description: String::new(),
            title: String::new(),
            vendor: String::new(),
            id: format!("p{i}"),
            tags: (0..s.below(4)).map(|_| word(s)).collect(),
            options: vec![],
            price: "1".into(),
            media: vec![],
        })
        .collect();
    api_load(&c)?;
    let tags: BTreeSet<String> = c.iter().flat_map(|p| p.tags.iter().cloned()).collect();
    ctx.describe(|| format!("tags {tags:?}"));
    for _ in 0..8 {
        let k = if s.chance(1, 20) { s.range(4, 40) } else { s.range(0, 3) };
        let words: Vec<String> = (0..k)
            .map(|_| {
                if !tags.is_empty() && s.chance(2, 3) {
                    let t: Vec<&String> = tags.iter().collect();
                    let mut w: Vec<char> = s.pick(&t).chars().collect();
                    if s.chance(1, 2) {
                        gen::edit_chars(s, &mut w, &['x', 'å', '漢', 'a']);
                    }
                    if s.chance(1, 4) {
                        w.extend("xyz".chars());
                    }
                    w.into_iter().collect()
                } else {
                    word(s)
                }
            })
            .collect();
        let q = words.join(*s.pick(&[" ", " ", " ", " ", "  ", "\t", "\n", "\u{a0}", ",", "\u{3000}"]));
        ctx.describe(|| format!("query {q:?}"));
        ctx.label_if(q.chars().any(|c| c.is_whitespace() && c != ' '), "white space other than spaces");
        ctx.inner += 1;
        let (best, pairs, some) = agreements(&tags, &q);
        ctx.nontrivial |= some;
        let got = no_panic(|| tag_suggestion(&q).map(|r| (r.get_tag().get_name(), r.get_input()))).map_err(|e| format!("query {q:?}: {e}"))?;
        match (got, best) {
            (None, None) => ctx.label("no suggestion"),
            (None, Some((a, b))) => return Err(format!("query {q:?}, tags {tags:?}: no suggestion although {a} of {b} characters agree")),
            (Some((t, w)), None) => return Err(format!("query {q:?}, tags {tags:?}: {t:?} is suggested for {w:?}")),
            (Some((t, w)), Some((a, b))) => {
                ctx.label("suggestion");
                ctx.label_if(pairs.len() > 1, "several matching pairs");
                ctx.label_if(!t.is_ascii(), "suggestion in another script");
                let ok = pairs.iter().any(|(x, y, pw, pt)| *pw == w && *pt == t && x * b == a * y);
                ensure!(ok, "query {q:?}, tags {tags:?}: {t:?} is suggested for {w:?}, but the best agreement is {a} of {b}");
            }
        }
    }
    Ok(())
}

// --- C27 -------------------------------------------------------------------------------------

struct Known {
    c: Vec<Prod>,
    bytes: Vec<u8>,
    /// Queries with the products they return, and the suggestion each word leads to.
    answers: Vec<(String, BTreeSet<String>)>,
    /// The orders it offers besides the usual ones, all by product id.
    orders: BTreeSet<String>,
}

fn c27(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if ctx.fresh {
        ctx.label("nothing loaded yet");
        ensure!(get_categories().is_none(), "categories before anything is loaded");
        ensure!(get_tags().is_none(), "tags before anything is loaded");
        ensure!(get_orders().is_none(), "orders before anything is loaded");
        ensure!(tag_suggestion("poster").is_none(), "a suggestion before anything is loaded");
        // Searching needs handlers, which only a loaded index gives; make some on the side.
        let c = c27_catalog(s, 0).0;
        let bytes = build::<5>(&c)?;
        let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
        let (_, classic) = load::<5>(&bytes, nodes)?;
        let classic = std::sync::Arc::new(classic);
        let ch = indexer_lib::js_interactable::CategoryHandler::new(classic.clone());
        let th = indexer_lib::js_interactable::TagHandler::new(classic);
        for q in ["plakat", ""] {
            ensure!(run_search(q, &ch, &th, None, &Object::new(), 100)?.is_none(), "search answered before anything is loaded");
        }
        // A failed load changes nothing.
        c27_failed(&bytes[..bytes.len() / 2])?;
        ensure!(get_categories().is_none() && get_tags().is_none() && get_orders().is_none(), "a failed load put something into service");
        ensure!(run_search("plakat", &ch, &th, None, &Object::new(), 100)?.is_none(), "a failed load put an index into service");
    }
    let mut made: Vec<Known> = Vec::new();
    let mut asked: Vec<String> = Vec::new();
    for k in 0..s.range(2, 3) {
        let (mut c, tg) = c27_catalog(s, k);
        if k > 0 && s.chance(1, 3) {
            // Much like the first catalogue, often to the byte.
            c = c27_sibling(s, &made[0].c, k);
        }
        let mut orders = BTreeSet::new();
        let bytes = if s.chance(1, 3) {
            ctx.label("an index with orders of its own");
            orders.extend((0..s.range(1, 2)).map(|i| s.pick(&["By id".to_string(), format!("By id {k}"), format!("Order {i}")]).clone()));
            c27_with_orders(&c, &orders)?
        } else {
            api_build(&c)?
        };
        let nodes = Arena::new();
        let (g, _) = load::<5>(&bytes, &nodes)?;
        let mut answers = Vec::new();
        for _ in 0..3 {
            let q = match s.weighted(&[2, 3, 1]) {
                0 => "plakat".to_string(),
                2 if !asked.is_empty() => s.pick(&asked).clone(),
                _ => query(s, &c, &tg, 2),
            };
            asked.push(q.clone());
            let want = g.search(crate::model::lower(&q).into_iter()).into_iter().map(|(p, _)| p.id.clone()).collect();
            answers.push((q, want));
        }
        ctx.label_if(made.iter().any(|m| m.bytes.len() == bytes.len()), "indexes of the same length");
        made.push(Known { c, bytes, answers, orders });
    }
    ctx.describe(|| made.iter().map(|k| show(&k.c)).collect::<Vec<_>>().join(" / "));
    let mut current: Option<usize> = None;
    let (mut loads, mut failed_then) = (0, false);
    let mut steps = Vec::new();
    // Handlers of earlier indexes that are still in use.
    let mut in_use: Vec<Box<dyn std::any::Any>> = Vec::new();
    for _ in 0..s.range(3, 9) {
        match s.weighted(&[4, 3]) {
            0 => {
                let k = s.below(made.len());
                steps.push(format!("load {k}"));
                ensure!(no_panic(|| initialize(&made[k].bytes)).map_err(|e| format!("loading a saved index: {e}"))?, "loading a saved index reported failure");
                loads += 1;
                failed_then |= current.map_or(false, |c| c != k);
                current = Some(k);
            }
            _ => {
                if current.is_none() {
                    continue;
                }
                let k = s.below(made.len());
                let b = &made[k].bytes;
                let bad: Vec<u8> = match s.below(4) {
                    0 => b[..s.below(b.len())].to_vec(),
                    // Just short of complete: everything but the last part decodes.
                    1 => b[..b.len() - 1 - s.below(b.len().min(40))].to_vec(),
                    2 => Vec::new(),
                    _ => dispatch_other(&made[k].c)?,
                };
                steps.push(format!("failing load of {} of {} bytes of {k}", bad.len(), b.len()));
                ctx.label("failed load");
                c27_failed(&bad)?;
                failed_then = true;
            }
        }
        if let Some(k) = current {
            ctx.inner += 1;
            c27_serves(&made, k).map_err(|e| format!("after {steps:?}: {e}"))?;
            match s.below(5) {
                0 => in_use.push(Box::new(get_categories())),
                1 => in_use.push(Box::new(get_tags())),
                2 if s.chance(1, 2) => in_use.clear(),
                _ => {}
            }
            ctx.label_if(!in_use.is_empty(), "handlers of an earlier index in use");
        }
    }
    ctx.describe(|| format!("steps {steps:?}"));
    ctx.nontrivial = loads >= 2 && failed_then;
    Ok(())
}

/// An index that the engine has to refuse: the bytes end early within the last order.
fn dispatch_other(c: &[Prod]) -> Result<Vec<u8>, String> {
    let mut b = build::<5>(c)?;
    b.pop();
    Ok(b)
}

/// The first catalogue with other products in it: other ids, and one more small change.
fn c27_sibling(s: &mut Src, first: &[Prod], k: usize) -> Vec<Prod> {
    let digit = char::from_digit(k as u32, 10).unwrap_or('x');
    let mut c = first.to_vec();
    for p in &mut c {
        p.id = p.id.replacen("k0-", &format!("k{k}-"), 1);
        for t in &mut p.tags {
            if t == "tag0000" {
                *t = t.replace('0', &digit.to_string());
            }
        }
        for (_, vs) in &mut p.options {
            vs.iter_mut().filter(|v| *v == "value 0").for_each(|v| *v = format!("value {k}"));
        }
    }
    match s.below(5) {
        0 => {
            let (i, j) = (s.below(c.len()), s.below(c.len()));
            let t = c[i].title.clone();
            c[i].title = std::mem::replace(&mut c[j].title, t);
        }
        1 => c.reverse(),
        2 => {
            let i = s.below(c.len());
            c[i].price = gen::price(s);
        }
        3 => {
            let i = s.below(c.len());
            c[i].tags.pop();
        }
        _ => {}
    }
    c
}

fn c27_catalog(s: &mut Src, k: usize) -> (Vec<Prod>, gen::TextGen) {
    let (mut c, tg) = catalog(s, &CatOpts { text: 10, max_products: 5, min_products: 1, ..CatOpts::default() });
    for p in &mut c {
        p.id = format!("k{k}-{}", p.id);
        if s.chance(1, 2) {
            p.tags.push(format!("tag{k}{k}{k}{k}"));
        }
        if s.chance(1, 3) {
            p.options.push(("Only".into(), vec![format!("value {k}")]));
        }
        if s.chance(1, 2) {
            p.title = format!("{} plakat", p.title);
        }
    }
    (c, tg)
}

/// A saved index that offers further orders, by product id.
fn c27_with_orders(c: &[Prod], orders: &BTreeSet<String>) -> Result<Vec<u8>, String> {
    let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
    let (index, mut classic) = direct::<5>(c, nodes)?;
    let container: &'static ProductContainer<'static> = Box::leak(Box::new(index.product_container));
    for o in orders {
        classic.order.add(container, &|p: &Product, _: &FeatureSet| p.id.clone(), o.clone());
    }
    Ok(save(&index, &classic))
}

/// The load fails: by reporting it or by throwing, which is what a panic is to JavaScript.
fn c27_failed(bytes: &[u8]) -> CaseResult {
    match no_panic(|| initialize(bytes)) {
        Ok(true) => Err(format!("initialize accepted {} bytes of an incomplete index", bytes.len())),
        Ok(false) | Err(_) => Ok(()),
    }
}

fn c27_serves(made: &[Known], k: usize) -> CaseResult {
    let c = &made[k].c;
    let (ch, th) = handlers()?;
    let groups: BTreeSet<String> = c.iter().flat_map(|p| p.options.iter().map(|(g, _)| g.clone())).collect();
    let options: BTreeSet<(String, String)> = c.iter().flat_map(|p| p.options.iter().flat_map(|(g, vs)| vs.iter().map(move |v| (g.clone(), v.clone())))).collect();
    let tags: BTreeSet<String> = c.iter().flat_map(|p| p.tags.iter().cloned()).collect();
    ensure!(walk_groups(&ch).into_iter().collect::<BTreeSet<_>>() == groups, "option groups are not those of the loaded index");
    let got: BTreeSet<(String, String)> = walk_categories(&ch)?.into_iter().map(|(g, v, _)| (g, v)).collect();
    ensure!(got == options, "options are {got:?}, of the loaded index {options:?}");
    let got: BTreeSet<String> = walk_tags(&th)?.into_iter().map(|(n, _)| n).collect();
    ensure!(got == tags, "tags are {got:?}, of the loaded index {tags:?}");
    let offered: Vec<String> = get_orders().ok_or("no orders")?.iter().filter_map(|o| o.as_string()).collect();
    let want: BTreeSet<String> = ORDERS.iter().map(|s| s.to_string()).chain(made[k].orders.iter().cloned()).collect();
    ensure!(offered.len() == want.len() && offered.iter().cloned().collect::<BTreeSet<_>>() == want, "orders are {offered:?}, of the loaded index {want:?}");
    for (q, want) in &made[k].answers {
        let hits = plain(q, c.len())?;
        ensure!(id_set(&hits)? == *want, "query {q:?} returns {:?}, the loaded index {want:?}", ids(&hits));
        let sorted = run_search(q, &ch, &th, Some("Price low to high"), &Object::new(), c.len())?.ok_or("sorted search refused")?;
        ensure!(id_set(&sorted)? == *want, "sorted query {q:?} returns {:?}, the loaded index {want:?}", ids(&sorted));
        ensure!(sorted.windows(2).all(|w| w[0].price <= w[1].price), "sorted query {q:?} uses the ranks of another index");
        for o in &made[k].orders {
            let sorted = run_search(q, &ch, &th, Some(o), &Object::new(), c.len())?.ok_or("search by an added order refused")?;
            ensure!(id_set(&sorted)? == *want, "query {q:?} by {o:?} returns {:?}, the loaded index {want:?}", ids(&sorted));
            ensure!(sorted.windows(2).all(|w| w[0].id <= w[1].id), "query {q:?} by {o:?} is not in the order of the loaded index: {:?}", ids(&sorted));
        }
    }
    // A selection made with the new handlers follows the new index.
    let items = walk_tags(&th)?;
    if let Some((name, item)) = items.first() {
        let mut th = get_tags().ok_or("no tags")?;
        th.toggle(item);
        for (q, want) in &made[k].answers {
            let hits = run_search(q, &ch, &th, None, &Object::new(), c.len())?.ok_or("search refused")?;
            let w: BTreeSet<String> = want.iter().filter(|id| c.iter().any(|p| p.id == **id && p.has_tag(name))).cloned().collect();
            ensure!(id_set(&hits)? == w, "query {q:?} with tag {name:?} returns {:?}, expected {w:?}", ids(&hits));
        }
    }
    for (i, _) in made.iter().enumerate() {
        let t = format!("tag{i}{i}{i}{i}");
        let got = tag_suggestion(&t).map(|r| r.get_tag().get_name());
        if tags.contains(&t) {
            ensure!(got.as_deref() == Some(&t), "tag {t:?} of the loaded index is not suggested: {got:?}");
        } else {
            ensure!(got.map_or(true, |g| tags.contains(&g)), "a tag of another index is suggested for {t:?}");
        }
    }
    Ok(())
}

//! C29 and C30: what was handed out stays valid, and the command-line program.
use super::common::*;
use super::ngram::by_identity;
use crate::engine::{no_panic, Ctx, Prop};
use crate::gen::{self, catalog, query, show, CatOpts, Prod};
use crate::model::lower;
use crate::src::Src;
use crate::ensure;
use colosseum::sync::Arena;
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, ProductProducer, TagHandler};
use indexer_lib::{initialize, search, tag_suggestion, TagSuggestionResult};
use js_sys::{Function, Object};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::rc::Rc;
use wasm_bindgen::JsValue;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C29", rule: "another index was loaded while a result list had products left", quick: 40_000, thorough: 4_000_000, chunk: 40, run: c29 },
        Prop { id: "C30", rule: "the catalogue has at least 2 products, or is refused", quick: 12_000, thorough: 1_200_000, chunk: 40, run: c30 },
    ]
}

// --- C29 -------------------------------------------------------------------------------------

/// Everything a page may hold of one index.
struct Held {
    c: Vec<Prod>,
    g: Gi<'static, 5>,
    ch: CategoryHandler,
    th: TagHandler,
    options: Vec<(String, String, ExportCategoryOption)>,
    tags: Vec<(String, JSTag)>,
    on: BTreeSet<usize>,
    ton: BTreeSet<usize>,
    list: ProductProducer,
    /// What the list still has to give.
    left: Vec<Hit>,
    suggestion: Option<(TagSuggestionResult, JSTag, String, String)>,
    log: Rc<RefCell<Vec<Option<bool>>>>,
}

fn c29_catalog(s: &mut Src) -> (Vec<Prod>, gen::TextGen) {
    let (mut c, tg) = catalog(s, &CatOpts { text: 10, max_products: 8, min_products: 1, ..CatOpts::default() });
    for p in &mut c {
        if s.chance(1, 2) {
            p.title = format!("{} plakat", p.title);
        }
    }
    (c, tg)
}

fn c29_hold(s: &mut Src, c: Vec<Prod>, tg: &gen::TextGen, bytes: &[u8]) -> Result<Held, String> {
    ensure!(no_panic(|| initialize(bytes))?, "initialize reported failure for a saved index");
    let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
    let (g, _) = load::<5>(bytes, nodes)?;
    let (mut ch, mut th) = handlers()?;
    let options = walk_categories(&ch)?;
    let tags = walk_tags(&th)?;
    let text = if s.chance(1, 2) { "plakat".to_string() } else { query(s, &c, tg, 2) };
    let order = if s.chance(1, 2) { Some(s.pick(&ORDERS).to_string()) } else { None };
    let mut left = run_search(&text, &ch, &th, order.as_deref(), &Object::new(), c.len())?.ok_or("search refused")?;
    let mut list = search(&text, &ch, &th, order.clone(), &Object::new()).ok_or("search refused")?;
    if order.is_none() {
        // Products of equal score may come in either order: only the set is compared then.
        left.sort_by(|a, b| a.id.cmp(&b.id));
    } else {
        // Read some of the list before the next load.
        for _ in 0..s.below(left.len() + 1) {
            let p = list.next_product().ok_or("the result list ended early")?;
            let at = left.iter().position(|h| h.id == p.get_id()).ok_or("the result list repeats a product")?;
            left.remove(at);
        }
    }
    let log: Rc<RefCell<Vec<Option<bool>>>> = Rc::default();
    let l = log.clone();
    let f = Function::native(move |_, args| {
        l.borrow_mut().push(args.first().and_then(JsValue::as_bool));
        Ok(JsValue::UNDEFINED)
    });
    ch.add_general_observer(f.clone());
    th.add_general_observer(f.clone());
    if let Some(o) = options.first() {
        ch.add_option_lister(&o.2, f.clone());
    }
    if let Some(t) = tags.first() {
        th.add_tag_lister(&t.1, f);
    }
    let (mut on, mut ton) = (BTreeSet::new(), BTreeSet::new());
    if !options.is_empty() && s.chance(1, 2) {
        let i = s.below(options.len());
        ch.toggle(&options[i].2);
        on.insert(i);
    }
    if !tags.is_empty() && s.chance(1, 2) {
        let i = s.below(tags.len());
        th.toggle(&tags[i].1);
        ton.insert(i);
    }
    let suggestion = if tags.is_empty() {
        None
    } else {
        let word = s.pick(&tags).0.clone();
        tag_suggestion(&word).map(|r| {
            let t = r.get_tag();
            let (name, input) = (t.get_name(), r.get_input());
            (r, t, name, input)
        })
    };
    Ok(Held { c, g, ch, th, options, tags, on, ton, list, left, suggestion, log })
}

fn c29_check(s: &mut Src, h: &mut Held) -> CaseResult {
    // Names, through iterators made now and through items made then.
    let options: Vec<(String, String)> = walk_categories(&h.ch)?.into_iter().map(|(g, v, _)| (g, v)).collect();
    let then: Vec<(String, String)> = h.options.iter().map(|(g, v, _)| (g.clone(), v.clone())).collect();
    ensure!(options == then, "the options of the older index were {then:?}, now {options:?}");
    let tags: Vec<String> = walk_tags(&h.th)?.into_iter().map(|(n, _)| n).collect();
    let then: Vec<String> = h.tags.iter().map(|(n, _)| n.clone()).collect();
    ensure!(tags == then, "the tags of the older index were {then:?}, now {tags:?}");
    for (n, t) in &h.tags {
        ensure!(t.get_name() == *n, "the tag {n:?} is now called {:?}", t.get_name());
    }
    for (_, v, o) in &h.options {
        ensure!(o.get_name() == *v, "the option {v:?} is now called {:?}", o.get_name());
    }
    if let Some((r, t, n, input)) = &h.suggestion {
        ensure!(t.get_name() == *n, "the suggested tag {n:?} is now called {:?}", t.get_name());
        ensure!(r.get_tag().get_name() == *n && r.get_input() == *input, "the suggestion of {n:?} for {input:?} is now {:?} for {:?}", r.get_tag().get_name(), r.get_input());
        // It stands for the tag of that name.
        let i = h.tags.iter().position(|(m, _)| m == n).ok_or("a tag was suggested that is not listed")?;
        ensure!(h.th.get_status(&r.get_tag()) == h.ton.contains(&i), "the suggested tag {n:?} is not the listed one");
    }
    // Selections, and what they mean for the older products.
    h.log.borrow_mut().clear();
    if !h.options.is_empty() && s.chance(1, 2) {
        let i = s.below(h.options.len());
        h.ch.toggle(&h.options[i].2);
        let state = h.on.insert(i) || !h.on.remove(&i);
        let want = vec![Some(state); if i == 0 { 2 } else { 1 }];
        ensure!(*h.log.borrow() == want, "observers of the older index were told {:?}, expected {want:?}", h.log.borrow());
    }
    h.log.borrow_mut().clear();
    if !h.tags.is_empty() && s.chance(1, 2) {
        let i = s.below(h.tags.len());
        h.th.toggle(&h.tags[i].1);
        let state = h.ton.insert(i) || !h.ton.remove(&i);
        let want = vec![Some(state); if i == 0 { 2 } else { 1 }];
        ensure!(*h.log.borrow() == want, "observers of the older index were told {:?}, expected {want:?}", h.log.borrow());
    }
    for (i, (g, v, o)) in h.options.iter().enumerate() {
        ensure!(h.ch.get_status(o) == h.on.contains(&i), "option {v:?} of {g:?} of the older index is {}", h.ch.get_status(o));
    }
    for (i, (n, t)) in h.tags.iter().enumerate() {
        ensure!(h.th.get_status(t) == h.ton.contains(&i), "tag {n:?} of the older index is {}", h.th.get_status(t));
    }
    for p in &h.g.product_container.products {
        let x = h.c.iter().find(|x| x.id == p.id).ok_or("unknown product")?;
        let want = h.on.iter().all(|i| x.has_option(&h.options[*i].0, &h.options[*i].1));
        ensure!(h.ch.is_valid(p) == want, "product {:?} of the older index passes its options: {}, expected {want}", p.id, !want);
        let want = h.ton.iter().all(|i| x.has_tag(&h.tags[*i].0));
        ensure!(h.th.is_valid(p) == want, "product {:?} of the older index passes its tags: {}, expected {want}", p.id, !want);
    }
    // A few more products of the list.
    for _ in 0..s.range(0, 3) {
        if h.left.is_empty() {
            ensure!(h.list.next_product().is_none(), "the older result list goes on after its end");
            break;
        }
        let p = h.list.next_product().ok_or("the older result list ends early")?;
        let at = h.left.iter().position(|x| x.id == p.get_id()).ok_or_else(|| format!("the older result list gives {:?}", p.get_id()))?;
        let want = h.left.remove(at);
        let got = Hit { id: p.get_id(), title: p.get_title(), description: p.get_description(), price: p.numeric_feature("price"), image: p.string_feature("image_url") };
        ensure!(format!("{got:?}") == format!("{want:?}"), "the older result list gives {got:?}, expected {want:?}");
    }
    Ok(())
}

fn c29(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut made = Vec::new();
    for _ in 0..s.range(2, 3) {
        let (c, tg) = c29_catalog(s);
        let bytes = api_build(&c)?;
        made.push((c, tg, bytes));
    }
    ctx.describe(|| made.iter().map(|k| show(&k.0)).collect::<Vec<_>>().join(" / "));
    let mut held: Vec<Held> = Vec::new();
    let mut steps = Vec::new();
    for _ in 0..s.range(2, 6) {
        if held.is_empty() || s.chance(1, 2) {
            let k = s.below(made.len());
            steps.push(format!("load {k}"));
            ctx.nontrivial |= held.iter().any(|h| !h.left.is_empty());
            held.push(c29_hold(s, made[k].0.clone(), &made[k].1, &made[k].2)?);
        } else {
            let k = s.below(made.len());
            let cut = s.below(made[k].2.len());
            steps.push(format!("failing load of {cut} bytes of {k}"));
            let _ = no_panic(|| initialize(&made[k].2[..cut]));
            ctx.label("failing load");
        }
        for (i, h) in held.iter_mut().enumerate() {
            ctx.inner += 1;
            c29_check(s, h).map_err(|e| format!("after {steps:?}, for load {i}: {e}"))?;
        }
    }
    ctx.describe(|| format!("steps {steps:?}"));
    ctx.label(&format!("{} loads", held.len()));
    // The rest of every list.
    for h in &mut held {
        while !h.left.is_empty() {
            let p = h.list.next_product().ok_or("the older result list ends early")?;
            let at = h.left.iter().position(|x| x.id == p.get_id()).ok_or_else(|| format!("the older result list gives {:?}", p.get_id()))?;
            h.left.remove(at);
        }
        ensure!(h.list.next_product().is_none(), "the older result list goes on after its end");
    }
    Ok(())
}

// --- C30 -------------------------------------------------------------------------------------

/// Runs the program in the current directory; whether it reports success.
fn run_program() -> Result<bool, String> {
    let exe = std::env::current_exe().map_err(|e| format!("harness: {e}"))?.with_file_name("program");
    let out = std::process::Command::new(exe)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| format!("harness: {e}"))?;
    Ok(out.success())
}

/// A directory of this process, removed when it goes out of scope.
struct Scratch {
    dir: PathBuf,
    back: PathBuf,
}
impl Scratch {
    fn enter() -> Result<Scratch, String> {
        let dir = std::env::temp_dir().join(format!("harness-c30-{}", std::process::id()));
        let back = std::env::current_dir().map_err(|e| format!("harness: {e}"))?;
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir(&dir).map_err(|e| format!("harness: {e}"))?;
        std::env::set_current_dir(&dir).map_err(|e| format!("harness: {e}"))?;
        Ok(Scratch { dir, back })
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.back);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// The catalogue with one defect: bytes that are no text, or text that is no JSON.
fn c30_spoiled(s: &mut Src, good: &str) -> Vec<u8> {
    let mut b = good.as_bytes().to_vec();
    // Somewhere within a text of the catalogue, or right after its first byte.
    let letters: Vec<usize> = (1..b.len()).filter(|i| b[*i].is_ascii_alphabetic()).collect();
    let at = if letters.is_empty() { 1.min(b.len()) } else { *s.pick(&letters) };
    match s.below(8) {
        0 => b[at..].iter_mut().take(1).for_each(|x| *x = 0xff),
        1 => b.splice(at..at, [0xc3]).for_each(drop),
        2 => b.splice(at..at, [0x80]).for_each(drop),
        3 => b.splice(at..at, [0xed, 0xa0, 0x80]).for_each(drop),
        4 => b.splice(at..at, [0xc0, 0xaf]).for_each(drop),
        5 => b = good.encode_utf16().flat_map(u16::to_le_bytes).collect(),
        6 => b.splice(0..0, [0xef, 0xbb, 0xbf]).for_each(drop),
        _ => b.extend(s.pick(&["}", ",", "{}", "x", "\u{0}", "null"]).bytes()),
    }
    b
}

fn c30(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let _scratch = Scratch::enter()?;
    let io = |e: std::io::Error| format!("harness: {e}");
    let mut before: Option<Vec<u8>> = None;
    for round in 0..s.range(1, 3) {
        let (c, tg) = catalog(s, &CatOpts { text: 14, max_products: 8, ..CatOpts::default() });
        let good = gen::json_map(&c);
        let bad = match s.weighted(&[5, 1, 1, 1, 1, 3]) {
            0 => None,
            1 => {
                let mut cut = s.below(good.len());
                while !good.is_char_boundary(cut) {
                    cut -= 1;
                }
                Some(good.as_bytes()[..cut].to_vec())
            }
            2 if !c.is_empty() => Some(good.replace("\"amount\":\"", "\"amount\":\"x").into_bytes()),
            3 => {
                let mut b = good.clone().into_bytes();
                b.push(0xff);
                Some(b)
            }
            5 => Some(c30_spoiled(s, &good)),
            _ => None,
        };
        let text = bad.clone().unwrap_or_else(|| good.clone().into_bytes());
        ctx.describe(|| format!("round {round}, {}: {}", if bad.is_some() { "defective" } else { "well-formed" }, String::from_utf8_lossy(&text)));
        let missing = s.chance(1, 20);
        if missing {
            let _ = std::fs::remove_file("test.json");
        } else {
            std::fs::write("test.json", &text).map_err(io)?;
        }
        let ok = run_program()?;
        let out = std::fs::read("out.test").ok();
        ctx.inner += 1;
        if missing || bad.is_some() {
            ctx.label("refused");
            ctx.nontrivial = true;
            ensure!(!ok, "round {round}: the program reports success for a defective or missing catalogue");
            ensure!(out == before, "round {round}: a refused catalogue changed the file written earlier");
            continue;
        }
        ctx.label("accepted");
        ctx.nontrivial |= c.len() >= 2;
        ensure!(ok, "round {round}: the program fails for a well-formed catalogue");
        let out = out.ok_or("the program reports success but wrote nothing")?;
        ensure!(std::fs::read("test.json").map_err(io)? == text, "round {round}: the program changed its input");
        let nodes = Arena::new();
        let (g, classic) = load::<5>(&out, &nodes).map_err(|_| format!("round {round}: the file written by the program does not load"))?;
        let direct = build::<5>(&c)?;
        let nodes2 = Arena::new();
        let (g2, classic2) = load::<5>(&direct, &nodes2)?;
        if let Some(d) = diff(&by_identity(&g, &classic)?, &by_identity(&g2, &classic2)?) {
            return Err(format!("round {round}: the program writes another index than the library: {d}"));
        }
        let end = save(&g, &classic).len();
        ensure!(end == out.len(), "round {round}: the file has {} bytes, the index {end}", out.len());
        // And it serves.
        ensure!(no_panic(|| initialize(&out))?, "round {round}: the file cannot be put into service");
        let q = query(s, &c, &tg, 2);
        let want: BTreeSet<String> = g.search(lower(&q).into_iter()).into_iter().map(|(p, _)| p.id.clone()).collect();
        let got = id_set(&plain(&q, c.len())?)?;
        ensure!(got == want, "round {round}: query {q:?} returns {got:?}, the index {want:?}");
        before = Some(out);
    }
    Ok(())
}

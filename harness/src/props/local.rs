//! C21, C24, C28.
use super::codec::base_container;
use super::common::*;
use crate::engine::{no_panic, Ctx, Prop};
use crate::gen::Prod;
use crate::src::Src;
use crate::ensure;
use colosseum::sync::Arena;
use indexer_lib::data::Product;
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};
use indexer_lib::serialize::{serialize_string_with_limit, Deserializable};
use js_sys::Function;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;
use wasm_bindgen::JsValue;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", rule: "at least 2 toggles and an observer registered before one of them", quick: 400_000, thorough: 50_000_000, chunk: 500, run: c21 },
        Prop { id: "C24", rule: "the text is longer than the limit", quick: 800_000, thorough: 80_000_000, chunk: 10_000, run: c24 },
        Prop { id: "C28", rule: "the id ends in a digit", quick: 800_000, thorough: 80_000_000, chunk: 10_000, run: c28 },
    ]
}

// --- C21 -------------------------------------------------------------------------------------

/// The two handlers behind one interface.
trait Handler {
    type Item;
    fn make(big: Option<Arc<Ci<'static>>>) -> Result<(Self, Vec<Self::Item>), String>
    where
        Self: Sized;
    fn toggle(&mut self, i: &Self::Item);
    fn status(&self, i: &Self::Item) -> bool;
    fn general(&mut self, f: Function);
    fn add(&mut self, i: &Self::Item, f: Function);
    fn remove(&mut self, i: &Self::Item, f: &Function);
}
impl Handler for CategoryHandler {
    type Item = ExportCategoryOption;
    fn make(big: Option<Arc<Ci<'static>>>) -> Result<(Self, Vec<Self::Item>), String> {
        let h = match big {
            Some(c) => CategoryHandler::new(c),
            None => handlers()?.0,
        };
        let items = walk_categories(&h)?.into_iter().map(|(_, _, o)| o).collect();
        Ok((h, items))
    }
    fn toggle(&mut self, i: &Self::Item) {
        CategoryHandler::toggle(self, i);
    }
    fn status(&self, i: &Self::Item) -> bool {
        self.get_status(i)
    }
    fn general(&mut self, f: Function) {
        self.add_general_observer(f);
    }
    fn add(&mut self, i: &Self::Item, f: Function) {
        self.add_option_lister(i, f);
    }
    fn remove(&mut self, i: &Self::Item, f: &Function) {
        self.remove_option_listener(i, f);
    }
}
impl Handler for TagHandler {
    type Item = JSTag;
    fn make(big: Option<Arc<Ci<'static>>>) -> Result<(Self, Vec<Self::Item>), String> {
        let h = match big {
            Some(c) => TagHandler::new(c),
            None => handlers()?.1,
        };
        let items = walk_tags(&h)?.into_iter().map(|(_, t)| t).collect();
        Ok((h, items))
    }
    fn toggle(&mut self, i: &Self::Item) {
        TagHandler::toggle(self, i);
    }
    fn status(&self, i: &Self::Item) -> bool {
        self.get_status(i)
    }
    fn general(&mut self, f: Function) {
        self.add_general_observer(f);
    }
    fn add(&mut self, i: &Self::Item, f: Function) {
        self.add_tag_lister(i, f);
    }
    fn remove(&mut self, i: &Self::Item, f: &Function) {
        self.remove_tag_listener(i, f);
    }
}

thread_local! {
    static LOADED: RefCell<bool> = const { RefCell::new(false) };
    static BIG: RefCell<Option<Arc<Ci<'static>>>> = const { RefCell::new(None) };
}

/// One index for most histories of a process: two groups and several tags.
fn c21_load() -> CaseResult {
    if LOADED.with(|l| *l.borrow()) {
        return Ok(());
    }
    let c: Vec<Prod> = (0..6)
        .map(|i| c21_product(i, vec![format!("tag{}", i % 4), format!("tag{}", (i + 1) % 4)], vec![
            ("Size".into(), vec![format!("{}", i % 3)]),
            ("Color".into(), vec![format!("{}", i % 2), "2".into()]),
        ]))
        .collect();
    api_load(&c)?;
    LOADED.with(|l| *l.borrow_mut() = true);
    Ok(())
}
fn c21_product(i: usize, tags: Vec<String>, options: Vec<(String, Vec<String>)>) -> Prod {
    Prod { description: String::new(), title: format!("title {i}"), vendor: "v".into(), id: format!("p{i}"), tags, options, price: "1".into(), media: vec![] }
}
/// An index with many tags, many groups and many options, the same names in several groups.
fn c21_big() -> Result<Arc<Ci<'static>>, String> {
    if let Some(c) = BIG.with(|b| b.borrow().clone()) {
        return Ok(c);
    }
    let c: Vec<Prod> = (0..300)
        .map(|i| {
            let mut options = vec![("Size".to_string(), vec![format!("{i}")]), ("Color".to_string(), vec![format!("{}", i % 70)])];
            if i < 280 {
                options.push((format!("group {i}"), vec!["0".to_string(), format!("{}", i % 3)]));
            }
            c21_product(i, vec![format!("tag {i}")], options)
        })
        .collect();
    let bytes = build::<5>(&c)?;
    let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
    let (_, classic) = load::<5>(&bytes, nodes)?;
    let classic = Arc::new(classic);
    BIG.with(|b| *b.borrow_mut() = Some(classic.clone()));
    Ok(classic)
}

fn c21(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    c21_load()?;
    let big = if s.chance(1, 60) { Some(c21_big()?) } else { None };
    ctx.label_if(big.is_some(), "hundreds of items");
    if s.chance(1, 2) {
        ctx.label("categories");
        c21_h::<CategoryHandler>(s, ctx, big)
    } else {
        ctx.label("tags");
        c21_h::<TagHandler>(s, ctx, big)
    }
}

struct State<H: Handler> {
    h: H,
    items: Vec<H::Item>,
    on: Vec<bool>,
    general: Vec<usize>,
    listeners: Vec<Vec<usize>>,
}

fn c21_h<H: Handler>(s: &mut Src, ctx: &mut Ctx, big: Option<Arc<Ci<'static>>>) -> CaseResult {
    let n_handlers = s.range(1, 3);
    let log: Rc<RefCell<Vec<(usize, Option<bool>, usize)>>> = Rc::new(RefCell::new(Vec::new()));
    let long = s.chance(1, 120);
    ctx.label_if(long, "long history");
    let n_functions = if long { s.range(4, 40) } else { s.range(1, 4) };
    let throwing: Vec<bool> = (0..n_functions).map(|_| s.chance(1, 4)).collect();
    let functions: Vec<Function> = (0..n_functions)
        .map(|k| {
            let log = log.clone();
            let throws = throwing[k];
            Function::native(move |_, args| {
                log.borrow_mut().push((k, args.first().and_then(JsValue::as_bool), args.len()));
                if throws {
                    Err(JsValue::from_str("observer failed"))
                } else {
                    Ok(JsValue::UNDEFINED)
                }
            })
        })
        .collect();
    let mut hs: Vec<State<H>> = Vec::new();
    for _ in 0..n_handlers {
        let (h, items) = H::make(big.clone())?;
        let n = items.len();
        hs.push(State { h, items, on: vec![false; n], general: vec![], listeners: vec![vec![]; n] });
    }
    ensure!(hs[0].items.len() >= 4, "fewer items than in the catalogue");
    // The items that are touched; close together in position, or alike in their low bits, or anywhere.
    let all = hs[0].items.len();
    let touched: Vec<usize> = if big.is_none() {
        (0..s.range(1, all)).collect()
    } else {
        let base = s.below(all);
        (0..s.range(2, 6))
            .map(|_| match s.below(4) {
                0 => s.below(all),
                1 => (base + s.below(3)) % all,
                _ => (base + *s.pick(&[16, 32, 64, 128, 256, 300, 370])) % all,
            })
            .collect()
    };
    let mut steps: Vec<String> = Vec::new();
    let (mut toggles, mut observed) = (0, false);
    for _ in 0..if long { s.range(60, 400) } else { s.range(2, 24) } {
        let k = s.below(n_handlers);
        let i = *s.pick(&touched);
        let f = s.below(n_functions);
        let st = &mut hs[k];
        match s.weighted(&[6, 1, 4, 3]) {
            0 => {
                steps.push(format!("handler {k}: toggle {i}"));
                log.borrow_mut().clear();
                no_panic(|| st.h.toggle(&st.items[i])).map_err(|e| format!("{steps:?}: {e}"))?;
                st.on[i] = !st.on[i];
                toggles += 1;
                let mut want: Vec<usize> = st.general.iter().chain(&st.listeners[i]).copied().collect();
                want.sort_unstable();
                observed |= !want.is_empty();
                ctx.label_if(want.iter().any(|f| throwing[*f]) && want.len() > 1, "throwing observer among several");
                ctx.label_if(want.windows(2).any(|w| w[0] == w[1]), "observer registered more than once");
                let calls = log.borrow().clone();
                let mut got: Vec<usize> = calls.iter().map(|c| c.0).collect();
                got.sort_unstable();
                ensure!(got == want, "{steps:?}: observers called {got:?}, expected {want:?}");
                for (f, state, args) in calls {
                    ensure!(state == Some(st.on[i]) && args >= 1, "{steps:?}: observer {f} was told {state:?}, the state is {}", st.on[i]);
                }
                ctx.inner += 1;
            }
            1 => {
                steps.push(format!("handler {k}: observe all with {f}"));
                st.h.general(functions[f].clone());
                st.general.push(f);
            }
            2 => {
                steps.push(format!("handler {k}: observe {i} with {f}"));
                st.h.add(&st.items[i], functions[f].clone());
                st.listeners[i].push(f);
            }
            _ => {
                steps.push(format!("handler {k}: stop observing {i} with {f}"));
                log.borrow_mut().clear();
                no_panic(|| st.h.remove(&st.items[i], &functions[f])).map_err(|e| format!("{steps:?}: {e}"))?;
                if let Some(p) = st.listeners[i].iter().position(|x| *x == f) {
                    st.listeners[i].swap_remove(p);
                    ctx.label("observer removed");
                }
                ensure!(log.borrow().is_empty(), "{steps:?}: removing an observer called it");
            }
        }
        for (k, st) in hs.iter().enumerate() {
            for (i, item) in st.items.iter().enumerate() {
                ensure!(st.h.status(item) == st.on[i], "{steps:?}: handler {k} has item {i} {}, expected {}", st.h.status(item), st.on[i]);
            }
        }
    }
    ctx.describe(|| format!("{n_handlers} handlers, throwing {throwing:?}: {}", steps.join("; ")));
    ctx.nontrivial = toggles >= 2 && observed;
    Ok(())
}

// --- C24 -------------------------------------------------------------------------------------

fn c24(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let limit = match s.weighted(&[4, 3, 1, 1]) {
        0 => s.range(0, 30),
        1 => 100,
        2 => s.range(0, 3),
        _ => *s.pick(&[127, 128, 1000, usize::MAX]),
    };
    let spaces = s.below(4);
    let around = limit.min(150);
    let len = match s.below(3) {
        0 => s.range(0, 12),
        1 => s.range(around.saturating_sub(4), around + 5),
        _ => s.range(0, around + 40),
    };
    let mut text = String::new();
    while text.len() < len {
        if spaces > 0 && s.chance(spaces, 12) {
            text.push(' ');
        } else {
            text.push(*s.pick(&['a', 'b', 'æ', '漢', '👽', 'z', '\t', '\u{a0}', '\n']));
        }
    }
    if s.chance(1, 8) {
        text.insert(0, ' ');
    }
    ctx.describe(|| format!("limit {limit}, {} bytes: {text:?}", text.len()));
    ctx.nontrivial = text.len() > limit;
    let mut out = Vec::new();
    no_panic(|| serialize_string_with_limit(&text, limit, &mut |b| out.push(b))).map_err(|e| format!("limit {limit}, text {text:?}: {e}"))?;
    let (rest, stored) = no_panic(|| String::deserialize(&out))?.ok_or_else(|| format!("limit {limit}, text {text:?}: stored form does not read back"))?;
    ensure!(rest.is_empty(), "limit {limit}, text {text:?}: stored form has {} bytes too many", rest.len());
    let want = shortened(&text, limit);
    ctx.label(if want == text { "kept whole" } else if text[want.len()..].starts_with(' ') { "cut before a space" } else { "cut at a character" });
    ensure!(text.is_empty() || !stored.is_empty(), "limit {limit}: {text:?} is stored as an empty text");
    ensure!(stored == want, "limit {limit}: {text:?} is stored as {stored:?}, expected {want:?}");
    Ok(())
}

// --- C28 -------------------------------------------------------------------------------------

fn c28(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let number = match s.weighted(&[3, 3, 2, 2]) {
        0 => s.below(1000) as u64,
        1 => s.raw() >> s.below(64),
        2 => u64::MAX - s.below(20) as u64,
        _ => 10u64.pow(s.range(0, 19) as u32).wrapping_sub(s.below(2) as u64),
    };
    let prefix = s.pick(&["", "gid://shopify/Product/", "p", "12-", "a1b", "æ", "👽", "1.", "v2 ", "٣", "9,", "/", "0x"]).to_string();
    let zeros = "0".repeat(s.weighted(&[6, 1, 1, 1]) * s.range(0, 12));
    let suffix = if s.chance(1, 6) { s.pick(&["x", " ", "/", "æ", "٣", "１"]).to_string() } else { String::new() };
    let id = if s.chance(1, 10) { prefix.clone() } else { format!("{prefix}{zeros}{number}{suffix}") };
    // Several parts with marks between them.
    let id = if s.chance(1, 4) {
        let mut parts = String::new();
        for _ in 0..s.range(1, 4) {
            let word = s.pick(&["a", "gid", "12", "7", "Variant", "æ", "0", "", "e9", "v"]);
            let mark = s.pick(&["?", "#", "&", "=", "?v=", "://", "/", ":", ";", ",", ".", "-", "_", "+", "%20", "\\", "\"", "\u{0}", "\n", "\t", " ", "|", "@", "~", "e", "E", "x", "(", "[", "\u{feff}"]);
            parts.push_str(word);
            parts.push_str(mark);
        }
        format!("{parts}{id}")
    } else {
        id
    };
    let digits: Vec<char> = id.chars().rev().take_while(char::is_ascii_digit).collect();
    let want = digits.iter().rev().try_fold(0u64, |a, d| a.checked_mul(10)?.checked_add(u64::from(d.to_digit(10)?)));
    let Some(want) = want else { return Ok(()) };
    ctx.nontrivial = !digits.is_empty();
    ctx.label_if(digits.len() >= 20, "at least 20 digits");
    ctx.describe(|| format!("{id:?}"));
    let c = base_container();
    let p = Product { description: String::new(), title: String::new(), vendor: c.products[0].vendor, id: id.clone(), serialization_id: 0 };
    let got = no_panic(|| p.get_id()).map_err(|e| format!("id {id:?}: {e}"))?;
    ensure!(got == want, "id {id:?} has number {got}, expected {want}");
    Ok(())
}

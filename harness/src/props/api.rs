//! C11 to C13, C16 to C20, C22, C23: the public search interface.
use super::{common::*, huge};
use crate::engine::{no_panic, set_hash_seed, Ctx, Prop};
use crate::gen::{self, catalog, query, show, CatOpts, Prod, Style, TextGen};
use crate::model::{corrections, lower, Model};
use crate::src::Src;
use crate::ensure;
use colosseum::sync::Arena;
use indexer_lib::js_interactable::{CategoryHandler, ProductProducer, TagHandler};
use js_sys::Object;
use std::collections::{BTreeMap, BTreeSet};
use wasm_bindgen::JsValue;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C11", rule: "some query returned a product and some query left one out", quick: 70_000, thorough: 7_000_000, chunk: 60, run: c11 },
        Prop { id: "C12", rule: "some searched run had to be found", quick: 50_000, thorough: 5_000_000, chunk: 60, run: c12 },
        Prop { id: "C13", rule: "a query or text with changed letters still found a product", quick: 40_000, thorough: 4_000_000, chunk: 60, run: c13 },
        Prop { id: "C16", rule: "a selection removed a result and kept another", quick: 80_000, thorough: 8_000_000, chunk: 60, run: c16 },
        Prop { id: "C17", rule: "a selection removed a result and kept another", quick: 80_000, thorough: 8_000_000, chunk: 60, run: c17 },
        Prop { id: "C18", rule: "a filter removed a result and kept another", quick: 80_000, thorough: 8_000_000, chunk: 60, run: c18 },
        Prop { id: "C19", rule: "a sorted result had at least 3 products with 2 different keys", quick: 80_000, thorough: 8_000_000, chunk: 60, run: c19 },
        Prop { id: "C20", rule: "at least 2 kinds of condition were active and something was removed", quick: 80_000, thorough: 8_000_000, chunk: 60, run: c20 },
        Prop { id: "C22", rule: "at least 2 option groups or 2 tags", quick: 120_000, thorough: 12_000_000, chunk: 100, run: c22 },
        Prop { id: "C23", rule: "at least 2 products that differ in media or vendor", quick: 80_000, thorough: 8_000_000, chunk: 80, run: c23 },
    ]
}

/// A catalogue whose products share words, so that queries find several.
fn shared(s: &mut Src) -> (Vec<Prod>, TextGen) {
    let style = [Style::Words, Style::Tiny, Style::Pool][s.weighted(&[7, 2, 1])];
    let (mut c, tg) = catalog(s, &CatOpts { text: 16, min_products: 1, max_products: 16, style: Some(style), ..CatOpts::default() });
    for p in &mut c {
        // A common word in about two thirds of the products: below the share at which it is dropped.
        if s.chance(3, 5) {
            p.title = format!("{} plakat", p.title);
        }
    }
    (c, tg)
}
fn a_query(s: &mut Src, c: &[Prod], tg: &TextGen) -> String {
    match s.weighted(&[4, 6, 1]) {
        0 => "plakat".to_string(),
        1 => query(s, c, tg, 3),
        _ => String::new(),
    }
}
fn pick_by_id<'c>(c: &'c [Prod], id: &str) -> Result<&'c Prod, String> {
    c.iter().find(|p| p.id == id).ok_or_else(|| format!("result {id:?} is not in the catalogue"))
}

fn by_id(c: &[Prod]) -> BTreeMap<&str, &Prod> {
    c.iter().map(|p| (p.id.as_str(), p)).collect()
}
fn same_ids(lookup: &BTreeMap<&str, &Prod>, g: &Gi<'_, 5>) -> CaseResult {
    let got: BTreeSet<&str> = g.product_container.products.iter().map(|p| p.id.as_str()).collect();
    ensure!(got.len() == g.product_container.products.len() && got == lookup.keys().copied().collect(), "the loaded products are {got:?}");
    Ok(())
}

// --- C11 -------------------------------------------------------------------------------------

fn related(q: &[char], text: &[char]) -> bool {
    text.windows(5).any(|gram| {
        // A surplus character makes the typed piece one longer, a missing one one shorter.
        (0..q.len()).any(|i| {
            (4..=6).any(|l| {
                let piece = &q[i..q.len().min(i + l)];
                piece.len() == l && corrections_exact(piece, gram)
            })
        })
    })
}
/// The whole piece equals the gram after at most one correction behind the first character.
fn corrections_exact(piece: &[char], gram: &[char]) -> bool {
    if piece[0] != gram[0] {
        return false;
    }
    match piece.len() {
        5 => piece.iter().zip(gram).filter(|(a, b)| a != b).count() <= 1,
        4 => (1..5).any(|i| gram[..i] == piece[..i] && gram[i + 1..] == piece[i..]),
        _ => (1..6).any(|i| gram[..i] == piece[..i] && gram[i..] == piece[i + 1..]),
    }
}

fn c11(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, tg) = catalog(s, &CatOpts { min_products: 1, max_products: 14, ..CatOpts::default() });
    ctx.describe(|| show(&c));
    api_load(&c)?;
    let (mut some, mut left) = (false, false);
    let mut queries: Vec<String> = (0..8).map(|_| query(s, &c, &tg, 2)).collect();
    queries.push(["zzzzzz", "qwertyqwerty", "", "aaaa", "\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}"][s.below(5)].to_string());
    for text in queries {
        let q = lower(&text);
        let hits = plain(&text, c.len())?;
        ctx.inner += 1;
        for h in &hits {
            let p = pick_by_id(&c, &h.id)?;
            ensure!(related(&q, &p.text()), "query {text:?} returns {:?}, whose text {:?} shares nothing with it", h.id, p.text().iter().collect::<String>());
        }
        let any = c.iter().any(|p| related(&q, &p.text()));
        ctx.label(match (any, hits.is_empty()) {
            (false, true) => "nothing related, nothing returned",
            (true, true) => "something related, nothing returned",
            _ => "something returned",
        });
        some |= !hits.is_empty();
        left |= hits.len() < c.len();
    }
    ctx.nontrivial = some && left;
    Ok(())
}

// --- C12 -------------------------------------------------------------------------------------

/// The n-gram is indexed and strictly likelier than any correction of itself.
fn must_resolve(m: &Model, gram: &[char]) -> bool {
    if !m.kept(gram) {
        return false;
    }
    let (_, best) = m.best(gram, 1e-3);
    best.len() == 1 && best[0] == gram
}

fn c12(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, _) = catalog(s, &CatOpts { text: 24, min_products: 2, max_products: 16, ..CatOpts::default() });
    ctx.describe(|| show(&c));
    let m = Model::new(&c, 5);
    api_load(&c)?;
    for _ in 0..12 {
        let k = s.below(c.len());
        let p = &c[k];
        let (name, field) = [("description", &p.description), ("title", &p.title), ("vendor", &p.vendor)][s.below(3)];
        let chars: Vec<char> = field.chars().collect();
        if chars.len() < 5 {
            continue;
        }
        // Both ends of the field come up often.
        let len = if s.chance(1, 2) { 5 } else { s.range(5, chars.len().min(20)) };
        let start = match s.weighted(&[1, 1, 2]) {
            0 => 0,
            1 => chars.len() - len,
            _ => s.below(chars.len() - len + 1),
        };
        let text: String = chars[start..start + len].iter().collect();
        let q = lower(&text);
        let expected = q.windows(5).any(|w| must_resolve(&m, w));
        ctx.inner += 1;
        if !expected {
            ctx.label("too common or not the likeliest");
            continue;
        }
        ctx.nontrivial = true;
        ctx.label(&format!("run of the {name} that has to be found"));
        ctx.label_if(start == 0, "at the start of the field");
        ctx.label_if(start + len == chars.len(), "at the end of the field");
        let hits = id_set(&plain(&text, c.len())?)?;
        ensure!(hits.contains(&p.id), "searching {text:?}, part of the {name} of {:?}, returns only {hits:?}", p.id);
    }
    Ok(())
}

// --- C13 -------------------------------------------------------------------------------------

/// By their lower-case form, the letters that differ from it.
fn alike() -> &'static BTreeMap<char, Vec<char>> {
    static ALIKE: std::sync::OnceLock<BTreeMap<char, Vec<char>>> = std::sync::OnceLock::new();
    ALIKE.get_or_init(|| {
        let mut out: BTreeMap<char, Vec<char>> = BTreeMap::new();
        for c in '\0'..=char::MAX {
            let low = c.to_lowercase();
            if low.len() == 1 {
                for l in low.filter(|l| *l != c) {
                    out.entry(l).or_default().push(c);
                }
            }
        }
        out
    })
}

/// A character or characters with the same lower-case form.
fn other_case(s: &mut Src, c: char) -> String {
    let low: String = c.to_lowercase().collect();
    let mut options: Vec<String> = c.to_uppercase().chain(c.to_lowercase()).map(String::from).collect();
    if let Some(list) = low.chars().next().and_then(|l| alike().get(&l)) {
        options.extend(list.iter().copied().map(String::from));
    }
    options.push(low.clone());
    options.retain(|o| crate::model::lower(o).into_iter().collect::<String>() == low);
    if options.is_empty() {
        return c.to_string();
    }
    s.pick(&options).clone()
}
fn mangle(s: &mut Src, text: &str) -> String {
    let mode = s.below(3);
    // The one letter whose lower-case form has two characters.
    let text = if s.chance(1, 2) { text.replace("i\u{307}", "İ") } else { text.to_string() };
    text.chars().map(|c| if mode == 0 || s.chance(1, 2) { other_case(s, c) } else { c.to_string() }).collect()
}

fn c13(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (c, tg) = catalog(s, &CatOpts { min_products: 1, max_products: 12, ..CatOpts::default() });
    let mut d = c.clone();
    let mut vendors: BTreeMap<String, String> = BTreeMap::new();
    for p in &mut d {
        p.description = mangle(s, &p.description);
        p.title = mangle(s, &p.title);
        // One spelling per vendor, or not.
        let v = mangle(s, &p.vendor);
        p.vendor = if s.chance(1, 3) { v } else { vendors.entry(p.vendor.clone()).or_insert(v).clone() };
    }
    ctx.describe(|| format!("{} ; with changed case: {}", show(&c), show(&d)));
    let queries: Vec<(String, String)> = (0..8)
        .map(|_| {
            let q = query(s, &c, &tg, 2);
            let r = mangle(s, &q);
            (q, r)
        })
        .collect();
    let seed = s.raw();
    let m = Model::new(&c, 5);
    for (p, q) in c.iter().zip(&d) {
        ensure!(p.text() == q.text(), "harness: change of case changed the lower-cased text");
    }
    // A tie between resolutions may be broken either way by another build.
    let ambiguous = |q: &str| lower(q).windows(5).any(|w| m.best(w, 1e-4).1.len() > 1);
    set_hash_seed(seed);
    api_load(&c)?;
    let mut first = Vec::new();
    for (q, r) in &queries {
        ensure!(lower(q) == lower(r), "harness: change of case changed the lower-cased query");
        let (a, b) = (plain(q, c.len())?, plain(r, c.len())?);
        let (a, b) = (id_set(&a)?, id_set(&b)?);
        ctx.inner += 1;
        ensure!(a == b, "query {q:?} returns {a:?} but {r:?} returns {b:?}");
        ctx.label_if(q != r && !a.is_empty(), "query with changed case found something");
        ctx.nontrivial |= q != r && !a.is_empty();
        first.push(a);
    }
    set_hash_seed(seed);
    api_load(&d)?;
    for ((q, r), a) in queries.iter().zip(&first) {
        let b = id_set(&plain(r, c.len())?)?;
        if *a != b && ambiguous(q) {
            ctx.label("tie between resolutions");
            continue;
        }
        ctx.inner += 1;
        ensure!(*a == b, "query {q:?} returns {a:?}, with the case of the indexed texts changed {b:?}");
        ctx.nontrivial |= !a.is_empty() && c != d;
    }
    Ok(())
}

// --- C16, C17 --------------------------------------------------------------------------------

/// A history of toggles: places among `n`, of which `own` belong to one product.
fn toggles(s: &mut Src, n: usize, own: &[usize]) -> Vec<usize> {
    let mut out = Vec::new();
    match s.weighted(&[12, 6, 1]) {
        0 => {}
        1 => {
            // What a product has, or most of it.
            let most = s.chance(1, 2);
            out.extend(own.iter().filter(|_| !most || s.chance(4, 5)));
        }
        _ => {
            for _ in 0..s.range(5, 40) {
                out.push(s.below(n));
            }
        }
    }
    for _ in 0..s.weighted(&[1 + 8 * usize::from(!out.is_empty()), 8, 4, 1, 1]) {
        out.push(s.below(n));
    }
    if n == 0 {
        out.clear();
    }
    if s.chance(1, 3) {
        out = s.permutation(out.len()).into_iter().map(|i| out[i]).collect();
    }
    out
}
/// Toggle a random set of options; returns the ones left selected.
fn select_options(s: &mut Src, h: &mut CategoryHandler, c: &[Prod]) -> Result<Vec<(String, String)>, String> {
    let options = walk_categories(h)?;
    let p = s.pick(c);
    let own: Vec<usize> = (0..options.len()).filter(|i| p.has_option(&options[*i].0, &options[*i].1)).collect();
    let mut active: BTreeSet<usize> = BTreeSet::new();
    for i in toggles(s, options.len(), &own) {
        h.toggle(&options[i].2);
        if !active.remove(&i) {
            active.insert(i);
        }
    }
    Ok(active.into_iter().map(|i| (options[i].0.clone(), options[i].1.clone())).collect())
}
fn select_tags(s: &mut Src, h: &mut TagHandler, c: &[Prod]) -> Result<Vec<String>, String> {
    let tags = walk_tags(h)?;
    let p = s.pick(c);
    let own: Vec<usize> = (0..tags.len()).filter(|i| p.has_tag(&tags[*i].0)).collect();
    let mut active: BTreeSet<usize> = BTreeSet::new();
    for i in toggles(s, tags.len(), &own) {
        h.toggle(&tags[i].1);
        if !active.remove(&i) {
            active.insert(i);
        }
    }
    Ok(active.into_iter().map(|i| tags[i].0.clone()).collect())
}
fn how_many(n: usize) -> String {
    match n {
        0..=5 => n.to_string(),
        6..=10 => "6 to 10".into(),
        _ => "more than 10".into(),
    }
}

fn c16(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 8_000) {
        return huge::served(s, ctx, "C16");
    }
    let (c, tg) = shared(s);
    ctx.describe(|| show(&c));
    membership_by_place(s, ctx, &c)?;
    let bytes = api_load(&c)?;
    // Membership after loading, for every product and option.
    let nodes = Arena::new();
    let (g, classic) = load::<5>(&bytes, &nodes)?;
    let lookup = by_id(&c);
    same_ids(&lookup, &g)?;
    for cat in &classic.categories.0 {
        for o in &cat.options {
            for p in &g.product_container.products {
                let want = lookup[p.id.as_str()].has_option(&cat.name, &o.name);
                ctx.inner += 1;
                ensure!(o.contains(p) == want, "product {:?}: option {:?} of {:?} is {}, in the catalogue {want}", p.id, o.name, cat.name, o.contains(p));
            }
        }
    }
    for _ in 0..5 {
        let text = a_query(s, &c, &tg);
        let (mut ch, th) = handlers()?;
        let base = plain(&text, c.len())?;
        let active = select_options(s, &mut ch, &c)?;
        let hits = run_search(&text, &ch, &th, None, &Object::new(), c.len())?.ok_or("search returned nothing")?;
        let (base, hits) = (id_set(&base)?, id_set(&hits)?);
        let mut want = BTreeSet::new();
        for id in &base {
            let p = pick_by_id(&c, id)?;
            if active.iter().all(|(g, v)| p.has_option(g, v)) {
                want.insert(id.clone());
            }
        }
        ctx.inner += 1;
        ctx.label(&format!("{} options selected", how_many(active.len())));
        ctx.nontrivial |= !want.is_empty() && want.len() < base.len();
        ensure!(hits == want, "query {text:?} with {active:?} selected returns {hits:?}, expected {want:?}");
        // The handler's own test agrees, for every product.
        for p in &g.product_container.products {
            let x = lookup[p.id.as_str()];
            let ok = active.iter().all(|(g, v)| x.has_option(g, v));
            ensure!(ch.is_valid(p) == ok, "product {:?} with {active:?} selected: valid {}, expected {ok}", p.id, ch.is_valid(p));
        }
    }
    Ok(())
}

/// Products that share an id have options and tags of their own.
fn membership_by_place(s: &mut Src, ctx: &mut Ctx, c: &[Prod]) -> CaseResult {
    let mut c = c.to_vec();
    if !gen::share_ids(s, &mut c) {
        return Ok(());
    }
    ctx.label("products that share an id");
    let nodes = Arena::new();
    let (a, ac) = direct::<5>(&c, &nodes)?;
    let (b, bc) = load::<5>(&save(&a, &ac), &nodes)?;
    for (g, classic) in [(&a, &ac), (&b, &bc)] {
        for (p, x) in g.product_container.products.iter().zip(&c) {
            for t in classic.tags.iter() {
                ctx.inner += 1;
                ensure!(t.contains(p) == x.has_tag(&t.name), "product {} of {}: tag {:?} is {}", p.serialization_id, show(&c), t.name, t.contains(p));
            }
            for group in &classic.categories.0 {
                for o in &group.options {
                    ctx.inner += 1;
                    ensure!(o.contains(p) == x.has_option(&group.name, &o.name), "product {} of {}: option {:?} of {:?} is {}", p.serialization_id, show(&c), o.name, group.name, o.contains(p));
                }
            }
        }
    }
    Ok(())
}

fn c17(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 8_000) {
        return huge::served(s, ctx, "C17");
    }
    let (c, tg) = shared(s);
    ctx.describe(|| show(&c));
    membership_by_place(s, ctx, &c)?;
    let bytes = api_load(&c)?;
    let nodes = Arena::new();
    let (g, classic) = load::<5>(&bytes, &nodes)?;
    let lookup = by_id(&c);
    same_ids(&lookup, &g)?;
    for t in classic.tags.iter() {
        for p in &g.product_container.products {
            let want = lookup[p.id.as_str()].has_tag(&t.name);
            ctx.inner += 1;
            ensure!(t.contains(p) == want, "product {:?}: tag {:?} is {}, in the catalogue {want}", p.id, t.name, t.contains(p));
        }
    }
    for _ in 0..5 {
        let text = a_query(s, &c, &tg);
        let (ch, mut th) = handlers()?;
        let base = plain(&text, c.len())?;
        let active = select_tags(s, &mut th, &c)?;
        let hits = run_search(&text, &ch, &th, None, &Object::new(), c.len())?.ok_or("search returned nothing")?;
        let (base, hits) = (id_set(&base)?, id_set(&hits)?);
        let mut want = BTreeSet::new();
        for id in &base {
            let p = pick_by_id(&c, id)?;
            if active.iter().all(|t| p.has_tag(t)) {
                want.insert(id.clone());
            }
        }
        ctx.inner += 1;
        ctx.label(&format!("{} tags selected", how_many(active.len())));
        ctx.nontrivial |= !want.is_empty() && want.len() < base.len();
        ensure!(hits == want, "query {text:?} with {active:?} selected returns {hits:?}, expected {want:?}");
        for p in &g.product_container.products {
            let x = lookup[p.id.as_str()];
            let ok = active.iter().all(|t| x.has_tag(t));
            ensure!(th.is_valid(p) == ok, "product {:?} with {active:?} selected: valid {}, expected {ok}", p.id, th.is_valid(p));
        }
    }
    Ok(())
}

// --- C18 -------------------------------------------------------------------------------------

fn c18(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 8_000) {
        return huge::served(s, ctx, "C18");
    }
    let (c, tg) = shared(s);
    ctx.describe(|| show(&c));
    api_load(&c)?;
    for _ in 0..8 {
        let text = a_query(s, &c, &tg);
        let (obj, fs) = filters(s, &c);
        let (ch, th) = handlers()?;
        let base = plain(&text, c.len())?;
        let hits = run_search(&text, &ch, &th, None, &obj, c.len())?
            .ok_or_else(|| format!("query {text:?} with {fs:?} is refused"))?;
        let want: BTreeSet<String> = base.iter().filter(|h| fs.iter().all(|f| f.keeps(h))).map(|h| h.id.clone()).collect();
        let hits = id_set(&hits)?;
        ctx.inner += 1;
        for f in &fs {
            ctx.label(&format!("{} {}", f.feature, match f.cond { Cond::Range(None, None) => "unbounded range", Cond::Range(..) => "range", Cond::ExactNum(_) => "exact number", Cond::ExactStr(_) => "exact text", Cond::Empty => "empty" }));
        }
        ctx.label_if(fs.len() > 1, "several filters");
        ctx.nontrivial |= !want.is_empty() && want.len() < base.len();
        for h in &base {
            let p = pick_by_id(&c, &h.id)?;
            ensure!(h.price == Some(f64::from(p.price_f32())), "product {:?} reports price {:?}", h.id, h.price);
        }
        ensure!(hits == want, "query {text:?} with filters {:?} returns {hits:?}, expected {want:?}", fs.iter().map(|f| &f.shown).collect::<Vec<_>>());
    }
    Ok(())
}

// --- C19 -------------------------------------------------------------------------------------

/// Whether results are in the requested order.
fn ordered(hits: &[Hit], order: &str) -> bool {
    hits.windows(2).all(|w| match order {
        "Alphabetical" => w[0].title <= w[1].title,
        "Price low to high" => w[0].price <= w[1].price,
        _ => w[0].price >= w[1].price,
    })
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 8_000) {
        return huge::served(s, ctx, "C19");
    }
    let (mut c, tg) = shared(s);
    if c.len() > 2 && s.chance(1, 2) {
        // Equal titles and equal prices.
        for _ in 0..s.range(1, 3) {
            let (i, j) = (s.below(c.len()), s.below(c.len()));
            c[i].price = c[j].price.clone();
            if s.chance(1, 2) {
                c[i].title = c[j].title.clone();
            }
        }
    }
    ctx.describe(|| show(&c));
    let bytes = api_load(&c)?;
    // The stored ranks, before saving and after loading.
    let nodes = Arena::new();
    let (g, classic) = load::<5>(&bytes, &nodes)?;
    c19_ranks(&g, &classic, "after loading")?;
    if s.chance(1, 4) {
        let nodes = Arena::new();
        let (g, classic) = direct::<5>(&c, &nodes)?;
        c19_ranks(&g, &classic, "before saving")?;
    }
    for _ in 0..4 {
        let text = a_query(s, &c, &tg);
        let base = id_set(&plain(&text, c.len())?)?;
        for order in ORDERS {
            let (ch, th) = handlers()?;
            let hits = run_search(&text, &ch, &th, Some(order), &Object::new(), c.len())?
                .ok_or_else(|| format!("order {order:?} is refused"))?;
            ctx.inner += 1;
            ensure!(id_set(&hits)? == base, "query {text:?}: order {order:?} changes the products returned");
            let shown: Vec<_> = hits.iter().map(|h| (h.title.clone(), h.price)).collect();
            ensure!(ordered(&hits, order), "query {text:?}: not in order {order:?}: {shown:?}");
            let keys: BTreeSet<String> = hits.iter().map(|h| if order == "Alphabetical" { h.title.clone() } else { format!("{:?}", h.price) }).collect();
            ctx.nontrivial |= hits.len() >= 3 && keys.len() >= 2;
            ctx.label_if(hits.len() >= 3, "at least 3 sorted results");
            ctx.label_if(keys.len() < hits.len() && keys.len() > 1, "equal keys");
        }
    }
    Ok(())
}

fn c19_ranks(g: &Gi<'_, 5>, classic: &Ci<'_>, when: &str) -> CaseResult {
    let products = &g.product_container.products;
    for order in ORDERS {
        let ranks = classic.order.get_orders(order).ok_or_else(|| format!("{when}: there is no order {order:?}"))?;
        let mut sorted = ranks.clone();
        sorted.sort_unstable();
        ensure!(sorted == (0..products.len()).collect::<Vec<_>>(), "{when}: order {order:?} ranks {} products as {ranks:?}", products.len());
        let mut by_rank: Vec<usize> = (0..products.len()).collect();
        by_rank.sort_by_key(|i| ranks[*i]);
        let hits: Vec<Hit> = by_rank
            .iter()
            .map(|i| Hit {
                id: products[*i].id.clone(),
                title: products[*i].title.clone(),
                description: String::new(),
                price: float_of(g.product_container, &products[*i], "price").map(f64::from),
                image: None,
            })
            .collect();
        ensure!(ordered(&hits, order), "{when}: the ranks of {order:?} do not put the catalogue in order: {:?}", hits.iter().map(|h| (&h.title, h.price)).collect::<Vec<_>>());
    }
    Ok(())
}

// --- C20 -------------------------------------------------------------------------------------

fn c20(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 8_000) {
        return huge::served(s, ctx, "C20");
    }
    let (c, tg) = shared(s);
    ctx.describe(|| show(&c));
    let bytes = api_load(&c)?;
    let nodes = Arena::new();
    let (g, _) = load::<5>(&bytes, &nodes)?;
    let lookup = by_id(&c);
    same_ids(&lookup, &g)?;
    let (mut ch, mut th) = handlers()?;
    let options = walk_categories(&ch)?;
    let tags = walk_tags(&th)?;
    let mut on: BTreeSet<(String, String)> = BTreeSet::new();
    let mut ton: BTreeSet<String> = BTreeSet::new();
    let base_of = |text: &str| plain(text, c.len());
    let mut history: Vec<(String, BTreeSet<String>)> = Vec::new();
    for _ in 0..s.range(3, 10) {
        // Change the selections now and then; they persist between searches.
        if !options.is_empty() && s.chance(1, 3) {
            let i = s.below(options.len());
            ch.toggle(&options[i].2);
            let k = (options[i].0.clone(), options[i].1.clone());
            if !on.remove(&k) {
                on.insert(k);
            }
        }
        if !tags.is_empty() && s.chance(1, 3) {
            let i = s.below(tags.len());
            th.toggle(&tags[i].1);
            if !ton.remove(&tags[i].0) {
                ton.insert(tags[i].0.clone());
            }
        }
        let text = if !history.is_empty() && s.chance(1, 4) { s.pick(&history).0.clone() } else { a_query(s, &c, &tg) };
        let (obj, fs) = if s.chance(1, 2) { filters(s, &c) } else { (Object::new(), Vec::new()) };
        let order = if s.chance(1, 2) { Some(*s.pick(&ORDERS)) } else { None };
        let base = base_of(&text)?;
        let keep = |h: &Hit| -> Result<bool, String> {
            let p = pick_by_id(&c, &h.id)?;
            Ok(on.iter().all(|(g, v)| p.has_option(g, v)) && ton.iter().all(|t| p.has_tag(t)) && fs.iter().all(|f| f.keeps(h)))
        };
        let mut want = BTreeSet::new();
        for h in &base {
            if keep(h)? {
                want.insert(h.id.clone());
            }
        }
        let what = format!("query {text:?}, options {on:?}, tags {ton:?}, filters {:?}, order {order:?}", fs.iter().map(|f| &f.shown).collect::<Vec<_>>());
        // Scores as the index itself gives them, apart from the public function.
        let scores: BTreeMap<String, f32> = g.search(lower(&text).into_iter()).into_iter().map(|(p, w)| (p.id.clone(), w)).collect();
        for round in 0..2 {
            let hits = run_search(&text, &ch, &th, order, &obj, c.len())?.ok_or_else(|| format!("{what}: refused"))?;
            let got = id_set(&hits)?;
            ctx.inner += 1;
            ensure!(got == want, "{what}, round {round}: returns {got:?}, expected {want:?}");
            if let Some(o) = order {
                ensure!(ordered(&hits, o), "{what}: not in order: {:?}", hits.iter().map(|h| (&h.title, h.price)).collect::<Vec<_>>());
            } else {
                let by: Vec<(&String, Option<&f32>)> = hits.iter().map(|h| (&h.id, scores.get(&h.id))).collect();
                let falling = by.windows(2).all(|w| matches!((w[0].1, w[1].1), (Some(a), Some(b)) if *b <= *a * 1.001));
                ensure!(falling && by.iter().all(|x| x.1.is_some()), "{what}: not by relevance: {by:?}");
                ctx.label_if(hits.len() > 1 && scores.values().any(|v| scores.values().any(|w| *w > v * 1.1)), "results by relevance with different scores");
            }
        }
        let kinds = usize::from(!on.is_empty()) + usize::from(!ton.is_empty()) + usize::from(!fs.is_empty()) + usize::from(order.is_some());
        ctx.label(&format!("{kinds} kinds of condition"));
        ctx.nontrivial |= kinds >= 2 && want.len() < base.len();
        ctx.label_if(kinds >= 2 && !want.is_empty() && want.len() < base.len(), "several conditions keep some results");
        // Searches change no selection.
        for (g, v, o) in &options {
            ensure!(ch.get_status(o) == on.contains(&(g.clone(), v.clone())), "{what}: option {v:?} of {g:?} changed by searching");
        }
        for (n, t) in &tags {
            ensure!(th.get_status(t) == ton.contains(n), "{what}: tag {n:?} changed by searching");
        }
        history.push((text, id_set(&base)?));
    }
    // Nor stored data: earlier searches still give the same.
    for (text, want) in &history {
        let again = id_set(&base_of(text)?)?;
        ensure!(again == *want, "query {text:?} first returned {want:?}, later {again:?}");
    }
    Ok(())
}

// --- C22 -------------------------------------------------------------------------------------

fn c22(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let large = s.chance(1, 15);
    let (c, tg) = catalog(s, &CatOpts { text: 8, max_products: 16, large, ..CatOpts::default() });
    ctx.describe(|| show(&c));
    api_load(&c)?;
    let (ch, th) = handlers()?;
    let mut groups: BTreeSet<String> = BTreeSet::new();
    let mut options: BTreeSet<(String, String)> = BTreeSet::new();
    let mut tags: BTreeSet<String> = BTreeSet::new();
    for p in &c {
        for (g, vs) in &p.options {
            groups.insert(g.clone());
            options.extend(vs.iter().map(|v| (g.clone(), v.clone())));
        }
        tags.extend(p.tags.iter().cloned());
    }
    ctx.nontrivial = groups.len() >= 2 || tags.len() >= 2;
    ctx.label_if(groups.iter().any(|g| !options.iter().any(|(h, _)| h == g)), "group without values");
    let once = |what: &str, got: Vec<String>, want: Vec<String>| -> CaseResult {
        let mut g = got.clone();
        g.sort();
        ensure!(g == want, "{what} listed: {got:?}, in the catalogue: {want:?}");
        Ok(())
    };
    // Twice, to see that iterators are independent.
    for _ in 0..2 {
        once("groups", walk_groups(&ch), groups.iter().cloned().collect())?;
        let o = walk_categories(&ch)?;
        once("options", o.iter().map(|(g, v, _)| format!("{g:?} {v:?}")).collect(), { let mut w: Vec<String> = options.iter().map(|(g, v)| format!("{g:?} {v:?}")).collect(); w.sort(); w })?;
        let t = walk_tags(&th)?;
        once("tags", t.iter().map(|(n, _)| n.clone()).collect(), tags.iter().cloned().collect())?;
        for (g, v, item) in &o {
            ensure!(!ch.get_status(item), "option {v:?} of {g:?} is selected from the start");
        }
        for (n, item) in &t {
            ensure!(!th.get_status(item), "tag {n:?} is selected from the start");
        }
        ctx.inner += (o.len() + t.len()) as u64;
    }
    let orders: Vec<String> = indexer_lib::get_orders().ok_or("no orders")?.iter().map(|o| o.as_string().unwrap_or_default()).collect();
    once("orders", orders.clone(), { let mut w: Vec<String> = ORDERS.iter().map(|o| o.to_string()).collect(); w.sort(); w })?;
    let text = query(s, &c, &tg, 2);
    for o in &orders {
        ensure!(run_search(&text, &ch, &th, Some(o), &Object::new(), c.len())?.is_some(), "the offered order {o:?} is refused");
    }
    Ok(())
}

// --- C23 -------------------------------------------------------------------------------------

fn c23(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 8_000) {
        return huge::served(s, ctx, "C23");
    }
    let large = s.chance(1, 20);
    let (c, tg) = catalog(s, &CatOpts { max_products: 14, large, ..CatOpts::default() });
    ctx.describe(|| show(&c));
    let bytes = api_load(&c)?;
    ctx.nontrivial = c.windows(2).any(|w| w[0].media != w[1].media || w[0].vendor != w[1].vendor);
    ctx.label_if(c.iter().any(|p| p.media.is_empty()) && c.iter().any(|p| !p.media.is_empty()), "some products without media");
    ctx.label_if(c.iter().any(|p| p.media.len() > 1), "several media items");
    // Loaded for good, because the list of results wants a container that lives forever.
    let nodes: &'static Nodes<'static> = Box::leak(Box::new(Arena::new()));
    let (g, _) = load::<5>(&bytes, nodes)?;
    let container = g.product_container;
    ensure!(container.products.len() == c.len(), "{} products loaded of {}", container.products.len(), c.len());
    let mut seen = BTreeSet::new();
    for p in &container.products {
        let x = pick_by_id(&c, &p.id)?;
        ensure!(seen.insert(p.id.clone()), "product {:?} is there twice", p.id);
        ensure!(p.vendor.name == x.vendor, "product {:?} has vendor {:?}, expected {:?}", p.id, p.vendor.name, x.vendor);
        ctx.inner += 1;
    }
    // A list of results with products in any order, some of them repeated.
    let list: Vec<usize> = if c.is_empty() { vec![] } else { (0..s.range(0, 2 * c.len().min(20))).map(|_| s.below(c.len())).collect() };
    let mut producer = ProductProducer::new(container, list.clone());
    let mut got = Vec::new();
    while let Some(p) = producer.next_product() {
        ensure!(got.len() < list.len(), "the result list has more entries than it was given");
        got.push(p.get_id());
        check_product(&c, &Hit { id: p.get_id(), title: p.get_title(), description: p.get_description(), price: p.numeric_feature("price"), image: p.string_feature("image_url") })?;
        ensure!(p.string_feature("price").is_none(), "price as text");
        ensure!(p.numeric_feature("image_url").is_none(), "image as a number");
        ensure!(p.string_feature("nothing").is_none() && p.numeric_feature("nothing").is_none(), "a feature that does not exist");
    }
    let want: Vec<String> = list.iter().map(|i| container.products[*i].id.clone()).collect();
    ensure!(got == want, "the result list gives {got:?}, expected {want:?}");
    ensure!(producer.next_product().is_none(), "the result list went on after its end");
    for _ in 0..3 {
        let text = query(s, &c, &tg, 2);
        for h in plain(&text, c.len())? {
            check_product(&c, &h)?;
            ctx.label("product read from a search");
        }
    }
    Ok(())
}

fn check_product(c: &[Prod], h: &Hit) -> CaseResult {
    let x = pick_by_id(c, &h.id)?;
    let id = &h.id;
    ensure!(h.title == x.title, "product {id:?} has title {:?}, expected {:?}", h.title, x.title);
    let d = shortened(&x.description, 100);
    ensure!(h.description == d, "product {id:?} has description {:?}, expected {d:?}", h.description);
    ensure!(h.price == Some(f64::from(x.price_f32())), "product {id:?} has price {:?}, expected {}", h.price, x.price);
    match (&h.image, x.media.first()) {
        (got, Some(url)) => ensure!(got.as_ref() == Some(url), "product {id:?} has image {got:?}, expected {url:?}"),
        (got, None) => ensure!(got.as_ref().map_or(true, |u| u.is_empty()), "product {id:?} has no media but image {got:?}"),
    }
    Ok(())
}

#[allow(unused)]
fn unused() {
    let _ = (no_panic(|| ()), JsValue::NULL, corrections(&[], &[]));
}

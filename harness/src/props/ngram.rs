//! C07 to C10, C14, C15: the n-gram index itself.
use super::{common::*, huge};
use crate::engine::{Ctx, Prop};
use crate::gen::{self, catalog, edit_chars, query, show, CatOpts, Prod, TextGen};
use crate::model::{lower, windows, Model};
use crate::src::Src;
use crate::{dispatch, ensure};
use colosseum::sync::Arena;
use indexer_lib::ngram::GramNode;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C07", rule: "the tree has at least 5 nodes on some path set with a branch", quick: 40_000, thorough: 4_000_000, chunk: 150, run: c07 },
        Prop { id: "C08", rule: "some n-gram is listed and its list names at least 2 products or repeats one", quick: 60_000, thorough: 6_000_000, chunk: 150, run: c08 },
        Prop { id: "C09", rule: "some typed n-gram resolves with a correction or has several resolutions", quick: 60_000, thorough: 6_000_000, chunk: 100, run: c09 },
        Prop { id: "C10", rule: "a query found at least one product", quick: 50_000, thorough: 5_000_000, chunk: 80, run: c10 },
        Prop { id: "C14", rule: "a query found at least one product", quick: 60_000, thorough: 6_000_000, chunk: 80, run: c14 },
        Prop { id: "C15", rule: "at least 2 products in a changed order, with a posting list", quick: 35_000, thorough: 3_500_000, chunk: 120, run: c15 },
    ]
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * a.abs().max(b.abs()).max(1e-30)
}

// --- C07 -------------------------------------------------------------------------------------

fn c07(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 4000) {
        return huge::counted(s, ctx);
    }
    let n = gram_size(s);
    let large = s.chance(1, 10);
    let (mut c, _) = catalog(s, &CatOpts { large, ..CatOpts::default() });
    ctx.label_if(gen::share_ids(s, &mut c), "products that share an id");
    show_n(ctx, n, &c);
    dispatch!(n, c07_n, s, ctx, &c)
}

fn c07_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod]) -> CaseResult {
    let model = Model::new(c, N);
    let bytes = build::<N>(c)?;
    let nodes = Arena::new();
    let (g, _) = load::<N>(&bytes, &nodes)?;
    c07_tree(&model, &g, "after loading")?;
    if s.chance(1, 3) {
        let nodes2 = Arena::new();
        let (g2, _) = direct::<N>(c, &nodes2)?;
        c07_tree(&model, &g2, "before saving")?;
    }
    ctx.nontrivial = model.count.len() >= 5 && model.children.values().any(|v| v.len() > 1);
    ctx.label_if(model.count.is_empty(), "empty tree");
    ctx.inner += model.count.len() as u64;
    Ok(())
}

fn c07_tree<const N: usize>(m: &Model, g: &Gi<'_, N>, when: &str) -> CaseResult {
    let mut seen = 0;
    let root_chars: BTreeSet<char> = g.roots.keys().copied().collect();
    let want: BTreeSet<char> = m.children.get(&Vec::new()).into_iter().flatten().copied().collect();
    ensure!(root_chars == want, "{when}: first characters are {root_chars:?}, the text has {want:?}");
    for (c, node) in &g.roots {
        ensure!(node.item == *c, "{when}: first character {c:?} leads to a node for {:?}", node.item);
        let mut path = vec![*c];
        c07_node(m, node, &mut path, &mut seen, when)?;
        // The most popular chain.
        let chain = g.most_popular_chain(*c);
        ensure!(chain.first() == Some(c), "{when}: the most popular chain of {c:?} is {chain:?}");
        for l in 1..=chain.len() {
            let kids = m.children.get(&chain[..l]).map_or(&[][..], |v| &v[..]);
            let end = l == N || kids.is_empty();
            ensure!(end == (l == chain.len()), "{when}: the most popular chain {chain:?} has the wrong length");
            if l < chain.len() {
                let top = kids.iter().map(|k| { let mut p = chain[..l].to_vec(); p.push(*k); m.count[&p] }).max().unwrap_or(0);
                ensure!(m.count.get(&chain[..=l]) == Some(&top), "{when}: the most popular chain {chain:?} does not follow the most frequent character after {:?}", &chain[..l]);
            }
        }
    }
    ensure!(seen == m.count.len(), "{when}: the tree has {seen} paths, the text has {}", m.count.len());
    for absent in ['\u{1}', 'Q', '\u{e000}'] {
        if !want.contains(&absent) {
            ensure!(g.most_popular_chain(absent).is_empty(), "{when}: a chain for a character that does not occur");
        }
    }
    Ok(())
}

fn c07_node(m: &Model, node: &GramNode<'_, char>, path: &mut Vec<char>, seen: &mut usize, when: &str) -> CaseResult {
    *seen += 1;
    ensure!(m.count.contains_key(&path[..]), "{when}: the tree has the path {path:?}, which does not occur");
    let w = m.weight(path);
    ensure!(close(f64::from(node.weight), w, 1e-5), "{when}: {path:?} has frequency {}, expected {w}", node.weight);
    let want: BTreeSet<char> = if path.len() < m.n { m.children.get(&path[..]).into_iter().flatten().copied().collect() } else { BTreeSet::new() };
    let listed: Vec<char> = node.by_occurances.iter().map(|c| c.item).collect();
    let set: BTreeSet<char> = listed.iter().copied().collect();
    ensure!(set.len() == listed.len(), "{when}: {path:?} lists a character twice: {listed:?}");
    ensure!(set == want, "{when}: {path:?} is followed by {set:?}, expected {want:?}");
    ensure!(node.items.len() == listed.len(), "{when}: {path:?} has {} characters by lookup and {} in the list", node.items.len(), listed.len());
    let mut last = f32::INFINITY;
    for child in &node.by_occurances {
        ensure!(child.weight <= last, "{when}: alternatives after {path:?} are not in order of frequency");
        last = child.weight;
        let by_key = node.items.get(&child.item).ok_or_else(|| format!("{when}: {:?} after {path:?} cannot be looked up", child.item))?;
        ensure!(**by_key == **child, "{when}: lookup of {:?} after {path:?} finds something else", child.item);
        path.push(child.item);
        c07_node(m, child, path, seen, when)?;
        path.pop();
    }
    Ok(())
}

// --- C08 -------------------------------------------------------------------------------------

fn c08(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 6000) {
        return huge::counted(s, ctx);
    }
    let n = gram_size(s);
    let large = s.chance(1, 8);
    let (mut c, _) = catalog(s, &CatOpts { large, ..CatOpts::default() });
    if s.chance(1, 3) && c.len() > 2 {
        // Bring one text close to the share at which it stops being listed.
        let text = match s.below(3) {
            0 => "common words".to_string(),
            1 => "xyxyxyxyxyxyxyxy".to_string(),
            _ => c[0].title.clone(),
        };
        let limit = c.len() * 4 / 5;
        let target = (limit + s.below(3)).saturating_sub(1).min(c.len());
        let who = s.permutation(c.len());
        for i in &who[..target] {
            let t = &mut c[*i].title;
            *t = if s.chance(1, 2) { format!("{t}{text}") } else { text.clone() };
        }
        ctx.label("text near the cut-off");
    }
    ctx.label_if(gen::share_ids(s, &mut c), "products that share an id");
    show_n(ctx, n, &c);
    dispatch!(n, c08_n, s, ctx, &c)
}

fn c08_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod]) -> CaseResult {
    let m = Model::new(c, N);
    let bytes = build::<N>(c)?;
    let nodes = Arena::new();
    let (g, _) = load::<N>(&bytes, &nodes)?;
    c08_lists(&m, &g, "after loading", ctx)?;
    if s.chance(1, 3) {
        let nodes2 = Arena::new();
        let (g2, _) = direct::<N>(c, &nodes2)?;
        c08_lists(&m, &g2, "before saving", ctx)?;
    }
    Ok(())
}

fn c08_lists<const N: usize>(m: &Model, g: &Gi<'_, N>, when: &str, ctx: &mut Ctx) -> CaseResult {
    let got: BTreeMap<Vec<char>, Vec<usize>> = postings(g).into_iter().filter(|(k, _)| k[0] != '\0').collect();
    for (gram, who) in &m.postings {
        ctx.inner += 1;
        let list = got.get(gram);
        if !m.kept(gram) {
            ctx.label("n-gram left out");
            ensure!(list.is_none(), "{when}: {gram:?} occurs in {} of {} products and should be left out", who.len(), m.texts.len());
            continue;
        }
        let occurrences: usize = who.values().map(|v| *v as usize).sum();
        ctx.label_if(occurrences >= m.limit(), "listed n-gram with at least as many occurrences as the cut-off");
        if who.len() > 1 || occurrences > who.len() {
            ctx.nontrivial = true;
        }
        let want: Vec<usize> = who.iter().flat_map(|(p, k)| std::iter::repeat(*p).take(*k as usize)).collect();
        let list = list.ok_or_else(|| format!("{when}: {gram:?} occurs in {} of {} products and is not listed", who.len(), m.texts.len()))?;
        ensure!(*list == want, "{when}: {gram:?} lists {list:?}, expected {want:?}");
    }
    for gram in got.keys() {
        ensure!(m.postings.contains_key(gram), "{when}: {gram:?} is listed but occurs nowhere");
    }
    Ok(())
}

// --- C09 -------------------------------------------------------------------------------------

/// A typed n-gram: from the text with up to three edits, or made up.
fn typed(s: &mut Src, m: &Model, tg: &TextGen) -> Vec<char> {
    let n = m.n;
    let texts: Vec<&Vec<char>> = m.texts.iter().filter(|t| !t.is_empty()).collect();
    let mut v: Vec<char> = Vec::new();
    if !texts.is_empty() && s.chance(9, 10) {
        let t = *s.pick(&texts);
        let at = s.below(t.len());
        v = t[at..].iter().take(n + 3).copied().collect();
        for _ in 0..s.weighted(&[4, 6, 3, 1]) {
            let fill = [tg.char(s), 'x', *s.pick(t)];
            // Mostly behind the first character.
            if v.len() > 1 && s.chance(4, 5) {
                let mut tail = v.split_off(1);
                edit_chars(s, &mut tail, &fill);
                v.extend(tail);
            } else {
                edit_chars(s, &mut v, &fill);
            }
        }
    }
    while v.len() < n {
        v.push(tg.char(s));
    }
    v.truncate(n);
    v.into_iter().flat_map(char::to_lowercase).take(n).collect()
}

fn c09(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    // Large gram sizes allow more corrections, and combinations of them.
    let n = if s.chance(1, 12) { 12 } else { n };
    let (mut c, tg) = catalog(s, &CatOpts { text: if n > 9 { 20 } else { 14 }, max_products: 10, min_products: 1, ..CatOpts::default() });
    if s.chance(1, 250) {
        // What begins with a certain character, mostly goes on the same way.
        let i = s.below(c.len());
        let text: Vec<char> = c[i].text();
        let first = if text.is_empty() { 'a' } else { *s.pick(&text) };
        let piece: String = std::iter::once(first).chain((0..s.range(0, 2)).map(|_| tg.char(s))).collect();
        let times = if s.chance(1, 4) { s.range(60_000, 70_000) } else { s.range(1_000, 20_000) };
        let at = s.below(c.len());
        c[at].description.push_str(&piece.repeat(times / piece.chars().count()));
        ctx.label("thousands of the same");
    }
    show_n(ctx, n, &c);
    ctx.label_if(n > 9, "gram size 12");
    if n == 12 {
        return c09_n::<12>(s, ctx, &c, &tg);
    }
    dispatch!(n, c09_n, s, ctx, &c, &tg)
}

fn c09_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod], tg: &TextGen) -> CaseResult {
    let m = Model::new(c, N);
    let bytes = build::<N>(c)?;
    let nodes = Arena::new();
    let (g, _) = load::<N>(&bytes, &nodes)?;
    for _ in 0..if N >= 6 { 8 } else { 20 } {
        let q = typed(s, &m, tg);
        ensure!(q.len() == N, "harness: typed n-gram of wrong length");
        ctx.inner += 1;
        let mut arr = ['\0'; N];
        arr.copy_from_slice(&q);
        let got = g.search_gram(arr);
        let (top, best) = m.best(&q, 1e-5);
        match got {
            None => ensure!(best.is_empty(), "{q:?} resolves to nothing, expected {best:?} with {top}"),
            Some((gram, w)) => {
                let gram = gram.to_vec();
                let known = m.count.contains_key(&q);
                ctx.label(if gram == q { "typed n-gram kept" } else if known { "known n-gram corrected" } else { "unknown n-gram corrected" });
                if gram != q || best.len() > 1 {
                    ctx.nontrivial = true;
                }
                ensure!(m.count.contains_key(&gram), "{q:?} resolves to {gram:?}, which does not occur");
                ensure!(gram[0] == q[0], "{q:?} resolves to {gram:?}, which starts differently");
                ensure!(best.contains(&gram), "{q:?} resolves to {gram:?} with {w}, expected one of {best:?} with {top}");
                ensure!(close(f64::from(w), top, 1e-5), "{q:?} resolves to {gram:?} with confidence {w}, expected {top}");
                if let Some(e) = m.exact_confidence(&q) {
                    ensure!(f64::from(w) >= e * (1.0 - 1e-5), "{q:?} occurs with confidence {e} but resolves with {w}");
                }
            }
        }
    }
    Ok(())
}

// --- C10 -------------------------------------------------------------------------------------

/// Expected score per product position, given how the index resolves single n-grams.
fn scores<const N: usize>(m: &Model, g: &Gi<'_, N>, q: &[char]) -> BTreeMap<usize, f64> {
    let mut out = BTreeMap::new();
    for w in windows(q, N) {
        let mut arr = ['\0'; N];
        arr.copy_from_slice(w);
        let Some((gram, conf)) = g.search_gram(arr) else { continue };
        if !m.kept(&gram) {
            continue;
        }
        for (p, k) in &m.postings[&gram[..]] {
            *out.entry(*p).or_insert(0.0) += f64::from(conf) * f64::from(*k);
        }
    }
    out
}

/// How far a single-precision sum of the confidences may be from the exact one: each of the
/// additions rounds.
fn rounding<const N: usize>(g: &Gi<'_, N>, q: &[char]) -> f64 {
    let most = g.data.values().map(|l| l.len()).max().unwrap_or(0);
    2e-5 + q.len() as f64 * most as f64 * 1.3e-7
}

fn check_ranking(found: &[(usize, f64)], want: &BTreeMap<usize, f64>, q: &[char], tol: f64) -> CaseResult {
    let mut seen = BTreeSet::new();
    let mut last = f64::INFINITY;
    for (p, score) in found {
        ensure!(seen.insert(*p), "query {q:?}: product {p} is returned twice");
        let w = want.get(p).ok_or_else(|| format!("query {q:?}: product {p} is returned but no resolved n-gram lists it"))?;
        ensure!(score.is_finite() && *score > 0.0, "query {q:?}: product {p} has score {score}");
        ensure!(close(*score, *w, tol), "query {q:?}: product {p} has score {score}, expected {w}");
        ensure!(*score <= last * (1.0 + tol), "query {q:?}: results are not in order of score: {found:?}");
        last = *score;
    }
    ensure!(seen.len() == want.len(), "query {q:?}: {} products returned, {} expected: {found:?} / {want:?}", seen.len(), want.len());
    Ok(())
}

fn c10(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let (c, tg) = catalog(s, &CatOpts { max_products: 12, min_products: 1, ..CatOpts::default() });
    show_n(ctx, n, &c);
    dispatch!(n, c10_n, s, ctx, &c, &tg)
}

fn c10_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod], tg: &TextGen) -> CaseResult {
    let m = Model::new(c, N);
    let bytes = build::<N>(c)?;
    let nodes = Arena::new();
    let (g, _) = load::<N>(&bytes, &nodes)?;
    for _ in 0..if N >= 7 { 3 } else { 8 } {
        let text = query(s, c, tg, 3);
        let q = lower(&text);
        ctx.inner += 1;
        let found: Vec<(usize, f64)> = g.search(q.iter().copied()).into_iter().map(|(p, w)| (p.serialization_id, f64::from(w))).collect();
        let want = scores(&m, &g, &q);
        for (p, w) in &found {
            ensure!(found.iter().filter(|(x, _)| x == p).count() == 1, "query {text:?}: product {p} twice ({w})");
        }
        check_ranking(&found, &want, &q, rounding(&g, &q))?;
        ctx.nontrivial |= !found.is_empty();
        ctx.label(if found.is_empty() { "nothing found" } else { "products found" });
        ctx.label_if(q.len() < N, "query shorter than the gram size");
    }
    if N == 5 {
        // The public search keeps the order of relevance.
        let bytes = api_load(c)?;
        let nodes = Arena::new();
        let (g, _) = load::<N>(&bytes, &nodes)?;
        let reordered: Vec<Prod> = g
            .product_container
            .products
            .iter()
            .map(|p| c.iter().find(|x| x.id == p.id).cloned().ok_or_else(|| format!("unknown product {:?}", p.id)))
            .collect::<Result<_, _>>()?;
        let m = Model::new(&reordered, N);
        for _ in 0..4 {
            let text = query(s, c, tg, 3);
            let want = scores(&m, &g, &lower(&text));
            let hits = plain(&text, c.len())?;
            let found: Vec<(usize, f64)> = hits
                .iter()
                .map(|h| {
                    let p = reordered.iter().position(|x| x.id == h.id).unwrap_or(usize::MAX);
                    (p, want.get(&p).copied().unwrap_or(-1.0))
                })
                .collect();
            check_ranking(&found, &want, &lower(&text), rounding(&g, &lower(&text))).map_err(|e| format!("public search: {e}"))?;
            ctx.label_if(found.len() > 1, "public search with several results");
        }
    }
    Ok(())
}

// --- C14 -------------------------------------------------------------------------------------

fn c14(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let (c, tg) = catalog(s, &CatOpts { max_products: 12, min_products: 1, ..CatOpts::default() });
    show_n(ctx, n, &c);
    dispatch!(n, c14_n, s, ctx, &c, &tg)
}

fn by_product<const N: usize>(g: &Gi<'_, N>, q: &[char]) -> Result<BTreeMap<String, f32>, String> {
    let found = g.search(q.iter().copied());
    let len = found.len();
    let map: BTreeMap<String, f32> = found.into_iter().map(|(p, w)| (p.id.clone(), w)).collect();
    ensure!(map.len() == len, "a product is returned twice for {q:?}");
    Ok(map)
}

fn same_scores(a: &BTreeMap<String, f32>, b: &BTreeMap<String, f32>, tol: f64) -> bool {
    a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map_or(false, |w| close(f64::from(*v), f64::from(*w), tol)))
}

fn c14_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod], tg: &TextGen) -> CaseResult {
    let m = Model::new(c, N);
    let nodes = Arena::new();
    let (built, classic) = direct::<N>(c, &nodes)?;
    let bytes = save(&built, &classic);
    let nodes2 = Arena::new();
    let (loaded, _) = load::<N>(&bytes, &nodes2)?;
    ctx.label_if(c.iter().any(|p| shortened(&p.description, 100) != p.description), "shortened description");
    for _ in 0..10 {
        let q = typed(s, &m, tg);
        let mut arr = ['\0'; N];
        arr.copy_from_slice(&q);
        ctx.inner += 1;
        let (a, b) = (built.search_gram(arr), loaded.search_gram(arr));
        let same = match (&a, &b) {
            (Some((x, v)), Some((y, w))) => x == y && close(f64::from(*v), f64::from(*w), 1e-6),
            (None, None) => true,
            _ => false,
        };
        ensure!(same, "{q:?} resolves to {a:?} before saving and to {b:?} after loading");
    }
    let public = N == 5;
    if public {
        ensure!(indexer_lib::initialize(&bytes), "initialize reported failure for a saved index");
    }
    for _ in 0..6 {
        let text = query(s, c, tg, 3);
        let q = lower(&text);
        ctx.inner += 1;
        let (a, b) = (by_product(&built, &q)?, by_product(&loaded, &q)?);
        ensure!(same_scores(&a, &b, rounding(&loaded, &q)), "query {text:?}: {a:?} before saving, {b:?} after loading");
        ctx.nontrivial |= !a.is_empty();
        if public {
            let hits = id_set(&plain(&text, c.len())?)?;
            let want: BTreeSet<String> = a.keys().cloned().collect();
            ensure!(hits == want, "query {text:?}: public search returns {hits:?}, the index {want:?}");
        }
    }
    Ok(())
}

// --- C15 -------------------------------------------------------------------------------------

/// Everything about an index that does not depend on product positions.
pub fn by_identity<const N: usize>(g: &Gi<'_, N>, classic: &Ci<'_>) -> Result<String, String> {
    let container = g.product_container;
    let id_of = |i: usize| container.products[i].id.as_str();
    let mut out = String::new();
    let mut products: Vec<String> = container
        .products
        .iter()
        .map(|p| {
            format!(
                "product {:?} {:?} {:?} {:?} price {:?} image {:?}\n",
                p.id, p.title, p.description, p.vendor.name,
                float_of(container, p, "price").map(f32::to_bits),
                string_of(container, p, "image_url").filter(|u| !u.is_empty())
            )
        })
        .collect();
    products.sort();
    out.extend(products);
    let mut vendors: Vec<&str> = container.vendors.by_id.iter().map(|v| v.name.as_str()).collect();
    vendors.sort_unstable();
    out += &format!("vendors {vendors:?}\n");
    fn paths(n: &GramNode<'_, char>, path: &mut String, out: &mut BTreeMap<String, u32>) {
        path.push(n.item);
        out.insert(path.clone(), n.weight.to_bits());
        for c in &n.by_occurances {
            paths(c, path, out);
        }
        path.pop();
    }
    let mut tree = BTreeMap::new();
    for n in g.roots.values() {
        paths(n, &mut String::new(), &mut tree);
    }
    for (p, w) in tree {
        // Rounded, so that another way of computing the same share compares equal.
        out += &format!("path {p:?} {:.5e}\n", f32::from_bits(w));
    }
    for (gram, list) in postings(g) {
        if gram[0] == '\0' {
            continue;
        }
        let mut who: Vec<&str> = list.iter().map(|i| id_of(*i)).collect();
        who.sort_unstable();
        out += &format!("posting {gram:?} {who:?}\n");
    }
    let mut options = BTreeMap::new();
    for cat in &classic.categories.0 {
        for o in &cat.options {
            let mut who: Vec<&str> = container.products.iter().filter(|p| o.contains(p)).map(|p| p.id.as_str()).collect();
            who.sort_unstable();
            let old = options.insert((cat.name.clone(), o.name.clone()), who);
            ensure!(old.is_none(), "option {:?} of {:?} is there twice", o.name, cat.name);
        }
    }
    out += &format!("options {options:?}\n");
    let mut tags = BTreeMap::new();
    for t in classic.tags.iter() {
        let mut who: Vec<&str> = container.products.iter().filter(|p| t.contains(p)).map(|p| p.id.as_str()).collect();
        who.sort_unstable();
        let old = tags.insert(t.name.clone(), who);
        ensure!(old.is_none(), "tag {:?} is there twice", t.name);
    }
    out += &format!("tags {tags:?}\n");
    Ok(out)
}

fn c15(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let (c, _) = catalog(s, &CatOpts { max_products: 14, ..CatOpts::default() });
    let perm = s.permutation(c.len());
    ctx.describe(|| format!("gram size {n}, new order {perm:?}; {}", show(&c)));
    dispatch!(n, c15_n, ctx, &c, &perm)
}

fn c15_n<const N: usize>(ctx: &mut Ctx, c: &[Prod], perm: &[usize]) -> CaseResult {
    let other: Vec<Prod> = perm.iter().map(|i| c[*i].clone()).collect();
    let (b1, b2) = (build::<N>(c)?, build::<N>(&other)?);
    let (n1, n2) = (Arena::new(), Arena::new());
    let (g1, c1) = load::<N>(&b1, &n1)?;
    let (g2, c2) = load::<N>(&b2, &n2)?;
    ctx.nontrivial = c.len() >= 2 && perm.iter().enumerate().any(|(i, p)| i != *p) && !g1.data.is_empty();
    if let Some(d) = diff(&by_identity(&g1, &c1)?, &by_identity(&g2, &c2)?) {
        return Err(format!("the two orders give different indexes: {d}"));
    }
    for (g, src) in [(&g1, c), (&g2, &other[..])] {
        for (p, x) in g.product_container.products.iter().zip(src) {
            ensure!(p.id == x.id, "products are not in the order supplied");
        }
    }
    Ok(())
}

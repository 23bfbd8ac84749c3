//! C31: the saved format, read and written by code of its own.
use super::common::*;
use crate::engine::{no_panic, Ctx, Prop};
use crate::gen::{self, catalog, CatOpts, Prod};
use crate::src::Src;
use crate::{dispatch, ensure};
use colosseum::sync::Arena;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C31", rule: "the index has products, a tree and at least one posting list", quick: 30_000, thorough: 3_000_000, chunk: 60, run: c31 }]
}

#[derive(Debug, PartialEq)]
enum Values {
    Texts(Vec<String>),
    Floats(Vec<u32>),
    Integers(Vec<u64>),
}
#[derive(Debug, PartialEq)]
struct Node {
    item: char,
    weight: u32,
    children: Vec<Node>,
}
#[derive(Debug, Default, PartialEq)]
struct File {
    vendors: Vec<String>,
    /// Description, title, id, vendor.
    products: Vec<(String, String, String, u64)>,
    features: Vec<(String, Values)>,
    roots: Vec<(char, Node)>,
    postings: Vec<(Vec<char>, Vec<u64>)>,
    categories: Vec<(bool, String, Vec<(String, Vec<u64>)>)>,
    tags: Vec<(String, Vec<u64>)>,
    orders: Vec<(String, Vec<u64>)>,
}

impl Default for Values {
    fn default() -> Self {
        Values::Texts(Vec::new())
    }
}

struct Reader<'b> {
    b: &'b [u8],
    at: usize,
}
type R<T> = Result<T, String>;
impl Reader<'_> {
    fn byte(&mut self) -> R<u8> {
        let v = *self.b.get(self.at).ok_or("the file ends early")?;
        self.at += 1;
        Ok(v)
    }
    /// Groups of 7 bits, lowest first; all but the last have the high bit set.
    fn number(&mut self) -> R<u64> {
        let (mut v, mut shift) = (0u128, 0);
        loop {
            let b = self.byte()?;
            v |= u128::from(b & 127) << shift;
            shift += 7;
            if b < 128 {
                return u64::try_from(v).map_err(|_| format!("number too big at {}", self.at));
            }
            if shift > 70 {
                return Err(format!("number too long at {}", self.at));
            }
        }
    }
    fn text(&mut self) -> R<String> {
        let n = self.number()? as usize;
        let piece = self.b.get(self.at..self.at.saturating_add(n)).ok_or("a text is longer than the file")?;
        self.at += n;
        String::from_utf8(piece.to_vec()).map_err(|_| format!("a text is not UTF-8 at {}", self.at))
    }
    fn char(&mut self) -> R<char> {
        let n = self.number()?;
        u32::try_from(n).ok().and_then(char::from_u32).ok_or_else(|| format!("{n} is no character"))
    }
    /// Big-endian IEEE 754.
    fn float(&mut self) -> R<u32> {
        let b = [self.byte()?, self.byte()?, self.byte()?, self.byte()?];
        Ok(u32::from_be_bytes(b))
    }
    fn many<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.number()?;
        if n as usize > self.b.len() {
            return Err(format!("a list of {n} entries in a file of {} bytes", self.b.len()));
        }
        (0..n).map(|_| f(self)).collect()
    }
    /// The first id, then differences.
    fn ids(&mut self) -> R<Vec<u64>> {
        let mut last = 0u64;
        let steps = self.many(Reader::number)?;
        steps
            .into_iter()
            .map(|d| {
                last = last.checked_add(d).ok_or("ids overflow")?;
                Ok(last)
            })
            .collect()
    }
    fn node(&mut self, depth: usize) -> R<Node> {
        if depth > 20 {
            return Err("the tree is too deep".into());
        }
        let item = self.char()?;
        let weight = self.float()?;
        let children = self.many(|r| r.node(depth + 1))?;
        Ok(Node { item, weight, children })
    }
    fn file(&mut self) -> R<File> {
        Ok(File {
            vendors: self.many(Reader::text)?,
            products: self.many(|r| Ok((r.text()?, r.text()?, r.text()?, r.number()?)))?,
            features: self.many(|r| {
                let key = r.text()?;
                let v = match r.byte()? {
                    0 => Values::Texts(r.many(Reader::text)?),
                    1 => Values::Floats(r.many(Reader::float)?),
                    2 => Values::Integers(r.many(Reader::number)?),
                    n => return Err(format!("feature kind {n}")),
                };
                Ok((key, v))
            })?,
            roots: self.many(|r| Ok((r.char()?, r.node(1)?)))?,
            postings: self.many(|r| Ok((r.many(Reader::char)?, r.ids()?)))?,
            categories: self.many(|r| Ok((r.byte()? != 0, r.text()?, r.many(|r| Ok((r.text()?, r.ids()?)))?)))?,
            tags: self.many(|r| Ok((r.text()?, r.ids()?)))?,
            orders: self.many(|r| Ok((r.text()?, r.many(Reader::number)?)))?,
        })
    }
}

fn number(v: u64, out: &mut Vec<u8>) {
    let mut v = v;
    while v > 127 {
        out.push((v & 127) as u8 | 128);
        v >>= 7;
    }
    out.push(v as u8);
}
fn text(t: &str, out: &mut Vec<u8>) {
    number(t.len() as u64, out);
    out.extend(t.as_bytes());
}
fn ids(v: &[u64], out: &mut Vec<u8>) {
    number(v.len() as u64, out);
    let mut last = 0;
    for i in v {
        number(i - last, out);
        last = *i;
    }
}
fn node(n: &Node, out: &mut Vec<u8>) {
    number(u64::from(u32::from(n.item)), out);
    out.extend(n.weight.to_be_bytes());
    number(n.children.len() as u64, out);
    n.children.iter().for_each(|c| node(c, out));
}
/// The file written again, with the entries of every table in another order.
fn write(f: &File, s: &mut Src) -> Vec<u8> {
    let mut out = Vec::new();
    let o = &mut out;
    number(f.vendors.len() as u64, o);
    f.vendors.iter().for_each(|v| text(v, o));
    number(f.products.len() as u64, o);
    for (d, t, i, v) in &f.products {
        text(d, o);
        text(t, o);
        text(i, o);
        number(*v, o);
    }
    number(f.features.len() as u64, o);
    for i in s.permutation(f.features.len()) {
        let (k, v) = &f.features[i];
        text(k, o);
        match v {
            Values::Texts(l) => {
                o.push(0);
                number(l.len() as u64, o);
                l.iter().for_each(|v| text(v, o));
            }
            Values::Floats(l) => {
                o.push(1);
                number(l.len() as u64, o);
                l.iter().for_each(|v| o.extend(v.to_be_bytes()));
            }
            Values::Integers(l) => {
                o.push(2);
                number(l.len() as u64, o);
                l.iter().for_each(|v| number(*v, o));
            }
        }
    }
    number(f.roots.len() as u64, o);
    for i in s.permutation(f.roots.len()) {
        number(u64::from(u32::from(f.roots[i].0)), o);
        node(&f.roots[i].1, o);
    }
    number(f.postings.len() as u64, o);
    // Turned round by some distance: as good as any order, and cheap for long lists.
    let turn = s.below(f.postings.len().max(1));
    for i in 0..f.postings.len() {
        let (k, l) = &f.postings[(i + turn) % f.postings.len()];
        number(k.len() as u64, o);
        k.iter().for_each(|c| number(u64::from(u32::from(*c)), o));
        ids(l, o);
    }
    number(f.categories.len() as u64, o);
    for (exclusive, name, options) in &f.categories {
        o.push(u8::from(*exclusive));
        text(name, o);
        number(options.len() as u64, o);
        for (n, l) in options {
            text(n, o);
            ids(l, o);
        }
    }
    number(f.tags.len() as u64, o);
    for (n, l) in &f.tags {
        text(n, o);
        ids(l, o);
    }
    number(f.orders.len() as u64, o);
    for i in s.permutation(f.orders.len()) {
        text(&f.orders[i].0, o);
        number(f.orders[i].1.len() as u64, o);
        f.orders[i].1.iter().for_each(|v| number(*v, o));
    }
    out
}

// The same descriptions as `dump_container`, `dump_index` and `dump_classic` give of a loaded index.

fn show_container(f: &File) -> String {
    let mut out = String::new();
    for (i, v) in f.vendors.iter().enumerate() {
        out += &format!("vendor {i} {i} {v:?} true\n");
    }
    for (i, (d, t, id, v)) in f.products.iter().enumerate() {
        let vendor = f.vendors.get(*v as usize).map_or("<none>", |v| v);
        out += &format!("product {i} {i} {id:?} {t:?} {d:?} {vendor:?} {v}\n");
    }
    for key in ["price", "image_url"] {
        out += &match f.features.iter().find(|(k, _)| k == key) {
            None => format!("{key} none\n"),
            Some((_, Values::Texts(l))) => format!("{key} strings {l:?}\n"),
            Some((_, Values::Floats(l))) => format!("{key} floats {l:?}\n"),
            Some((_, Values::Integers(l))) => format!("{key} integers {l:?}\n"),
        };
    }
    out
}
fn show_node(n: &Node, depth: usize, out: &mut String) {
    *out += &format!("{:depth$}{:?} {:08x} {}\n", "", n.item, n.weight, n.children.len());
    n.children.iter().for_each(|c| show_node(c, depth + 1, out));
}
fn show_index(f: &File) -> String {
    let mut out = String::new();
    let roots: BTreeMap<char, &Node> = f.roots.iter().map(|(k, n)| (*k, n)).collect();
    for (k, n) in roots {
        out += &format!("root {k:?}\n");
        show_node(n, 1, &mut out);
    }
    let lists: BTreeMap<&Vec<char>, &Vec<u64>> = f.postings.iter().map(|(k, v)| (k, v)).collect();
    for (gram, list) in lists {
        out += &format!("posting {gram:?} {list:?}\n");
    }
    out
}
fn show_classic(f: &File) -> String {
    let mut out = String::new();
    let mut next = 0;
    let members = |l: &[u64]| {
        let mut l = l.to_vec();
        l.dedup();
        l
    };
    for (exclusive, name, options) in &f.categories {
        out += &format!("category {name:?} {exclusive}\n");
        for (n, l) in options {
            out += &format!("  option {n:?} {next} {:?}\n", members(l));
            next += 1;
        }
    }
    for (i, (n, l)) in f.tags.iter().enumerate() {
        out += &format!("tag {i} {i} {n:?} {:?} true\n", members(l));
    }
    let orders: BTreeMap<&String, &Vec<u64>> = f.orders.iter().map(|(k, v)| (k, v)).collect();
    for (k, v) in orders {
        out += &format!("order {k:?} {:?}\n", Some(v));
    }
    out
}
fn show_file(f: &File) -> String {
    show_container(f) + &show_index(f) + &show_classic(f)
}

fn c31(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let large = s.chance(1, 30);
    let (mut c, _) = catalog(s, &CatOpts { large, ..CatOpts::default() });
    ctx.label_if(gen::share_ids(s, &mut c), "products that share an id");
    show_n(ctx, n, &c);
    dispatch!(n, c31_n, s, ctx, &c)
}

fn c31_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod]) -> CaseResult {
    let bytes = build::<N>(c)?;
    let mut r = Reader { b: &bytes, at: 0 };
    let f = r.file().map_err(|e| format!("a saved index is not in the format: {e}"))?;
    ensure!(r.at == bytes.len(), "a saved index of {} bytes has {} more than the format says", bytes.len(), bytes.len() - r.at);
    ensure!(f.postings.iter().all(|(k, _)| k.len() == N), "an n-gram is stored with a length other than {N}");
    let nodes = Arena::new();
    let (g, classic) = load::<N>(&bytes, &nodes)?;
    let loaded = dump_container(g.product_container, false) + &dump_index(&g) + &dump_classic(&classic, g.product_container);
    if let Some(d) = diff(&show_file(&f), &loaded) {
        return Err(format!("the file and the loaded index differ: {d}"));
    }
    // And against the catalogue, for what is stored as it is.
    for ((d, t, id, v), p) in f.products.iter().zip(c) {
        let vendor = f.vendors.get(*v as usize);
        ensure!(*id == p.id && *t == p.title && d == shortened(&p.description, 100) && vendor == Some(&p.vendor), "product {:?} is stored as {id:?} {t:?} {d:?} {vendor:?}", p.id);
    }
    ensure!(f.products.len() == c.len(), "{} products stored of {}", f.products.len(), c.len());
    ctx.nontrivial = !c.is_empty() && !f.roots.is_empty() && !f.postings.is_empty();
    ctx.inner += (f.products.len() + f.postings.len()) as u64;
    // A file written by another program loads the same.
    let other = write(&f, s);
    ensure!(other.len() == bytes.len(), "harness: written again with {} bytes instead of {}", other.len(), bytes.len());
    ctx.label_if(other != bytes, "tables in another order");
    let nodes2 = Arena::new();
    let (g2, classic2) = no_panic(|| load::<N>(&other, &nodes2))?.map_err(|_| "a file written in the format by another program is refused".to_string())?;
    let again = dump_container(g2.product_container, false) + &dump_index(&g2) + &dump_classic(&classic2, g2.product_container);
    if let Some(d) = diff(&loaded, &again) {
        return Err(format!("a file with its tables in another order loads differently: {d}"));
    }
    Ok(())
}

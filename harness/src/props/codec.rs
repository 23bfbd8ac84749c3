//! C01 to C06: the saved form.
use super::{common::*, huge};
use crate::engine::{no_panic, peak_during, Ctx, Prop};
use crate::gen::{self, catalog, show, CatOpts, Prod};
use crate::src::Src;
use crate::{dispatch, ensure};
use ahash::AHashMap;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::{ClassicIndexes, OrderIndex};
use indexer_lib::data::{Feature, FeatureSet, ProductContainer};
use indexer_lib::ngram::GramIndex;
use indexer_lib::serialize::{deserialize_all, sequential_array, Deserializable, DeserializableCollection, Serializable};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "at least 2 products, an n-gram posting list, and an option or tag", quick: 20_000, thorough: 2_000_000, chunk: 100, run: c01 },
        Prop { id: "C02", rule: "a value other than zero, false or empty was encoded", quick: 500_000, thorough: 50_000_000, chunk: 5000, run: c02 },
        Prop { id: "C03", rule: "at least 2 ids", quick: 500_000, thorough: 50_000_000, chunk: 5000, run: c03 },
        Prop { id: "C04", rule: "the bytes differ from a valid encoding, or are random and not empty", quick: 250_000, thorough: 25_000_000, chunk: 400, run: c04 },
        Prop { id: "C05", rule: "at least 10 strict prefixes of one encoding were tried", quick: 10_000, thorough: 1_000_000, chunk: 60, run: c05 },
        Prop { id: "C06", rule: "the index contains a posting list and the gram sizes differ", quick: 100_000, thorough: 10_000_000, chunk: 200, run: c06 },
    ]
}

fn junk(s: &mut Src, max: usize) -> Vec<u8> {
    (0..s.range(0, max)).map(|_| byte(s)).collect()
}
fn byte(s: &mut Src) -> u8 {
    match s.weighted(&[2, 2, 2, 4]) {
        0 => 0,
        1 => 0xff,
        2 => 0x80,
        _ => s.below(256) as u8,
    }
}

// --- C01 -------------------------------------------------------------------------------------

fn c01(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    if s.chance(1, 2_500) {
        ctx.label("more than 65,536 products");
        let c = huge::catalog(s);
        ctx.describe(|| format!("gram size 3; {} products, the first {}", c.len(), gen::show(&c[..2])));
        return c01_n::<3>(s, ctx, &c);
    }
    let c = if s.chance(1, 500) {
        // Positions that need three bytes.
        let count = s.range(16_380, 16_500);
        ctx.label("more than 16380 products");
        let word = ["ab", "abc", "b", ""];
        (0..count)
            .map(|i| Prod {
                description: String::new(),
                title: word[i % 4 * usize::from(i % 100 == 0)].to_string(),
                vendor: format!("v{}", i % 3),
                id: format!("p{i}"),
                tags: if i % 7 == 0 { vec!["t".into()] } else { vec![] },
                options: vec![("g".into(), vec![format!("{}", i % 3)])],
                price: format!("{}", i % 50),
                media: vec![],
            })
            .collect()
    } else {
        let mut c = catalog(s, &CatOpts { large: true, ..CatOpts::default() }).0;
        ctx.label_if(gen::share_ids(s, &mut c), "products that share an id");
        c
    };
    show_n(ctx, n, &c);
    dispatch!(n, c01_n, s, ctx, &c)
}

fn c01_n<const N: usize>(s: &mut Src, ctx: &mut Ctx, c: &[Prod]) -> CaseResult {
    let nodes = Arena::new();
    let (index, classic) = direct::<N>(c, &nodes)?;
    ensure!(index.product_container.products.len() == c.len(), "{} products built from {}", index.product_container.products.len(), c.len());
    ctx.nontrivial = c.len() >= 2 && !index.data.is_empty() && c.iter().any(|p| !p.tags.is_empty() || !p.options.is_empty());
    ctx.label_if(c.is_empty(), "empty catalogue");
    ctx.label_if(c.len() >= 128, "at least 128 products");
    ctx.label_if(index.data.is_empty(), "no posting list");
    ctx.label_if(c.iter().any(|p| p.media.is_empty()) && c.iter().any(|p| !p.media.is_empty()), "some products without media");
    ctx.label_if(c.iter().any(|p| p.options.len() >= 2), "several option groups");
    ctx.label_if(c.iter().any(|p| shortened(&p.description, 100) != p.description), "shortened description");

    let bytes = save(&index, &classic);
    let extra = junk(s, 6);
    let mut buf = bytes.clone();
    buf.extend_from_slice(&extra);

    let nodes2 = Arena::new();
    let (rest, index2) = Gi::<'_, N>::deserialize(&buf, &nodes2, leak_alloc()).ok_or("the n-gram part did not load")?;
    let (rest, classic2) = ClassicIndexes::deserialize(rest, index2.product_container).ok_or("the category, tag and order part did not load")?;
    ensure!(rest == &extra[..], "loading left {} bytes of {} appended", rest.len(), extra.len());
    compare(&index, &classic, &index2, &classic2, "loaded")?;

    // The one-call form, on exactly the bytes written.
    let nodes3 = Arena::new();
    let (index3, classic3) = load::<N>(&bytes, &nodes3)?;
    compare(&index, &classic, &index3, &classic3, "loaded at once")?;

    // Saved again and loaded again.
    let bytes2 = save(&index3, &classic3);
    let nodes4 = Arena::new();
    let (index4, classic4) = load::<N>(&bytes2, &nodes4).map_err(|e| format!("second generation: {e}"))?;
    compare(&index3, &classic3, &index4, &classic4, "second generation")?;
    ctx.inner += 3;
    Ok(())
}

fn compare<const N: usize>(a: &Gi<'_, N>, ac: &Ci<'_>, b: &Gi<'_, N>, bc: &Ci<'_>, what: &str) -> CaseResult {
    let check = |x: String, y: String, part: &str| match diff(&x, &y) {
        Some(d) => Err(format!("{what}: {part} differ: {d}")),
        None => Ok(()),
    };
    check(dump_container(a.product_container, true), dump_container(b.product_container, false), "products, vendors or features")?;
    check(dump_index(a), dump_index(b), "tree or posting lists")?;
    check(dump_classic(ac, a.product_container), dump_classic(bc, b.product_container), "categories, tags or orders")?;
    // And by the crate's own notion of equality.
    ensure!(a.product_container == b.product_container, "{what}: containers are not equal");
    ensure!(a.roots == b.roots, "{what}: trees are not equal");
    ensure!(a.data == b.data, "{what}: posting lists are not equal");
    ensure!(ac.categories == bc.categories, "{what}: categories are not equal");
    ensure!(ac.tags == bc.tags, "{what}: tags are not equal");
    ensure!(ac.order == bc.order, "{what}: orders are not equal");
    Ok(())
}

// --- C02 -------------------------------------------------------------------------------------

fn number(s: &mut Src) -> u64 {
    match s.weighted(&[2, 4, 4, 2, 1]) {
        0 => s.below(300) as u64,
        1 => {
            // Around the borders of the seven-bit groups.
            let shift = 7 * s.range(1, 9);
            let base = if shift >= 64 { u64::MAX } else { 1u64 << shift };
            base.wrapping_add(s.below(5) as u64).wrapping_sub(2)
        }
        2 => {
            let bits = s.range(1, 64);
            s.raw() >> (64 - bits)
        }
        3 => {
            let shift = s.range(0, 63);
            (1u64 << shift).wrapping_sub(s.below(2) as u64)
        }
        _ => u64::MAX - s.below(3) as u64,
    }
}
fn u32_of(s: &mut Src) -> u32 {
    match s.below(3) {
        0 => number(s) as u32,
        1 => s.below(300) as u32,
        _ => u32::MAX - s.below(3) as u32,
    }
}
fn char_of(s: &mut Src) -> char {
    match s.below(3) {
        0 => *s.pick(&['\0', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{3fff}', '\u{4000}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'æ', '👽']),
        1 => char::from_u32(s.below(128) as u32).unwrap(),
        _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}
fn f32_of(s: &mut Src) -> f32 {
    match s.below(3) {
        0 => f32::from_bits(s.raw() as u32),
        1 => *s.pick(&[0.0, -0.0, 1.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX, f32::EPSILON]),
        _ => s.below(1000) as f32 / 8.0,
    }
}
fn string_of_len(s: &mut Src) -> String {
    let len = match s.weighted(&[400, 300, 100, 1]) {
        0 => s.range(0, 6),
        1 => s.range(0, 40),
        2 => s.range(120, 140),
        _ => {
            // Lengths of two and three bytes.
            let piece: String = (0..s.range(1, 9)).map(|_| char_of(s)).collect();
            let bytes = if s.chance(1, 6) { s.range(65_400, 140_000) } else { s.range(1, 17_000) };
            return piece.repeat(bytes / piece.len());
        }
    };
    (0..len).map(|_| char_of(s)).collect()
}
/// Now and then, a length of three bytes.
fn many(s: &mut Src) -> Option<usize> {
    if !s.chance(1, 4_000) {
        return None;
    }
    Some(if s.chance(1, 2) { s.range(16_380, 16_400) } else { s.range(65_530, 66_600) })
}
fn enc<T: Serializable>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    v.serialize(&mut |b| out.push(b));
    out
}

struct Coder<'c> {
    stream: Vec<u8>,
    checks: Vec<(String, Box<dyn Fn(&[u8]) -> Result<usize, String> + 'c>)>,
}
impl<'c> Coder<'c> {
    fn add<T: Deserializable>(&mut self, name: String, bytes: Vec<u8>, same: impl Fn(&T) -> bool + 'c) {
        self.add_with(name, bytes, |b| T::deserialize(b), same);
    }
    fn add_with<T>(&mut self, name: String, bytes: Vec<u8>, decode: impl Fn(&[u8]) -> Option<(&[u8], T)> + 'c, same: impl Fn(&T) -> bool + 'c) {
        let len = bytes.len();
        self.stream.extend_from_slice(&bytes);
        let n = name.clone();
        self.checks.push((
            name,
            Box::new(move |input| {
                let (rest, v) = no_panic(|| decode(input))?.ok_or_else(|| format!("{n} does not decode"))?;
                let used = input.len() - rest.len();
                ensure!(used == len, "{n}: decoding used {used} of the {len} bytes written");
                ensure!(std::ptr::eq(rest.as_ptr(), input[used..].as_ptr()), "{n}: the rest is not the tail of the input");
                ensure!(same(&v), "{n} decodes to something else");
                Ok(used)
            }),
        ));
    }
}

macro_rules! array_case {
    ($s:expr, $coder:expr, $t:ty, $n:literal, $gen:expr) => {{
        let mut a = [<$t>::default(); $n];
        for x in a.iter_mut() {
            *x = $gen($s);
        }
        let name = format!("[{}; {}] {a:?}", stringify!($t), $n);
        if $s.chance(1, 3) {
            // Through the other trait arrays have.
            $coder.add_with(format!("{name} as a collection"), enc(&a), |b| <[$t; $n] as DeserializableCollection>::deserialize(b), move |v| *v == a);
        } else {
            $coder.add::<[$t; $n]>(name, enc(&a), move |v| *v == a);
        }
    }};
}

fn c02_value<'c>(s: &mut Src, k: &mut Coder<'c>) -> bool {
    match s.below(17) {
        0 => {
            let v = number(s);
            k.add::<u64>(format!("u64 {v}"), enc(&v), move |d| *d == v);
            v != 0
        }
        1 => {
            let v = number(s) as usize;
            k.add::<usize>(format!("usize {v}"), enc(&v), move |d| *d == v);
            v != 0
        }
        2 => {
            let v = u32_of(s);
            k.add::<u32>(format!("u32 {v}"), enc(&v), move |d| *d == v);
            v != 0
        }
        3 => {
            let v = s.below(256) as u8;
            k.add::<u8>(format!("u8 {v}"), enc(&v), move |d| *d == v);
            v != 0
        }
        4 => {
            let v = s.chance(1, 2);
            k.add::<bool>(format!("bool {v}"), enc(&v), move |d| *d == v);
            v
        }
        5 => {
            let v = char_of(s);
            k.add::<char>(format!("char {v:?}"), enc(&v), move |d| *d == v);
            v != '\0'
        }
        6 => {
            let v = f32_of(s);
            k.add::<f32>(format!("f32 {v} {:08x}", v.to_bits()), enc(&v), move |d| d.to_bits() == v.to_bits());
            v != 0.0
        }
        7 => {
            let v = string_of_len(s);
            let e = enc(&v);
            let e2 = enc(&v.as_str());
            k.add::<String>(format!("String {v:?}"), e, { let v = v.clone(); move |d| *d == v && e2 == enc(d) });
            !v.is_empty()
        }
        8 => {
            let v: Vec<usize> = match many(s) {
                Some(n) => (0..n).map(|i| i * 37 % n).collect(),
                None => (0..s.weighted(&[1, 2, 4, 4, 2]) * 3).map(|_| number(s) as usize).collect(),
            };
            k.add::<Vec<usize>>(format!("Vec<usize> {v:?}"), enc(&v), { let v = v.clone(); move |d| *d == v });
            !v.is_empty()
        }
        9 => {
            let v: Vec<String> = (0..s.below(6)).map(|_| string_of_len(s)).collect();
            k.add::<Vec<String>>(format!("Vec<String> {v:?}"), enc(&&v), { let v = v.clone(); move |d| *d == v });
            !v.is_empty()
        }
        10 => {
            let len = if s.chance(1, 6) { s.range(126, 131) } else { s.below(6) };
            let v: Vec<f32> = match many(s) {
                Some(n) => (0..n).map(|i| f32::from_bits((i as u32).wrapping_mul(65_537))).collect(),
                None => (0..len).map(|_| f32_of(s)).collect(),
            };
            let w: Vec<&f32> = v.iter().collect();
            let bits: Vec<u32> = v.iter().map(|f| f.to_bits()).collect();
            k.add::<Vec<f32>>(format!("Vec<&f32> {v:?}"), enc(&w), move |d| d.iter().map(|f| f.to_bits()).collect::<Vec<_>>() == bits);
            !v.is_empty()
        }
        11 => {
            match s.weighted(&[40, 40, 40, 40, 40, 40, 1, 1]) {
                6 => array_case!(s, k, char, 130, char_of),
                7 => array_case!(s, k, u8, 300, |s: &mut Src| s.below(256) as u8),
                0 => array_case!(s, k, u8, 1, |s: &mut Src| s.below(256) as u8),
                1 => array_case!(s, k, char, 5, char_of),
                2 => array_case!(s, k, char, 8, char_of),
                3 => array_case!(s, k, u64, 3, number),
                4 => array_case!(s, k, u32, 9, u32_of),
                _ => array_case!(s, k, bool, 2, |s: &mut Src| s.chance(1, 2)),
            }
            true
        }
        12 => {
            let v: AHashMap<String, Vec<usize>> = (0..s.below(5))
                .map(|_| (string_of_len(s), (0..s.below(4)).map(|_| number(s) as usize).collect()))
                .collect();
            k.add::<AHashMap<String, Vec<usize>>>(format!("AHashMap<String, Vec<usize>> {v:?}"), enc(&v), { let v = v.clone(); move |d| *d == v });
            !v.is_empty()
        }
        13 => {
            let len = if s.chance(1, 6) { s.range(126, 131) } else { s.below(8) };
            let v: AHashMap<u64, u32> = match many(s) {
                Some(n) => (0..n).map(|i| (i as u64, (n - i) as u32)).collect(),
                None => (0..len).map(|_| (number(s), u32_of(s))).collect(),
            };
            k.add::<AHashMap<u64, u32>>(format!("AHashMap<u64, u32> {v:?}"), enc(&v), { let v = v.clone(); move |d| *d == v });
            !v.is_empty()
        }
        14 => {
            let f = match s.below(3) {
                0 => Feature::String((0..s.below(4)).map(|_| string_of_len(s)).collect()),
                1 => Feature::Float((0..s.below(4)).map(|_| s.below(1000) as f32 / 8.0).collect()),
                _ => Feature::Integer((0..s.below(4)).map(|_| u32_of(s)).collect()),
            };
            let name = match &f {
                Feature::String(l) => format!("Feature strings {l:?}"),
                Feature::Float(l) => format!("Feature floats {l:?}"),
                Feature::Integer(l) => format!("Feature integers {l:?}"),
            };
            k.add::<Feature>(name, enc(&f), move |d| *d == f);
            true
        }
        15 => {
            let mut set = FeatureSet::new_empty();
            let (ns, nf, ni) = (s.below(3), s.below(3), s.below(3));
            for _ in 0..ns {
                set.add_string("text", string_of_len(s));
            }
            for _ in 0..nf {
                set.add_float("price", s.below(1000) as f32 / 8.0);
            }
            for _ in 0..ni {
                set.add_int("count", u32_of(s));
            }
            k.add::<FeatureSet>(format!("FeatureSet with {ns} strings, {nf} floats, {ni} integers"), enc(&set), move |d| *d == set);
            ns + nf + ni > 0
        }
        _ => {
            let v: Vec<Vec<usize>> = (0..s.below(4)).map(|_| (0..s.below(4)).map(|_| number(s) as usize).collect()).collect();
            k.add::<Vec<Vec<usize>>>(format!("Vec<Vec<usize>> {v:?}"), enc(&&v), { let v = v.clone(); move |d| *d == v });
            !v.is_empty()
        }
    }
}

fn c02(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut k = Coder { stream: Vec::new(), checks: Vec::new() };
    for _ in 0..s.range(1, 4) {
        if c02_value(s, &mut k) {
            ctx.nontrivial = true;
        }
    }
    let tail = junk(s, 12);
    k.stream.extend_from_slice(&tail);
    ctx.describe(|| format!("{} then {tail:?}", k.checks.iter().map(|c| c.0.as_str()).collect::<Vec<_>>().join(", ")));
    let mut at = 0;
    for (name, check) in &k.checks {
        ctx.inner += 1;
        ctx.label(name.split(' ').next().unwrap_or(""));
        at += check(&k.stream[at..])?;
        // The same value with nothing behind it.
    }
    ensure!(k.stream[at..] == tail[..], "the trailing bytes were not left over");
    Ok(())
}

// --- C03 -------------------------------------------------------------------------------------

fn c03_t<T>(s: &mut Src, ctx: &mut Ctx, from: fn(u64) -> T) -> CaseResult
where
    T: Copy + Ord + std::fmt::Debug + Serializable + Deserializable + std::ops::Sub<Output = T>,
    T: SeqItem,
{
    let many = s.chance(1, 20_000);
    let len = match s.weighted(&[4, 8, 24, 8, 2, 1]) {
        _ if many => s.range(65_500, 70_000),
        0 => 0,
        1 => 1,
        2 => s.range(2, 12),
        3 => s.range(13, 80),
        4 => s.range(120, 135),
        _ => s.range(136, 700),
    };
    ctx.label_if(many, "more than 65,000 ids");
    let span = *s.pick(&[3usize, 20, 300, 20_000]);
    let mode = s.below(3);
    let mut v: Vec<T> = (0..len)
        .map(|_| match mode {
            0 => from(s.below(span) as u64),
            1 => from(number(s)),
            _ => from(if s.chance(1, 4) { u64::MAX } else { s.below(span) as u64 }),
        })
        .collect();
    // Sorted, sorted but for a few late arrivals, or in descending order.
    let order = s.weighted(&[5, 2, 2, 1]);
    if order > 0 {
        v.sort();
    }
    if order == 2 && v.len() > 1 {
        for _ in 0..s.range(1, 2) {
            let x = v.remove(s.below(v.len()));
            v.insert(s.below(v.len() + 1), x);
        }
        ctx.label("nearly sorted");
    }
    if order == 3 {
        v.reverse();
    }
    let tail = junk(s, 8);
    ctx.describe(|| format!("{v:?} then {tail:?}"));
    ctx.nontrivial = v.len() >= 2;
    ctx.label_if(v.windows(2).any(|w| w[0] > w[1]), "unsorted");
    ctx.label(std::any::type_name::<T>());
    let mut bytes = Vec::new();
    no_panic(|| sequential_array::serialize(v.iter().copied(), &mut |b| bytes.push(b)))?;
    let written = bytes.len();
    bytes.extend_from_slice(&tail);
    let (rest, got) = no_panic(|| T::read(&bytes))?.ok_or_else(|| format!("the list {v:?} does not read back"))?;
    let mut sorted = v.clone();
    sorted.sort();
    ctx.label_if(sorted.windows(2).any(|w| w[0] == w[1]), "duplicates");
    ensure!(got == sorted, "{v:?} reads back as {got:?}");
    ensure!(bytes.len() - rest.len() == written && rest == &tail[..], "reading used {} of {written} bytes", bytes.len() - rest.len());
    Ok(())
}

/// One place per item type, because the bounds of `sequential_array::deserialize` may differ.
trait SeqItem: Sized {
    fn read(input: &[u8]) -> Option<(&[u8], Vec<Self>)>;
}
macro_rules! seq_items { ($($t:ty)*) => {$( impl SeqItem for $t {
    fn read(input: &[u8]) -> Option<(&[u8], Vec<Self>)> { sequential_array::deserialize::<$t>(input) }
} )*} }
seq_items!(u8 u32 u64 usize);

fn c03(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => c03_t::<usize>(s, ctx, |v| v as usize),
        1 => c03_t::<u32>(s, ctx, |v| v as u32),
        2 => c03_t::<u64>(s, ctx, |v| v),
        _ => c03_t::<u8>(s, ctx, |v| v as u8),
    }
}

// --- C04 -------------------------------------------------------------------------------------

fn varint(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

const HUGE: [u64; 11] =
    [1 << 20, 1 << 27, 1 << 31, u32::MAX as u64, 1 << 36, 1 << 47, 1 << 57, 1 << 60, (1 << 63) - 1, 1 << 63, u64::MAX];

fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let at = |s: &mut Src, b: &Vec<u8>| s.below(b.len().max(1));
    match s.below(9) {
        0 if !b.is_empty() => {
            let i = at(s, b);
            b[i] ^= 1 << s.below(8);
        }
        1 if !b.is_empty() => {
            let i = at(s, b);
            b[i] = byte(s);
        }
        2 => {
            let i = s.below(b.len() + 1);
            let j = junk(s, 6);
            b.splice(i..i, j);
        }
        3 if !b.is_empty() => {
            let i = at(s, b);
            let n = s.range(1, 8).min(b.len() - i);
            b.drain(i..i + n);
        }
        4 if !b.is_empty() => {
            // Replace one byte by a long number.
            let i = at(s, b);
            let mut v = Vec::new();
            let x = *s.pick(&HUGE);
            varint(x, &mut v);
            b.splice(i..i + 1, v);
        }
        5 if !b.is_empty() => {
            // Copy one piece over another.
            let i = at(s, b);
            let j = at(s, b);
            let n = s.range(1, 40).min(b.len() - i);
            let piece: Vec<u8> = b[i..i + n].to_vec();
            b.splice(j..j, piece);
        }
        6 if !b.is_empty() => {
            let i = at(s, b);
            b.truncate(i);
        }
        7 if !b.is_empty() => {
            // Run of continuation bytes.
            let i = at(s, b);
            let n = s.range(1, 12);
            b.splice(i..i, std::iter::repeat(0xff).take(n));
        }
        _ => {
            // Early bytes hold the counts of vendors and products.
            if !b.is_empty() {
                let i = s.below(b.len().min(12));
                b[i] = byte(s);
            }
        }
    }
}

fn c04(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let kind = s.weighted(&[10, 3, 3, 2]);
    let mut bytes;
    match kind {
        0 => {
            ctx.label("mutated index");
            let (c, _) = catalog(s, &CatOpts { text: 8, max_products: 5, scale: false, ..CatOpts::default() });
            bytes = dispatch!(n, build, &c)?;
            for _ in 0..s.range(1, 4) {
                mutate(s, &mut bytes);
            }
            ctx.nontrivial = true;
        }
        1 => {
            ctx.label("random bytes");
            bytes = junk(s, 200);
            ctx.nontrivial = !bytes.is_empty();
        }
        2 => {
            ctx.label("inflated lengths");
            bytes = Vec::new();
            let prefix = *s.pick(&[&[][..], &[0], &[0, 0], &[0, 0, 0], &[0, 0, 0, 0], &[0, 0, 0, 0, 0], &[0, 0, 0, 0, 0, 0], &[1, 0], &[0, 0, 0, 1, b'a', 0, 0, 0, 0]]);
            bytes.extend_from_slice(prefix);
            let x = *s.pick(&HUGE);
            varint(x, &mut bytes);
            let t = junk(s, 30);
            bytes.extend_from_slice(&t);
            ctx.nontrivial = true;
        }
        _ => {
            ctx.label("nested tree");
            // No vendors, products or features; then a tree that goes deeper with every node.
            bytes = vec![0, 0, 0, 1, b'a'];
            let depth = *s.pick(&[10usize, 300, 5000, 60_000, 200_000]);
            let claim = if s.chance(1, 4) { 3 } else { 1 };
            for _ in 0..depth {
                bytes.extend_from_slice(&[b'a', 0, 0, 0, 0, claim]);
            }
            ctx.nontrivial = true;
        }
    }
    ctx.describe(|| {
        let shown = &bytes[..bytes.len().min(400)];
        format!("gram size {n}, {} bytes: {shown:?}", bytes.len())
    });
    let limit = (16 << 20) + 4096 * bytes.len();
    let mut decode = |name: &str, f: &mut dyn FnMut(&[u8]) -> bool| -> CaseResult {
        ctx.inner += 1;
        let (r, peak) = peak_during(|| no_panic(|| f(&bytes)));
        let ok = r.map_err(|e| format!("{name} on {} bytes: {e}", bytes.len()))?;
        ensure!(peak <= limit, "{name} asked for {peak} bytes of memory for an input of {} bytes", bytes.len());
        if ok && name == "index" {
            ctx.label("index decoded");
        }
        Ok(())
    };
    decode("index", &mut |b| dispatch!(n, c04_index, b))?;
    if kind == 3 {
        return Ok(());
    }
    decode("u64", &mut |b| u64::deserialize(b).is_some())?;
    decode("u32", &mut |b| u32::deserialize(b).is_some())?;
    decode("usize", &mut |b| usize::deserialize(b).is_some())?;
    decode("u8", &mut |b| u8::deserialize(b).is_some())?;
    decode("bool", &mut |b| bool::deserialize(b).is_some())?;
    decode("char", &mut |b| char::deserialize(b).is_some())?;
    decode("f32", &mut |b| f32::deserialize(b).is_some())?;
    decode("String", &mut |b| String::deserialize(b).is_some())?;
    decode("Vec<usize>", &mut |b| Vec::<usize>::deserialize(b).is_some())?;
    decode("Vec<String>", &mut |b| Vec::<String>::deserialize(b).is_some())?;
    decode("Vec<Vec<usize>>", &mut |b| Vec::<Vec<usize>>::deserialize(b).is_some())?;
    decode("[char; 5]", &mut |b| <[char; 5] as Deserializable>::deserialize(b).is_some())?;
    decode("[u64; 3]", &mut |b| <[u64; 3] as Deserializable>::deserialize(b).is_some())?;
    decode("AHashMap<String, Vec<usize>>", &mut |b| AHashMap::<String, Vec<usize>>::deserialize(b).is_some())?;
    decode("AHashMap<u64, u32>", &mut |b| AHashMap::<u64, u32>::deserialize(b).is_some())?;
    decode("FeatureSet", &mut |b| FeatureSet::deserialize(b).is_some())?;
    decode("Feature", &mut |b| Feature::deserialize(b).is_some())?;
    decode("OrderIndex", &mut |b| OrderIndex::deserialize(b).is_some())?;
    decode("id list usize", &mut |b| usize::read(b).is_some())?;
    decode("id list u32", &mut |b| u32::read(b).is_some())?;
    decode("id list u8", &mut |b| u8::read(b).is_some())?;
    decode("products", &mut |b| ProductContainer::deserialize(b, leak_alloc()).is_some())?;
    decode("categories, tags and orders", &mut |b| ClassicIndexes::deserialize(b, base_container()).is_some())?;
    Ok(())
}

fn c04_index<const N: usize>(b: &[u8]) -> bool {
    let nodes = Arena::new();
    let r = deserialize_all::<char, N>(b, &nodes, leak_alloc());
    r.is_some()
}

/// A container with three products, made once per process.
pub fn base_container() -> &'static ProductContainer<'static> {
    static BASE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let addr = *BASE.get_or_init(|| {
        let c: Vec<Prod> = (0..3)
            .map(|i| Prod {
                description: "d".into(),
                title: format!("t{i}"),
                vendor: "v".into(),
                id: format!("p{i}"),
                tags: vec![],
                options: vec![],
                price: "1".into(),
                media: vec![],
            })
            .collect();
        let json: &'static str = Box::leak(gen::json_list(&c).into_boxed_str());
        let (container, _) = indexer_lib::data::optimize(raws(json).unwrap(), leak_alloc());
        container as *const ProductContainer<'static> as usize
    });
    // The container is leaked and never written again.
    unsafe { &*(addr as *const ProductContainer<'static>) }
}

// --- C05 -------------------------------------------------------------------------------------

fn c05(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    if s.chance(1, 3) {
        return c05_values(s, ctx);
    }
    let n = gram_size(s);
    let large = s.chance(1, 20);
    let (c, _) = catalog(s, &CatOpts { text: 10, max_products: 6, large, ..CatOpts::default() });
    show_n(ctx, n, &c);
    let bytes = dispatch!(n, build, &c)?;
    let cuts: Vec<usize> = if bytes.len() <= 700 {
        ctx.label("every cut point of an index");
        (0..bytes.len()).collect()
    } else {
        ctx.label("sampled cut points of an index");
        let mut v: Vec<usize> = (0..60).map(|_| s.below(bytes.len())).collect();
        v.extend((0..150).map(|i| bytes.len() - 1 - i));
        v.extend(0..40);
        v
    };
    ctx.nontrivial = cuts.len() >= 10;
    for cut in cuts {
        ctx.inner += 1;
        let accepted = no_panic(|| dispatch!(n, c04_index, &bytes[..cut]))
            .map_err(|e| format!("index of {} bytes cut to {cut}: {e}", bytes.len()))?;
        ensure!(!accepted, "an index of {} bytes cut to {cut} bytes was accepted", bytes.len());
    }
    Ok(())
}

fn c05_values(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    ctx.label("every cut point of values");
    let mut shown = Vec::new();
    for _ in 0..12 {
        let (name, bytes, f): (String, Vec<u8>, fn(&[u8]) -> bool) = match s.below(11) {
            0 => { let v = number(s); (format!("u64 {v}"), enc(&v), |b| u64::deserialize(b).is_some()) }
            1 => { let v = number(s) as usize; (format!("usize {v}"), enc(&v), |b| usize::deserialize(b).is_some()) }
            2 => { let v = u32_of(s); (format!("u32 {v}"), enc(&v), |b| u32::deserialize(b).is_some()) }
            3 => { let v = char_of(s); (format!("char {v:?}"), enc(&v), |b| char::deserialize(b).is_some()) }
            4 => { let v = f32_of(s); (format!("f32 {v}"), enc(&v), |b| f32::deserialize(b).is_some()) }
            5 => { let v = string_of_len(s); (format!("String {v:?}"), enc(&v), |b| String::deserialize(b).is_some()) }
            6 => {
                let v: Vec<usize> = (0..s.below(5)).map(|_| number(s) as usize).collect();
                (format!("Vec<usize> {v:?}"), enc(&v), |b| Vec::<usize>::deserialize(b).is_some())
            }
            7 => {
                let v: AHashMap<u64, u32> = (0..s.below(5)).map(|_| (number(s), u32_of(s))).collect();
                (format!("AHashMap {v:?}"), enc(&v), |b| AHashMap::<u64, u32>::deserialize(b).is_some())
            }
            8 => {
                let v: Vec<usize> = (0..s.below(6)).map(|_| s.below(500)).collect();
                let mut e = Vec::new();
                sequential_array::serialize(v.iter().copied(), &mut |b| e.push(b));
                (format!("id list {v:?}"), e, |b| usize::read(b).is_some())
            }
            9 => {
                let v = [char_of(s), char_of(s), char_of(s)];
                (format!("[char; 3] {v:?}"), enc(&v), |b| <[char; 3] as Deserializable>::deserialize(b).is_some())
            }
            _ => {
                let v: Vec<String> = (0..s.below(4)).map(|_| string_of_len(s)).collect();
                (format!("Vec<String> {v:?}"), enc(&&v), |b| Vec::<String>::deserialize(b).is_some())
            }
        };
        for cut in 0..bytes.len() {
            ctx.inner += 1;
            let accepted = no_panic(|| f(&bytes[..cut])).map_err(|e| format!("{name} cut to {cut} bytes: {e}"))?;
            ensure!(!accepted, "{name} ({} bytes) cut to {cut} bytes was accepted", bytes.len());
        }
        ensure!(f(&bytes), "{name} does not decode");
        shown.push(name);
    }
    ctx.nontrivial = true;
    ctx.describe(|| shown.join(", "));
    Ok(())
}

// --- C06 -------------------------------------------------------------------------------------

fn c06(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = gram_size(s);
    let mut m = s.range(1, 8);
    if m >= n {
        m += 1;
    }
    let (c, _) = catalog(s, &CatOpts { text: 14, max_products: 8, min_products: 2, ..CatOpts::default() });
    ctx.describe(|| format!("built for gram size {n}, loaded for {m}; {}", show(&c)));
    let (bytes, lists) = dispatch!(n, c06_build, &c)?;
    if lists == 0 {
        ctx.label("no posting list");
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.label(if m > n { "larger gram size asked for" } else { "smaller gram size asked for" });
    let accepted = no_panic(|| dispatch!(m, c04_index, &bytes)).map_err(|e| format!("index for gram size {n} loaded for {m}: {e}"))?;
    ensure!(!accepted, "an index built for gram size {n} was accepted for gram size {m}");
    Ok(())
}

fn c06_build<const N: usize>(c: &[Prod]) -> Result<(Vec<u8>, usize), String> {
    let bytes = build::<N>(c)?;
    let nodes = Arena::new();
    let (i, _) = load::<N>(&bytes, &nodes)?;
    let n = i.data.len();
    drop(i);
    Ok((bytes, n))
}
#[allow(unused)]
type Unused<'a> = GramIndex<'a, char, indexer_lib::data::Product<'a>, 1>;

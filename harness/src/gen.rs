//! Catalogue generators.
use crate::src::Src;
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Prod {
    pub description: String,
    pub title: String,
    pub vendor: String,
    pub id: String,
    pub tags: Vec<String>,
    pub options: Vec<(String, Vec<String>)>,
    pub price: String,
    pub media: Vec<String>,
}

impl Prod {
    /// The searchable text: description, title and vendor, lower-cased character by character.
    pub fn text(&self) -> Vec<char> {
        [&self.description, &self.title, &self.vendor]
            .into_iter()
            .flat_map(|s| s.chars())
            .flat_map(char::to_lowercase)
            .collect()
    }
    pub fn has_option(&self, group: &str, value: &str) -> bool {
        self.options.iter().any(|(g, vs)| g == group && vs.iter().any(|v| v == value))
    }
    pub fn has_tag(&self, tag: &str) -> bool {
        self.tags.iter().any(|t| t == tag)
    }
    pub fn price_f32(&self) -> f32 {
        self.price.parse().unwrap()
    }
    pub fn value(&self) -> Value {
        json!({
            "description": self.description, "title": self.title, "vendor": self.vendor, "id": self.id,
            "tags": self.tags,
            "options": self.options.iter().map(|(n, v)| json!({"name": n, "values": v})).collect::<Vec<_>>(),
            "price": {"min": {"amount": self.price, "currencyCode": "DKK"}, "max": {"amount": self.price, "currencyCode": "DKK"}},
            "media": self.media.iter().map(|u| json!({"url": u})).collect::<Vec<_>>(),
        })
    }
}

pub type Catalog = Vec<Prod>;

/// The products as a JSON list, in order.
pub fn json_list(c: &[Prod]) -> String {
    Value::Array(c.iter().map(Prod::value).collect()).to_string()
}
/// The products as the JSON object the public `index` function takes.
pub fn json_map(c: &[Prod]) -> String {
    let mut m = Map::new();
    for p in c {
        m.insert(p.id.clone(), p.value());
    }
    Value::Object(m).to_string()
}
pub fn show(c: &[Prod]) -> String {
    format!("{} products: {}", c.len(), json_list(c))
}

const BASE_WORDS: &[&str] = &[
    "plakat", "kunst", "poster", "blå", "rød", "grøn", "ramme", "abstrakt", "natur", "kvinde", "portræt",
    "Kunstplakat", "Ramme", "Sort", "hvid", "København", "håndlavet", "Mille Henriksen", "nya hedegård",
    "orange", "orang", "plakater", "aaaaa", "abab", "ababab", "XxXxX", "ÆØÅæøå", "Ünïcödé", "👽👽👽", "漢字漢字漢字",
    "10%", "30x40", "50x70 cm", "Straße", "İstanbul", "ΣΑΣ", "tryk på", "canvas", "kanvas", "canvad", "Ånd", "akryl",
];
const POOL: &[char] = &[
    'a', 'b', 'c', 'd', 'e', ' ', 'A', 'B', 'æ', 'Æ', 'ø', 'å', 'Å', 'ß', 'é', 'İ', 'ı', 'K', 'ſ', 'Σ', 'σ', 'ς', 'Д', 'д', '漢',
    '字', '👽', '\u{301}', '\t', '\n', '0', '7', '-', '.', '"', '\\', '/', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}',
    '\u{ffff}', '\u{10000}', '\u{10ffff}', '\'', '<', 'ǅ', 'ǆ', 'ᾳ', 'ᾼ', 'ⅷ', 'Ⓐ', '𐐨', 'ა', 'Ꭰ',
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Words,
    Tiny,
    Pool,
}

pub struct TextGen {
    pub style: Style,
    words: Vec<String>,
    alphabet: Vec<char>,
}

impl TextGen {
    pub fn new(s: &mut Src) -> TextGen {
        let style = [Style::Words, Style::Tiny, Style::Pool][s.weighted(&[6, 3, 2])];
        TextGen::with_style(s, style)
    }
    pub fn with_style(s: &mut Src, style: Style) -> TextGen {
        let words = if style == Style::Words {
            let n = s.range(3, 12);
            (0..n).map(|_| s.pick(BASE_WORDS).to_string()).collect()
        } else {
            Vec::new()
        };
        let alphabet = match style {
            Style::Words => Vec::new(),
            Style::Tiny => {
                let sets: [&[char]; 5] = [&['a', 'b'], &['a', 'b', 'c'], &['a', 'b', ' '], &['a', 'B', 'æ', ' '], &['x']];
                sets[s.below(5)].to_vec()
            }
            Style::Pool => {
                let n = s.range(2, 20);
                (0..n).map(|_| *s.pick(POOL)).collect()
            }
        };
        TextGen { style, words, alphabet }
    }
    /// Text of roughly up to `max` characters.
    pub fn text(&self, s: &mut Src, max: usize) -> String {
        let mut out = String::new();
        if self.style == Style::Words {
            let target = s.range(0, max);
            while out.chars().count() < target {
                if !out.is_empty() {
                    out.push(' ');
                }
                let w: String = s.pick(&self.words).clone();
                if s.chance(1, 6) {
                    out.push_str(&edit(s, &w, &['a', 'e', 'x', 'å']));
                } else {
                    out.push_str(&w);
                }
            }
        } else {
            let n = s.range(0, max);
            for _ in 0..n {
                out.push(*s.pick(&self.alphabet));
            }
        }
        out
    }
    pub fn char(&self, s: &mut Src) -> char {
        if self.style == Style::Words {
            *s.pick(&['a', 'e', 'k', 't', ' ', 'å', 'x', 'z'])
        } else {
            *s.pick(&self.alphabet)
        }
    }
}

/// One random edit: replace, insert, delete or swap.
pub fn edit(s: &mut Src, w: &str, fill: &[char]) -> String {
    let mut c: Vec<char> = w.chars().collect();
    edit_chars(s, &mut c, fill);
    c.into_iter().collect()
}
pub fn edit_chars(s: &mut Src, c: &mut Vec<char>, fill: &[char]) {
    if c.is_empty() {
        c.push(*s.pick(fill));
        return;
    }
    let i = s.below(c.len());
    match s.below(4) {
        0 => c[i] = *s.pick(fill),
        1 => c.insert(i, *s.pick(fill)),
        2 => {
            c.remove(i);
        }
        _ => {
            let j = s.below(c.len());
            c.swap(i, j);
        }
    }
}

#[derive(Clone, Copy)]
pub struct CatOpts {
    /// Characters per text field.
    pub text: usize,
    /// Allow catalogues of several hundred products (with short texts).
    pub large: bool,
    pub min_products: usize,
    pub max_products: usize,
    /// Weights for (words, tiny alphabet, unicode pool).
    pub style: Option<Style>,
    /// Descriptions that exceed the stored length.
    pub long_descriptions: bool,
    /// Tags, options, media.
    pub extras: bool,
    /// Now and then a catalogue that is big in one respect.
    pub scale: bool,
}

/// The respect in which a catalogue is big.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale {
    No,
    Products,
    Vendors,
    Tags,
    Options,
    Groups,
    Text,
    Names,
    /// Hundreds of different characters.
    Alphabet,
    /// The same few characters over and over.
    Repeats,
}

impl Default for CatOpts {
    fn default() -> Self {
        CatOpts { text: 20, large: false, min_products: 0, max_products: 14, style: None, long_descriptions: true, extras: true, scale: true }
    }
}

const GROUPS: &[&str] = &["Size", "Color", "Størrelse", "Frame", "Material", ""];
const VALUES: &[&str] = &["S", "M", "L", "30x40", "50x70", "Rød", "Blå", "Default Title", "", "Sort / hvid", "XL", "👽"];
const TAGS: &[&str] = &[
    "poster", "Beige", "Brun", "Gul", "Portræt", "blå", "rød", "kunst", "kunstner", "30x40 cm", "", "ab", "abc", "æøå", "sale", "Sale", "art", "artist",
];
const PRICES: &[&str] = &[
    "19.990002", "+5", "5.", ".5", "1E2", "-0.0", "0.0", "340282350000000000000000000000000000000", "1e-40", "-0.5", "16777215.5", "249.99001", "375.0", "0", "100", "19.99", "19.95", "0.1", "375.00", "99999999", "16777217", "16777216", "1e3", "0.30000001", "1200.5", "-5", "250", "249.99",
];

pub fn price(s: &mut Src) -> String {
    match s.weighted(&[80, 30, 10, 4]) {
        3 => between(s),
        0 => s.pick(PRICES).to_string(),
        1 => format!("{}.{:02}", s.below(2000), s.below(100)),
        _ => format!("{}.{}", s.below(100_000_000), s.below(1_000_000)),
    }
}

/// A decimal number next to or at the middle of two neighbouring single-precision numbers.
fn between(s: &mut Src) -> String {
    let low = match s.below(3) {
        0 => s.range(16_777_216, 33_000_000) as f32,
        1 => s.below(4_000_000) as f32 / 128.0,
        _ => f32::from_bits(s.range(0x3000_0000, 0x4f00_0000) as u32),
    };
    let high = f32::from_bits(low.to_bits() + 1);
    // Exact, as are the digits printed.
    let mid = (f64::from(low) + f64::from(high)) / 2.0;
    let mut digits = format!("{mid:.160}").trim_end_matches('0').to_string();
    match s.below(3) {
        0 => {}
        1 => digits.push_str("000000000000000000001"),
        _ => {
            if digits.ends_with('.') {
                digits = format!("{}.9999999999999999999999", mid as u64 - 1);
            } else {
                let last = digits.pop().unwrap();
                digits.push((last as u8 - 1) as char);
                digits.push_str("9999999999999999999999");
            }
        }
    }
    digits.trim_end_matches('.').to_string()
}

pub fn product_count(s: &mut Src, o: &CatOpts) -> usize {
    let n = match s.weighted(&[3, 4, 60, 25, if o.large { 4 } else { 0 }, if o.large { 2 } else { 0 }]) {
        0 => 0,
        1 => s.range(1, 2),
        2 => s.range(3, 8),
        3 => s.range(6, 20),
        4 => s.range(120, 140),
        _ => s.range(250, 400),
    };
    if n > 100 {
        n
    } else {
        n.max(o.min_products).min(o.max_products)
    }
}

pub fn catalog(s: &mut Src, o: &CatOpts) -> (Catalog, TextGen) {
    let tg = match o.style {
        Some(st) => TextGen::with_style(s, st),
        None => TextGen::new(s),
    };
    let scale = if o.scale && s.chance(1, 40) {
        [Scale::Products, Scale::Vendors, Scale::Text, Scale::Names, Scale::Alphabet, Scale::Repeats, Scale::Tags, Scale::Options, Scale::Groups][s.below(if o.extras { 9 } else { 6 })]
    } else {
        Scale::No
    };
    let n = match scale {
        Scale::Products => match s.weighted(&[12, 2]) {
            0 => s.range(65, 300),
            _ => s.range(513, 1100),
        },
        Scale::Vendors => s.range(257, 330),
        Scale::Tags | Scale::Options | Scale::Groups => s.range(2, 24),
        Scale::Text | Scale::Names | Scale::Alphabet => s.range(1, 5),
        Scale::Repeats => s.range(1, 7),
        Scale::No => product_count(s, o),
    };
    let text = if n > 60 { o.text.min(6) } else { o.text };
    let n_vendors = if s.chance(1, 8) { n.max(1) } else { s.range(1, 5) };
    let mut vendors: Vec<String> = (0..n_vendors).map(|_| tg.text(s, text.min(14))).collect();
    if scale == Scale::Vendors {
        vendors = (0..n).map(|i| format!("{} {i}", vendors[i % vendors.len()])).collect();
    }
    let pick_pool = |s: &mut Src, from: &[&str], max: usize| -> Vec<String> {
        let k = s.range(1, max);
        let mut v: Vec<String> = Vec::new();
        for _ in 0..k {
            let t = s.pick(from).to_string();
            if !v.contains(&t) {
                v.push(t);
            }
        }
        v
    };
    let mut groups = pick_pool(s, GROUPS, 4);
    let mut values = pick_pool(s, VALUES, 6);
    let mut tags = pick_pool(s, TAGS, 6);
    let add_twins = |s: &mut Src, pool: &mut Vec<String>| {
        if s.chance(1, 4) {
            let base = s.pick(pool).clone();
            let t = twin(s, &base);
            if !pool.contains(&t) {
                pool.push(t);
            }
        }
    };
    add_twins(s, &mut groups);
    add_twins(s, &mut values);
    add_twins(s, &mut tags);
    add_twins(s, &mut vendors);
    if scale == Scale::Names {
        for pool in [&mut groups, &mut values, &mut tags, &mut vendors] {
            for name in pool {
                if s.chance(1, 2) {
                    *name = long_name(s, name);
                }
            }
        }
    }
    let many = if s.chance(1, 3) { s.range(300, 1100) } else { s.range(30, 300) };
    // How many of them a product has at most.
    let each = if many >= 300 { 250 } else { 60 };
    match scale {
        Scale::Tags => tags.extend((0..many).map(|i| format!("tag {i}"))),
        Scale::Options => values.extend((0..many).map(|i| format!("{i} cm"))),
        Scale::Groups => groups.extend((0..many).map(|i| format!("group {i}"))),
        _ => {}
    }
    let id_form = s.weighted(&[3, 3, 3, 2, 1, 2, 2]);
    let mut huge = false;
    let mut ids: std::collections::HashSet<String> = std::collections::HashSet::new();
    let mut out: Vec<Prod> = Vec::with_capacity(n);
    for i in 0..n {
        let mut description = tg.text(s, text);
        if scale == Scale::Text && s.chance(2, 3) {
            let target = s.range(300, 1500);
            while description.chars().count() < target {
                description.push_str(&tg.text(s, 60));
                description.push(if s.chance(1, 4) { ' ' } else { tg.char(s) });
            }
        } else if scale == Scale::Alphabet && s.chance(2, 3) {
            description = wide_text(s);
        } else if scale == Scale::Repeats && s.chance(1, 2) {
            let piece: String = (0..s.range(1, 3)).map(|_| tg.char(s)).collect();
            let times = match s.weighted(&[40, 20, 1]) {
                0 => s.range(20, 150),
                1 => s.range(200, 1200),
                _ if !huge => {
                    huge = true;
                    s.range(65_530, 66_600)
                }
                _ => 300,
            };
            description.push_str(&piece.repeat(times));
        } else if o.long_descriptions && s.chance(1, 6) {
            let extra = s.range(60, 140);
            while description.len() < extra {
                description.push_str(&tg.text(s, 40));
                description.push(if s.chance(3, 4) { ' ' } else { tg.char(s) });
            }
        }
        if s.chance(1, 20) {
            description.insert(0, ' ');
        }
        let mut title = tg.text(s, if scale == Scale::Text { 300 } else { text });
        if !out.is_empty() && s.chance(1, 12) {
            // Equal or nearly equal titles.
            title = s.pick(&out).title.clone();
            if s.chance(1, 2) {
                title = twin(s, &title);
            }
        }
        let vendor = if scale == Scale::Vendors { vendors[i].clone() } else { s.pick(&vendors).clone() };
        let (mut ptags, mut options, mut media) = (Vec::new(), Vec::new(), Vec::new());
        if o.extras && !out.is_empty() && s.chance(1, 8) {
            // Like another product but for one thing.
            let like = s.pick(&out).clone();
            (ptags, options) = (like.tags, like.options);
            match s.below(4) {
                0 => {
                    if !ptags.is_empty() {
                        let i = s.below(ptags.len());
                        ptags.remove(i);
                    }
                }
                1 => ptags.push(s.pick(&tags).clone()),
                2 => {
                    if !options.is_empty() {
                        let i = s.below(options.len());
                        let k = s.below(options[i].1.len() + 1);
                        options[i].1.truncate(k);
                    }
                }
                _ => options.push((s.pick(&groups).clone(), vec![s.pick(&values).clone()])),
            }
        } else if o.extras {
            let k = if scale == Scale::Tags { s.range(0, each) } else if s.chance(1, 20) { s.range(6, 14) } else { s.weighted(&[2, 4, 4, 2, 1]) };
            for _ in 0..k {
                ptags.push(s.pick(&tags).clone());
            }
            if !ptags.is_empty() && s.chance(1, 12) {
                let t = s.pick(&ptags).clone();
                ptags.push(t);
            }
            let k = if scale == Scale::Groups { s.range(0, each) } else { s.weighted(&[3, 5, 3, 1]) };
            for _ in 0..k {
                let g = s.pick(&groups).clone();
                let k = if scale == Scale::Options { s.range(0, each) } else { s.weighted(&[1, 4, 4, 2]) };
                options.push((g, (0..k).map(|_| s.pick(&values).clone()).collect()));
            }
        }
        if o.extras {
            for m in 0..s.weighted(&[8, 24, 8, 1, 1]) {
                media.push(match s.below(24) {
                    0 | 1 => "https://cdn/shared.png".to_string(),
                    2 => String::new(),
                    3 => format!("https://cdn/{i}/{m}.png?v={}", "x".repeat(s.range(0, 200))),
                    4 => twin(s, "https://cdn/shared.png"),
                    _ => format!("https://cdn/{i}/{m}.png"),
                });
            }
        }
        let mut id = match id_form {
            0 => format!("gid://shopify/Product/{}", 6_837_964_669_113u64 + i as u64),
            1 => format!("p{i}"),
            2 => format!("{i}"),
            // The same number under several prefixes.
            3 => format!("{}/{}", ['A', 'B', 'a', 'æ'][i % 4], i / 4),
            // No number.
            4 => (0..=i / 4).map(|_| 'x').chain([['a', 'b', ' ', '漢'][i % 4]]).collect(),
            // The same number with leading zeros.
            5 => format!("{}{}", "0".repeat(i % 5), 1 + i / 5),
            _ => {
                let base = if out.is_empty() || s.chance(1, 2) { format!("id {i}") } else { s.pick(&out).id.clone() };
                twin(s, &base)
            }
        };
        if scale == Scale::Names && s.chance(1, 2) {
            id = long_name(s, &id);
        }
        while !ids.insert(id.clone()) {
            id = format!("{id}#{i}");
        }
        out.push(Prod { description, title, vendor, id, tags: ptags, options, price: price(s), media });
    }
    if out.len() > 1 && s.chance(1, 6) {
        // Neighbouring prices.
        let (i, j) = (s.below(out.len()), s.below(out.len()));
        let near = f32::from_bits(out[j].price_f32().to_bits().wrapping_add(1));
        if near.is_finite() {
            out[i].price = format!("{near:?}");
        }
    }
    (out, tg)
}

/// Now and then, products that share an id.
pub fn share_ids(s: &mut Src, c: &mut [Prod]) -> bool {
    if c.len() < 2 || !s.chance(1, 10) {
        return false;
    }
    for _ in 0..s.range(1, 3) {
        let i = s.below(c.len() - 1);
        // Often next to each other.
        let j = if s.chance(1, 2) { i + 1 } else { s.below(c.len()) };
        c[j].id = c[i].id.clone();
    }
    true
}

/// Hundreds of different characters, often with the same one before each.
fn wide_text(s: &mut Src) -> String {
    let first = *s.pick(&[0x4e00, 0x0400, 0x0250, 0x1_0000, 0x2_0000, 0xac00]);
    let span = s.range(50, 700);
    let anchor = match s.below(4) {
        0 => String::new(),
        1 => "ab".to_string(),
        _ => "a".to_string(),
    };
    let order = s.permutation(span);
    let mut out = String::new();
    for i in order.into_iter().take(400) {
        out.push_str(&anchor);
        out.extend(char::from_u32(first + i as u32));
    }
    out
}

/// A text of hundreds or thousands of bytes that ends like another.
fn long_name(s: &mut Src, t: &str) -> String {
    let piece = *s.pick(&["x", "lang ", "ære", "👽", "a b c ", "漢"]);
    let bytes = if s.chance(1, 60) { 65_530 } else { *s.pick(&[100, 127, 128, 255, 256, 300, 1000, 4096, 16_384]) } + s.below(20);
    format!("{}{t}", piece.repeat(bytes / piece.len()))
}

/// A text that is easily mistaken for another.
pub fn twin(s: &mut Src, t: &str) -> String {
    match s.below(9) {
        0 => format!("{t} "),
        1 => format!(" {t}"),
        2 => t.to_uppercase(),
        3 => t.to_lowercase(),
        4 => format!("{t}\u{301}"),
        5 => t.chars().take(t.chars().count().saturating_sub(1)).collect(),
        6 => format!("{t}x"),
        7 => t.chars().rev().collect(),
        _ => format!("{t}\u{200b}"),
    }
}

/// A query drawn from the catalogue: pieces of texts, with or without edits, or unrelated text.
pub fn query(s: &mut Src, c: &[Prod], tg: &TextGen, max_pieces: usize) -> String {
    let mut out: Vec<char> = Vec::new();
    let long = s.chance(1, 40);
    let pieces = if long { s.range(10, 24) } else { s.range(1, max_pieces) };
    for k in 0..pieces {
        if k > 0 && s.chance(2, 3) {
            out.push(' ');
        }
        match s.weighted(&[6, 3, 1]) {
            0 | 1 if c.is_empty() => out.extend(tg.text(s, 10).chars()),
            m @ (0 | 1) => {
                let p = s.pick(c);
                let field = match s.below(4) {
                    0 => p.title.clone(),
                    1 => p.description.clone(),
                    2 => p.vendor.clone(),
                    _ => p.text().into_iter().collect(),
                };
                let chars: Vec<char> = field.chars().collect();
                let start = s.below(chars.len() + 1);
                let len = s.range(0, 14);
                let mut piece: Vec<char> = chars[start..].iter().take(len).copied().collect();
                if m == 1 {
                    for _ in 0..s.range(1, 2) {
                        let fill = [tg.char(s), 'x'];
                        edit_chars(s, &mut piece, &fill);
                    }
                }
                out.extend(piece);
            }
            _ => out.extend(tg.text(s, 10).chars()),
        }
    }
    out.into_iter().collect()
}

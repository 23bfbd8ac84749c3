//! Reference model of the index, computed from the catalogue texts alone.
use std::collections::{BTreeMap, HashMap};

use crate::gen::Prod;

pub struct Model {
    pub n: usize,
    pub texts: Vec<Vec<char>>,
    /// Occurrences of every character sequence of length 1..=n.
    pub count: HashMap<Vec<char>, u32>,
    pub children: HashMap<Vec<char>, Vec<char>>,
    pub total: u64,
    /// For every n-gram: occurrences per product position.
    pub postings: BTreeMap<Vec<char>, BTreeMap<usize, u32>>,
}

#[derive(Clone, Debug)]
pub struct Candidate {
    pub gram: Vec<char>,
    pub weight: f64,
}

impl Model {
    pub fn new(products: &[Prod], n: usize) -> Model {
        let texts: Vec<Vec<char>> = products.iter().map(Prod::text).collect();
        let mut count: HashMap<Vec<char>, u32> = HashMap::new();
        let mut postings: BTreeMap<Vec<char>, BTreeMap<usize, u32>> = BTreeMap::new();
        let mut total = 0;
        for (p, t) in texts.iter().enumerate() {
            total += t.len() as u64;
            for i in 0..t.len() {
                for l in 1..=n.min(t.len() - i) {
                    *count.entry(t[i..i + l].to_vec()).or_insert(0) += 1;
                }
                if i + n <= t.len() {
                    *postings.entry(t[i..i + n].to_vec()).or_default().entry(p).or_insert(0) += 1;
                }
            }
        }
        let mut children: HashMap<Vec<char>, Vec<char>> = HashMap::new();
        for seq in count.keys() {
            children.entry(seq[..seq.len() - 1].to_vec()).or_default().push(seq[seq.len() - 1]);
        }
        for c in children.values_mut() {
            c.sort_unstable();
        }
        Model { n, texts, count, children, total, postings }
    }

    /// Fewer distinct products than 80% of the catalogue, rounded down.
    pub fn limit(&self) -> usize {
        self.texts.len() * 4 / 5
    }
    pub fn kept(&self, gram: &[char]) -> bool {
        self.postings.get(gram).map_or(false, |p| p.len() < self.limit())
    }
    /// Conditional frequency of the last character of `seq`.
    pub fn weight(&self, seq: &[char]) -> f64 {
        let c = f64::from(self.count[seq]);
        if seq.len() == 1 {
            c / self.total as f64
        } else {
            c / f64::from(self.count[&seq[..seq.len() - 1]])
        }
    }
    fn has(&self, seq: &[char]) -> bool {
        self.count.contains_key(seq)
    }
    /// Confidence of the n-gram itself, without corrections: product of frequencies after the first character.
    pub fn exact_confidence(&self, gram: &[char]) -> Option<f64> {
        if gram.is_empty() || !self.has(gram) {
            return None;
        }
        Some((2..=gram.len()).map(|l| self.weight(&gram[..l])).product())
    }

    /// Every resolution of `query` within the budget of `n / 3` corrections.
    pub fn candidates(&self, query: &[char]) -> Vec<Candidate> {
        let mut out = Vec::new();
        if query.len() == self.n && self.n > 0 && self.has(&query[..1]) {
            let budget = self.n / 3;
            self.expand(&query[1..], query[..1].to_vec(), false, 0, budget, 1.0, &mut out);
        }
        out
    }

    fn expand(&self, input: &[char], path: Vec<char>, may_drop: bool, changes: usize, budget: usize, weight: f64, out: &mut Vec<Candidate>) {
        if path.len() == self.n {
            out.push(Candidate { gram: path, weight });
            return;
        }
        let rest = if input.is_empty() { input } else { &input[1..] };
        let kids: &[char] = self.children.get(&path).map_or(&[], |v| &v[..]);
        let typed = input.first().copied().filter(|c| kids.contains(c));
        let step = |c: char| {
            let mut p = path.clone();
            p.push(c);
            p
        };
        if let Some(c) = typed {
            let p = step(c);
            let w = weight * self.weight(&p);
            self.expand(rest, p, true, changes, budget, w, out);
        }
        if changes < budget {
            for &c in kids {
                if Some(c) == typed {
                    continue;
                }
                let p = step(c);
                let w = weight * self.weight(&p);
                // Replaced character, then inserted character (which uses up two changes).
                self.expand(rest, p.clone(), true, changes + 1, budget, w, out);
                self.expand(input, p, true, changes + 2, budget, w, out);
            }
            if may_drop && !input.is_empty() {
                // Dropped character: the next typed one takes the place of the last step.
                let mut p = path.clone();
                *p.last_mut().unwrap() = input[0];
                if self.has(&p) {
                    self.expand(rest, p, false, changes + 1, budget, weight, out);
                }
            }
        }
    }

    /// Distinct candidate n-grams whose best weight is within `tol` of the overall best.
    pub fn best(&self, query: &[char], tol: f64) -> (f64, Vec<Vec<char>>) {
        let mut by_gram: BTreeMap<Vec<char>, f64> = BTreeMap::new();
        for c in self.candidates(query) {
            let e = by_gram.entry(c.gram).or_insert(0.0);
            if c.weight > *e {
                *e = c.weight;
            }
        }
        let top = by_gram.values().fold(0.0f64, |a, b| a.max(*b));
        (top, by_gram.into_iter().filter(|(_, w)| *w >= top * (1.0 - tol)).map(|(g, _)| g).collect())
    }
}

/// The windows of length `n` of a text.
pub fn windows(text: &[char], n: usize) -> impl Iterator<Item = &[char]> {
    text.windows(n.max(1))
}

pub fn lower(s: &str) -> Vec<char> {
    s.chars().flat_map(char::to_lowercase).collect()
}

/// Minimum number of corrections (replace, insert, drop; first character fixed) that turn some
/// beginning of `typed` into `gram`.
pub fn corrections(typed: &[char], gram: &[char]) -> Option<usize> {
    if typed.is_empty() || gram.is_empty() || typed[0] != gram[0] {
        return None;
    }
    let (a, b) = (typed.len(), gram.len());
    let inf = usize::MAX / 2;
    let mut d = vec![vec![inf; b + 1]; a + 1];
    d[1][1] = 0;
    for i in 1..=a {
        for j in 1..=b {
            let mut best = d[i][j];
            if i > 1 && j > 1 {
                best = best.min(d[i - 1][j - 1] + usize::from(typed[i - 1] != gram[j - 1]));
            }
            if i > 1 {
                best = best.min(d[i - 1][j] + 1);
            }
            if j > 1 {
                best = best.min(d[i][j - 1] + 1);
            }
            d[i][j] = best;
        }
    }
    (1..=a).map(|i| d[i][b]).min().filter(|v| *v < inf)
}

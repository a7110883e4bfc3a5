//! Reference models: what the program should do, written from its
//! documentation and independent of its code.
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tok {
    Ext(u64),
    Str(Vec<u8>),
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{:?}", s),
        Err(_) => format!("{:?}", b),
    }
}

fn parse_tok(v: &Value) -> Result<Tok, String> {
    match v {
        Value::String(s) => Ok(Tok::Str(s.as_bytes().to_vec())),
        Value::Number(n) => n.as_u64().map(Tok::Ext).ok_or_else(|| "bad extension token".to_string()),
        Value::Array(a) => {
            let mut b = Vec::new();
            for x in a {
                match x.as_u64() {
                    Some(n) if n < 256 => b.push(n as u8),
                    _ => return Err("bad byte in token".into()),
                }
            }
            Ok(Tok::Str(b))
        }
        _ => Err("token of unknown kind".into()),
    }
}

#[derive(Clone, Debug)]
pub struct Ts {
    pub typ: String,
    pub processing: String,
    pub split: Option<bool>,
    pub tokens: Vec<Tok>,
    pub seqs: Vec<(Vec<u8>, Vec<Tok>)>,
    pub stats: Option<Value>,
}

impl Ts {
    pub fn parse(data: &[u8]) -> Result<Ts, String> {
        let v: Value = serde_json::from_slice(data).map_err(|e| format!("not valid JSON ({})", e))?;
        let o = v.as_object().ok_or("not a JSON object")?;
        let tokens = o.get("tokens").and_then(|t| t.as_array()).ok_or("no tokens")?.iter().map(parse_tok).collect::<Result<Vec<_>, _>>()?;
        let mut seqs = Vec::new();
        if let Some(s) = o.get("sequences") {
            for s in s.as_array().ok_or("sequences is not an array")? {
                let string = match parse_tok(&s["string"])? {
                    Tok::Str(b) => b,
                    _ => return Err("sequence string is a number".into()),
                };
                let toks = s["tokens"].as_array().ok_or("sequence without tokens")?.iter().map(parse_tok).collect::<Result<Vec<_>, _>>()?;
                seqs.push((string, toks));
            }
        }
        Ok(Ts {
            typ: o.get("type").and_then(|x| x.as_str()).unwrap_or("").to_string(),
            processing: o.get("processing").and_then(|x| x.as_str()).unwrap_or("").to_string(),
            split: o.get("split_paragraphs").and_then(|x| x.as_bool()),
            tokens,
            seqs,
            stats: o.get("stats").cloned(),
        })
    }

    /// The set itself, whatever the order it is listed in.
    pub fn canon(&self) -> (String, String, Option<bool>, Vec<Tok>, Vec<(Vec<u8>, Vec<Tok>)>) {
        let mut t = self.tokens.clone();
        t.sort();
        let mut s = self.seqs.clone();
        s.sort();
        (self.typ.clone(), self.processing.clone(), self.split, t, s)
    }

    /// Distinct tokens; every byte string has an encoding and every encoding
    /// decodes to exactly one string.
    pub fn check_wellformed(&self) -> Result<(), String> {
        let mut set = HashSet::new();
        for t in &self.tokens {
            if let Tok::Str(b) = t {
                if b.is_empty() {
                    return Err("empty token".into());
                }
            }
            if !set.insert(t.clone()) {
                return Err(format!("duplicate token {:?}", show_tok(t)));
            }
        }
        let mut codes: Vec<(Vec<Tok>, Vec<u8>)> = Vec::new();
        let mut covered = [false; 256];
        for t in &self.tokens {
            if let Tok::Str(b) = t {
                if b.len() == 1 {
                    covered[b[0] as usize] = true;
                }
                codes.push((vec![t.clone()], b.clone()));
            }
        }
        let mut strings = HashSet::new();
        for (s, ts) in &self.seqs {
            if s.is_empty() || ts.is_empty() {
                return Err("empty sequence".into());
            }
            if !strings.insert(s.clone()) {
                return Err(format!("two sequences for {}", show(s)));
            }
            for t in ts {
                if !set.contains(t) {
                    return Err(format!("the sequence for {} uses {} which is not in the set", show(s), show_tok(t)));
                }
            }
            if s.len() == 1 {
                covered[s[0] as usize] = true;
            }
            codes.push((ts.clone(), s.clone()));
        }
        if let Some(b) = covered.iter().position(|c| !c) {
            return Err(format!("byte {} has no encoding", b));
        }
        uniquely_decodable(&codes)
    }

    pub fn codes(&self) -> HashMap<Vec<u8>, u64> {
        let mut m: HashMap<Vec<u8>, u64> = HashMap::new();
        let mut put = |s: &Vec<u8>, c: u64| {
            let e = m.entry(s.clone()).or_insert(c);
            if c < *e {
                *e = c;
            }
        };
        for t in &self.tokens {
            if let Tok::Str(b) = t {
                put(b, 1);
            }
        }
        for (s, t) in &self.seqs {
            put(s, t.len() as u64);
        }
        m
    }
}

pub fn show_tok(t: &Tok) -> String {
    match t {
        Tok::Ext(n) => format!("{}", n),
        Tok::Str(b) => show(b),
    }
}

/// Sardinas-Patterson: can two different sequences of code words be the same
/// sequence of tokens?
fn uniquely_decodable(codes: &[(Vec<Tok>, Vec<u8>)]) -> Result<(), String> {
    let mut ids: HashMap<&Tok, u32> = HashMap::new();
    let mut words: HashMap<Vec<u32>, &Vec<u8>> = HashMap::new();
    for (c, s) in codes {
        let w: Vec<u32> = c
            .iter()
            .map(|t| {
                let n = ids.len() as u32;
                *ids.entry(t).or_insert(n)
            })
            .collect();
        if let Some(o) = words.insert(w, s) {
            return Err(format!("{} and {} have the same encoding", show(o), show(s)));
        }
    }
    let maxlen = words.keys().map(|w| w.len()).max().unwrap_or(0);
    // words by first token, to find extensions quickly
    let mut by_first: HashMap<u32, Vec<&Vec<u32>>> = HashMap::new();
    for w in words.keys() {
        by_first.entry(w[0]).or_default().push(w);
    }
    let mut todo: Vec<Vec<u32>> = Vec::new();
    let mut seen: HashSet<Vec<u32>> = HashSet::new();
    for w in words.keys() {
        for l in 1..w.len() {
            if words.contains_key(&w[..l]) {
                let d = w[l..].to_vec();
                if seen.insert(d.clone()) {
                    todo.push(d);
                }
            }
        }
    }
    while let Some(d) = todo.pop() {
        if let Some(s) = words.get(&d) {
            return Err(format!("the encoding is ambiguous (at {})", show(s)));
        }
        for l in 1..d.len().min(maxlen + 1) {
            if words.contains_key(&d[..l]) {
                let r = d[l..].to_vec();
                if seen.insert(r.clone()) {
                    todo.push(r);
                }
            }
        }
        if let Some(ws) = by_first.get(&d[0]) {
            for w in ws {
                if w.len() > d.len() && w[..d.len()] == d[..] {
                    let r = w[d.len()..].to_vec();
                    if seen.insert(r.clone()) {
                        todo.push(r);
                    }
                }
            }
        }
    }
    Ok(())
}

/// Smallest number of tokens for the text.
pub struct Costs {
    trie: Vec<[u32; 256]>,
    cost: Vec<u64>,
}

impl Costs {
    pub fn new(ts: &Ts) -> Self {
        let mut c = Costs { trie: vec![[0; 256]], cost: vec![0] };
        for (s, k) in ts.codes() {
            let mut n = 0usize;
            for &b in &s {
                if c.trie[n][b as usize] == 0 {
                    c.trie.push([0; 256]);
                    c.cost.push(0);
                    let id = c.trie.len() as u32 - 1;
                    c.trie[n][b as usize] = id;
                }
                n = c.trie[n][b as usize] as usize;
            }
            c.cost[n] = k;
        }
        c
    }
    pub fn min_tokens(&self, text: &[u8]) -> Option<u64> {
        const INF: u64 = u64::MAX;
        let mut best = vec![INF; text.len() + 1];
        best[0] = 0;
        for i in 0..text.len() {
            if best[i] == INF {
                continue;
            }
            let mut n = 0usize;
            for j in i..text.len() {
                n = self.trie[n][text[j] as usize] as usize;
                if n == 0 {
                    break;
                }
                if self.cost[n] > 0 {
                    let c = best[i] + self.cost[n];
                    if c < best[j + 1] {
                        best[j + 1] = c;
                    }
                }
            }
        }
        (best[text.len()] != INF).then(|| best[text.len()])
    }
}

/// Whether two neighbouring tokens can be joined in every tokenization of the
/// text into as few tokens as possible.
pub fn always_joinable(ts: &Ts, text: &[u8]) -> bool {
    let codes = ts.codes();
    let longest = codes.keys().map(|s| s.len()).max().unwrap_or(0);
    let own: HashMap<&[u8], usize> = ts.tokens.iter().enumerate().filter_map(|(i, t)| if let Tok::Str(s) = t { Some((s.as_slice(), i)) } else { None }).collect();
    let str_of = |i: usize| if let Tok::Str(s) = &ts.tokens[i] { s.as_slice() } else { &[] };
    let valid = |a: usize, b: usize| {
        let s = [str_of(a), str_of(b)].concat();
        !s.windows(3).any(|w| w[0] == 10 && w[1] == 10 && w[2] != 10)
    };
    const NONE: usize = usize::MAX;
    // for every position: the fewest tokens, and the last tokens of the
    // tokenizations that need no more and have no two neighbours to join
    let mut best: Vec<u64> = vec![u64::MAX; text.len() + 1];
    let mut last: Vec<Vec<usize>> = vec![Vec::new(); text.len() + 1];
    best[0] = 0;
    last[0].push(NONE);
    let mut joins: HashMap<(usize, usize), bool> = HashMap::new();
    for j in 1..=text.len() {
        let from = j.saturating_sub(longest);
        let cost = |i: usize| codes.get(&text[i..j]).filter(|_| best[i] != u64::MAX).map(|c| best[i] + c);
        let b = match (from..j).filter_map(cost).min() {
            Some(b) => b,
            None => continue,
        };
        let mut ends = Vec::new();
        for i in (from..j).filter(|&i| cost(i) == Some(b)) {
            let t = own.get(&text[i..j]).copied().unwrap_or(NONE);
            if last[i].iter().any(|&p| p == NONE || t == NONE || !*joins.entry((p, t)).or_insert_with(|| valid(p, t))) && !ends.contains(&t) {
                ends.push(t);
            }
        }
        best[j] = b;
        last[j] = ends;
    }
    best[text.len()] != u64::MAX && last[text.len()].is_empty()
}

fn is_cont(b: u8) -> bool {
    (128..192).contains(&b)
}

/// How a text may be cut into pieces of at most `size` bytes. A piece that is
/// not the last ends after its last blank line if it has one, else it does not
/// end inside a character. Two details are left open: whether a full piece
/// that happens to end the data counts as the last, and whether a line end
/// right at the start of a piece completes a blank line.
pub fn pieces(data: &[u8], size: usize) -> Vec<Vec<&[u8]>> {
    let mut out: Vec<Vec<&[u8]>> = Vec::new();
    for cut_full in [true, false] {
        for across in [true, false] {
            let mut v = Vec::new();
            let mut pos = 0;
            while pos < data.len() {
                let mut end = (pos + size).min(data.len());
                let full = end - pos == size;
                if end < data.len() || (full && cut_full) {
                    while end < data.len() && end > pos && is_cont(data[end]) {
                        end -= 1;
                    }
                    let lo = if across && pos > 0 { pos + 1 } else { pos + 2 };
                    let mut e = end;
                    while e >= lo && !(data[e - 1] == 10 && data[e - 2] == 10) {
                        e -= 1;
                    }
                    if e >= lo {
                        end = e;
                    }
                }
                v.push(&data[pos..end]);
                pos = end;
            }
            if !out.contains(&v) {
                out.push(v);
            }
        }
    }
    out
}

/// Totals any of the allowed ways of cutting gives.
pub fn allowed_totals(ts: &Ts, data: &[u8], size: usize) -> BTreeSet<u64> {
    let c = Costs::new(ts);
    pieces(data, size)
        .iter()
        .map(|v| v.iter().map(|p| c.min_tokens(p).unwrap_or(u64::MAX / 1024)).sum())
        .collect()
}

// ---------------------------------------------------------------- processing

fn simple_upper(c: char) -> bool {
    c.is_uppercase() && c.to_lowercase().flat_map(char::to_uppercase).eq([c])
}

/// The documented form of a word.
fn word_form(w: &[char]) -> String {
    let s: String = w.iter().collect();
    let first = w[0];
    let reversible = w.iter().all(|c| !c.is_uppercase() || simple_upper(*c));
    if first.is_uppercase() && reversible {
        if w[1..].iter().all(|c| c.is_lowercase()) {
            return format!("\x14{}{}", first.to_lowercase(), w[1..].iter().collect::<String>());
        }
        if w.iter().all(|c| c.is_uppercase()) {
            return format!("\x15{}", s.to_lowercase());
        }
    }
    s
}

pub fn process_line(line: &str) -> String {
    let ch: Vec<char> = line.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < ch.len() {
        if ch[i].is_alphabetic() {
            let s = i;
            while i < ch.len() && ch[i].is_alphabetic() {
                i += 1;
            }
            out += &word_form(&ch[s..i]);
            out.push('\x16');
            if i + 1 < ch.len() && ch[i] == ' ' && ch[i + 1].is_alphabetic() {
                i += 1;
            }
        } else {
            out.push(ch[i]);
            i += 1;
        }
    }
    out
}

/// Output of the process command for a text with Unix line ends.
pub fn process(text: &str) -> String {
    let mut out = String::new();
    if text.is_empty() {
        return out;
    }
    let body = text.strip_suffix('\n').unwrap_or(text);
    for l in body.split('\n') {
        out += &process_line(l);
        out.push('\n');
    }
    out
}

pub fn decode_processed(text: &str) -> String {
    let ch: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut caps = false;
    while i < ch.len() {
        match ch[i] {
            '\x14' => {
                i += 1;
                if i < ch.len() {
                    out.extend(ch[i].to_uppercase());
                }
            }
            '\x15' => caps = true,
            '\x16' => {
                caps = false;
                if i + 1 < ch.len() && (ch[i + 1].is_alphabetic() || ch[i + 1] == '\x14' || ch[i + 1] == '\x15') {
                    out.push(' ');
                }
            }
            c if caps => out.extend(c.to_uppercase()),
            c => out.push(c),
        }
        i += 1;
    }
    out
}

// ---------------------------------------------------------------- count-chars

pub fn char_lines(text: &str) -> (u64, BTreeMap<String, u64>, Option<char>) {
    let mut m = BTreeMap::new();
    let mut total = 0;
    let mut max = None;
    for c in text.chars() {
        total += 1;
        if (c as u32) < 256 {
            *m.entry(format!("{:?}", c)).or_insert(0) += 1;
        }
        if max.is_none() || max.unwrap() < c {
            max = Some(c);
        }
    }
    (total, m, max)
}

// ---------------------------------------------------------------- paragraphs

/// A paragraph is text with all the line ends that follow it.
pub fn paragraphs(data: &[u8]) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut s = 0;
    for i in 2..data.len() {
        if data[i - 1] == 10 && data[i - 2] == 10 && data[i] != 10 {
            v.push(&data[s..i]);
            s = i;
        }
    }
    if s < data.len() {
        v.push(&data[s..]);
    }
    v
}

/// A token reaches across a paragraph boundary if text follows a blank line in it.
pub fn crosses_paragraph(tok: &[u8]) -> bool {
    tok.windows(3).any(|w| w[0] == 10 && w[1] == 10 && w[2] != 10)
}

//! Generation of texts and token sets.
use crate::model::Tok;
use crate::rng::Rng;
use serde_json::{json, Value};

const ASCII: &[&str] = &[
    "the", "and", "of", "to", "in", "that", "with", "was", "her", "his", "on", "at", "by", "not", "this", "are", "or", "from", "one", "have", "banana", "token", "letter", "tokenization", "a", "i", "ab", "aba", "abab", "ss", "mississippi",
];
const UNI: &[&str] = &["слово", "дом", "и", "привет", "ёж", "λόγος", "τις", "σας", "naïve", "über", "straße", "日本", "語", "の", "ﬁn", "é", "ǆungla", "ა", "𐐨𐐩", "ñandú", "ω", "k"];
const ODD: &[&str] = &["İstanbul", "Kelvin", "Ångstrom", "ẞ", "ϴ", "ΑΣ", "ΌΣΟΣ", "ǅ", "Ⓐ", "𝐀", "ŉ", "ʼn", "ΐ", "µ", "ſ", "ª", "ᏣᎳᎩ", "Ꭰ", "ﬀ", "Ω", "İ", "A\u{301}", "i\u{307}", "ა", "Ა"];
const PUNCT: &[&str] = &[",", ".", "!", "?", ";", ":", "-", "'", "\"", "(", ")", "1", "23", "42", "0", "_", "#", "\t", "…", "—", "😀", "\u{301}", "\u{0}", "~", "\u{a0}", "\u{7f}", "\u{85}", "\u{2028}", "ÿ", "Ā"];

fn caps(w: &str, r: &mut Rng) -> String {
    match r.below(10) {
        0 | 1 => {
            let mut c = w.chars();
            match c.next() {
                Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
                None => String::new(),
            }
        }
        2 => w.to_uppercase(),
        3 => w.chars().map(|c| if r.chance(1, 2) { c.to_uppercase().next().unwrap() } else { c }).collect(),
        _ => w.to_string(),
    }
}

/// Text in many shapes; without carriage returns and marker characters.
pub fn text(r: &mut Rng, size: usize) -> String {
    let uni = *r.pick(&[0u64, 0, 1, 3, 8]);
    let odd = *r.pick(&[0u64, 0, 0, 1, 4]);
    let cap = *r.pick(&[0u64, 2, 5, 10]);
    let punct = *r.pick(&[0u64, 1, 3, 6]);
    let para = *r.pick(&[0u64, 5, 20, 60]);
    let vocab = *r.pick(&[3usize, 8, 20, 31]);
    let spaces = *r.pick(&[0u64, 1, 3]);
    let mut s = String::new();
    while s.len() < size {
        let w = if r.below(12) < odd {
            r.pick(ODD).to_string()
        } else if r.below(12) < uni {
            r.pick(UNI).to_string()
        } else {
            let k = (r.below(vocab as u64) * r.below(vocab as u64 + 1) / vocab as u64) as usize;
            ASCII[k.min(ASCII.len() - 1)].to_string()
        };
        if r.below(12) < cap {
            s += &caps(&w, r);
        } else {
            s += &w;
        }
        if r.below(12) < punct {
            s += r.pick(PUNCT);
        }
        match r.below(100) {
            x if x < para => {
                for _ in 0..*r.pick(&[1usize, 1, 2, 2, 2, 3, 4]) {
                    s.push('\n')
                }
            }
            _ => match r.below(10) {
                x if x < spaces => {
                    for _ in 0..r.range(0, 3) {
                        s.push(' ')
                    }
                }
                _ => s.push(' '),
            },
        }
    }
    truncate(&mut s, size);
    match r.below(6) {
        0 => s.push('\n'),
        1 => s += "\n\n",
        _ => {}
    }
    s
}

/// Characters that text files contain now and then, and that some step may treat specially:
/// carriage returns, the markers of processed text, byte order marks, characters escaped in JSON.
const SPICE: &[&str] = &["\r", "\r\n", "\r\n\r\n", "\u{14}", "\u{15}", "\u{16}", "\u{16} ", "\u{feff}", "\\", "\\n", "\"", "/", "\u{1}", "\u{1b}", "\u{8}", "\u{fffd}", "\u{10ffff}", "\u{2029}", "{}", "\u{d7ff}\u{e000}"];

pub fn spice(r: &mut Rng, s: String) -> String {
    if !r.chance(1, 3) {
        return s;
    }
    let few: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(SPICE)).collect();
    let mut o = String::new();
    if r.chance(1, 3) {
        o += r.pick(&few);
    }
    let every = r.range(3, 60);
    for c in s.chars() {
        o.push(c);
        if r.below(every) == 0 {
            o += r.pick(&few);
        }
    }
    o
}

pub fn truncate(s: &mut String, mut n: usize) {
    if n >= s.len() {
        return;
    }
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s.truncate(n);
}

/// Text that an optimizer finds structure in: few distinct words, many repeats.
pub fn corpus(r: &mut Rng, size: usize) -> String {
    if r.chance(1, 3) {
        return text(r, size);
    }
    let nw = r.range(4, 26) as usize;
    let mut words: Vec<String> = Vec::new();
    for _ in 0..nw {
        words.push(match r.below(8) {
            0 => r.pick(UNI).to_string(),
            1 => {
                let l = r.range(1, 6);
                (0..l).map(|_| (b'a' + r.below(3) as u8) as char).collect()
            }
            2 => "\n\n".to_string(),
            _ => {
                let w = *r.pick(ASCII);
                caps(w, r)
            }
        });
    }
    let para = r.below(12);
    let mut s = String::new();
    while s.len() < size {
        let w = words[(r.below(nw as u64) * r.below(nw as u64) / nw as u64) as usize].clone();
        s += &w;
        if r.below(100) < para {
            s += if r.chance(1, 3) { "\n" } else { "\n\n" };
        } else if r.chance(5, 6) {
            s.push(' ');
        }
    }
    truncate(&mut s, size);
    s
}

/// Very regular text: ties and identical paragraphs.
pub fn periodic(r: &mut Rng, size: usize) -> String {
    let l = r.range(1, 9);
    let alpha = ["a", "b", "c", " ", "\n", "é", "x\n\n", "Я"];
    let unit: String = (0..l).map(|_| *r.pick(&alpha)).collect();
    let mut s = unit.repeat(size / unit.len() + 1);
    truncate(&mut s, size);
    s
}

pub fn any(r: &mut Rng, size: usize) -> String {
    match r.below(8) {
        0 => periodic(r, size),
        1..=3 => text(r, size),
        _ => corpus(r, size),
    }
}

/// Text to optimize for: very regular text makes very long tokens, which take long to handle.
pub fn learnable(r: &mut Rng, size: usize) -> String {
    match r.below(16) {
        0 => periodic(r, size.min(90)),
        1..=5 => text(r, size),
        _ => corpus(r, size),
    }
}

fn jtok(t: &Tok) -> Value {
    match t {
        Tok::Ext(n) => json!(n),
        Tok::Str(b) => jbytes(b),
    }
}
pub fn jbytes(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) => json!(s),
        Err(_) => json!(b),
    }
}

/// A random valid token set of the given type, with multi-byte tokens taken
/// from the data (so that they matter), some of them across blank lines.
pub fn tokenset(r: &mut Rng, typ: &str, processing: &str, data: &[u8], nlong: usize) -> Vec<u8> {
    let mut tokens: Vec<Tok> = Vec::new();
    let mut seqs: Vec<(Vec<u8>, Vec<Tok>)> = Vec::new();
    let mut present = vec![false; 256];
    for &b in data {
        present[b as usize] = true;
    }
    let (next, digits) = match typ {
        "bits1" => (2, 8),
        "bits2" => (4, 4),
        "bits4" => (16, 2),
        "bytes" => (0, 0),
        _ => (r.range(2, 10), 0),
    };
    for e in 0..next {
        tokens.push(Tok::Ext(e));
    }
    let mut bytes: Vec<u8> = (0..=255).collect();
    // present bytes first
    bytes.sort_by_key(|b| (!present[*b as usize], *b));
    for i in 0..bytes.len() {
        let j = i + r.below(((bytes.len() - i) as u64).min(8)) as usize;
        bytes.swap(i, j);
    }
    let nb = match typ {
        "bytes" => 256,
        "byteshuff" => r.range(1, 40) as usize,
        _ => r.below(30) as usize,
    };
    let mut own = bytes[..nb].to_vec();
    own.sort();
    for &b in &own {
        tokens.push(Tok::Str(vec![b]));
    }
    let is_own = |b: u8| own.contains(&b);
    match typ {
        "bytes" => {}
        "byteshuff" => {
            // codes: own byte followed by a non-empty string of extension tokens
            let mut k = 0u64;
            for b in 0..=255u8 {
                if is_own(b) {
                    continue;
                }
                let lead = Tok::Str(vec![own[(k % own.len() as u64) as usize]]);
                let mut x = k / own.len() as u64;
                let mut code = vec![lead];
                loop {
                    code.push(Tok::Ext(x % next));
                    if x < next {
                        break;
                    }
                    x = x / next - 1;
                }
                seqs.push((vec![b], code));
                k += 1;
            }
        }
        _ => {
            for b in 0..=255u8 {
                if is_own(b) {
                    continue;
                }
                let mut code = Vec::new();
                let mut x = b as u64;
                for _ in 0..digits {
                    code.push(Tok::Ext(x % next));
                    x /= next;
                }
                code.reverse();
                seqs.push((vec![b], code));
            }
        }
    }
    let mut tries = 0;
    let mut long = 0;
    let mut last: Option<(usize, usize)> = None;
    while long < nlong && tries < nlong * 8 && data.len() > 2 {
        tries += 1;
        let mut l = match r.below(16) { 0 if nlong < 30 && r.chance(1, 14) => r.range(250, 300), 0 => r.logu(2, 150), 1 | 2 => r.range(8, 30), _ => r.range(2, 7) }.min(data.len() as u64) as usize;
        let mut p = r.below((data.len() - l + 1) as u64) as usize;
        if let (true, Some((q, m))) = (r.chance(1, 4), last) {
            // a token that shares a part with the one before
            match r.below(4) {
                0 => { p = q; l = (m + r.range(1, 30) as usize).min(data.len() - p) }
                1 => { let k = r.range(1, 30).min(q as u64) as usize; p = q - k; l = m + k }
                2 if m > 2 => { l = r.range(2, m as u64 - 1) as usize; p = q + m - l }
                _ if m > 2 => { l = r.range(2, m as u64 - 1) as usize; p = q }
                _ => {}
            }
        }
        if r.chance(1, 3) && l < 8 {
            if let Some(q) = (0..data.len() - l).map(|i| (i + p) % (data.len() - l)).find(|&i| data[i..i + l].windows(2).any(|w| w == b"\n\n")) {
                p = q;
            }
        }
        let t = Tok::Str(data[p..p + l].to_vec());
        if !tokens.contains(&t) {
            tokens.push(t);
            last = Some((p, l));
            long += 1;
        }
    }
    if nlong > 0 && r.chance(1, 6) {
        // bytes that no text has together
        for _ in 0..r.range(1, 4) {
            let k = r.range(2, 6);
            let b: Vec<u8> = (0..k).map(|_| match r.below(4) { 0 => 0, 1 => *r.pick(&[1u8, 10, 20, 34, 92, 127, 128, 195, 255]), _ => r.below(256) as u8 }).collect();
            if !tokens.contains(&Tok::Str(b.clone())) {
                tokens.push(Tok::Str(b));
            }
        }
    }
    if r.chance(1, 2) {
        let ne = next as usize;
        tokens[ne..].sort();
        seqs.sort();
    }
    let mut v = json!({
        "type": typ, "processing": processing, "split_paragraphs": r.chance(3, 4),
        "tokens": tokens.iter().map(jtok).collect::<Vec<_>>(),
    });
    if !seqs.is_empty() {
        v["sequences"] = json!(seqs.iter().map(|(s, c)| json!({"string": jbytes(s), "tokens": c.iter().map(jtok).collect::<Vec<_>>()})).collect::<Vec<_>>());
    }
    serde_json::to_vec(&v).unwrap()
}

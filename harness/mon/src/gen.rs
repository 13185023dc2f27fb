//! Workload generators: texts and valid token sets.
use crate::rng::Rng;
use crate::tset::{digits, TSet, TType, Tok};
use std::collections::{BTreeMap, HashSet};
use std::path::Path;

/// Natural language sample to cut slices from.
pub struct Corpus {
    pub text: String,
}

impl Corpus {
    pub fn load(repo: &Path) -> Corpus {
        let text = std::fs::read_to_string(repo.join("data/pride.txt")).unwrap_or_default().replace("\r\n", "\n");
        if text.len() > 10_000 {
            return Corpus { text };
        }
        // Made up prose.
        let words = [
            "the", "of", "and", "to", "Mr.", "Darcy", "a", "her", "it", "is", "universally", "acknowledged", "that",
            "single", "man", "in", "possession", "good", "fortune", "must", "be", "want", "wife", "Elizabeth",
            "\"What", "is\"", "Netherfield,", "Park", "LAST", "—", "however", "little", "known", "feelings",
        ];
        let mut r = Rng::new(7, "corpus", 0);
        let mut text = String::new();
        while text.len() < 400_000 {
            for _ in 0..r.range(3, 9) {
                for _ in 0..r.range(5, 12) {
                    text.push_str(words[r.below(words.len())]);
                    text.push(' ');
                }
                text.push('\n');
            }
            text.push('\n');
        }
        Corpus { text }
    }

    /// A slice of about n bytes.
    pub fn slice(&self, r: &mut Rng, n: usize) -> String {
        let n = n.min(self.text.len());
        let mut a = r.below(self.text.len() - n + 1);
        while !self.text.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = (a + n).min(self.text.len());
        while !self.text.is_char_boundary(b) {
            b -= 1;
        }
        self.text[a..b].to_string()
    }
}

pub const SPECIAL: &[char] = &[
    'é', 'É', 'ß', 'ẞ', 'İ', 'ı', 'ſ', 'ς', 'Σ', 'σ', 'ϴ', 'Ω', 'Å', 'K', 'ǅ', 'ǆ', 'Ǆ', 'ŉ', 'ǰ', 'ΐ', 'ŭ', 'Я', 'я', 'Ё',
    'Ж', '中', '文', '한', '글', 'あ', 'ア', 'א', 'ش', 'ก', 'ა', 'Ა', 'Ⴀ', 'Ꭰ', 'ꭰ', 'ᏸ', 'Ꮡ', 'Ⅷ', 'ⅷ', 'Ⓐ', 'ⓐ', 'ª', 'º', 'ﬁ', 'ﬀ',
    '𝐀', '𝐚', '𐐀', '𐐨', '𞤀', '𞤢', '😀', '🏳', '\u{301}', '\u{345}', '\u{200d}', '\u{a0}', '\u{3000}', '\u{2028}', '\u{85}',
    '\u{b}', '\u{c}', '\t', '\u{0}', '\u{1b}', '\u{7f}', '—', '’', '“', '0', '٣', '½', 'ᾳ', 'ᾼ', 'ᾈ', 'Ԑ', 'ԑ', 'Ɐ', 'ɐ',
    '\u{ad}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{10ffff}', '\u{e000}', '\u{d7ff}', '\u{2029}', '\u{7ff}', '\u{800}', '"', '\\',
];

/// Any char except surrogates; weighted to interesting planes.
pub fn any_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(9) {
            0 | 1 => r.below(0x80) as u32,
            2 => r.below(0x250) as u32,
            3 => 0x370 + r.below(0x200) as u32,
            4 => 0x1C80 + r.below(0x380) as u32,
            5 => 0x2100 + r.below(0x100) as u32,
            6 => r.below(0x10000) as u32,
            7 => 0x10000 + r.below(0x10000) as u32,
            _ => return *r.pick(SPECIAL),
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

fn letter(r: &mut Rng) -> char {
    loop {
        let c = match r.below(4) {
            0 => any_char(r),
            1 => *r.pick(SPECIAL),
            2 => (b'a' + r.below(26) as u8) as char,
            _ => (b'A' + r.below(26) as u8) as char,
        };
        if c.is_alphabetic() {
            return c;
        }
    }
}

/// A word of letters in some case pattern.
pub fn word(r: &mut Rng) -> String {
    let n = if r.chance(1, 60) { 1 + r.skewed(400) } else { 1 + r.skewed(7) };
    let exotic = r.chance(1, 3);
    let mut chars: Vec<char> = (0..n)
        .map(|_| if exotic { letter(r) } else { (b'a' + r.below(26) as u8) as char })
        .collect();
    match r.below(6) {
        0 | 1 => chars = chars.iter().flat_map(|c| c.to_lowercase()).collect(),
        2 => {
            let mut v: Vec<char> = chars[0].to_uppercase().collect();
            v.extend(chars[1..].iter().flat_map(|c| c.to_lowercase()));
            chars = v;
        }
        3 => chars = chars.iter().flat_map(|c| c.to_uppercase()).collect(),
        4 => {
            let k = r.below(chars.len());
            let mut v: Vec<char> = chars.iter().flat_map(|c| c.to_lowercase()).collect();
            let k = k.min(v.len() - 1);
            let u: Vec<char> = v[k].to_uppercase().collect();
            v.splice(k..k + 1, u);
            chars = v;
        }
        _ => {}
    }
    chars.into_iter().collect()
}

/// Prose with words in all case patterns and odd spacing.
pub fn wordy(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let seps: &[&str] = &[
        " ", " ", " ", " ", "  ", "   ", ", ", ". ", "-", "'", "\n", "\n\n", " \n", "\n ", "\t", "", ",", "\u{a0}", "1", " 1 ",
        " - ", "\n\n\n", "\u{301}", "\u{345}", "é", "_", "/", " (", ") ",
    ];
    while s.len() < max {
        s.push_str(&word(r));
        s.push_str(r.pick(seps));
        if r.chance(1, 12) {
            s.push(any_char(r));
        }
    }
    s
}

pub fn paragraphs(r: &mut Rng, max: usize, corpus: &Corpus) -> String {
    let mut s = String::new();
    while s.len() < max {
        match r.below(4) {
            0 => s.push_str(&word(r)),
            1 => {
                let n = r.range(1, 60);
                s.push_str(&corpus.slice(r, n).replace('\n', " "))
            }
            2 => s.push('a'),
            _ => {}
        }
        for _ in 0..*r.pick(&[0usize, 1, 1, 2, 2, 2, 3, 4, 5]) {
            s.push('\n');
        }
    }
    s
}

pub fn text(r: &mut Rng, max: usize, corpus: &Corpus) -> String {
    let n = r.skewed(max);
    let mut s = match r.below(10) {
        0 | 1 => {
            // tiny alphabet
            let pool = ['a', 'b', 'c', '\n', ' ', 'é', '中', '😀', 'A'];
            let k = r.range(1, 4);
            let al: Vec<char> = (0..k).map(|_| *r.pick(&pool)).collect();
            (0..n).map(|_| *r.pick(&al)).collect()
        }
        2 => {
            // periodic with noise
            let unit: String = (0..r.range(1, 5)).map(|_| *r.pick(&['a', 'b', '\n', 'é', ' '])).collect();
            let mut s = String::new();
            while s.len() < n {
                s.push_str(&unit);
                if r.chance(1, 15) {
                    s.push(*r.pick(&['x', 'a', '\n']));
                }
            }
            s
        }
        3 | 4 | 5 => corpus.slice(r, n),
        6 => wordy(r, n),
        7 => paragraphs(r, n, corpus),
        8 => (0..n / 2).map(|_| any_char(r)).collect(),
        _ => {
            let mut s = String::new();
            for _ in 0..3 {
                let a = corpus.slice(r, n / 6);
                s.push_str(&a);
                s.push_str(&wordy(r, n / 6));
            }
            s
        }
    };
    cut(&mut s, max);
    s
}

pub fn cut(s: &mut String, max: usize) {
    if s.len() > max {
        let mut k = max;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
}

/// A text for the processing stage: no marker characters and Unix line ends.
pub fn clean_for_processing(s: &str) -> String {
    s.chars().filter(|c| !matches!(*c, '\u{14}' | '\u{15}' | '\u{16}' | '\r')).collect()
}

fn substring(r: &mut Rng, t: &[u8], max: usize) -> Vec<u8> {
    if t.is_empty() {
        return vec![b'a'];
    }
    let l = 1 + r.below(max.min(t.len()));
    let a = r.below(t.len() - l + 1);
    t[a..a + l].to_vec()
}

/// Random long tokens (two bytes or more), related to the text and to each
/// other.
pub fn long_tokens(r: &mut Rng, text: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut set: HashSet<Vec<u8>> = HashSet::new();
    let mut out: Vec<Vec<u8>> = Vec::new();
    let mut tries = 0;
    // Stretches of the text between a few cut points: the shortest
    // tokenization of the place is a path that no greedy choice finds.
    let mut cuts: Vec<usize> = Vec::new();
    if text.len() > 8 && r.chance(1, 6) {
        let w = (if r.chance(1, 3) { r.range(40, 220) } else { r.range(6, 40) }).min(text.len());
        let a = r.below(text.len() - w + 1);
        let k = r.range(3, 7);
        cuts = (0..k).map(|_| a + r.below(w + 1)).collect();
        cuts.sort();
        cuts.dedup();
    }
    if text.len() > 12 && n > 3 && r.chance(1, 10) {
        // All endings of a stretch from some places on, and its beginning up
        // to one of the last of these places: a short ending is needed.
        let w = r.range(10, 60).min(text.len());
        let a = r.below(text.len() - w + 1);
        let mut at: Vec<usize> = (0..r.range(4, n.min(24))).map(|_| a + 1 + r.below(w - 1)).collect();
        at.sort();
        at.dedup();
        let last = at[at.len() - 1 - r.below(at.len().min(3))];
        out.push(text[a..last].to_vec());
        out.extend(at.iter().map(|&i| text[i..a + w].to_vec()));
        out.retain(|t| t.len() >= 2 && set.insert(t.clone()));
    }
    if text.len() > 500 && r.chance(1, 120) {
        // longer than a byte can count
        let w = r.range(250, 330);
        let a = r.below(text.len() - w + 1);
        if set.insert(text[a..a + w].to_vec()) {
            out.push(text[a..a + w].to_vec());
        }
    }
    while out.len() < n && tries < 20 * n + 20 {
        tries += 1;
        let lattice = cuts.len() >= 2 && r.chance(1, 2);
        let t: Vec<u8> = match if lattice { 10 } else { r.below(10) } {
            10 => {
                let i = r.below(cuts.len() - 1);
                let j = r.range(i + 1, cuts.len() - 1);
                text[cuts[i]..cuts[j]].to_vec()
            }
            0 | 1 | 2 => substring(r, text, 4),
            3 => substring(r, text, 12),
            4 => substring(r, text, 40),
            5 if !out.is_empty() => {
                // part of another token
                let o = r.pick(&out).clone();
                substring(r, &o, o.len())
            }
            6 if !out.is_empty() => {
                // overlap: suffix of one + prefix of another
                let a = r.pick(&out).clone();
                let b = r.pick(&out).clone();
                let i = r.below(a.len());
                let j = 1 + r.below(b.len());
                let mut v = a[i..].to_vec();
                v.extend_from_slice(&b[..j]);
                v
            }
            7 => {
                // repetition
                let u = substring(r, text, 3);
                let k = r.range(2, 9);
                u.iter().cycle().take(u.len() * k).cloned().collect()
            }
            8 if r.chance(1, 3) => {
                // unusual characters at the start, inside, or alone
                let k = r.range(1, 4);
                (0..k).map(|_| if r.chance(1, 2) { any_char(r) } else { *r.pick(SPECIAL) }).collect::<String>().into_bytes()
            }
            8 => {
                let k = r.range(2, 4);
                (0..k).map(|_| r.below(256) as u8).collect()
            }
            _ => {
                let a = substring(r, text, 3);
                let b = substring(r, text, 3);
                [a, b].concat()
            }
        };
        if t.len() >= 2 && t.len() <= 400 && set.insert(t.clone()) {
            out.push(t);
        }
    }
    out
}

/// A random decodable code for the 256 bytes in the style of the huff type.
fn random_huff(r: &mut Rng, text: &[u8], wild: bool) -> (usize, Vec<u8>, Vec<(Vec<u8>, Vec<Tok>)>) {
    let most = *r.pick(&[20usize, 100, 255]);
    let n_ext = if wild && r.chance(1, 8) { r.range(10, most) } else { r.range(2, 9) };
    // long codes
    let deep = if wild && r.chance(1, 8) { r.range(20, 250) } else { 0 };
    let n_top = match r.below(4) {
        0 => r.range(1, 4),
        1 => r.range(1, 20),
        2 => r.range(20, 120),
        _ => r.range(1, 255),
    };
    let mut bytes: Vec<u8> = (0..=255).collect();
    r.shuffle(&mut bytes);
    // Bytes of the text first, mostly.
    if r.chance(2, 3) {
        let h = crate::dp::byte_hist(text);
        bytes.sort_by_key(|b| std::cmp::Reverse(h.get(b).copied().unwrap_or(0)));
    }
    let tops: Vec<u8> = bytes[..n_top].to_vec();
    let mut words: Vec<Vec<Tok>> = tops.iter().map(|&b| vec![Tok::Str(vec![b])]).collect();
    let mut used: HashSet<Vec<Tok>> = HashSet::new();
    let mut seqs = Vec::new();
    for &b in &bytes[n_top..] {
        loop {
            let base = if deep > 0 && r.chance(9, 10) { words.last().unwrap() } else { r.pick(&words) };
            let mut w = base.clone();
            w.push(Tok::Ext(r.below(n_ext) as u8));
            if w.len() <= deep.max(12) && used.insert(w.clone()) {
                words.push(w.clone());
                seqs.push((vec![b], w));
                break;
            }
        }
    }
    (n_ext, tops, seqs)
}

pub struct SetOpts {
    pub max_long: usize,
    pub shuffle: bool,
    pub multi_seqs: bool,
}

/// A random valid token set with few single-byte tokens (except type bytes):
/// the optimizer takes very long to trade many of them for longer tokens.
pub fn small_set(r: &mut Rng, ttype: TType, processing: &str, text: &[u8], o: &SetOpts) -> TSet {
    let mut best: Option<TSet> = None;
    for _ in 0..12 {
        let s = token_set(r, ttype, processing, text, o);
        if ttype == TType::Bytes || s.tokens.len() < 56 {
            return s;
        }
        if best.as_ref().map_or(true, |b| b.tokens.len() > s.tokens.len()) {
            best = Some(s);
        }
    }
    best.unwrap()
}

/// The set with no tokens but those that encode bytes.
pub fn plain_set(ttype: TType, processing: &str) -> TSet {
    let (mut tokens, mut seqs) = (Vec::new(), Vec::new());
    match ttype.bits() {
        Some(bits) => {
            tokens.extend((0..1u16 << bits).map(|e| Tok::Ext(e as u8)));
            seqs.extend((0..=255u8).map(|b| (vec![b], digits(b, bits))));
        }
        None => tokens.extend((0..=255u8).map(|b| Tok::Str(vec![b]))),
    }
    TSet { ttype, processing: processing.to_string(), split: Some(true), tokens, seqs }
}

/// A bits set in which nearly every byte has its own token.
pub fn crowded_set(r: &mut Rng, ttype: TType, processing: &str) -> TSet {
    let bits = ttype.bits().unwrap();
    let mut tokens: Vec<Tok> = (0..1u16 << bits).map(|e| Tok::Ext(e as u8)).collect();
    let mut seqs = Vec::new();
    let left: HashSet<u8> = (0..r.below(4)).map(|_| r.below(256) as u8).collect();
    for b in 0..=255u8 {
        if left.contains(&b) {
            seqs.push((vec![b], digits(b, bits)));
        } else {
            tokens.push(Tok::Str(vec![b]));
        }
    }
    TSet { ttype, processing: processing.to_string(), split: Some(true), tokens, seqs }
}

/// A random valid token set for a text.
pub fn token_set(r: &mut Rng, ttype: TType, processing: &str, text: &[u8], o: &SetOpts) -> TSet {
    let nlong = r.skewed(o.max_long);
    let mut longs = long_tokens(r, text, nlong);
    let mut tokens: Vec<Tok> = Vec::new();
    let mut seqs: Vec<(Vec<u8>, Vec<Tok>)> = Vec::new();
    match ttype {
        TType::Bytes => tokens.extend((0..=255u8).map(|b| Tok::Str(vec![b]))),
        TType::Huff => {
            let (n_ext, tops, s) = random_huff(r, text, o.multi_seqs);
            tokens.extend((0..n_ext).map(|e| Tok::Ext(e as u8)));
            tokens.extend(tops.iter().map(|&b| Tok::Str(vec![b])));
            seqs = s;
        }
        t => {
            let bits = t.bits().unwrap();
            tokens.extend((0..1u16 << bits).map(|e| Tok::Ext(e as u8)));
            let p = *r.pick(&[0usize, 1, 4, 8, 15, 16]);
            let h = crate::dp::byte_hist(text);
            for b in 0..=255u8 {
                let lucky = if h.contains_key(&b) { r.below(16) < p } else { r.below(64) < p };
                if lucky {
                    tokens.push(Tok::Str(vec![b]));
                } else {
                    seqs.push((vec![b], digits(b, bits)));
                }
            }
        }
    }
    if o.multi_seqs && ttype == TType::Huff && !longs.is_empty() && r.chance(1, 3) {
        // Longer strings encoded by sequences: [token, ext...] with an unused
        // continuation.
        let used: HashSet<Vec<Tok>> = seqs.iter().map(|s| s.1.clone()).collect();
        let k = 1 + r.below(longs.len().min(8));
        for _ in 0..k {
            let mut s = match longs.pop() {
                Some(s) => s,
                None => break,
            };
            if r.chance(1, 2) {
                // the end of the string of a token
                let end = s[r.below(s.len() - 1)..].to_vec();
                if end.len() < s.len() && !longs.contains(&end) {
                    longs.insert(0, s);
                    s = end;
                }
            }
            if seqs.iter().any(|x| x.0 == s) {
                continue;
            }
            let n_ext = tokens.iter().filter(|t| matches!(t, Tok::Ext(_))).count();
            for _ in 0..20 {
                let strs: Vec<Tok> = tokens.iter().filter(|t| matches!(t, Tok::Str(_))).cloned().collect();
                let mut w = vec![r.pick(&strs).clone()];
                for _ in 0..r.range(1, 3) {
                    w.push(Tok::Ext(r.below(n_ext) as u8));
                }
                if !used.contains(&w) && !seqs.iter().any(|x| x.1 == w) {
                    seqs.push((s.clone(), w));
                    break;
                }
            }
        }
    }
    if o.multi_seqs && ttype == TType::Huff && r.chance(1, 4) {
        // A fallback token that stands for a byte (or a longer string) all by itself.
        for _ in 0..r.range(1, 3) {
            let n_ext = tokens.iter().filter(|t| matches!(t, Tok::Ext(_))).count();
            if n_ext > 200 {
                break;
            }
            let e = Tok::Ext(n_ext as u8);
            if !longs.is_empty() && r.chance(1, 3) {
                let s = longs.pop().unwrap();
                if seqs.iter().any(|x| x.0 == s) {
                    continue;
                }
                seqs.push((s, vec![e.clone()]));
            } else if !seqs.is_empty() {
                let k = r.below(seqs.len());
                seqs[k].1 = vec![e.clone()];
            } else {
                continue;
            }
            tokens.insert(n_ext, e);
        }
    }
    tokens.extend(longs.into_iter().map(Tok::Str));
    if o.shuffle {
        r.shuffle(&mut tokens);
        r.shuffle(&mut seqs);
    }
    let split = *r.pick(&[None, Some(true), Some(false)]);
    TSet { ttype, processing: processing.to_string(), split, tokens, seqs }
}

/// Gives a bits set byte encodings other than the usual digits (and sequences
/// for longer strings). Still a uniquely decodable code: the digits are only
/// handed round, and a token followed by a single digit is told from the
/// token alone by the number of digits up to the next token. True if anything
/// was changed.
pub fn odd_sequences(r: &mut Rng, set: &mut TSet, text: &[u8]) -> bool {
    if set.ttype.bits().is_none() || set.seqs.is_empty() {
        return false;
    }
    let mut changed = false;
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 40) {
            let (a, b) = (r.below(set.seqs.len()), r.below(set.seqs.len()));
            if a != b {
                let t = set.seqs[a].1.clone();
                set.seqs[a].1 = std::mem::replace(&mut set.seqs[b].1, t);
                changed = true;
            }
        }
    }
    let strs: Vec<Tok> = set.tokens.iter().filter(|t| matches!(t, Tok::Str(_))).cloned().collect();
    if !strs.is_empty() {
        let n = set.n_ext();
        let mut used: HashSet<Vec<Tok>> = HashSet::new();
        for _ in 0..r.range(0, 12) {
            let w = vec![r.pick(&strs).clone(), Tok::Ext(r.below(n) as u8)];
            if !used.insert(w.clone()) {
                continue;
            }
            if text.len() > 3 && r.chance(1, 2) {
                let s = substring(r, text, 6);
                if s.len() >= 2 && !set.strs().any(|x| *x == s) && !set.seqs.iter().any(|x| x.0 == s) {
                    set.seqs.push((s, w));
                    changed = true;
                }
            } else {
                let wanted = if text.is_empty() { None } else { Some(*r.pick(text)) };
                let k = match set.seqs.iter().position(|x| wanted.is_some() && x.0.len() == 1 && x.0[0] == wanted.unwrap()) {
                    Some(k) => k,
                    None => r.below(set.seqs.len()),
                };
                if set.seqs[k].0.len() == 1 {
                    set.seqs[k].1 = w;
                    changed = true;
                }
            }
        }
    }
    changed
}

/// A set with about n tokens, most of two or three bytes.
pub fn many_set(r: &mut Rng, ttype: TType, processing: &str, text: &[u8], n: usize, shuffle: bool) -> TSet {
    let o = SetOpts { max_long: 10, shuffle: false, multi_seqs: false };
    let mut set = token_set(r, ttype, processing, text, &o);
    let mut have: HashSet<Vec<u8>> = set.strs().cloned().collect();
    let mut tries = 0;
    while set.tokens.len() < n && tries < 30 * n {
        tries += 1;
        let t: Vec<u8> = match r.below(4) {
            0 | 1 => substring(r, text, 3),
            2 => (0..r.range(2, 3)).map(|_| b' ' + r.below(95) as u8).collect(),
            _ => (0..2).map(|_| *r.pick(text)).collect(),
        };
        if t.len() >= 2 && !set.seqs.iter().any(|s| s.0 == t) && have.insert(t.clone()) {
            set.tokens.push(Tok::Str(t));
        }
    }
    if shuffle {
        r.shuffle(&mut set.tokens);
        r.shuffle(&mut set.seqs);
    }
    set
}

/// A text with many occurrences of the set's tokens.
pub fn text_of_tokens(r: &mut Rng, set: &TSet, max: usize) -> String {
    let strs: Vec<&Vec<u8>> = set.strs().collect();
    let n = r.skewed(max);
    let mut v: Vec<u8> = Vec::new();
    while v.len() < n && !strs.is_empty() {
        let longs: Vec<&&Vec<u8>> = strs.iter().filter(|s| s.len() > 1).collect();
        let s: &Vec<u8> = if !longs.is_empty() && r.chance(4, 5) { longs[r.below(longs.len())] } else { strs[r.below(strs.len())] };
        // sometimes only a part
        if r.chance(1, 4) {
            let k = r.below(s.len() + 1);
            v.extend_from_slice(&s[..k]);
        } else {
            v.extend_from_slice(s);
        }
    }
    let mut s: String = v.utf8_chunks().map(|c| c.valid().to_string()).collect();
    cut(&mut s, max);
    s
}

pub fn describe(set: &TSet) -> String {
    let mut lens: BTreeMap<usize, usize> = BTreeMap::new();
    for s in set.strs() {
        *lens.entry(s.len()).or_insert(0) += 1;
    }
    format!(
        "{} ({} ext, {} sequences, token lengths {:?})",
        set.name(),
        set.n_ext(),
        set.seqs.len(),
        lens
    )
}

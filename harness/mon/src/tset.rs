//! Independent model of a token set file: parsing, writing, validity.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tok {
    Ext(u8),
    Str(Vec<u8>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TType {
    Bits1,
    Bits2,
    Bits4,
    Bytes,
    Huff,
}

pub const ALL_TYPES: [TType; 5] = [TType::Bits1, TType::Bits2, TType::Bits4, TType::Bytes, TType::Huff];

impl TType {
    pub fn json_name(self) -> &'static str {
        match self {
            TType::Bits1 => "bits1",
            TType::Bits2 => "bits2",
            TType::Bits4 => "bits4",
            TType::Bytes => "bytes",
            TType::Huff => "byteshuff",
        }
    }
    pub fn cli_name(self) -> &'static str {
        match self {
            TType::Huff => "bytes-huff",
            t => t.json_name(),
        }
    }
    /// bits per digit for the bits types
    pub fn bits(self) -> Option<u32> {
        match self {
            TType::Bits1 => Some(1),
            TType::Bits2 => Some(2),
            TType::Bits4 => Some(4),
            _ => None,
        }
    }
    pub fn from_name(s: &str) -> Option<TType> {
        ALL_TYPES.iter().copied().find(|t| t.json_name() == s)
    }
}

#[derive(Clone, Debug)]
pub struct TSet {
    pub ttype: TType,
    pub processing: String,
    pub split: Option<bool>,
    pub tokens: Vec<Tok>,
    pub seqs: Vec<(Vec<u8>, Vec<Tok>)>,
}

pub fn digits(b: u8, bits: u32) -> Vec<Tok> {
    let n = 8 / bits;
    (0..n).rev().map(|i| Tok::Ext((b >> (i * bits)) & ((1u16 << bits) - 1) as u8)).collect()
}

fn tok_from(v: &Value) -> Result<Tok, String> {
    match v {
        Value::String(s) => Ok(Tok::Str(s.as_bytes().to_vec())),
        Value::Array(a) => {
            let mut o = Vec::new();
            for x in a {
                let n = x.as_u64().ok_or("bad byte")?;
                if n > 255 {
                    return Err(format!("byte {} out of range", n));
                }
                o.push(n as u8);
            }
            Ok(Tok::Str(o))
        }
        Value::Number(n) => {
            let n = n.as_u64().ok_or("bad ext")?;
            if n > 255 {
                return Err(format!("ext {} out of range", n));
            }
            Ok(Tok::Ext(n as u8))
        }
        _ => Err(format!("not a token: {}", v)),
    }
}

fn bytes_json(b: &[u8], force_array: bool) -> Value {
    match std::str::from_utf8(b) {
        Ok(s) if !force_array => json!(s),
        _ => json!(b),
    }
}

fn tok_json(t: &Tok) -> Value {
    match t {
        Tok::Ext(n) => json!(n),
        Tok::Str(s) => bytes_json(s, false),
    }
}

impl TSet {
    pub fn name(&self) -> String {
        format!("tokens{}_{}_{}", self.tokens.len(), self.processing, self.ttype.json_name())
    }

    pub fn n_ext(&self) -> usize {
        self.tokens.iter().filter(|t| matches!(t, Tok::Ext(_))).count()
    }

    pub fn n_long(&self) -> usize {
        self.tokens.iter().filter(|t| matches!(t, Tok::Str(s) if s.len() > 1)).count()
    }

    pub fn strs(&self) -> impl Iterator<Item = &Vec<u8>> {
        self.tokens.iter().filter_map(|t| if let Tok::Str(s) = t { Some(s) } else { None })
    }

    /// Adds a token unless it is there.
    pub fn add(&mut self, s: Vec<u8>) {
        if !self.strs().any(|x| *x == s) {
            self.seqs.retain(|q| q.0 != s);
            self.tokens.push(Tok::Str(s));
        }
    }

    pub fn has_byte(&self, b: u8) -> bool {
        self.strs().any(|s| s.len() == 1 && s[0] == b)
    }

    /// Strings and costs for the reference tokenizer: tokens first, then
    /// sequences.
    pub fn spans(&self) -> Vec<(Vec<u8>, u64)> {
        let mut v: Vec<(Vec<u8>, u64)> = self.strs().map(|s| (s.clone(), 1)).collect();
        for (s, t) in &self.seqs {
            v.push((s.clone(), t.len() as u64));
        }
        v
    }

    pub fn parse(v: &Value) -> Result<TSet, String> {
        let ttype = match v["type"].as_str() {
            Some("fallback_bits") => match v["fallback_bits"].as_i64() {
                Some(1) => TType::Bits1,
                Some(2) => TType::Bits2,
                Some(4) => TType::Bits4,
                _ => return Err("bad fallback_bits".into()),
            },
            Some("all_tokens") => TType::Bytes,
            Some(n) => TType::from_name(n).ok_or_else(|| format!("unknown type {:?}", n))?,
            None => return Err("no type".into()),
        };
        let processing = v["processing"].as_str().ok_or("no processing")?.to_string();
        let split = match v.get("split_paragraphs") {
            None => None,
            Some(Value::Bool(b)) => Some(*b),
            Some(x) => return Err(format!("bad split_paragraphs {}", x)),
        };
        let mut tokens = Vec::new();
        for t in v["tokens"].as_array().ok_or("no tokens")? {
            tokens.push(tok_from(t)?);
        }
        let mut seqs = Vec::new();
        match v.get("sequences") {
            None => {}
            Some(Value::Array(a)) => {
                for s in a {
                    let string = match tok_from(&s["string"])? {
                        Tok::Str(s) => s,
                        _ => return Err("sequence string is a number".into()),
                    };
                    let mut ts = Vec::new();
                    for t in s["tokens"].as_array().ok_or("sequence without tokens")? {
                        ts.push(tok_from(t)?);
                    }
                    seqs.push((string, ts));
                }
            }
            Some(_) => return Err("bad sequences".into()),
        }
        // The older formats leave the fallback sequences out.
        if v.get("sequences").is_none() {
            if let Some(bits) = ttype.bits() {
                for b in 0..=255u8 {
                    if !tokens.contains(&Tok::Str(vec![b])) {
                        seqs.push((vec![b], digits(b, bits)));
                    }
                }
            }
        }
        Ok(TSet { ttype, processing, split, tokens, seqs })
    }

    pub fn load(path: &std::path::Path) -> Result<(TSet, Value), String> {
        let text = std::fs::read(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        let v: Value = serde_json::from_slice(&text).map_err(|e| format!("{}: not valid JSON: {}", path.display(), e))?;
        Ok((TSet::parse(&v)?, v))
    }

    pub fn to_json(&self) -> Value {
        let mut v = json!({
            "type": self.ttype.json_name(),
            "processing": self.processing,
            "tokens": self.tokens.iter().map(tok_json).collect::<Vec<_>>(),
        });
        if let Some(b) = self.split {
            v["split_paragraphs"] = json!(b);
        }
        if !self.seqs.is_empty() {
            v["sequences"] = Value::Array(
                self.seqs
                    .iter()
                    .map(|(s, t)| json!({"string": bytes_json(s, false), "tokens": t.iter().map(tok_json).collect::<Vec<_>>()}))
                    .collect(),
            );
        }
        v
    }

    /// The older type names, with or without the encodings spelt out.
    pub fn to_legacy_json(&self, sequences: bool) -> Option<Value> {
        let mut v = json!({
            "processing": self.processing,
            "tokens": self.tokens.iter().map(tok_json).collect::<Vec<_>>(),
        });
        match self.ttype {
            TType::Bytes => v["type"] = json!("all_tokens"),
            t => {
                v["type"] = json!("fallback_bits");
                v["fallback_bits"] = json!(t.bits()?);
            }
        }
        if let Some(b) = self.split {
            v["split_paragraphs"] = json!(b);
        }
        if sequences {
            if let Some(s) = self.to_json().get("sequences") {
                v["sequences"] = s.clone();
            }
        }
        Some(v)
    }

    /// Order-independent contents.
    pub fn canon(&self) -> (&'static str, String, bool, BTreeSet<Tok>, BTreeMap<Vec<u8>, Vec<Tok>>) {
        (
            self.ttype.json_name(),
            self.processing.clone(),
            self.split.unwrap_or(false),
            self.tokens.iter().cloned().collect(),
            self.seqs.iter().cloned().collect(),
        )
    }

    pub fn same_as(&self, o: &TSet) -> Result<(), String> {
        if self.tokens.len() != o.tokens.len() || self.seqs.len() != o.seqs.len() {
            return Err(format!(
                "{} tokens and {} sequences became {} tokens and {} sequences",
                self.tokens.len(), self.seqs.len(), o.tokens.len(), o.seqs.len()
            ));
        }
        let (a, b) = (self.canon(), o.canon());
        if a.0 != b.0 {
            return Err(format!("type {} became {}", a.0, b.0));
        }
        if a.1 != b.1 {
            return Err(format!("processing {} became {}", a.1, b.1));
        }
        if a.2 != b.2 {
            return Err(format!("split_paragraphs {} became {}", a.2, b.2));
        }
        if a.3 != b.3 {
            let lost: Vec<_> = a.3.difference(&b.3).take(3).collect();
            let new: Vec<_> = b.3.difference(&a.3).take(3).collect();
            return Err(format!("tokens differ: lost {:?}, new {:?}", lost, new));
        }
        if a.4 != b.4 {
            let k = a.4.keys().chain(b.4.keys()).find(|k| a.4.get(*k) != b.4.get(*k)).unwrap();
            return Err(format!("sequence for {:?}: {:?} became {:?}", k, a.4.get(k), b.4.get(k)));
        }
        Ok(())
    }

    /// Completeness and unique decodability. Every error is a defect of the
    /// token set.
    pub fn validate(&self) -> Result<(), String> {
        let mut ids: HashMap<&Tok, u32> = HashMap::new();
        for (i, t) in self.tokens.iter().enumerate() {
            if let Tok::Str(s) = t {
                if s.is_empty() {
                    return Err("empty token".into());
                }
            }
            if ids.insert(t, i as u32).is_some() {
                return Err(format!("duplicate token {:?}", t));
            }
        }
        let mut enc = [0u32; 256];
        for s in self.strs() {
            if s.len() == 1 {
                enc[s[0] as usize] += 1;
            }
        }
        let mut code: Vec<Vec<u32>> = Vec::new();
        for t in &self.tokens {
            if let Tok::Str(_) = t {
                code.push(vec![ids[t]]);
            }
        }
        for (s, ts) in &self.seqs {
            if s.is_empty() || ts.is_empty() {
                return Err("empty sequence".into());
            }
            if s.len() == 1 {
                enc[s[0] as usize] += 1;
            }
            let mut c = Vec::new();
            for t in ts {
                match ids.get(t) {
                    Some(&i) => c.push(i),
                    None => return Err(format!("sequence for {:?} uses unknown token {:?}", s, t)),
                }
            }
            code.push(c);
        }
        for b in 0..256 {
            if enc[b] == 0 {
                return Err(format!("byte {} has no encoding", b));
            }
            if enc[b] > 1 {
                return Err(format!("byte {} has {} encodings", b, enc[b]));
            }
        }
        if let Some(bits) = self.ttype.bits() {
            for (s, ts) in &self.seqs {
                if s.len() == 1 && *ts != digits(s[0], bits) {
                    return Err(format!("byte {} is encoded as {:?}, not by its digits", s[0], ts));
                }
            }
        }
        if self.ttype == TType::Bytes && !self.seqs.is_empty() {
            return Err("bytes set with sequences".into());
        }
        if let Some(w) = ambiguity(&code) {
            let show: Vec<&Tok> = w.iter().map(|&i| &self.tokens[i as usize]).collect();
            return Err(format!("encodings are ambiguous: {:?} can be decoded in two ways", show));
        }
        Ok(())
    }
}

/// Sardinas-Patterson: returns a dangling suffix that completes an ambiguous
/// message, if the code is not uniquely decodable.
pub fn ambiguity(code: &[Vec<u32>]) -> Option<Vec<u32>> {
    let words: HashSet<&[u32]> = code.iter().map(|c| c.as_slice()).collect();
    if words.len() != code.len() {
        let mut seen = HashSet::new();
        for c in code {
            if !seen.insert(c) {
                return Some(c.clone());
            }
        }
    }
    let mut by_first: HashMap<u32, Vec<&[u32]>> = HashMap::new();
    for c in code {
        by_first.entry(c[0]).or_default().push(c);
    }
    let mut queue: Vec<Vec<u32>> = Vec::new();
    let mut seen: HashSet<Vec<u32>> = HashSet::new();
    for c in code {
        for l in 1..c.len() {
            if words.contains(&c[..l]) {
                let s = c[l..].to_vec();
                if seen.insert(s.clone()) {
                    queue.push(s);
                }
            }
        }
    }
    while let Some(s) = queue.pop() {
        if words.contains(s.as_slice()) {
            return Some(s);
        }
        // words that are proper prefixes of s
        for l in 1..s.len() {
            if words.contains(&s[..l]) {
                let r = s[l..].to_vec();
                if seen.insert(r.clone()) {
                    queue.push(r);
                }
            }
        }
        // words of which s is a proper prefix
        if let Some(ws) = by_first.get(&s[0]) {
            for w in ws {
                if w.len() > s.len() && w[..s.len()] == s[..] {
                    let r = w[s.len()..].to_vec();
                    if seen.insert(r.clone()) {
                        queue.push(r);
                    }
                }
            }
        }
    }
    None
}

/// Does the string contain a blank line followed by something else?
pub fn crosses_paragraph(s: &[u8]) -> bool {
    s.windows(3).any(|w| w[0] == 10 && w[1] == 10 && w[2] != 10)
}

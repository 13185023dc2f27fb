//! In-process monitors: drive the real code through the hooked library and
//! judge what its functions return.
use mon::gen::Corpus;
use mon::report::Reporter;
use mon::tset::{TSet, Tok};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use texmo_sut::verif::*;

mod bytes;
mod cache;
mod counts;
mod history;
mod parallel;
mod readers;

pub struct Ctx {
    pub rep: Reporter,
    pub corpus: Corpus,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

/// Calls code under test; a panic becomes an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn to_sut(s: &TSet) -> TokenSet {
    TokenSet::from_json(s.to_json())
}

pub fn from_tok(t: &Token) -> Tok {
    match t {
        Token::Ext(n) => Tok::Ext(*n),
        Token::Str(s) => Tok::Str(s.clone()),
    }
}

pub fn from_sut(s: &TokenSet) -> TSet {
    TSet {
        ttype: match s.token_type {
            TokenType::Bits1 => mon::tset::TType::Bits1,
            TokenType::Bits2 => mon::tset::TType::Bits2,
            TokenType::Bits4 => mon::tset::TType::Bits4,
            TokenType::Bytes => mon::tset::TType::Bytes,
            TokenType::BytesHuff => mon::tset::TType::Huff,
        },
        processing: s.processing.to_string(),
        split: Some(s.split_paragraphs),
        tokens: s.tokens.iter().map(from_tok).collect(),
        seqs: s
            .sequences
            .iter()
            .map(|q| (q.string.clone(), q.tokens.iter().map(|&i| from_tok(&s.tokens[i])).collect()))
            .collect(),
    }
}

/// Hands out the given fragments.
pub struct VecSampler {
    pub frags: Vec<String>,
    pub claimed: u64,
    /// pauses before fragments, in microseconds
    pub pauses: Vec<u32>,
}

pub struct VecIter<'a> {
    s: &'a VecSampler,
    pos: usize,
}

impl<'a> Iterator for VecIter<'a> {
    type Item = Sample<'a>;
    fn next(&mut self) -> Option<Sample<'a>> {
        let i = self.pos;
        if i >= self.s.frags.len() {
            return None;
        }
        self.pos += 1;
        match self.s.pauses.get(i) {
            None | Some(0) => {}
            Some(1) => std::thread::yield_now(),
            Some(n) => std::thread::sleep(std::time::Duration::from_micros(*n as u64)),
        }
        if i % 2 == 0 {
            Some(Sample::from_bytes(self.s.frags[i].as_bytes()))
        } else {
            Some(Sample::from_vec(self.s.frags[i].as_bytes().to_vec()))
        }
    }
}

impl<'a> Sampler<'a> for VecSampler {
    type Iter = VecIter<'a>;
    fn iter(&'a self) -> VecIter<'a> {
        VecIter { s: self, pos: 0 }
    }
    fn total_size(&'a self) -> u64 {
        self.claimed
    }
}

impl VecSampler {
    pub fn sync(frags: Vec<String>) -> VecSampler {
        VecSampler { frags, claimed: 1, pauses: vec![] }
    }
}

/// Statistics by contents instead of by index.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Counts {
    pub total: u64,
    pub scanned: u64,
    pub tokens: std::collections::BTreeMap<Tok, u64>,
    pub seqs: std::collections::BTreeMap<Vec<u8>, u64>,
    pub pairs: std::collections::BTreeMap<(Tok, Tok), u64>,
}

pub fn counts(s: &TokenStats) -> Counts {
    let toks: Vec<Tok> = s.token_set.tokens.iter().map(from_tok).collect();
    let n = toks.len();
    let mut c = Counts {
        total: s.total_tokens,
        scanned: s.scanned_bytes,
        tokens: Default::default(),
        seqs: Default::default(),
        pairs: Default::default(),
    };
    for (i, k) in s.token_counts.iter().enumerate() {
        if *k > 0 {
            *c.tokens.entry(toks[i].clone()).or_insert(0) += k;
        }
    }
    for (i, k) in s.seq_counts.iter().enumerate() {
        if *k > 0 {
            *c.seqs.entry(s.token_set.sequences[i].string.clone()).or_insert(0) += k;
        }
    }
    for (i, k) in s.pair_counts.iter().enumerate() {
        if *k > 0 {
            *c.pairs.entry((toks[i / n].clone(), toks[i % n].clone())).or_insert(0) += k;
        }
    }
    c
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = text.clone());
        if !QUIET.with(|q| *q.borrow()) {
            eprintln!("{}", text);
        }
    }));
    let mut a = std::env::args().skip(1);
    let stage = a.next().expect("stage");
    let mut opt = std::collections::HashMap::new();
    while let Some(k) = a.next() {
        opt.insert(k.trim_start_matches('-').to_string(), a.next().expect("value"));
    }
    let get = |k: &str| opt.get(k).unwrap_or_else(|| panic!("--{} missing", k)).clone();
    let mut rep = Reporter::new(
        &get("prop"),
        get("seed").parse().unwrap(),
        get("tier") == "thorough",
        PathBuf::from(get("work")),
        PathBuf::from(get("replay")),
        get("budget").parse().unwrap(),
    );
    rep.out = Some(PathBuf::from(get("out")));
    if let Some(t) = opt.get("threads") {
        rep.threads = t.parse().unwrap();
    }
    let ctx = Ctx { corpus: Corpus::load(&PathBuf::from(get("repo"))), rep };
    ctx.rep.supervise(|| match stage.as_str() {
        "counts" => counts::counts_stage(&ctx),
        "parallel" => parallel::parallel(&ctx),
        "parallel_tiny" => parallel::tiny(&ctx),
        "readers" => readers::readers(&ctx),
        "samples" => readers::samples(&ctx),
        "bytes" => bytes::bytes(&ctx),
        "history" => history::history(&ctx),
        "cache" => cache::cache(&ctx),
        s => panic!("unknown stage {}", s),
    });
}

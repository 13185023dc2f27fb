//! C08, C09, C11 optimize; C10 chains; C21 bpe; C14 bytes_only; C17
//! sample_size.
use crate::convert::text_for;
use crate::util::*;
use crate::Ctx;
use mon::dp::{byte_hist, Trie};
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{crosses_paragraph, TSet, TType, Tok, ALL_TYPES};
use std::collections::{HashMap, HashSet};
use std::path::Path;

pub struct Case {
    pub text: String,
    pub processing: &'static str,
    pub ttype: TType,
    pub n: usize,
    pub input: Option<TSet>,
    pub processed: Option<String>,
    pub min_size: Option<usize>,
    /// With processed data, only the size of the raw file matters: a sparse
    /// file of this size takes its place.
    pub raw_len: Option<u64>,
}

impl Case {
    /// What the tokenizer sees.
    pub fn data(&self) -> Vec<u8> {
        if self.processing == "raw" {
            self.text.clone().into_bytes()
        } else if let Some(p) = &self.processed {
            p.clone().into_bytes()
        } else {
            let mut t = self.text.clone();
            if !t.is_empty() && !t.ends_with('\n') {
                t.push('\n');
            }
            mon::procspec::encode(&t).into_bytes()
        }
    }

    pub fn describe(&self) -> String {
        format!(
            "{} bytes of text {:?}..., --type {} -p {} -n {}{}{}{}",
            self.text.len(),
            self.text.chars().take(30).collect::<String>(),
            self.ttype.cli_name(),
            proc_cli_name(self.processing),
            self.n,
            self.input.as_ref().map(|s| format!(" -i {}", gen::describe(s))).unwrap_or_default(),
            match (&self.processed, self.raw_len) {
                (Some(_), Some(l)) => format!(" --processed-data (data is a sparse file of {} bytes)", l),
                (Some(_), None) => " --processed-data".to_string(),
                _ => String::new(),
            },
            self.min_size.map(|m| format!(" --min-data-size {}", m)).unwrap_or_default()
        )
    }

    pub fn files(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![("data.txt".to_string(), self.text.clone().into_bytes())];
        if let Some(s) = &self.input {
            v.push(("set.json".into(), s.to_json().to_string().into_bytes()));
        }
        if let Some(p) = &self.processed {
            v.push(("processed.txt".into(), p.clone().into_bytes()));
        }
        v
    }

    /// Size of the raw data file.
    pub fn raw_size(&self) -> u64 {
        match (&self.processed, self.raw_len) {
            (Some(_), Some(l)) => l,
            _ => self.text.len() as u64,
        }
    }

    pub fn run(&self, ctx: &Ctx, dir: &Path, out: &Path) -> mon::cli::Run {
        self.run_with(&ctx.cli, dir, out)
    }

    pub fn run_with(&self, cli: &mon::cli::Cli, dir: &Path, out: &Path) -> mon::cli::Run {
        for (n, d) in self.files() {
            write(&dir.join(n), &d);
        }
        if let (Some(_), Some(l)) = (&self.processed, self.raw_len) {
            sparse(&dir.join("data.txt"), l);
        }
        let mut cli = cli.clone();
        cli.quiet = cli.env.is_empty();
        let (d, p, s) = (dir.join("data.txt"), dir.join("processed.txt"), dir.join("set.json"));
        run_optimize(
            &cli,
            dir,
            &OptArgs {
                data: &d,
                processed: self.processed.as_ref().map(|_| p.as_path()),
                out,
                ttype: self.ttype,
                processing: self.processing,
                n: self.n,
                input: self.input.as_ref().map(|_| s.as_path()),
                min_size: self.min_size,
            },
        )
    }
}

/// A few strings that all occur equally often (or nearly so).
pub fn ties_text(r: &mut Rng, most: usize) -> String {
    let letters: Vec<char> = match r.below(3) {
        0 => "abcdefghijklmnopqrstuvwxyz".chars().collect(),
        1 => "abcd".chars().collect(),
        _ => "aeAnt é".chars().collect(),
    };
    let units: Vec<String> = (0..r.range(2, 5)).map(|_| (0..r.range(2, 4)).map(|_| *r.pick(&letters)).collect()).collect();
    let times = r.range(2, 6);
    let mut all: Vec<&str> = Vec::new();
    for u in &units {
        for _ in 0..times + r.chance(1, 6) as usize {
            all.push(u);
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut all);
    }
    let sep = *r.pick(&["", " ", "\n", ".", ", ", "\n\n"]);
    let mut t = all.join(sep);
    if r.chance(1, 2) {
        // no separator twice
        let pool: Vec<char> = "0123456789!#$%&()*+,-./:;<=>?@[]^_`{|}~ABCDEFGHIJKLMNOPQRSTUVW".chars().collect();
        t.clear();
        for (k, u) in all.iter().enumerate() {
            t.push_str(u);
            t.push(pool[k % pool.len()]);
        }
    }
    gen::cut(&mut t, r.range(10, most));
    if r.chance(1, 2) {
        t.push('\n');
    }
    t
}

/// The same few words around paragraph breaks, with anything right after them.
pub fn breaks_text(r: &mut Rng, max: usize) -> String {
    let words: Vec<String> = (0..r.range(1, 4)).map(|_| gen::word(r)).collect();
    let after: Vec<String> = (0..r.range(1, 4))
        .map(|_| match r.below(6) {
            0 => ((r.below(10) as u8) as char).to_string(),
            1 => ((11 + r.below(21) as u8) as char).to_string(),
            2 => ' '.to_string(),
            3 => gen::any_char(r).to_string(),
            4 => ((127 - r.below(10) as u8) as char).to_string(),
            _ => r.pick(&words).clone(),
        })
        .collect();
    let most = r.range(2, 5);
    let mut t = String::new();
    while t.len() < max {
        if !r.chance(1, 4) {
            t.push_str(r.pick(&words));
        }
        for _ in 0..if r.chance(1, 6) { 1 } else { r.range(2, most) } {
            t.push('\n');
        }
        t.push_str(r.pick(&after));
    }
    t
}

pub fn opt_text(ctx: &Ctx, r: &mut Rng, max: usize) -> String {
    let t = match if ctx.rep.prop == "C11" && r.chance(1, 2) { 6 } else { r.below(7) } {
        0 => gen::paragraphs(r, max / 2, &ctx.corpus),
        6 => {
            let n = r.range(max / 4, max);
            breaks_text(r, n)
        }
        1 => {
            // short paragraphs repeated
            let unit = gen::paragraphs(r, 12, &ctx.corpus);
            unit.repeat(r.range(2, 12))
        }
        2 => {
            let n = r.skewed(max);
            ctx.corpus.slice(r, n)
        }
        3 if r.chance(1, 2) => ties_text(r, 200),
        3 => {
            let n = r.skewed(40);
            let pool = ['a', 'b', '\n', '\n', ' ', 'é', 'A'];
            (0..n).map(|_| *r.pick(&pool)).collect()
        }
        _ => text_for(ctx, r, max),
    };
    let mut t = gen::clean_for_processing(&t);
    gen::cut(&mut t, max);
    t
}

pub fn opt_case(ctx: &Ctx, r: &mut Rng, i: u64, max_text: usize, with_input: bool, with_min: bool) -> Case {
    let ttype = ALL_TYPES[i as usize % 5];
    let text = opt_text(ctx, r, max_text);
    let processing = if r.chance(1, 3) { "capswords" } else { "raw" };
    let mut c = Case { text, processing, ttype, n: 0, input: None, processed: None, min_size: None, raw_len: None };
    if processing == "capswords" && r.chance(1, 3) {
        c.processed = Some(String::from_utf8(c.data()).unwrap());
        if r.chance(1, 2) {
            c.raw_len = Some(some_size(r));
        }
    }
    c.n = pick_n(r, ttype, c.text.len());
    if with_input && r.chance(1, 3) {
        let o = SetOpts { max_long: 12, shuffle: r.chance(1, 2), multi_seqs: false };
        let d = c.data();
        let s = gen::small_set(r, ttype, processing, &d, &o);
        let nonlong = s.tokens.len() - s.n_long();
        if ttype != TType::Huff || nonlong <= 257 {
            c.n = s.tokens.len() + r.skewed(12) - 1;
            c.n = c.n.max(s.tokens.len());
            c.input = Some(s);
        }
    }
    if with_input && ttype.bits().is_some() && r.chance(1, 25) && c.text.len() < 60 {
        // room for every byte and more
        let s = gen::crowded_set(r, ttype, processing);
        c.n = s.tokens.len() + r.below(14);
        c.input = Some(s);
    }
    if with_input && c.input.is_none() && c.text.len() < 60 && r.chance(1, 12) {
        // far more tokens than could ever be found
        c.n = *r.pick(&[65_537 + 300, (1usize << 31) + 5, (1usize << 32) + 3, (1usize << 32) + 300, usize::MAX]);
    }
    if with_min && r.chance(1, 6) {
        let l = c.data().len();
        c.min_size = Some(match r.below(4) {
            0 => l + r.below(5),
            1 => (l / 2).max(1),
            _ => 1 + r.below(l.max(1)),
        });
        if c.min_size.unwrap() < l / 16 {
            c.min_size = Some(l / 16 + 1);
        }
    }
    c
}

/// Does a minimal tokenization without any pair that could be merged exist?
fn no_pair_left(set: &TSet, data: &[u8]) -> bool {
    let trie = Trie::new(set.spans());
    let ntok = set.strs().count();
    trie.minimal_without(data, |a, b| {
        if a >= ntok || b >= ntok {
            return false;
        }
        let s = [trie.spans[a].0.as_slice(), trie.spans[b].0.as_slice()].concat();
        !crosses_paragraph(&s)
    })
}

pub fn optimize(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of `texmo optimize` on a generated text with a random type, processing, size, and sometimes an input \
         set, --processed-data or --min-data-size; the written token set is judged; non-trivial if the result has a token of two or \
         more bytes or a sequence; distinct by (text, options)",
    );
    let prop = ctx.rep.prop.clone();
    if prop == "C09" {
        crate::convert::gigantic(ctx, true);
        big_samples(ctx);
    }
    let max = if ctx.rep.thorough { 1_000_000 } else { 4000 };
    let max_text = if ctx.rep.thorough { 6000 } else { 1500 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        let mt = if r.chance(1, 8) { max_text } else { max_text / 4 };
        let c = opt_case(ctx, r, i, mt, true, true);
        judge_optimize(ctx, dir, &c, &prop);
    });
}

/// Samples of more than 16 MiB may stand for the whole data; the statistics
/// must still be those of all of it.
fn big_samples(ctx: &Ctx) {
    let cases = if ctx.rep.thorough { 9 } else { 3 };
    ctx.rep.run("big-samples", cases, 0.4, |i, r, dir| {
        // One in three without a sample, but so big that it is tokenized in parallel.
        let all = i % 3 == 2;
        let m = if all { (1usize << 25) + r.below(1 << 22) } else { (1usize << 24) + 1 + r.below(100_000) };
        let mut text = String::new();
        let prose = gen::clean_for_processing(&ctx.corpus.slice(r, 300_000));
        let n = m + r.range(300_000, 2_000_000);
        while text.len() < n {
            text.push_str(&prose);
            text.push_str("\n\n");
        }
        if i % 2 == 1 {
            // the rest of the file is different
            let k = text.len() / 12;
            text.push_str(&"~~~~~~~~~ ~~~~~~~\n".repeat(k / 18));
        }
        let mut c = Case { text, processing: "raw", ttype: TType::Bytes, n: 256, input: None, processed: None, min_size: Some(m).filter(|_| !all), raw_len: None };
        if i % 3 != 1 {
            // a few long tokens that no swap improves
            let mut s = TSet {
                ttype: TType::Bytes,
                processing: "raw".into(),
                split: Some(true),
                tokens: (0..=255u8).map(|b| Tok::Str(vec![b])).collect(),
                seqs: vec![],
            };
            s.tokens.push(Tok::Str(b"e ".to_vec()));
            c.n += 1;
            c.input = Some(s);
        }
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let mut cli = ctx.cli.clone();
        cli.cpu = 60;
        let run = c.run_with(&cli, dir, &out);
        if !must_succeed(ctx, &run, &c.describe(), &[]) {
            return;
        }
        let early = run.stdout.windows(8).any(|w| w == b"Stopping");
        ctx.rep.count(if all { "runs on texts above 32 MiB" } else { "runs that began with a sample over 16 MiB" }, 1);
        ctx.rep.count("of these, stopped early", early as u64);
        match single_output(&out) {
            Ok(o) => {
                ctx.rep.case(&(&c.text, m), true, || format!("{} -> {}", c.describe(), gen::describe(&o.set)));
                let e = if o.set.tokens.len() != c.n {
                    Err(format!("{} tokens requested, got {}", c.n, o.set.tokens.len()))
                } else {
                    check_stats(&o, c.text.len() as u64, c.text.as_bytes())
                };
                if let Err(e) = e {
                    ctx.rep.violation("stats", &format!("{}\n{}\n{}", c.describe(), run.cmd, e), &[("result.json", &o.bytes)]);
                }
            }
            Err(e) => ctx.rep.violation("output", &format!("{}\n{}", c.describe(), e), &[]),
        }
    });
}

pub fn judge_optimize(ctx: &Ctx, dir: &Path, c: &Case, prop: &str) {
    let out = dir.join("out");
    std::fs::create_dir_all(&out).unwrap();
    let mut cli = ctx.cli.clone();
    cli.cpu = 10;
    let run = c.run_with(&cli, dir, &out);
    if run.outcome == mon::cli::Outcome::CpuLimit {
        ctx.rep.count("runs given up after 10 s of CPU time", 1);
        return;
    }
    let files = c.files();
    let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
    if !must_succeed(ctx, &run, &c.describe(), &fs) {
        return;
    }
    let o = match single_output(&out) {
        Ok(o) => o,
        Err(e) => {
            ctx.rep.violation("output", &format!("{}\n{}\n{}", c.describe(), run.cmd, e), &fs);
            return;
        }
    };
    let mut fs = fs;
    fs.push(("result.json", &o.bytes));
    let data = c.data();
    let nt = o.set.n_long() > 0 || !o.set.seqs.is_empty();
    ctx.rep.count(&format!("results of type {}", c.ttype.json_name()), 1);
    ctx.rep.count("long tokens in results", o.set.n_long() as u64);
    ctx.rep.see("result token sets", &o.set.canon());
    if c.input.is_some() {
        ctx.rep.count("runs with an input set", 1);
    }
    if c.min_size.map_or(false, |m| m < data.len()) {
        ctx.rep.count("runs that started with a data sample", 1);
    }
    ctx.rep.case(&(&c.text, c.ttype.json_name(), c.n, c.processing, &c.min_size, &c.input.as_ref().map(|s| s.canon())), nt, || {
        format!("{} -> {}", c.describe(), gen::describe(&o.set))
    });
    let bad = |kind: &str, e: String| {
        ctx.rep.violation(kind, &format!("{}\n{}\n{}", c.describe(), run.cmd, e), &fs);
    };
    match prop {
        "C08" | "C18" => {
            if o.set.ttype != c.ttype || o.set.processing != c.processing {
                bad("type", format!("asked for {} {}, got {}", c.ttype.json_name(), c.processing, o.set.name()));
            } else if let Err(e) = o.set.validate() {
                bad("invalid-set", e);
            } else if let Some(s) = &c.input {
                // Long tokens come from the input or are merges: nothing to check
                // beyond validity. Paragraph splitting is a property of the set.
                let _ = s;
            }
        }
        "C09" | "C19" => {
            if o.set.tokens.len() > c.n {
                bad("size", format!("{} tokens requested, got {}", c.n, o.set.tokens.len()));
            } else if o.set.tokens.len() < c.n {
                ctx.rep.count("results smaller than requested", 1);
                let all = (0..=255u8).all(|b| o.set.has_byte(b));
                if !all {
                    bad("size", format!("{} tokens requested, got {} although not every byte has a token", c.n, o.set.tokens.len()));
                } else if !no_pair_left(&o.set, &data) {
                    bad("size", format!("{} tokens requested, got {} although there are pairs of tokens left to merge", c.n, o.set.tokens.len()));
                }
            }
            if o.set.ttype != c.ttype || o.set.processing != c.processing {
                bad("name", format!("asked for {} {}, got {}", c.ttype.json_name(), c.processing, o.set.name()));
            } else if let Err(e) = check_stats(&o, c.raw_size(), &data) {
                bad("stats", e);
            }
        }
        "C11" => {
            let old: HashSet<&Vec<u8>> = c.input.iter().flat_map(|s| s.strs()).collect();
            let mut breaks = 0;
            for w in data.windows(3) {
                if w[0] == 10 && w[1] == 10 && w[2] != 10 {
                    breaks += 1;
                }
            }
            ctx.rep.count("paragraph breaks in the data", breaks);
            ctx.rep.count("tokens with a newline", o.set.strs().filter(|s| s.len() > 1 && s.contains(&10)).count() as u64);
            for s in o.set.strs() {
                if crosses_paragraph(s) && !old.contains(s) {
                    bad("across-paragraphs", format!("token {:?} reaches across a paragraph break", String::from_utf8_lossy(s)));
                    break;
                }
            }
        }
        "C33" => {
            let old: HashSet<&Vec<u8>> = c.input.iter().flat_map(|s| s.strs()).collect();
            for s in o.set.strs().filter(|s| s.len() > 1 && !old.contains(s)) {
                ctx.rep.count("new tokens looked for in the data", 1);
                if !data.windows(s.len()).any(|w| w == s.as_slice()) {
                    bad("not-in-data", format!("the new token {:?} does not occur in the data", String::from_utf8_lossy(s)));
                    break;
                }
            }
        }
        _ => unreachable!(),
    }
}

/// More steps in a row without any progress than tokens could be added?
fn endless_run(stdout: &[u8], n: usize) -> Option<String> {
    let text = String::from_utf8_lossy(stdout);
    let (mut last, mut len) = ("", 0);
    for l in text.lines() {
        if let Some(v) = l.strip_prefix("processed bytes / token: ") {
            len = if v == last { len + 1 } else { 1 };
            last = v;
            if len > n + 3 {
                return Some(format!("more than {} accepted changes in a row, all with {} bytes per token", n + 3, v));
            }
        }
    }
    None
}

/// C10.
pub fn chains(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a chain of three or four `texmo optimize` runs on one text, each starting from the previous result (same size, \
         then bigger sizes); the number of tokens of each result on the data is compared, using a shortest-path reference; \
         non-trivial if some result improves on its input; distinct by (text, options)",
    );
    // Tiny runs with many ties.
    let mut cli = ctx.cli.clone();
    cli.cpu = if ctx.rep.thorough { 10 } else { 3 };
    let max = if ctx.rep.thorough { 100_000 } else { 3000 };
    ctx.rep.run("ties", max, 0.35, |i, r, dir| {
        let ttype = ALL_TYPES[[0, 1, 2, 2, 0, 1, 2, 3 + i as usize / 8 % 2][i as usize % 8]];
        let text = if i % 4 == 0 {
            ties_text(r, 34)
        } else {
            // Every byte is worth its token; many pairs are equally frequent.
            let k = r.range(3, 10);
            let letters: Vec<char> = "abcdefghij".chars().take(k).collect();
            (0..r.range(6 * k, 20 * k)).map(|_| *r.pick(&letters)).collect()
        };
        let processing = if r.chance(1, 4) { "capswords" } else { "raw" };
        let mut c = Case { text, processing, ttype, n: min_n(ttype) + r.below(9), input: None, processed: None, min_size: None, raw_len: None };
        if ttype != TType::Huff && r.chance(4, 5) {
            // A token for each byte there is, and some longer ones.
            let data = c.data();
            if data.is_empty() {
                return;
            }
            let mut singles: Vec<Vec<u8>> = byte_hist(&data).keys().map(|&b| vec![b]).collect();
            singles.sort();
            let mut set = gen::plain_set(ttype, processing);
            for s in singles {
                set.add(s);
            }
            for _ in 0..r.range(1, 4) {
                let at = r.below(data.len());
                let s = data[at..data.len().min(at + r.range(2, 4))].to_vec();
                if s.len() > 1 && !crosses_paragraph(&s) {
                    set.add(s);
                }
            }
            c.n = set.tokens.len() + if i % 4 == 0 { r.below(2) } else { r.below(4) / 3 };
            c.input = Some(set);
        }
        chain(ctx, r, dir, &cli, c, &[0, 0]);
    });
    cli.cpu = if ctx.rep.thorough { 60 } else { 12 };
    let max = if ctx.rep.thorough { 1_000_000 } else { 1500 };
    let max_text = if ctx.rep.thorough { 3000 } else { 1200 };
    ctx.rep.run("random", max, 0.65, |i, r, dir| {
        let mt = if r.chance(1, 6) { max_text } else { max_text / 3 };
        let mut c = opt_case(ctx, r, i, mt, false, false);
        if c.ttype != TType::Huff && r.chance(1, 2) {
            // start from a random, usually bad, set
            let data = c.data();
            let many = r.chance(1, 6) && !data.is_empty();
            let o = SetOpts { max_long: if many { 120 } else { 12 }, shuffle: true, multi_seqs: false };
            let s = if many {
                // every byte and up to 120 parts of the data
                let keep = (data.len() / 3).max(3).min(120);
                let mut s = gen::small_set(r, TType::Bytes, c.processing, &data, &o);
                for _ in 0..r.range(keep / 2, keep) {
                    let at = r.below(data.len());
                    let t = data[at..data.len().min(at + r.range(2, 6))].to_vec();
                    if t.len() > 1 && !crosses_paragraph(&t) && s.strs().all(|x| *x != t) {
                        s.tokens.push(Tok::Str(t));
                    }
                }
                c.ttype = TType::Bytes;
                ctx.rep.count("chains from big input sets", 1);
                s
            } else {
                gen::small_set(r, c.ttype, c.processing, &data, &o)
            };
            c.n = s.tokens.len() + r.below(3);
            c.input = Some(s);
        }
        let sizes = [0, 0, 1 + r.below(3), r.below(6)];
        chain(ctx, r, dir, &cli, c, &sizes);
    });
}

fn chain(ctx: &Ctx, r: &mut Rng, dir: &Path, cli: &mon::cli::Cli, mut c: Case, sizes: &[usize]) {
        let data = c.data();
        let cost = |s: &TSet| Trie::new(s.spans()).min_cost(&data).unwrap_or(u64::MAX);
        let mut improved = false;
        let mut steps = 0;
        let mut prev: Option<Output> = None;
        if sizes.len() > 2 && r.chance(1, 8) {
            // Samples of increasing size come to an end.
            let m = *r.pick(&[0usize, 1, 2, 3, 10]);
            c.min_size = Some(m);
            let out = dir.join("outmin");
            std::fs::create_dir_all(&out).unwrap();
            let mut cli = cli.clone();
            cli.cpu = 4;
            let run = c.run_with(&cli, dir, &out);
            c.min_size = None;
            let drawn = run.stdout.windows(16).filter(|w| w == b"Optimizing with ").count();
            ctx.rep.count("runs that start with tiny samples", 1);
            ctx.rep.count("samples drawn", drawn as u64);
            // every sample is twice as big as the one before
            if drawn > 66 {
                let files = c.files();
                let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
                ctx.rep.violation("endless", &format!("{} --min-data-size {}\nmore than {} samples were drawn", c.describe(), m, drawn), &fs);
                return;
            }
        }
        for (k, grow) in sizes.iter().enumerate() {
            if k == 3 && !ctx.rep.thorough && r.chance(1, 2) || k > 1 && ctx.rep.out_of_time() {
                break;
            }
            let out = dir.join(format!("out{}", k));
            std::fs::create_dir_all(&out).unwrap();
            c.n += grow;
            let run = c.run_with(&cli, dir, &out);
            let files = c.files();
            let mut fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
            if run.outcome == mon::cli::Outcome::CpuLimit {
                let most = 300 * data.len() as u64 + c.n as u64;
                let lines = run.stdout.windows(23).filter(|w| w == b"processed bytes / token").count() as u64;
                if let Some(e) = endless_run(&run.stdout, c.n) {
                    ctx.rep.violation("standstill", &format!("step {} of a chain: {}\n{}", k, c.describe(), e), &fs);
                } else if lines > most {
                    ctx.rep.violation("endless", &format!("step {} of a chain: {}\n{} accepted changes and no end", k, c.describe(), lines), &fs);
                } else {
                    ctx.rep.count("chains given up: out of CPU time", 1);
                }
                return;
            }
            if !must_succeed(ctx, &run, &c.describe(), &fs) {
                return;
            }
            let o = match single_output(&out) {
                Ok(o) => o,
                Err(e) => {
                    ctx.rep.violation("output", &format!("{}\n{}", c.describe(), e), &fs);
                    return;
                }
            };
            fs.push(("result.json", &o.bytes));
            let now = cost(&o.set);
            let lines = run.stdout.windows(23).filter(|w| w == b"processed bytes / token").count() as u64;
            ctx.rep.count("optimizer steps seen", lines);
            if let Some(before) = &c.input {
                let was = cost(before);
                improved |= now < was;
                ctx.rep.count("tokens saved over the input sets", was.saturating_sub(now));
                // Without a pair to merge a Huffman set grows by a byte token, chosen for
                // counts increased by one for every byte: not always a gain on tiny texts.
                let exempt = now > was
                    && c.ttype == TType::Huff
                    && o.set.tokens.len() > before.tokens.len()
                    && (data.len() < 300 || no_pair_left(before, &data) || no_pair_left(&o.set, &data));
                if exempt {
                    ctx.rep.count("grown Huffman sets without a pair left, not judged", 1);
                } else if now > was {
                    ctx.rep.violation("worse", &format!("step {} of a chain: {}\nthe input set needs {} tokens, the result {}", k, c.describe(), was, now), &fs);
                    return;
                }
            }
            if let Some(e) = endless_run(&run.stdout, c.n) {
                ctx.rep.violation("standstill", &format!("step {} of a chain: {}\n{}", k, c.describe(), e), &fs);
                return;
            }
            if k > 0 && *grow == 0 {
                let p = prev.as_ref().unwrap();
                // Ties may be broken differently the second time, but a change must pay.
                if p.set.canon() != o.set.canon() {
                    ctx.rep.count("results improved by optimizing them again", 1);
                    if now >= cost(&p.set) && o.set.tokens.len() <= p.set.tokens.len() {
                        ctx.rep.violation("unsettled", &format!("step {} of a chain: {}\noptimizing a result again changed it without need, from {} to {} tokens ({})", k, c.describe(), cost(&p.set), now, p.set.same_as(&o.set).err().unwrap_or_default()), &fs);
                        return;
                    }
                    c.input = Some(o.set.clone());
                    prev = Some(o);
                    steps += 1;
                    continue;
                }
                ctx.rep.count("results confirmed settled", 1);
            }
            c.input = Some(o.set.clone());
            prev = Some(o);
            steps += 1;
        }
        ctx.rep.count("optimizer runs in chains", steps);
        ctx.rep.case(&(&c.text, c.ttype.json_name(), c.n, c.processing), improved, || c.describe());
}

/// A text in which a few short strings are about equally frequent, some of
/// them sharing characters with others and some not.
fn near_ties(r: &mut Rng) -> String {
    let base = if r.chance(1, 8) { r.range(250, 900) } else { r.range(2, 40) };
    let spread = 1 + base / *r.pick(&[2usize, 4, 8, 16]);
    let mut fresh = ('a'..='z').collect::<Vec<char>>();
    let mut pool: Vec<char> = vec![];
    let mut units: Vec<String> = vec![];
    let mut all: Vec<usize> = vec![];
    for i in 0..r.range(2, 5) {
        let len = *r.pick(&[2usize, 2, 2, 3, 4]);
        let mut u = String::new();
        for _ in 0..len {
            if pool.is_empty() || r.chance(1, 2) {
                let k = r.below(fresh.len());
                pool.push(fresh.remove(k));
                u.push(*pool.last().unwrap());
            } else {
                u.push(*r.pick(&pool));
            }
        }
        for _ in 0..base + r.below(spread + 1) {
            all.push(i);
        }
        units.push(u);
    }
    r.shuffle(&mut all);
    let seps: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,;: ()[]{}!?".chars().collect();
    let alone = r.below(3);
    let mut out = String::new();
    for (k, i) in all.iter().enumerate() {
        out.push_str(&units[*i]);
        if alone > 0 && !pool.is_empty() && r.chance(alone, 8) {
            out.push(seps[(k * 7 + 3) % seps.len()]);
            out.push(*r.pick(&pool));
        }
        if !r.chance(1, 12) {
            out.push(*r.pick(&seps));
        }
    }
    out
}

/// A few long strings without repeated characters, many times.
/// Also returns tokens that are of use there already.
fn long_units(r: &mut Rng) -> (String, Vec<Vec<u8>>) {
    let mut pool: Vec<char> = ('!'..='~').filter(|c| !('a'..='h').contains(c) && !('A'..='H').contains(c)).collect();
    r.shuffle(&mut pool);
    let units: Vec<String> = (0..r.range(1, 4))
        .map(|_| {
            let n = r.range(2, 22).min(pool.len());
            pool.drain(..n).collect()
        })
        .collect();
    let mut t = String::new();
    let runs = *r.pick(&[1usize, 4, 1000]);
    for _ in 0..r.range(3, 30) {
        let u = r.pick(&units);
        for _ in 0..if r.chance(1, runs) { r.range(1, 9) } else { 1 } {
            t.push_str(u);
        }
        if r.chance(1, 3) {
            t.push(*r.pick(&[' ', '\n', 'é']));
        }
    }
    let mut have = vec![];
    if r.chance(1, 6) {
        let mut v: Vec<(char, char)> = ('a'..='h').flat_map(|a| ('A'..='H').map(move |b| (a, b))).collect();
        r.shuffle(&mut v);
        v.truncate(r.range(40, 60));
        let most = r.range(3, 6);
        let mut all = vec![];
        for (a, b) in &v {
            have.push(vec![*a as u8, *b as u8]);
            for _ in 0..most - r.below(2) {
                all.push((*a, *b));
            }
        }
        r.shuffle(&mut all);
        for (a, b) in all {
            t.push(a);
            t.push(b);
        }
    }
    (t, have)
}

/// C21 (and the black-box view of C04): one more token is at least as good as a
/// greedy merge.
pub fn bpe(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a bytes-type set with k tokens whose minimal tokenization of the text is unique (so the most frequent pairs are \
         known for certain) and `texmo optimize -i SET -n k+1`; the result is compared with the best-known greedy merge; \
         non-trivial if a pair that can be merged occurs; distinct by (text, set)",
    );
    let cases = if ctx.rep.thorough { 24 } else { 4 };
    ctx.rep.run("fragments", cases, 0.4, |i, r, dir| bpe_fragments(ctx, i, r, dir));
    let max = if ctx.rep.thorough { 1_000_000 } else { 4000 };
    ctx.rep.run("random", max, 1.0, |_, r, dir| {
        let mt = *r.pick(&[20usize, 60, 150, 400]);
        // long tokens, many tokens
        let deep = r.chance(1, 3);
        let mut have = vec![];
        let mut text = if deep {
            let (t, h) = long_units(r);
            have = h;
            t
        } else if r.chance(2, 5) {
            near_ties(r)
        } else {
            opt_text(ctx, r, mt)
        };
        if text.is_empty() {
            text.push_str("ab");
        }
        if r.chance(1, if deep { 2 } else { 3 }) {
            // some characters become line ends and the like
            let all: Vec<char> = text.chars().filter(|c| !c.is_ascii_punctuation()).collect();
            for _ in 0..r.range(1, 3) {
                if all.is_empty() {
                    break;
                }
                let from = *r.pick(&all);
                let to = *r.pick(&["\n", "\n", "\n", "\t", " ", "\r", "0", "é", "\u{16}", "\u{0}"]);
                text = text.replace(from, to);
                for h in have.iter_mut() {
                    let s: Vec<u8> = String::from_utf8_lossy(h).replace(from, to).into_bytes();
                    *h = s;
                }
            }
            have.sort();
            have.dedup();
            have.retain(|h| h.len() > 1);
            ctx.rep.count("texts with exchanged characters", 1);
        }
        let mut set = TSet {
            ttype: TType::Bytes,
            processing: "raw".into(),
            split: Some(true),
            tokens: (0..=255u8).map(|b| Tok::Str(vec![b])).collect(),
            seqs: vec![],
        };
        set.tokens.extend(have.into_iter().map(Tok::Str));
        let data = text.as_bytes();
        // grow the base with random frequent pairs
        let grow = if deep { r.range(5, 40) } else { r.skewed(8) };
        let top = if deep { r.range(1, 2) } else { 4 };
        for _ in 0..grow {
            match pairs_of_unique(&set, data) {
                Some(p) if !p.is_empty() => {
                    let mut v: Vec<_> = p.into_iter().collect();
                    v.sort();
                    v.sort_by_key(|x| std::cmp::Reverse(x.1));
                    let same = v[0].0[..v[0].0.len() / 2] == v[0].0[v[0].0.len() / 2..];
                    if deep && (v[0].0.len() > 12 || same) && r.chance(1, 4) {
                        // the next merge is that of two long tokens, or of a token with itself
                        break;
                    }
                    if deep && v[0].0.len() > 3 && v[0].0[1..v[0].0.len() - 1].contains(&b'\n') && r.chance(1, 3) {
                        // ... or a token with a line end inside
                        break;
                    }
                    let k = r.below(v.len().min(top));
                    set.tokens.push(Tok::Str(v[k].0.clone()));
                }
                _ => break,
            }
        }
        if deep {
            // Only tokens that are of use: the optimizer will not swap them.
            let trie = Trie::new(set.spans());
            let (edges, ways) = trie.minimal_edges(data, 3);
            let mut used: HashSet<Vec<u8>> = HashSet::new();
            let mut pos = 0;
            while ways == 1 && pos < data.len() {
                let s = &trie.spans[edges[pos][0]].0;
                pos += s.len();
                used.insert(s.clone());
            }
            set.tokens.retain(|t| matches!(t, Tok::Str(s) if s.len() == 1 || used.contains(s)));
        }
        let pairs = match pairs_of_unique(&set, data) {
            Some(p) => p,
            None => {
                ctx.rep.count("bases skipped because their minimal tokenization is not unique", 1);
                return;
            }
        };
        let base_cost = Trie::new(set.spans()).min_cost(data).unwrap();
        let best = pairs.values().copied().max().unwrap_or(0);
        let mut bound = if best == 0 { base_cost } else { 0 };
        for (p, n) in &pairs {
            if *n == best {
                let mut s = set.spans();
                s.push((p.clone(), 1));
                bound = bound.max(Trie::new(s).min_cost(data).unwrap());
            }
        }
        let c = Case {
            text: text.clone(),
            processing: "raw",
            ttype: TType::Bytes,
            n: set.tokens.len() + 1,
            input: Some(set.clone()),
            processed: None,
            min_size: None,
            raw_len: None,
        };
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let mut cli = ctx.cli.clone();
        cli.cpu = if ctx.rep.thorough { 30 } else { 5 };
        let run = c.run_with(&cli, dir, &out);
        let files = c.files();
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        if !must_succeed(ctx, &run, &c.describe(), &fs) {
            return;
        }
        match single_output(&out) {
            Ok(o) => {
                let got = Trie::new(o.set.spans()).min_cost(data).unwrap_or(u64::MAX);
                let longest = set.strs().map(|s| s.len()).max().unwrap_or(0);
                ctx.rep.count("bases with a token of 9 bytes or more", (longest > 8) as u64);
                ctx.rep.count("most frequent pairs considered", pairs.values().filter(|n| **n == best).count() as u64);
                ctx.rep.count("tokens saved by greedy merges", base_cost - bound.min(base_cost));
                ctx.rep.case(&(&text, set.canon()), best > 0, || format!("{}: {} tokens, greedy merge gives {}, optimizer {}", c.describe(), base_cost, bound, got));
                if got > bound {
                    ctx.rep.violation(
                        "worse-than-greedy",
                        &format!("{}\nthe input set needs {} tokens, with a most frequent pair (count {}) at most {}, the result {}", c.describe(), base_cost, best, bound, got),
                        &fs,
                    );
                }
            }
            Err(e) => ctx.rep.violation("output", &format!("{}\n{}", c.describe(), e), &fs),
        }
    });
}

/// Data of several mebibytes, whose parts have different favourite pairs: the
/// pair to merge is the most frequent one of all the data. That pair is not
/// the most frequent one of any part.
fn bpe_fragments(ctx: &Ctx, i: u64, r: &mut Rng, dir: &Path) {
    let mut letters: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    r.shuffle(&mut letters);
    // Two of three are so big that they are tokenized in parallel.
    let (parts, size) = if i % 3 == 0 { (r.range(2, 5), r.range(700_000, 1_200_000)) } else { (r.range(3, 4), r.range(16_800_000, 17_500_000)) };
    // Every part has a pair of its own; the last one is at home everywhere.
    let unit = |k: usize| [letters[2 * k], letters[2 * k + 1]];
    let fill: Vec<char> = letters[2 * parts + 4..].to_vec();
    // Of 40 units of a part this many are its own pair, this many the common one.
    let own = r.range(12, 22);
    let common = own * 9 / (8 * parts) + 1 + r.below(own / 12 + 1);
    let mut text = String::new();
    for k in 0..parts {
        let end = text.len() + size;
        let mut at = 0;
        while text.len() < end {
            let n = r.below(40);
            if n < own {
                text.extend(unit(k));
            } else if n < own + common {
                text.extend(unit(parts));
            } else if i % 2 == 1 && n > 36 {
                text.extend(unit(parts + 1));
            } else {
                text.push(fill[r.below(fill.len())]);
            }
            at += 1;
            if at % 97 == 0 {
                text.push_str("\n\n");
            }
        }
    }
    let mut set = TSet {
        ttype: TType::Bytes,
        processing: "raw".into(),
        split: Some(true),
        tokens: (0..=255u8).map(|b| Tok::Str(vec![b])).collect(),
        seqs: vec![],
    };
    if i % 2 == 1 {
        // a token that is of use and that no other can replace
        set.tokens.push(Tok::Str(unit(parts + 1).iter().map(|c| *c as u8).collect()));
    }
    let data = text.as_bytes();
    // The only minimal tokenization: that token wherever it fits, as its
    // characters occur nowhere else, and single bytes.
    let joined = unit(parts + 1).map(|c| c as u8);
    let mut pairs: HashMap<Vec<u8>, u64> = HashMap::new();
    let mut counts = vec![0u64; 257 * 257];
    let (mut pos, mut prev) = (0, None);
    while pos < data.len() {
        let t = if i % 2 == 1 && data[pos..].starts_with(&joined) { 256 } else { data[pos] as usize };
        pos += 1 + (t == 256) as usize;
        if let Some(p) = prev {
            counts[p * 257 + t] += 1;
        }
        prev = Some(t);
    }
    let spell = |t: usize| if t == 256 { joined.to_vec() } else { vec![t as u8] };
    for (k, n) in counts.into_iter().enumerate() {
        let s = [spell(k / 257), spell(k % 257)].concat();
        if n > 0 && !crosses_paragraph(&s) {
            pairs.insert(s, n);
        }
    }
    let mut v: Vec<_> = pairs.into_iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    if v.len() < 2 || v[0].1 < v[1].1 + 1000 {
        ctx.rep.count("texts in parts skipped: no clear favourite", 1);
        return;
    }
    let base_cost = Trie::new(set.spans()).min_cost(data).unwrap();
    let mut s = set.spans();
    s.push((v[0].0.clone(), 1));
    // Pairs that two pieces of the file share need not be merged.
    let bound = Trie::new(s).min_cost(data).unwrap() + 100;
    let n = set.tokens.len() + 1;
    // No sample is taken of less data than that: it is read in pieces of 16 MiB
    // instead of 1 MiB.
    let min_size = if i % 3 == 2 || r.chance(1, 2) { Some(text.len() + 1 + r.below(1000)) } else { None };
    let c = Case { text, processing: "raw", ttype: TType::Bytes, n, input: Some(set), processed: None, min_size, raw_len: None };
    let out = dir.join("out");
    std::fs::create_dir_all(&out).unwrap();
    let mut cli = ctx.cli.clone();
    cli.cpu = 60;
    let run = c.run_with(&cli, dir, &out);
    let what = format!("a text of {} parts and {} bytes, -n {}", parts, c.text.len(), n);
    if !must_succeed(ctx, &run, &what, &[]) {
        return;
    }
    match single_output(&out) {
        Ok(o) => {
            let got = Trie::new(o.set.spans()).min_cost(c.text.as_bytes()).unwrap_or(u64::MAX);
            ctx.rep.count("texts in parts with different favourites", 1);
            ctx.rep.case(&(&c.text, n), true, || format!("{}: {} tokens, greedy merge gives {}, optimizer {}", what, base_cost, bound, got));
            if got > bound {
                ctx.rep.violation(
                    "worse-than-greedy",
                    &format!("{}\nthe input set needs {} tokens, with the most frequent pair {:?} (count {}) {}, the result {}", what, base_cost, String::from_utf8_lossy(&v[0].0), v[0].1, bound, got),
                    &[("data.txt", c.text.as_bytes()), ("result.json", &o.bytes)],
                );
            }
        }
        Err(e) => ctx.rep.violation("output", &format!("{}\n{}", what, e), &[]),
    }
}

/// Counts of the pairs of adjacent tokens that may be merged, if there is only
/// one minimal tokenization.
fn pairs_of_unique(set: &TSet, data: &[u8]) -> Option<HashMap<Vec<u8>, u64>> {
    let trie = Trie::new(set.spans());
    let (edges, ways) = trie.minimal_edges(data, 3);
    if ways != 1 && !data.is_empty() {
        return None;
    }
    let mut counts = HashMap::new();
    let mut pos = 0;
    let mut prev: Option<usize> = None;
    while pos < data.len() {
        let e = edges[pos][0];
        if let Some(p) = prev {
            let s = [trie.spans[p].0.as_slice(), trie.spans[e].0.as_slice()].concat();
            if !crosses_paragraph(&s) {
                // Two pairs can spell the same string; the optimizer counts
                // them separately, so key by the pair.
                *counts.entry((p, e)).or_insert(0u64) += 1;
            }
        }
        prev = Some(e);
        pos += trie.spans[e].0.len();
    }
    // Keep the highest count per string: a lower bound on what is called the
    // most frequent pair.
    let mut out: HashMap<Vec<u8>, u64> = HashMap::new();
    for ((a, b), n) in counts {
        let s = [trie.spans[a].0.as_slice(), trie.spans[b].0.as_slice()].concat();
        let x = out.entry(s).or_insert(0);
        *x = (*x).max(n);
    }
    Some(out)
}

/// C14 on the command line: if the result has no long tokens, its byte tokens
/// are the most frequent bytes.
pub fn bytes_only(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of `texmo optimize` with a size that leaves room for a few byte tokens, on text without useful pairs; if \
         the result has no longer tokens, byte counts are checked; non-trivial if it has none and at least one byte token; distinct \
         by (text, options)",
    );
    let cases = if ctx.rep.thorough { 12 } else { 2 };
    ctx.rep.run("parts", cases, 0.4, |i, r, dir| bytes_parts(ctx, i, r, dir));
    let max = if ctx.rep.thorough { 1_000_000 } else { 3000 };
    ctx.rep.run("cli", max, 1.0, |_, r, dir| {
        let ttype = *r.pick(&[TType::Bits1, TType::Bits2, TType::Bits4, TType::Huff]);
        let k = r.range(2, 60);
        let al: Vec<u8> = (0..k).map(|_| (33 + r.below(94)) as u8).collect();
        let n = r.skewed(3000);
        // skewed, independent characters: pairs are rarer than bytes
        let text: String = (0..n).map(|_| al[r.below(r.clone().below(k) + 1)] as char).collect();
        let room = if r.chance(1, 3) { 40 } else { 12 };
        let c = Case {
            text,
            processing: "raw",
            ttype,
            n: min_n(ttype) + r.below(room),
            input: None,
            processed: None,
            min_size: None,
            raw_len: None,
        };
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let run = c.run(ctx, dir, &out);
        let files = c.files();
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        if !must_succeed(ctx, &run, &c.describe(), &fs) {
            return;
        }
        let o = match single_output(&out) {
            Ok(o) => o,
            Err(e) => {
                ctx.rep.violation("output", &format!("{}\n{}", c.describe(), e), &fs);
                return;
            }
        };
        let tokens: Vec<u8> = o.set.strs().filter(|s| s.len() == 1).map(|s| s[0]).collect();
        let fit = o.set.n_long() == 0;
        ctx.rep.count("results without longer tokens", fit as u64);
        ctx.rep.case(&(&c.text, ttype.json_name(), c.n), fit && !tokens.is_empty(), || format!("{} -> byte tokens {:?}", c.describe(), tokens.iter().map(|b| *b as char).collect::<String>()));
        if let Err(e) = o.set.validate() {
            ctx.rep.violation("invalid-set", &format!("{}\n{}", c.describe(), e), &fs);
            return;
        }
        if !fit {
            return;
        }
        let h = byte_hist(c.text.as_bytes());
        let cnt = |b: u8| h.get(&b).copied().unwrap_or(0);
        // In the bits types one token for a more frequent byte always pays, so
        // the final set must be in order. (The Huffman codes are heuristic: a
        // set made while there were longer tokens may stay.)
        if ttype != TType::Huff {
            let min_in = tokens.iter().map(|b| cnt(*b)).min().unwrap_or(u64::MAX);
            let max_out = (0..=255u8).filter(|b| !tokens.contains(b)).map(cnt).max().unwrap_or(0);
            if max_out > min_in {
                ctx.rep.violation("order", &format!("{}\na byte with its own token occurs {} times, one without {} times", c.describe(), min_in, max_out), &fs);
            }
        }
    });
}

/// A text of 50 MiB of independent characters, each third with other favourites:
/// what counts is how often a byte occurs in all of it.
fn bytes_parts(ctx: &Ctx, i: u64, r: &mut Rng, dir: &Path) {
    let ttype = [TType::Bits4, TType::Bits2, TType::Huff, TType::Bits1][i as usize % 4];
    let mut letters: Vec<u8> = (b'!'..=b'~').collect();
    r.shuffle(&mut letters);
    let parts = 3;
    // In 240 characters a part has so many of each of its own and of each common one.
    let own = r.range(18, 24);
    let common = own * 9 / 24 + 1;
    let mut text: Vec<u8> = vec![];
    for k in 0..parts {
        let mut bag: Vec<u8> = vec![];
        for j in 0..3 {
            bag.extend(std::iter::repeat(letters[3 * k + j]).take(own - j));
            bag.extend(std::iter::repeat(letters[9 + j]).take(common + j));
        }
        while bag.len() < 240 {
            bag.push(letters[12 + r.below(letters.len() - 12)]);
        }
        let end = text.len() + r.range(16_800_000, 17_200_000);
        while text.len() < end {
            for _ in 0..4000 {
                text.push(*r.pick(&bag));
            }
            text.extend(b"\n\n");
        }
    }
    let n = min_n(ttype) + if ttype == TType::Huff { 4 } else { r.range(2, 4) };
    let min_size = Some(text.len() + 1 + r.below(1000));
    let h = byte_hist(&text);
    let c = Case { text: String::from_utf8(text).unwrap(), processing: "raw", ttype, n, input: None, processed: None, min_size, raw_len: None };
    let out = dir.join("out");
    std::fs::create_dir_all(&out).unwrap();
    let mut cli = ctx.cli.clone();
    cli.cpu = 300;
    let run = c.run_with(&cli, dir, &out);
    let what = format!("a text of {} bytes in three different parts, {} -n {}", c.text.len(), ttype.json_name(), n);
    if run.outcome == mon::cli::Outcome::CpuLimit {
        ctx.rep.count("runs given up: out of CPU time", 1);
        return;
    }
    if !must_succeed(ctx, &run, &what, &[]) {
        return;
    }
    let o = match single_output(&out) {
        Ok(o) => o,
        Err(e) => {
            ctx.rep.violation("output", &format!("{}\n{}", what, e), &[]);
            return;
        }
    };
    let tokens: Vec<u8> = o.set.strs().filter(|s| s.len() == 1).map(|s| s[0]).collect();
    let fit = o.set.n_long() == 0 && ttype != TType::Huff;
    ctx.rep.count("texts in parts with different favourites", fit as u64);
    ctx.rep.case(&(&c.text, n), fit, || format!("{} -> byte tokens {:?}", what, tokens.iter().map(|b| *b as char).collect::<String>()));
    let cnt = |b: u8| h.get(&b).copied().unwrap_or(0);
    let min_in = tokens.iter().map(|b| cnt(*b)).min().unwrap_or(u64::MAX);
    let max_out = (0..=255u8).filter(|b| !tokens.contains(b)).map(cnt).max().unwrap_or(0);
    if fit && max_out > min_in {
        ctx.rep.violation("order", &format!("{}\na byte with its own token occurs {} times, one without {} times", what, min_in, max_out), &[("result.json", &o.bytes)]);
    }
}

/// Splits a text into paragraphs: each ends with the run of newlines after it.
pub fn paragraphs_of(data: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    for &b in data {
        if b != 10 && cur.ends_with(&[10, 10]) {
            out.push(std::mem::take(&mut cur));
        }
        cur.push(b);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// C17 on the command line.
pub fn sample_size(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of `texmo optimize --min-data-size M`; every announced sample size is compared with the requested one; \
         non-trivial if a sample smaller than the file was drawn; distinct by (text, M)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 2500 };
    ctx.rep.run("cli", max, if ctx.rep.thorough { 0.6 } else { 0.6 }, |_, r, dir| {
        let max_text = *r.pick(&[50usize, 500, 3000]);
        let text = if r.chance(1, 2) { gen::paragraphs(r, max_text, &ctx.corpus) } else { opt_text(ctx, r, max_text) };
        if text.len() < 2 {
            return;
        }
        let m = if r.chance(1, 4) { r.range(1, 3.min(text.len())) } else { 1 + r.below(text.len()) };
        let m = m.max(text.len() / 200);
        let c = Case { text, processing: "raw", ttype: TType::Bits1, n: 2, input: None, processed: None, min_size: Some(m), raw_len: None };
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let run = c.run(ctx, dir, &out);
        let files = c.files();
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        if !must_succeed(ctx, &run, &c.describe(), &fs) {
            return;
        }
        let so = String::from_utf8_lossy(&run.stdout).to_string();
        let sizes: Vec<i64> = so
            .lines()
            .filter_map(|l| l.strip_prefix("Optimizing with ")?.strip_suffix(" bytes of data.")?.parse().ok())
            .collect();
        let longest = paragraphs_of(c.text.as_bytes()).iter().map(|p| p.len()).max().unwrap_or(0) as i64;
        ctx.rep.count("samples announced", sizes.len() as u64);
        ctx.rep.case(&(&c.text, m), !sizes.is_empty(), || format!("{} -> samples of {:?} bytes", c.describe(), sizes));
        let mut want = m as i64;
        for s in &sizes {
            if (s - want).abs() > longest {
                ctx.rep.violation("sample-size", &format!("{}\na sample of {} bytes was requested and {} drawn; the longest paragraph has {}", c.describe(), want, s, longest), &fs);
                return;
            }
            want *= 2;
        }
    });
}

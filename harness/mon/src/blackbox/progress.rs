//! C29: what the commands announce on standard output while they run.
use crate::opt::{opt_case, Case};
use crate::util::*;
use crate::Ctx;
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::tset::{digits, TSet, TType, Tok, ALL_TYPES};
use std::collections::BTreeSet;

#[derive(Debug)]
enum Event {
    /// Optimizing with N bytes of data.
    Sample(u64),
    /// Optimizing with the full data.
    Full,
    /// Initial tokens: N, bytes/token = x
    Initial(usize, f64),
    /// removed -> added
    Change(Vec<Tok>, Vec<Tok>),
    /// processed bytes / token: x
    Step(f64),
    /// bytes / token (optimized): x
    SampleResult(f64),
    /// bytes / token (full data): x
    FullResult(f64),
    /// bytes / token (bigger data): x
    Bigger(f64),
    /// Writing the token set to F.
    Writing(String),
    /// Optimizing a token set with N tokens from data in F
    Request(u64),
    Stopping,
}

/// A string as Rust's {:?} shows it, from its opening quote; returns the rest.
fn parse_quoted(s: &str) -> Option<(Vec<u8>, &str)> {
    let mut out = String::new();
    let mut it = s.strip_prefix('"')?.char_indices();
    let body = &s[1..];
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((out.into_bytes(), &body[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'r' => out.push('\r'),
                '0' => out.push('\0'),
                'u' => {
                    if it.next()?.1 != '{' {
                        return None;
                    }
                    let mut v = 0u32;
                    loop {
                        match it.next()?.1 {
                            '}' => break,
                            d => v = v.checked_mul(16)? + d.to_digit(16)?,
                        }
                    }
                    out.push(char::from_u32(v)?);
                }
                c @ ('\\' | '"' | '\'') => out.push(c),
                _ => return None,
            },
            c => out.push(c),
        }
    }
    None
}

fn parse_tok(s: &str) -> Option<(Tok, &str)> {
    match s.chars().next()? {
        '"' => parse_quoted(s).map(|(v, r)| (Tok::Str(v), r)),
        '[' => {
            let end = s.find(']')?;
            let v: Option<Vec<u8>> = s[1..end].split(", ").map(|x| x.parse().ok()).collect();
            Some((Tok::Str(v?), &s[end + 1..]))
        }
        _ => {
            let end = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
            Some((Tok::Ext(s[..end].parse().ok()?), &s[end..]))
        }
    }
}

/// A line of the form `a b -> c d`.
fn parse_change(line: &str) -> Option<(Vec<Tok>, Vec<Tok>)> {
    let (mut removed, mut added) = (Vec::new(), Vec::new());
    let mut arrow = false;
    let mut s = line;
    loop {
        s = s.trim_start_matches(' ');
        if s.is_empty() {
            break;
        }
        if !arrow && (s == "->" || s.starts_with("-> ")) {
            arrow = true;
            s = &s[2..];
            continue;
        }
        let (t, rest) = parse_tok(s)?;
        if !rest.is_empty() && !rest.starts_with(' ') {
            return None;
        }
        if arrow { &mut added } else { &mut removed }.push(t);
        s = rest;
    }
    arrow.then_some((removed, added))
}

fn parse(stdout: &str) -> Vec<Event> {
    let mut v = Vec::new();
    for l in stdout.split('\n') {
        let num = |p: &str| l.strip_prefix(p).and_then(|x| x.trim().parse::<f64>().ok());
        if let Some(n) = l.strip_prefix("Optimizing with ").and_then(|x| x.strip_suffix(" bytes of data.")).and_then(|x| x.parse().ok()) {
            v.push(Event::Sample(n));
        } else if l == "Optimizing with the full data." {
            v.push(Event::Full);
        } else if let Some(x) = l.strip_prefix("Initial tokens: ") {
            if let Some((n, x)) = x.split_once(", bytes/token = ") {
                if let (Ok(n), Ok(x)) = (n.parse(), x.parse()) {
                    v.push(Event::Initial(n, x));
                }
            }
        } else if let Some(x) = num("processed bytes / token: ") {
            v.push(Event::Step(x));
        } else if let Some(x) = num("bytes / token (optimized): ") {
            v.push(Event::SampleResult(x));
        } else if let Some(x) = num("bytes / token (full data): ") {
            v.push(Event::FullResult(x));
        } else if let Some(x) = num("bytes / token (bigger data): ") {
            v.push(Event::Bigger(x));
        } else if let Some(x) = l.strip_prefix("Writing the token set to ").and_then(|x| x.strip_suffix('.')) {
            v.push(Event::Writing(x.to_string()));
        } else if let Some(x) = l.strip_prefix("Optimizing a token set with ").and_then(|x| x.split(' ').next()).and_then(|x| x.parse().ok()) {
            v.push(Event::Request(x));
        } else if l.contains("Stopping.") {
            v.push(Event::Stopping);
        } else if l.contains("->") {
            if let Some((a, b)) = parse_change(l) {
                v.push(Event::Change(a, b));
            }
        }
    }
    v
}

/// The set of these tokens, if the rest follows from the type.
fn set_of(c: &Case, toks: &BTreeSet<Tok>) -> Option<TSet> {
    let mut s = TSet { ttype: c.ttype, processing: c.processing.to_string(), split: Some(true), tokens: toks.iter().cloned().collect(), seqs: vec![] };
    match c.ttype {
        TType::Huff => return None,
        TType::Bytes => {}
        t => {
            for b in 0..=255u8 {
                if !s.has_byte(b) {
                    s.seqs.push((vec![b], digits(b, t.bits().unwrap())));
                }
            }
        }
    }
    Some(s)
}

fn show(t: &BTreeSet<Tok>) -> String {
    let v: Vec<String> = t
        .iter()
        .filter_map(|t| match t {
            Tok::Str(s) if s.len() > 1 => Some(format!("{:?}", String::from_utf8_lossy(s))),
            _ => None,
        })
        .collect();
    format!("{} tokens, of these {}", t.len(), v.join(" "))
}

/// Follows the report back from the set that was written.
fn judge(ctx: &Ctx, c: &Case, events: &[Event], end: &TSet, total: u64) -> Result<usize, String> {
    let data = c.data();
    let last: BTreeSet<Tok> = end.tokens.iter().cloned().collect();
    // The set at hand after each event.
    let mut after: Vec<BTreeSet<Tok>> = vec![BTreeSet::new(); events.len()];
    let mut cur = last.clone();
    for (i, e) in events.iter().enumerate().rev() {
        after[i] = cur.clone();
        if let Event::Change(removed, added) = e {
            for t in added {
                if !cur.remove(t) {
                    return Err(format!("the report says that {:?} was added by change {}, but it is not in the set then:\n{}", t, i, show(&after[i])));
                }
            }
            for t in removed {
                if !cur.insert(t.clone()) {
                    return Err(format!("the report says that {:?} was removed by change {}, but it is still in the set:\n{}", t, i, show(&after[i])));
                }
            }
        }
    }
    let agree = |x: f64, bytes: usize, tokens: u64| {
        let want = bytes as f64 / tokens as f64;
        (x - want).abs() <= 1e-9 * want.max(1.0)
    };
    // Equal tokens may go with other sequences in the Huffman type.
    let last_change = events.iter().rposition(|e| matches!(e, Event::Change(..))).unwrap_or(0);
    let cost = |i: usize, t: &BTreeSet<Tok>| -> Result<Option<u64>, String> {
        if *t == last && (c.ttype != TType::Huff || i >= last_change) {
            return Ok(Some(total));
        }
        match set_of(c, t) {
            None => Ok(None),
            Some(s) => Trie::new(s.spans()).min_cost(&data).map(Some).ok_or_else(|| format!("the set at hand according to the report cannot encode the text: {}", show(t))),
        }
    };
    let mut sample: Option<u64> = None;
    let mut started = false;
    let mut before: Option<(usize, f64)> = None;
    let mut change: Option<usize> = None;
    let mut values = 0;
    for (i, e) in events.iter().enumerate() {
        let at = &after[i];
        // a value for the data at hand
        let now = match e {
            Event::Initial(_, x) | Event::Step(x) | Event::SampleResult(x) | Event::Bigger(x) => Some(*x),
            _ => None,
        };
        if let Some(x) = now {
            values += 1;
            if let Some(n) = sample {
                let t = n as f64 / x;
                if n > 0 && x.is_finite() && ((t - t.round()).abs() > 1e-6 * t.max(1.0) || t.round() < 1.0) {
                    return Err(format!("{:?}: a sample of {} bytes would have {} tokens", e, n, t));
                }
            } else if let Some(t) = cost(i, at)? {
                if !agree(x, data.len(), t) {
                    return Err(format!(
                        "{:?} (event {}): the set at hand needs {} tokens for {} bytes, that is {} bytes per token\n{}",
                        e, i, t, data.len(), data.len() as f64 / t as f64, show(at)
                    ));
                }
            }
        }
        match e {
            Event::Request(n) if *n != c.n as u64 => return Err(format!("a set of {} tokens is announced, {} were requested", n, c.n)),
            Event::Sample(n) => {
                sample = Some(*n);
                before = None;
            }
            Event::Full => {
                sample = None;
                before = None;
            }
            Event::Initial(n, x) => {
                if *n != at.len() {
                    return Err(format!("{:?} (event {}): the report starts with {} tokens, but counted back from the result there are {}\n{}", e, i, n, at.len(), show(at)));
                }
                if !started {
                    let want: Option<BTreeSet<Tok>> = match (&c.input, c.ttype) {
                        (Some(s), _) => Some(s.tokens.iter().cloned().collect()),
                        (None, TType::Huff) => None,
                        (None, TType::Bytes) => Some((0..=255u8).map(|b| Tok::Str(vec![b])).collect()),
                        (None, t) => Some((0..1u8 << t.bits().unwrap()).map(Tok::Ext).collect()),
                    };
                    if want.as_ref().map_or(false, |w| w != at) {
                        return Err(format!("counted back from the result, the announced changes do not start with the initial set but with\n{}", show(at)));
                    }
                    started = true;
                }
                before = Some((at.len(), *x));
                change = None;
            }
            Event::Change(..) => {
                if change.is_some() {
                    return Err(format!("two changes (the second is event {}) without the bytes per token between them", i));
                }
                if at.len() > c.n {
                    return Err(format!("after change {} there are {} tokens, {} were requested", i, at.len(), c.n));
                }
                change = Some(i);
            }
            Event::Step(x) => {
                if change.is_none() {
                    return Err(format!("event {} announces bytes per token without a change", i));
                }
                if let Some((n, y)) = before {
                    if n >= at.len() && !(*x > y) {
                        return Err(format!("{:?} (event {}): a change that adds no token makes {} bytes per token of {}\n{}", e, i, x, y, show(at)));
                    }
                }
                before = Some((at.len(), *x));
                change = None;
            }
            Event::SampleResult(x) => {
                if let Some((_, y)) = before {
                    if y != *x {
                        return Err(format!("{:?} (event {}): the last value on the sample was {}", e, i, y));
                    }
                }
            }
            Event::FullResult(x) => {
                values += 1;
                if let Some(t) = cost(i, at)? {
                    if !agree(*x, data.len(), t) {
                        return Err(format!("{:?} (event {}): the set at hand needs {} tokens for {} bytes\n{}", e, i, t, data.len(), show(at)));
                    }
                }
            }
            _ => {}
        }
    }
    ctx.rep.count("changes followed", events.iter().filter(|e| matches!(e, Event::Change(..))).count() as u64);
    ctx.rep.count("values recomputed", values as u64);
    Ok(values)
}

pub fn progress(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of `texmo optimize` or `convert-tokens` whose standard output is followed event by event: the changes lead \
         back from the set that was written to the set it started from, and the bytes per token are recomputed for each set on the way; \
         non-trivial if there are at least three values to check; distinct by (text, options)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 4000 };
    let max_text = if ctx.rep.thorough { 5000 } else { 1200 };
    ctx.rep.run("convert", max / 8, 0.1, |i, r, dir| {
        let ttype = ALL_TYPES[i as usize % 5];
        let processing = if r.chance(1, 3) { "capswords" } else { "raw" };
        let text = gen::clean_for_processing(&gen::text(r, 300, &ctx.corpus));
        let set = gen::small_set(r, ttype, processing, text.as_bytes(), &SetOpts { max_long: 8, shuffle: true, multi_seqs: true });
        let (d, s, out) = (dir.join("data.txt"), dir.join("set.json"), crate::util::dir(dir.join("out")));
        write(&d, text.as_bytes());
        write(&s, set.to_json().to_string().as_bytes());
        let run = run_convert(&ctx.cli, dir, &d, None, &s, &out);
        let files: [(&str, &[u8]); 1] = [("data.txt", text.as_bytes())];
        if !must_succeed(ctx, &run, &gen::describe(&set), &files) {
            return;
        }
        let so = String::from_utf8_lossy(&run.stdout).to_string();
        let want = out.join(format!("{}.json", set.name()));
        let mut seen = 0;
        for l in so.lines() {
            let e = if let Some(x) = l.strip_prefix("Writing the token set to ").and_then(|x| x.strip_suffix('.')) {
                (std::path::Path::new(x) != want).then(|| format!("announced: {}\nwritten: {}", x, want.display()))
            } else if let Some(x) = l.strip_prefix("Tokenizing ").and_then(|x| x.strip_suffix('.')).and_then(|x| x.rsplit(" using token set ").next()) {
                (x != set.name()).then(|| format!("announced: {}\nname: {}", x, set.name()))
            } else {
                continue;
            };
            seen += 1;
            if let Some(e) = e {
                ctx.rep.violation("announced", &format!("{}\n{}", run.cmd, e), &[files[0], ("stdout.txt", &run.stdout)]);
                return;
            }
        }
        ctx.rep.case(&(&text, set.canon()), false, || format!("convert-tokens of {}: {} announcements", gen::describe(&set), seen));
    });
    ctx.rep.run("optimize", max, 1.0, |i, r, dir| {
        let mt = if r.chance(1, 8) { max_text } else { max_text / 4 };
        let c = opt_case(ctx, r, i, mt, true, true);
        let out = crate::util::dir(dir.join("out"));
        let mut cli = ctx.cli.clone();
        cli.cpu = if ctx.rep.thorough { 10 } else { 5 };
        let run = c.run_with(&cli, dir, &out);
        if run.outcome == mon::cli::Outcome::CpuLimit {
            ctx.rep.count("runs given up for lack of CPU time", 1);
            return;
        }
        let files = c.files();
        let mut fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        if !must_succeed(ctx, &run, &c.describe(), &fs) {
            return;
        }
        let o = match single_output(&out) {
            Ok(o) => o,
            Err(e) => {
                ctx.rep.violation("output", &format!("{}\n{}", run.cmd, e), &fs);
                return;
            }
        };
        fs.push(("result.json", &o.bytes));
        fs.push(("stdout.txt", &run.stdout));
        let data = c.data();
        if data.is_empty() {
            return;
        }
        let so = String::from_utf8_lossy(&run.stdout).to_string();
        let events = parse(&so);
        if !events.iter().any(|e| matches!(e, Event::Initial(..))) {
            ctx.rep.count("runs without a report that is understood", 1);
            return;
        }
        let total = match Trie::new(o.set.spans()).min_cost(&data) {
            Some(t) => t,
            None => return,
        };
        let mut e = judge(ctx, &c, &events, &o.set, total);
        let name = out.join(format!("{}.json", o.set.name()));
        if let Some(Event::Writing(p)) = events.iter().rev().find(|e| matches!(e, Event::Writing(_))) {
            if std::path::Path::new(p) != name {
                e = Err(format!("announced: {}\nwritten: {}", p, name.display()));
            }
        }
        match e {
            Ok(values) => {
                if events.iter().any(|e| matches!(e, Event::Sample(_))) {
                    ctx.rep.count("runs with samples", 1);
                }
                ctx.rep.case(&(&c.text, c.ttype.json_name(), c.n, c.processing, &c.min_size, &c.input.as_ref().map(|s| s.canon())), values >= 3, || {
                    format!("{}: {} events", c.describe(), events.len())
                })
            }
            Err(e) => ctx.rep.violation("report", &format!("{}\n{}\n{}", c.describe(), run.cmd, e), &fs),
        }
    });
}

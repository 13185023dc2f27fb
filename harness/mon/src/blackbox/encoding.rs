//! C30: data that is not UTF-8.
use crate::util::*;
use crate::Ctx;
use mon::cli::{path_str, Outcome};
use mon::gen;
use mon::rng::Rng;
use mon::tset::{TType, ALL_TYPES};

const KINDS: usize = 8;

/// Bytes that cannot be part of UTF-8 text at `at` (if `at` is the end of the
/// file, it may be a character cut short).
fn damage(r: &mut Rng, kind: usize, text: &mut Vec<u8>, at: usize) -> &'static str {
    let pick = |r: &mut Rng, lo: u8, hi: u8| lo + r.below((hi - lo) as usize + 1) as u8;
    let cont = |r: &mut Rng| 0x80 + r.below(64) as u8;
    let (what, bytes): (&str, Vec<u8>) = match kind {
        0 => ("a continuation byte on its own", vec![cont(r)]),
        1 => ("a byte that never occurs", vec![pick(r, 0xf5, 0xff)]),
        2 => (
            "an overlong form",
            match r.below(4) {
                0 => vec![0xc0, cont(r)],
                1 => vec![0xc1, cont(r)],
                2 => vec![0xe0, pick(r, 0x80, 0x9f), cont(r)],
                _ => vec![0xf0, pick(r, 0x80, 0x8f), cont(r), cont(r)],
            },
        ),
        3 => ("a surrogate", vec![0xed, pick(r, 0xa0, 0xbf), cont(r)]),
        4 => ("a character beyond U+10FFFF", vec![0xf4, pick(r, 0x90, 0xbf), cont(r), cont(r)]),
        5 => ("a character cut short", cut_short(r)),
        6 => {
            // Latin-1
            ("a Latin-1 letter", vec![pick(r, 0xc0, 0xff), b'r'])
        }
        _ => {
            text.truncate(at);
            text.extend(cut_short(r));
            return "a character cut short by the end of the file";
        }
    };
    let tail = text.split_off(at);
    text.extend(bytes);
    if kind == 5 {
        text.push(b'.');
    }
    text.extend(tail);
    what
}

fn cut_short(r: &mut Rng) -> Vec<u8> {
    let c = *r.pick(&['é', 'Ж', '中', '€', '𝐚', '😀', '\u{7ff}', '\u{10ffff}']);
    let mut b = [0; 4];
    let s = c.encode_utf8(&mut b).as_bytes();
    s[..r.range(1, s.len() - 1)].to_vec()
}

fn char_start(t: &[u8], mut at: usize) -> usize {
    while at < t.len() && t[at] & 0xc0 == 0x80 {
        at += 1;
    }
    at
}

const MODES: usize = 10;
const NAMES: [&str; MODES] = [
    "process", "count-chars", "convert-tokens raw", "convert-tokens with processing", "convert-tokens --processed-data", "optimize raw",
    "optimize with processing", "optimize --processed-data", "optimize --min-data-size", "optimize --min-data-size --processed-data",
];

/// Runs one command on the data.
fn command(ctx: &Ctx, dir: &std::path::Path, mode: usize, data: &[u8], ttype: TType, n: usize, min: usize) -> mon::cli::Run {
    let (d, p, s, out) = (dir.join("data.txt"), dir.join("processed.txt"), dir.join("set.json"), dir.join("out"));
    let caps = matches!(mode, 3 | 4 | 6 | 7 | 9);
    let processed = matches!(mode, 4 | 7 | 9);
    let processing = if caps { "capswords" } else { "raw" };
    if processed {
        write(&d, b"a text\n");
        write(&p, data);
    } else {
        write(&d, data);
    }
    let pp = processed.then_some(p.as_path());
    let mut cli = ctx.cli.clone();
    cli.quiet = true;
    match mode {
        0 => cli.run(dir, &["process", "-d", path_str(&d), "-o", path_str(&dir.join("processed.out"))]),
        1 => cli.run(dir, &["count-chars", "-d", path_str(&d)]),
        2..=4 => {
            write(&s, gen::plain_set(ttype, processing).to_json().to_string().as_bytes());
            run_convert(&cli, dir, &d, pp, &s, &out)
        }
        _ => run_optimize(&cli, dir, &OptArgs { data: &d, processed: pp, out: &out, ttype, processing, n, input: None, min_size: (mode >= 8).then_some(min) }),
    }
}

fn one(ctx: &Ctx, r: &mut Rng, dir: &std::path::Path, mode: usize, text: Vec<u8>, at: usize, kind: usize, control: bool) {
    let mut ttype = *r.pick(&ALL_TYPES);
    if mode >= 2 && (mode - 2) % 3 != 0 && text.len() > 100_000 {
        ttype = TType::Bits4;
    }
    let big = text.len() > 100_000;
    if big {
        ttype = *r.pick(&[TType::Bits4, TType::Bytes]);
    }
    let n = min_n(ttype) + if big { 0 } else { r.below(4) };
    let min = (text.len() / 2).max(1);
    let out = dir.join("out");
    if control {
        std::fs::create_dir_all(&out).unwrap();
        let run = command(ctx, dir, mode, &text, ttype, n, min);
        if run.outcome == Outcome::CpuLimit {
            ctx.rep.count("runs given up", 1);
            return;
        }
        if !must_succeed(ctx, &run, &format!("{} on valid text", NAMES[mode]), &[("data.txt", if big { b"" } else { &text })]) {
            return;
        }
        ctx.rep.count("valid texts accepted", 1);
        let _ = std::fs::remove_dir_all(&out);
    }
    std::fs::create_dir_all(&out).unwrap();
    let mut bad = text;
    let len = bad.len();
    let what = damage(r, kind, &mut bad, at);
    if std::str::from_utf8(&bad).is_ok() {
        return;
    }
    // older results
    let names: Vec<String> = (0..2)
        .flat_map(|k| ["raw", "capswords"].map(|p| format!("tokens{}_{}_{}.json", min_n(ttype) + k, p, ttype.json_name())))
        .collect();
    let mut names = names;
    for p in ["raw", "capswords"] {
        names.push(format!("tokens{}_{}_{}.json", n, p, ttype.json_name()));
        names.push(format!("{}.json", gen::plain_set(ttype, p).name()));
    }
    names.sort();
    names.dedup();
    for x in &names {
        write(&out.join(x), b"older");
    }
    let run = command(ctx, dir, mode, &bad, ttype, n, min);
    let label = format!("{}, {} bytes of text with {} at byte {}", NAMES[mode], len, what, at);
    let files: Vec<(&str, &[u8])> = if big { vec![] } else { vec![("data.txt", &bad)] };
    match run.outcome {
        Outcome::Ok => {
            ctx.rep.violation("accepted", &format!("{}\n{}\nbut the command succeeded", label, run.cmd), &files);
        }
        Outcome::Failed(_) => {
            let now = mon::cli::json_files(&out);
            if now.len() != names.len() || names.iter().any(|x| std::fs::read(out.join(x)).map_or(true, |b| b != b"older")) {
                ctx.rep.violation("written", &format!("{}\n{}\nthe command failed, but changed the tokens directory", label, run.cmd), &files);
            }
        }
        Outcome::Hung => {
            ctx.rep.violation("hung", &format!("{}\n{}\nthe command does not end", label, run.cmd), &files);
        }
        _ => {
            ctx.rep.count("runs given up", 1);
            return;
        }
    }
    ctx.rep.see("commands and kinds of damage", &(mode, kind));
    if big {
        ctx.rep.count("files over 100 kB", 1);
    }
    ctx.rep.case(&(mode, &bad, ttype.json_name()), true, || format!("{} -> {:?}", label, run.outcome));
}

pub fn encoding(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of a command on data with one malformed UTF-8 sequence (8 kinds, anywhere in files of a few bytes to 40 MiB, \
         mostly around the sizes of buffers and fragments); it must end with an error and leave the tokens directory as it was; now and \
         then the undamaged text comes first and must be accepted; distinct by (command, data)",
    );
    // Big files first: they take longest.
    let max = if ctx.rep.thorough { 400 } else { 30 };
    ctx.rep.run("big", max, 0.45, |i, r, dir| {
        let limit = [8 << 10, 64 << 10, 1 << 20, 1 << 24][(i / 2) as usize % 4] as usize;
        let mode = if i % 10 < 2 { [2, 4][i as usize % 2] } else { (i * 7 + i / 10) as usize % MODES };
        let unit = match r.below(4) {
            0 => "no line end and no blank line, é 中 ".to_string(),
            1 => format!("{}\n\n", gen::word(r).repeat(r.range(1, 50))),
            _ => gen::paragraphs(r, 3000, &ctx.corpus),
        };
        let unit = gen::clean_for_processing(&unit) + "é.";
        let total = if i % 10 < 2 { (1 << 25) + r.below(1 << 22) } else { limit + r.range(10, 200_000) };
        let mut text = Vec::with_capacity(total + unit.len());
        while text.len() < total {
            text.extend_from_slice(unit.as_bytes());
        }
        let at = match r.below(3) {
            0 => limit.saturating_sub(r.below(6)),
            1 => limit + r.below(6),
            _ => r.below(text.len()),
        };
        let at = char_start(&text, at.min(text.len()));
        let kind = r.below(KINDS);
        if kind == KINDS - 1 && at < text.len() / 2 {
            return;
        }
        one(ctx, r, dir, mode, text, at, kind, false);
    });
    let max = if ctx.rep.thorough { 1_000_000 } else { 6000 };
    ctx.rep.run("small", max, 1.0, |i, r, dir| {
        let len = *r.pick(&[0usize, 5, 60, 700, 3000]);
        let mode = i as usize % MODES;
        let len = if mode >= 5 { len.min(200) } else { len };
        let text = gen::clean_for_processing(&gen::text(r, len, &ctx.corpus)).into_bytes();
        let at = match r.below(4) {
            0 => 0,
            1 => text.len(),
            _ => r.below(text.len() + 1),
        };
        let at = char_start(&text, at);
        let kind = (i as usize / MODES + r.below(3)) % KINDS;
        one(ctx, r, dir, mode, text, at, kind, i % 40 < 10);
    });
}

//! C01, C02: texmo process. C15: texmo count-chars.
use crate::util::*;
use crate::Ctx;
use mon::cli::path_str;
use mon::gen;
use mon::procspec;
use mon::rng::Rng;

/// Lines with every (interesting) character next to others.
fn systematic(lo: u32, hi: u32, all: bool) -> String {
    let mut s = String::new();
    for u in lo..hi {
        let c = match char::from_u32(u) {
            Some(c) => c,
            None => continue,
        };
        if matches!(c, '\u{14}'..='\u{16}' | '\r' | '\n') {
            continue;
        }
        let l = c.is_alphabetic() || c.is_uppercase() || c.is_lowercase();
        if l {
            for t in ["{}", "{}{}", "{}a", "a{}", "{}A", "A{}", "AB{}", "{} {}", "a {} b", "{}  {}", "1{}1", "{},{}", "Ab{} c", "{}ab C", "'{}' {}"] {
                s.push_str(&t.replace("{}", c.encode_utf8(&mut [0; 4])));
                s.push('\n');
            }
        } else if all || u < 0x3000 || u % 16 == 0 {
            for t in ["{}", "a{}b", "A {} B", "Aa{} b", "a {}", "{} AB"] {
                s.push_str(&t.replace("{}", c.encode_utf8(&mut [0; 4])));
                s.push('\n');
            }
        }
    }
    s
}

fn judge(ctx: &Ctx, dir: &std::path::Path, input: &str, what: &str) {
    let a = dir.join("in.txt");
    let b = dir.join("out.txt");
    write(&a, input.as_bytes());
    if input.len() % 3 == 0 {
        // an older file that is longer
        write(&b, &vec![b'#'; input.len() * 2 + 3000]);
    }
    let run = ctx.cli.run(dir, &["process", "-d", path_str(&a), "-o", path_str(&b)]);
    if !must_succeed(ctx, &run, what, &[("in.txt", input.as_bytes())]) {
        return;
    }
    let mut want_in = input.to_string();
    if !want_in.is_empty() && !want_in.ends_with('\n') {
        want_in.push('\n');
    }
    let out = std::fs::read(&b).unwrap_or_default();
    let out = match String::from_utf8(out) {
        Ok(o) => o,
        Err(e) => {
            ctx.rep.violation("not-utf8", &format!("output is not UTF-8: {}", e), &[("in.txt", input.as_bytes())]);
            return;
        }
    };
    let words = out.matches(procspec::EOW).count();
    ctx.rep.count("words seen in processed text", words as u64);
    ctx.rep.count("case markers seen", (out.matches(procspec::CAP).count() + out.matches(procspec::CAPS).count()) as u64);
    ctx.rep.count("characters of input", input.chars().count() as u64);
    ctx.rep.case(&input, words > 0, || {
        let l: Vec<&str> = input.lines().zip(out.lines()).filter(|(a, b)| a != b).map(|x| x.0).take(2).collect();
        format!("{}: {} lines, e.g. {:?}", what, input.lines().count(), l)
    });
    let (got, want): (String, String) = if ctx.rep.prop == "C01" {
        (procspec::decode(&out), want_in.clone())
    } else {
        (out.clone(), procspec::encode(&want_in))
    };
    if got == want {
        return;
    }
    // Find the line that shows it.
    let mut line = want_in.lines().zip(out.lines()).find(|(i, o)| {
        if ctx.rep.prop == "C01" { procspec::decode(o) != *i } else { procspec::encode(i) != *o }
    });
    let n_in = want_in.lines().count();
    let n_out = out.lines().count();
    if n_in != n_out {
        line = None;
    }
    let detail = match line {
        Some((i, o)) => {
            let cutl = |s: &str| s.chars().take(300).collect::<String>();
            format!(
                "line {:?}\nwas processed to {:?}\n{} {:?}",
                cutl(i),
                cutl(o),
                if ctx.rep.prop == "C01" { "which decodes to" } else { "the documented form is" },
                cutl(&if ctx.rep.prop == "C01" { procspec::decode(o) } else { procspec::encode(i) })
            )
        }
        None => format!("{} lines became {} lines ({} bytes became {})", n_in, n_out, want_in.len(), out.len()),
    };
    ctx.rep.violation("mismatch", &format!("{}\n{}\n{}", what, run.cmd, detail), &[("in.txt", input.as_bytes()), ("out.txt", out.as_bytes())]);
}

pub fn process(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of `texmo process` on a generated file (usually hundreds of lines); non-trivial if the output \
         contains at least one word; distinct by input",
    );
    // Every Unicode character, in blocks.
    let step = 0x800u32;
    let blocks = 0x110000 / step as u64;
    ctx.rep.run("every-char", blocks, 0.5, |i, _, dir| {
        let lo = i as u32 * step;
        let s = systematic(lo, lo + step, ctx.rep.thorough);
        if !s.is_empty() {
            ctx.rep.count("systematic blocks of 2048 code points", 1);
            judge(ctx, dir, &s, &format!("all characters U+{:X}..U+{:X}", lo, lo + step));
        }
    });
    // One big file: numbers of lines and words beyond 16 bits, with everything odd
    // right to the end.
    ctx.rep.run("big", if ctx.rep.thorough { 12 } else { 1 }, 0.3, |_, r, dir| {
        let mut pool: Vec<String> = Vec::new();
        while pool.len() < 4000 {
            let (t, _) = random_text(ctx, 1000, r);
            pool.extend(t.lines().filter(|l| l.len() < 300).take(400).map(|l| l.to_string()));
            for _ in 0..40 {
                let c = gen::any_char(r);
                pool.push(format!("{}{} a{} A{} {}.", c, c, c, c, c));
            }
        }
        let mut s = String::new();
        let n = r.range(140_000, 280_000);
        for _ in 0..n {
            s.push_str(r.pick(&pool).as_str());
            s.push('\n');
        }
        let s = gen::clean_for_processing(&s);
        ctx.rep.count("files of more than 2^17 lines", 1);
        judge(ctx, dir, &s, "one big file");
    });
    let max = if ctx.rep.thorough { 100_000 } else { 15_000 };
    ctx.rep.run("random", max, if ctx.rep.thorough { 0.8 } else { 0.5 }, |i, r, dir| {
        let (s, what) = random_text(ctx, i, r);
        judge(ctx, dir, &s, &what);
    });
}

fn random_text(ctx: &Ctx, i: u64, r: &mut Rng) -> (String, String) {
    let fixed = ["", "\n", "a", "A", "\n\n\n", " ", "a ", "A b", "É\n", "x\n\n", "AB CD", " A", "\u{0}", "Aa\tBb Cc"];
    if (i as usize) < fixed.len() {
        return (fixed[i as usize].to_string(), format!("fixed text {:?}", fixed[i as usize]));
    }
    let (mut s, what) = match r.below(14) {
        12 => {
            // words longer than any buffer
            let mut s = String::new();
            for _ in 0..r.range(1, 12) {
                let n = *r.pick(&[20usize, 30, 62, 126, 250, 254, 510, 1020, 4090, 8190, 20_000]) + r.below(8);
                let l = *r.pick(&['a', 'z', 'é', 'я', '中', '𐐨']);
                let mut w: String = l.to_string().repeat(n);
                match r.below(5) {
                    0 => w = w.to_uppercase(),
                    1 => w = format!("{}{}", l.to_uppercase(), w),
                    2 => w = format!("{}{}", w.to_uppercase(), l),
                    3 => w = format!("{}{}{}", w, l.to_uppercase(), w),
                    _ => {}
                }
                s.push_str(&w);
                s.push_str(*r.pick(&[" ", " ", "\n", ", ", "  "]));
            }
            (s, "very long words")
        }
        13 if r.chance(1, 6) => {
            let n = r.range(60_000, 140_000);
            let l: Vec<String> = (0..5).map(|_| gen::word(r) + *r.pick(&["\n", " a\n", " \n", "\n\n"])).collect();
            ((0..n).map(|_| r.pick(&l).as_str()).collect(), "very many short lines")
        }
        0 => (ctx.corpus.slice(r, 200_000), "prose"),
        1 => {
            // one very long line
            let n = r.range(10_000, 400_000);
            (gen::wordy(r, n).replace('\n', " "), "one long line")
        }
        2 => {
            // multi-byte characters around buffer sizes (8 KiB)
            let mut s = "x".repeat(8192 - r.below(6));
            for _ in 0..4 {
                s.push_str(&gen::word(r));
                s.push(*r.pick(&['é', '中', '😀', ' ', '\n', 'A']));
                let fill = 8192usize.saturating_sub(s.len() % 8192 + r.below(5));
                s.push_str(&"y".repeat(fill));
            }
            (s, "characters at buffer ends")
        }
        3 => {
            let n = r.range(1, 3000);
            ((0..n).map(|_| gen::any_char(r)).collect(), "random characters")
        }
        4 => {
            let n = r.skewed(60);
            let al = ['a', 'A', ' ', '\n', '.', 'É', 'ß', 'İ', 'Σ', '1'];
            ((0..n).map(|_| *r.pick(&al)).collect(), "short, small alphabet")
        }
        5 => {
            let n = r.range(1, 20_000);
            (gen::paragraphs(r, n, &ctx.corpus), "paragraphs")
        }
        6 => {
            let n = r.range(200, 40_000);
            let al = ['a', 'A', 'b', 'B', ' ', ' ', '\n', '.', 'É', 'é'];
            ((0..n).map(|_| *r.pick(&al)).collect(), "small alphabet")
        }
        _ => {
            let n = r.range(1, 20_000);
            (gen::wordy(r, n), "words in all case patterns")
        }
    };
    s = gen::clean_for_processing(&s);
    if r.chance(1, 2) && !s.ends_with('\n') {
        s.push('\n');
    }
    (s, what.to_string())
}

/// More characters than fit into 32 bits, through a named pipe (if the program
/// can read one).
fn more_than_32_bits(ctx: &Ctx, r: &mut mon::rng::Rng, dir: &std::path::Path) {
    let unit = format!("{}{}\n", "e".repeat(r.range(5000, 70_000)), r.pick(&["x", "é", "\u{3b1}"]));
    let go = |k: u64| {
        let fifo = dir.join(format!("fifo{}", k));
        if !std::process::Command::new("mkfifo").arg(&fifo).status().map_or(false, |s| s.success()) {
            return None;
        }
        let bytes: Vec<u8> = unit.as_bytes().to_vec();
        let p = fifo.clone();
        let done = std::sync::atomic::AtomicBool::new(false);
        let mut cli = ctx.cli.clone();
        cli.cpu = 300;
        let done = &done;
        let run = std::thread::scope(|s| {
            s.spawn(move || {
                use std::io::Write;
                use std::os::unix::fs::OpenOptionsExt;
                let mut f = loop {
                    // O_NONBLOCK: fails until there is a reader
                    match std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(&p) {
                        Ok(f) => break f,
                        Err(_) if done.load(std::sync::atomic::Ordering::Relaxed) => return,
                        Err(_) => std::thread::sleep(std::time::Duration::from_millis(2)),
                    }
                };
                let mut left = k;
                let mut at = 0;
                while left > 0 {
                    match f.write(&bytes[at..]) {
                        Ok(n) => {
                            at += n;
                            if at == bytes.len() {
                                at = 0;
                                left -= 1;
                            }
                        }
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(std::time::Duration::from_micros(50)),
                        Err(_) => return,
                    }
                }
            });
            let run = ctx_run(&cli, dir, &fifo);
            done.store(true, std::sync::atomic::Ordering::Relaxed);
            run
        });
        let per = unit.chars().count() as u64;
        let mut want = format!("Total: {}\n'\\n' {}\n'e' {}\n", per * k, k, (per - 2) * k);
        let c = unit.chars().rev().nth(1).unwrap();
        if (c as u32) < 256 {
            want.push_str(&format!("{:?} {}\n", c, k));
        }
        want.push_str(&format!("Max char: {:?}\n", c));
        // (Progress is reported every thousand million characters.)
        let so = String::from_utf8_lossy(&run.stdout).to_string();
        let got = so.find("Total").map(|p| so[p..].to_string()).unwrap_or(so);
        Some((run, want, got, per * k))
    };
    match go(2) {
        Some((_, want, got, _)) if want == got => {}
        _ => {
            ctx.rep.count("pipes that could not be read", 1);
            return;
        }
    }
    let k = (1u64 << 32) / (unit.chars().count() as u64 - 2) + 1 + r.clone().below(3) as u64;
    if let Some((run, want, got, n)) = go(k) {
        if !must_succeed(ctx, &run, "count-chars on a pipe", &[]) {
            return;
        }
        ctx.rep.case(&unit, true, || format!("{} characters from a pipe", n));
        ctx.rep.count("characters counted", n);
        if want != got {
            ctx.rep.violation("wrong-count", &format!("{}\n{} copies of {} times 'e' and two more characters\nreported {:?}\nshould be {:?}", run.cmd, k, unit.chars().count() - 2, got, want), &[("unit.txt", unit.as_bytes())]);
        }
    }
}

fn ctx_run(cli: &mon::cli::Cli, dir: &std::path::Path, data: &std::path::Path) -> mon::cli::Run {
    cli.run(dir, &["count-chars", "-d", path_str(data)])
}

pub fn count_chars(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of `texmo count-chars`; its complete report is compared with an independent count; \
         non-trivial if the file is not empty; distinct by file",
    );
    let max = if ctx.rep.thorough { 60_000 } else { 4000 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        if i == 10 {
            more_than_32_bits(ctx, r, dir);
            return;
        }
        let s = match i {
            0 => String::new(),
            1 => (0u32..0x120).filter_map(char::from_u32).collect(),
            2 => "\u{ff}".into(),
            3 => "\u{100}".into(),
            4 => "\u{0}".into(),
            5 => "a".repeat(3_000_000),
            11 if ctx.rep.prop == "C15" => {
                // a line longer than any reasonable limit
                let c = *r.pick(&["a", "\u{e9}", "\u{4e2d}"]);
                c.repeat((1 << 24) + 7 + r.below(1 << 22)) + "b\nc"
            }
            6 => "\n".repeat(100_000),
            8 | 9 => {
                // as many of one character as some counter can hold
                let c = if i == 8 { "\u{101}" } else { "\u{ff}" };
                c.repeat(65536) + "a"
            }
            7 => "\u{10ffff}\u{fffd}\r\n\r".into(),
            _ => match r.below(6) {
                0 => ctx.corpus.slice(r, 300_000),
                1 => {
                    let n = r.skewed(4000);
                    (0..n).map(|_| gen::any_char(r)).collect()
                }
                2 => {
                    // characters near the border of the table
                    let n = r.skewed(3000);
                    (0..n).map(|_| char::from_u32(0xE0 + r.below(0x40) as u32).unwrap()).collect()
                }
                3 => {
                    let n = r.skewed(40);
                    (0..n).map(|_| gen::any_char(r)).collect()
                }
                4 => {
                    let n = r.range(1, 20_000);
                    gen::wordy(r, n)
                }
                _ => gen::text(r, 20_000, &ctx.corpus),
            },
        };
        let a = dir.join("in.txt");
        write(&a, s.as_bytes());
        let run = ctx.cli.run(dir, &["count-chars", "-d", path_str(&a)]);
        if !must_succeed(ctx, &run, "count-chars", &[("in.txt", s.as_bytes())]) {
            return;
        }
        let mut low = [0u64; 256];
        let mut max_c = 0u32;
        let mut total = 0u64;
        for c in s.chars() {
            total += 1;
            max_c = max_c.max(c as u32);
            if (c as u32) < 256 {
                low[c as usize] += 1;
            }
        }
        let mut want = format!("Total: {}\n", total);
        for (c, n) in low.iter().enumerate() {
            if *n > 0 {
                want.push_str(&format!("{:?} {}\n", char::from_u32(c as u32).unwrap(), n));
            }
        }
        let got = String::from_utf8_lossy(&run.stdout).to_string();
        ctx.rep.count("characters counted", total);
        ctx.rep.see("maximal characters", &max_c);
        ctx.rep.case(&s, total > 0, || format!("{} characters, highest {:?}", total, char::from_u32(max_c)));
        // Which character is the highest is undefined for an empty file.
        let (head, tail) = match got.find("Max char:") {
            Some(p) => (got[..p].to_string(), got[p..].to_string()),
            None => (got.clone(), String::new()),
        };
        let want_tail = format!("Max char: {:?}\n", char::from_u32(max_c).unwrap());
        if head != want || (total > 0 && tail != want_tail) {
            let diff = got
                .lines()
                .zip((want.clone() + &want_tail).lines().map(|s| s.to_string()).collect::<Vec<_>>())
                .find(|(a, b)| *a != b)
                .map(|(a, b)| format!("reported {:?}, should be {:?}", a, b))
                .unwrap_or_else(|| format!("reported {} lines, should be {}", got.lines().count(), want.lines().count() + 1));
            ctx.rep.violation("wrong-count", &format!("{}\n{}", run.cmd, diff), &[("in.txt", s.as_bytes()), ("stdout.txt", &run.stdout)]);
        }
    });
}

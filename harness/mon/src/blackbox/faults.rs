//! C13: injected I/O faults.
use crate::util::*;
use crate::Ctx;
use mon::cli::{path_str, Cli, Outcome, Run};
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TSet, TType, ALL_TYPES};
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    Process,
    CountChars,
    Convert,
    Optimize,
    OptimizeMin,
}

struct W {
    cmd: Cmd,
    text: String,
    set: TSet,
    ttype: TType,
    processing: &'static str,
    min: usize,
}

/// (what the command produced) or None if it failed
fn produced(w: &W, dir: &Path, run: &Run) -> Result<Vec<u8>, String> {
    match w.cmd {
        Cmd::Process => std::fs::read(dir.join("out/o.txt")).map_err(|e| e.to_string()),
        Cmd::CountChars => Ok(run.stdout.clone()),
        _ => {
            let v = mon::cli::json_files(&dir.join("out"));
            if v.len() != 1 {
                return Err(format!("{} output files", v.len()));
            }
            std::fs::read(&v[0]).map_err(|e| e.to_string())
        }
    }
}

fn go(w: &W, cli: &Cli, dir: &Path) -> Run {
    let out = dir.join("out");
    let _ = std::fs::remove_dir_all(&out);
    std::fs::create_dir_all(&out).unwrap();
    if w.text.len() % 2 == 0 {
        // An older, longer file is in the way.
        let name = match w.cmd {
            Cmd::Process => "o.txt".to_string(),
            Cmd::CountChars => return go_into(w, cli, dir, &out),
            _ => format!("{}.json", w.set.name()),
        };
        write(&out.join(name), &vec![b'#'; 20_000 + 3 * w.text.len()]);
    }
    go_into(w, cli, dir, &out)
}

fn go_into(w: &W, cli: &Cli, dir: &Path, out: &Path) -> Run {
    let data = dir.join("data.txt");
    let setp = dir.join("set.json");
    match w.cmd {
        Cmd::Process => cli.run(dir, &["process", "-d", path_str(&data), "-o", path_str(&out.join("o.txt"))]),
        Cmd::CountChars => cli.run(dir, &["count-chars", "-d", path_str(&data)]),
        Cmd::Convert => run_convert(cli, dir, &data, None, &setp, out),
        Cmd::Optimize | Cmd::OptimizeMin => run_optimize(
            cli,
            dir,
            &OptArgs {
                data: &data,
                processed: None,
                out,
                ttype: w.ttype,
                processing: w.processing,
                n: w.set.tokens.len(),
                input: Some(&setp),
                min_size: if w.cmd == Cmd::OptimizeMin { Some(w.min) } else { None },
            },
        ),
    }
}

fn workload(ctx: &Ctx, r: &mut Rng, i: u64) -> W {
    let cmd = [Cmd::Process, Cmd::Convert, Cmd::Optimize, Cmd::OptimizeMin, Cmd::CountChars, Cmd::Convert, Cmd::Process][i as usize % 7];
    // Sizes around the 8 KiB buffers of the standard library.
    let n = match r.below(7) {
        0 => r.range(1, 60),
        1 => r.range(100, 4000),
        2 => 8192 - r.below(40),
        3 => 8192 + r.below(40),
        4 => 16384 + r.below(9000),
        _ => {
            if matches!(cmd, Cmd::Process | Cmd::CountChars | Cmd::Convert) {
                r.range(1, 120_000)
            } else {
                r.range(1, 9000)
            }
        }
    };
    let mut text = match r.below(4) {
        0 => gen::wordy(r, n),
        1 => gen::paragraphs(r, n, &ctx.corpus),
        2 => {
            // Long lines (longer than any buffer), with few breaks.
            let n = if r.chance(2, 3) && cmd != Cmd::Optimize && cmd != Cmd::OptimizeMin { r.range(9_000, 60_000) } else { n };
            let gap = r.range(n / 3 + 1, 2 * n + 2);
            let mut at = 0;
            ctx.corpus
                .slice(r, n)
                .chars()
                .map(|c| {
                    at += 1;
                    if at % gap == 0 { '\n' } else if c == '\n' { ' ' } else { c }
                })
                .collect()
        }
        _ => ctx.corpus.slice(r, n),
    };
    text = gen::clean_for_processing(&text);
    gen::cut(&mut text, n);
    if text.is_empty() {
        text.push('a');
    }
    let processing = if r.chance(1, 2) { "capswords" } else { "raw" };
    let ttype = *r.pick(&ALL_TYPES);
    let mut o = SetOpts { max_long: r.below(40), shuffle: false, multi_seqs: false };
    let set = gen::token_set(r, ttype, processing, text.as_bytes(), &o);
    if matches!(cmd, Cmd::Optimize | Cmd::OptimizeMin) {
        // Nothing to optimize: keeps runs short and the result independent of
        // the samples.
        o.max_long = 0;
        let mut set = gen::token_set(r, TType::Bytes, processing, b"", &o);
        set.tokens.retain(|t| !matches!(t, mon::tset::Tok::Str(s) if s.len() > 1));
        set.split = Some(true);
        let min = text.len() / 2 + 1;
        return W { cmd, text, set, ttype: TType::Bytes, processing, min };
    }
    W { cmd, text, set, ttype, processing, min: 1 }
}

pub fn faults(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one execution of a texmo command with one fault plan (the n-th read, write or open of a file fails with ENOSPC, \
         EIO, EINTR or EACCES once or from then on, or is cut short, or every call is cut short; or /dev/full; or a file size limit); if it \
         exits with success, what it produced must equal the fault-free result; for each workload the calls are counted first and \
         every position (all if up to 12, otherwise first, last and random ones) is used; non-trivial if the fault fired; distinct by \
         (workload, plan)",
    );
    let shim = path_str(&ctx.shims.join("shim.so")).to_string();
    // Files so big that they are tokenized by several threads.
    let max = if ctx.rep.thorough { 40 } else { 3 };
    ctx.rep.run("big", max, 0.35, |i, r, dir| {
        let cmd = [Cmd::Convert, Cmd::Process, Cmd::Convert, Cmd::CountChars, Cmd::OptimizeMin][i as usize % 5];
        let unit = gen::clean_for_processing(&gen::paragraphs(r, 3000, &ctx.corpus)) + if r.chance(1, 2) { "\n\n" } else { "x " };
        let text = unit.repeat(((32 << 20) + r.below(8 << 20)) / unit.len() + 1);
        let ttype = *r.pick(&[TType::Bits4, TType::Bytes]);
        let set = gen::plain_set(ttype, "raw");
        let min = text.len() / 2 + 1;
        let w = W { cmd, text, set, ttype, processing: "raw", min };
        write(&dir.join("data.txt"), w.text.as_bytes());
        let sb = w.set.to_json().to_string();
        write(&dir.join("set.json"), sb.as_bytes());
        let what = format!("{:?} on {} bytes, {}", w.cmd, w.text.len(), w.set.name());
        let files: [(&str, &[u8]); 2] = [("unit.txt", unit.as_bytes()), ("set.json", sb.as_bytes())];
        let log = dir.join("log");
        let mut cli = ctx.cli.with_env("LD_PRELOAD", &shim).with_env("SHIM_DIR", path_str(dir)).with_env("SHIM_LOG", path_str(&log));
        cli.cpu = 120;
        let mut good: Option<Vec<u8>> = None;
        let op = if cmd == Cmd::Process && r.chance(1, 2) { "write" } else { "read" };
        let mut calls = 0usize;
        for k in 0..8 {
            if ctx.rep.stopped() || ctx.rep.out_of_time() && k > 3 {
                return;
            }
            let _ = std::fs::remove_file(&log);
            let mut c = cli.with_env("FI_OP", op);
            // (The last read of a file usually finds its end only.)
            let nth = match k {
                1 => calls.max(1),
                2 => calls.saturating_sub(1).max(1),
                3 => calls.saturating_sub(2 + r.below(3)).max(1),
                _ => r.range(1, calls.max(1)),
            };
            let mode = ["", "eio", "eio", "eio", "eio", "short", "eintr", "shortall"][k];
            if k > 0 {
                c = c.with_env("FI_MODE", mode);
                if mode != "shortall" {
                    c = c.with_env("FI_NTH", &nth.to_string());
                } else {
                    c = c.with_env("FI_SEED", &r.below(1 << 30).to_string());
                }
                if k == 3 {
                    c = c.with_env("FI_STICKY", "1");
                }
            }
            let run = go(&w, &c, dir);
            let seen = std::fs::read_to_string(&log).unwrap_or_default();
            if k == 0 {
                calls = seen.lines().filter(|l| l.starts_with(op)).count();
                if !must_succeed(ctx, &run, &what, &files) {
                    return;
                }
                good = produced(&w, dir, &run).ok();
                continue;
            }
            let fired = seen.contains("FIRED") || mode == "shortall";
            let plan = format!("{} number {} of {}: {}", op, nth, calls, mode);
            ctx.rep.case(&(&unit, w.text.len(), &plan), fired, || format!("{}: {} -> {:?}", what, plan, run.outcome));
            ctx.rep.count("faults in files above 32 MiB", fired as u64);
            match &run.outcome {
                Outcome::Failed(_) if fired => {}
                Outcome::Failed(_) => {
                    ctx.rep.violation("failed", &format!("{}\n{}: failed without a fault: {}", what, plan, run.panic_line()), &files);
                    return;
                }
                Outcome::Ok => {
                    if produced(&w, dir, &run).ok() != good {
                        ctx.rep.violation("silent", &format!("{}\n{}\nfault plan: {}\nexited successfully, but the result is wrong", what, run.cmd, plan), &files);
                        return;
                    }
                }
                Outcome::Hung => {
                    ctx.rep.violation("hung", &format!("{}\n{}\nfault plan: {}\nthe command neither fails nor ends", what, run.cmd, plan), &files);
                    return;
                }
                o => ctx.rep.inconclusive(format!("{}: {}: {:?}", what, plan, o)),
            }
        }
    });
    let max = if ctx.rep.thorough { 1_000_000 } else { 600 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        let w = workload(ctx, r, i);
        write(&dir.join("data.txt"), w.text.as_bytes());
        let sb = w.set.to_json().to_string();
        write(&dir.join("set.json"), sb.as_bytes());
        let files: [(&str, &[u8]); 2] = [("data.txt", w.text.as_bytes()), ("set.json", sb.as_bytes())];
        let what = format!("{:?} on {} bytes, {} {}", w.cmd, w.text.len(), w.processing, w.set.name());
        let r0 = go(&w, &ctx.cli, dir);
        if !must_succeed(ctx, &r0, &format!("{} without faults", what), &files) {
            return;
        }
        let good = match produced(&w, dir, &r0) {
            Ok(g) => g,
            Err(e) => {
                ctx.rep.violation("output", &format!("{} without faults: {}", what, e), &files);
                return;
            }
        };
        let log = dir.join("log");
        let shimmed = ctx.cli.with_env("LD_PRELOAD", &shim).with_env("SHIM_DIR", path_str(dir)).with_env("SHIM_LOG", path_str(&log));
        let judge = |plan: &str, run: &Run, fired: bool| -> bool {
            ctx.rep.case(&(&w.text, &sb, format!("{:?}", w.cmd), plan), fired, || format!("{}: {} -> {:?}", what, plan, run.outcome));
            if fired {
                ctx.rep.count("faults that fired", 1);
            }
            match &run.outcome {
                Outcome::Failed(_) => {
                    ctx.rep.count("runs that reported an error", 1);
                    if !fired {
                        ctx.rep.violation("failed", &format!("{}\n{}: failed without a fault: {}", what, plan, run.panic_line()), &files);
                        return false;
                    }
                    true
                }
                Outcome::Ok => {
                    let ok = match produced(&w, dir, run) {
                        Ok(g) => g == good,
                        Err(_) => false,
                    };
                    ctx.rep.count("runs that reported success", 1);
                    if !ok {
                        let got = produced(&w, dir, run).unwrap_or_default();
                        ctx.rep.violation(
                            "silent",
                            &format!("{}\n{}\nfault plan: {}\nexited successfully, but the result is wrong ({} bytes instead of {})", what, run.cmd, plan, got.len(), good.len()),
                            &[files[0], files[1], ("good", &good), ("got", &got)],
                        );
                    }
                    ok
                }
                Outcome::Hung => {
                    ctx.rep.violation("hung", &format!("{}\n{}\nfault plan: {}\nthe command neither fails nor ends", what, run.cmd, plan), &files);
                    false
                }
                o => {
                    ctx.rep.inconclusive(format!("{}: {}: {:?}", what, plan, o));
                    true
                }
            }
        };
        for op in ["write", "read", "open"] {
            // count the calls
            let _ = std::fs::remove_file(&log);
            let cli = shimmed.with_env("FI_OP", op);
            let rc = go(&w, &cli, dir);
            if !judge(&format!("{} calls counted", op), &rc, false) {
                return;
            }
            let calls = std::fs::read_to_string(&log).unwrap_or_default().lines().filter(|l| l.starts_with(op)).count();
            ctx.rep.count(&format!("{} calls seen in fault-free runs", op), calls as u64);
            let mut at: Vec<usize> = (1..=calls).collect();
            if calls > 12 {
                at = vec![1, 2, calls - 1, calls];
                for _ in 0..5 {
                    at.push(r.range(1, calls));
                }
                at.sort();
                at.dedup();
            }
            let modes: &[(&str, bool)] = match op {
                "write" => &[("enospc", false), ("enospc", true), ("eio", false), ("eintr", false), ("short", false)],
                "read" => &[("eio", false), ("eio", true), ("eintr", false), ("short", false)],
                _ => &[("eacces", false), ("eintr", false)],
            };
            for n in at {
                for (mode, sticky) in modes {
                    if ctx.rep.stopped() || ctx.rep.out_of_time() {
                        return;
                    }
                    // In the quick tier not every mode at every place.
                    if !ctx.rep.thorough && calls > 4 && r.chance(1, 2) {
                        continue;
                    }
                    let _ = std::fs::remove_file(&log);
                    let mut cli = shimmed.with_env("FI_OP", op).with_env("FI_NTH", &n.to_string()).with_env("FI_MODE", mode);
                    if *sticky {
                        cli = cli.with_env("FI_STICKY", "1");
                    }
                    let run = go(&w, &cli, dir);
                    let fired = std::fs::read_to_string(&log).unwrap_or_default().contains("FIRED");
                    ctx.rep.see("fault plans (operation, position, mode)", &(op, n, mode, sticky, format!("{:?}", w.cmd)));
                    if !judge(&format!("{} number {} of {}: {}{}", op, n, calls, mode, if *sticky { " from then on" } else { "" }), &run, fired) {
                        return;
                    }
                }
            }
            if op != "open" {
                for k in 0..2 {
                    let cli = shimmed.with_env("FI_OP", op).with_env("FI_MODE", "shortall").with_env("FI_SEED", &r.below(1 << 30).to_string());
                    let _ = std::fs::remove_file(&log);
                    let run = go(&w, &cli, dir);
                    if !judge(&format!("every {} cut short, {}", op, k), &run, calls > 0) {
                        return;
                    }
                }
            }
        }
        // Files that cannot be opened or are incomplete.
        for k in 0..6 {
            let d2 = dir.join(format!("broken{}", k));
            std::fs::create_dir_all(d2.join("out")).unwrap();
            let data = d2.join("data.txt");
            let setp = d2.join("set.json");
            let plan = match k {
                5 if w.cmd != Cmd::Process && w.cmd != Cmd::CountChars => continue,
                5 => {
                    let mut b = w.text.as_bytes().to_vec();
                    let at = r.below(b.len());
                    b.insert(at, 0xFF);
                    write(&data, &b);
                    "the data file is not UTF-8"
                }
                0 => {
                    write(&setp, sb.as_bytes());
                    "the data file is missing"
                }
                1 => {
                    write(&setp, sb.as_bytes());
                    std::fs::create_dir_all(&data).unwrap();
                    "the data file is a directory"
                }
                2 | 3 if matches!(w.cmd, Cmd::Process | Cmd::CountChars) => continue,
                2 => {
                    write(&data, w.text.as_bytes());
                    "the token set file is missing"
                }
                3 => {
                    write(&data, w.text.as_bytes());
                    write(&setp, &sb.as_bytes()[..r.below(sb.len())]);
                    "the token set file is cut short"
                }
                _ if w.cmd == Cmd::CountChars => continue,
                _ => {
                    write(&data, w.text.as_bytes());
                    write(&setp, sb.as_bytes());
                    std::fs::remove_dir(d2.join("out")).unwrap();
                    "the output directory is missing"
                }
            };
            let run = go_into(&w, &ctx.cli, &d2, &d2.join("out"));
            ctx.rep.count("runs with missing or incomplete files", 1);
            if run.ok() {
                ctx.rep.violation("silent", &format!("{}\n{}\n{}, but the command exited successfully", what, run.cmd, plan), &files);
                return;
            }
        }
        // Full device.
        let out = dir.join("full");
        std::fs::create_dir_all(&out).unwrap();
        let run = match w.cmd {
            Cmd::Process => {
                std::os::unix::fs::symlink("/dev/full", out.join("o.txt")).unwrap();
                go_into(&w, &ctx.cli, dir, &out)
            }
            Cmd::CountChars => ctx.cli.run_to(dir, &["count-chars", "-d", path_str(&dir.join("data.txt"))], Some(Path::new("/dev/full"))),
            _ => {
                let name = format!("{}.json", w.set.name());
                std::os::unix::fs::symlink("/dev/full", out.join(name)).unwrap();
                go_into(&w, &ctx.cli, dir, &out)
            }
        };
        ctx.rep.case(&(&w.text, &sb, format!("{:?}", w.cmd), "/dev/full"), true, || format!("{}: output to /dev/full -> {:?}", what, run.outcome));
        ctx.rep.count("runs with a full device", 1);
        // A writer that replaces the link by a file does not meet the full device.
        let replaced = w.cmd != Cmd::CountChars
            && mon::cli::json_files(&out).iter().any(|p| !p.is_symlink() && std::fs::read(p).map_or(false, |b| b == good));
        if run.ok() && !good.is_empty() && !replaced {
            ctx.rep.violation("silent", &format!("{}\n{}\nthe output went to /dev/full, but the command exited successfully", what, run.cmd), &files);
            return;
        }
        // File size limit (the process is killed or the write fails).
        if w.cmd != Cmd::CountChars {
            let mut cli = ctx.cli.clone();
            cli.pre = "ulimit -f 2;".into();
            let run = go(&w, &cli, dir);
            ctx.rep.count("runs with a file size limit", 1);
            let fired = good.len() > 1024 || !run.ok();
            judge("file size limit of 1 KiB", &run, fired);
        }
    });
}

//! C22 checkpoints, C12 repeat, C05 parallel.
use crate::opt::{opt_case, opt_text, Case};
use crate::util::*;
use crate::Ctx;
use mon::cli::{json_files, path_str, Outcome};
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TSet, TType, Tok, ALL_TYPES};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

fn is_json(p: &Path) -> bool {
    p.extension().map_or(false, |e| e == "json")
}

fn shim(ctx: &Ctx) -> String {
    path_str(&ctx.shims.join("shim.so")).to_string()
}

fn check_checkpoint(path: &Path, name: &str, c: &Case) -> Result<TSet, String> {
    let (set, _) = TSet::load(path)?;
    if name != format!("{}.json", set.name()) {
        return Err(format!("{} contains the token set {}", name, set.name()));
    }
    if set.tokens.len() > c.n {
        return Err(format!("{} tokens, {} were requested", set.tokens.len(), c.n));
    }
    if set.ttype != c.ttype || set.processing != c.processing {
        return Err(format!("asked for {} {}", c.ttype.json_name(), c.processing));
    }
    set.validate()?;
    Ok(set)
}

/// C22.
pub fn checkpoints(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one `texmo optimize` run whose clock advances 61 s at every look, so that a checkpoint is due after every step; \
         every finished output file is snapshotted when it is closed and judged, the final result is compared with that of a run with \
         the normal clock, and the run is repeated with SIGKILL at a random checkpoint event; non-trivial if at least one checkpoint \
         other than the final result was written; distinct by (text, options)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 800 };
    let max_text = if ctx.rep.thorough { 3000 } else { 1000 };
    let slow = ctx.cli.clone();
    let in_place = std::sync::atomic::AtomicBool::new(false);
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        let mt = if r.chance(1, 8) { max_text } else { max_text / 3 };
        let mut c = opt_case(ctx, r, i, mt, true, true);
        let mut crowded = false;
        if i % 9 == 4 {
            // nearly every byte has its own token
            c.ttype = *r.pick(&[TType::Bits1, TType::Bits2, TType::Bits4]);
            let s = gen::crowded_set(r, c.ttype, c.processing);
            c.n = s.tokens.len() + r.range(1, 4);
            c.input = Some(s);
            // a short text: such sets have many tokens to swap
            let unit: String = (0..r.range(2, 9)).map(|_| *r.pick(&['a', 'b', 'c', 'd', ' ', 'é'])).collect();
            c.text = unit.repeat(r.range(2, 4));
            c.processed = None;
            c.raw_len = None;
            c.min_size = None;
            crowded = true;
            ctx.rep.count("runs from crowded sets", 1);
        }
        let plain = dir.join("plain");
        let out = dir.join("out");
        let snaps = dir.join("snaps");
        for d in [&plain, &out, &snaps] {
            std::fs::create_dir_all(d).unwrap();
        }
        let files = c.files();
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        let r0 = c.run_with(&slow, dir, &plain);
        if !must_succeed(ctx, &r0, &c.describe(), &fs) {
            return;
        }
        let log = dir.join("log");
        let mut cli = ctx
            .cli
            .with_env("LD_PRELOAD", &shim(ctx))
            .with_env("CLK_STEP", *r.pick(&["61", "61", "61", "37", "100000"]))
            .with_env("SHIM_DIR", path_str(&out))
            .with_env("SHIM_LOG", path_str(&log))
            .with_env("SNAP_DIR", path_str(&snaps));
        // The shim only has to see the program itself, not env(1) and sh(1).
        cli.pre = String::new();
        let r1 = c.run_with(&cli, dir, &out);
        if !must_succeed(ctx, &r1, &format!("{} (with checkpoints)", c.describe()), &fs) {
            return;
        }
        let final_plain = match single_output(&plain) {
            Ok(o) => o,
            Err(e) => {
                ctx.rep.violation("output", &format!("{}\n{}", c.describe(), e), &fs);
                return;
            }
        };
        let final_name = final_plain.path.file_name().unwrap().to_string_lossy().to_string();
        let mut n_ckpt = 0;
        let mut last_ckpt: Option<(PathBuf, TSet)> = None;
        // (A temporary file that is renamed later would not be a token set file.)
        let all: Vec<PathBuf> = json_files(&snaps).into_iter().filter(|p| is_json(p)).collect();
        for (k, s) in all.iter().enumerate() {
            let f = s.file_name().unwrap().to_string_lossy().to_string();
            let name = f.splitn(2, "__").nth(1).unwrap_or("").to_string();
            match check_checkpoint(s, &name, &c) {
                Ok(set) => {
                    ctx.rep.see("checkpoint token sets", &set.canon());
                    if k + 1 < all.len() {
                        n_ckpt += 1;
                        if last_ckpt.is_none() || r.chance(1, 3) {
                            last_ckpt = Some((s.clone(), set));
                        }
                    }
                }
                Err(e) => {
                    let b = std::fs::read(s).unwrap_or_default();
                    let mut fs = fs.clone();
                    fs.push(("checkpoint.json", &b));
                    ctx.rep.violation("bad-checkpoint", &format!("{}\nfile {} (write number {}): {}", c.describe(), name, k + 1, e), &fs);
                    return;
                }
            }
        }
        ctx.rep.count("checkpoints judged", n_ckpt);
        ctx.rep.count("checkpoints judged of runs from crowded sets", n_ckpt * crowded as u64);
        ctx.rep.case(&(&c.text, c.ttype.json_name(), c.n, c.processing), n_ckpt > 0, || format!("{}: {} checkpoints", c.describe(), n_ckpt));
        // everything left in the directory
        for f in json_files(&out).into_iter().filter(|p| is_json(p)) {
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            if let Err(e) = check_checkpoint(&f, &name, &c) {
                ctx.rep.violation("bad-file", &format!("{}\nfile {} is left: {}", c.describe(), name, e), &fs);
                return;
            }
        }
        let got = std::fs::read(out.join(&final_name)).unwrap_or_default();
        if got != final_plain.bytes {
            let mut fs = fs.clone();
            fs.push(("normal.json", &final_plain.bytes));
            fs.push(("with-checkpoints.json", &got));
            ctx.rep.violation("different-result", &format!("{}\nthe final result {} differs when checkpoints are written", c.describe(), final_name), &fs);
            return;
        }
        // A checkpoint can be used.
        if let Some((p, set)) = &last_ckpt {
            if r.chance(1, 3) {
                let d = dir.join("data.txt");
                let o = dir.join("use");
                std::fs::create_dir_all(&o).unwrap();
                let run = run_convert(&ctx.cli, dir, &d, None, p, &o);
                let b = std::fs::read(p).unwrap_or_default();
                let mut fs = fs.clone();
                fs.push(("checkpoint.json", &b));
                if !must_succeed(ctx, &run, "using a checkpoint", &fs) {
                    return;
                }
                ctx.rep.count("checkpoints loaded and used", 1);
                match single_output(&o) {
                    Ok(x) => {
                        if let Err(e) = set.same_as(&x.set) {
                            ctx.rep.violation("unusable", &format!("{}\na loaded checkpoint changed: {}", c.describe(), e), &fs);
                            return;
                        }
                    }
                    Err(e) => {
                        ctx.rep.violation("unusable", &format!("{}\n{}", c.describe(), e), &fs);
                        return;
                    }
                }
            }
        }
        // Crash.
        let events = std::fs::read_to_string(&log).unwrap_or_default().lines().count();
        if events >= 2 {
            for _ in 0..2 {
                let at = 1 + r.below(events);
                let out2 = dir.join("crash");
                let _ = std::fs::remove_dir_all(&out2);
                std::fs::create_dir_all(&out2).unwrap();
                let log2 = dir.join("log2");
                let _ = std::fs::remove_file(&log2);
                let cli = ctx
                    .cli
                    .with_env("LD_PRELOAD", &shim(ctx))
                    .with_env("CLK_STEP", "61")
                    .with_env("SHIM_DIR", path_str(&out2))
                    .with_env("SHIM_LOG", path_str(&log2))
                    .with_env("KILL_AT", &at.to_string());
                c.run_with(&cli, dir, &out2);
                let l = std::fs::read_to_string(&log2).unwrap_or_default();
                if !l.contains("KILL") {
                    continue;
                }
                ctx.rep.count("crashes injected", 1);
                // (being written, finished before)
                let mut state: HashMap<String, (bool, bool)> = HashMap::new();
                for line in l.lines() {
                    let f: Vec<&str> = line.splitn(3, ' ').collect();
                    if f.len() != 3 {
                        continue;
                    }
                    match f[0] {
                        "OPEN" => {
                            let e = state.entry(f[2].to_string()).or_default();
                            e.0 = true;
                        }
                        "CLOSE" => {
                            state.insert(f[2].to_string(), (false, true));
                        }
                        "MOVED" => {
                            state.remove(f[2]);
                        }
                        _ => {}
                    }
                }
                for (p, (writing, finished)) in state {
                    let p = PathBuf::from(p);
                    if !finished || !is_json(&p) {
                        continue;
                    }
                    let name = p.file_name().unwrap().to_string_lossy().to_string();
                    ctx.rep.count("files judged after a crash", 1);
                    if !p.exists() {
                        ctx.rep.violation("gone", &format!("{}\nkilled at event {}; file {} had been finished, but is gone", c.describe(), at, name), &fs);
                        return;
                    }
                    if let Err(e) = check_checkpoint(&p, &name, &c) {
                        if writing {
                            ctx.rep.count("finished files damaged while being written again", 1);
                            if !in_place.swap(true, std::sync::atomic::Ordering::SeqCst) {
                                ctx.rep.violation(
                                    "rewritten-in-place",
                                    &format!("{}\nkilled at event {}; file {} had been finished and was being written again under the same name when the run was killed: {}",
                                        c.describe(), at, name, e),
                                    &fs,
                                );
                            }
                            continue;
                        }
                        ctx.rep.violation("after-crash", &format!("{}\nkilled at event {}; file {}: {}", c.describe(), at, name, e), &fs);
                        return;
                    }
                }
            }
        }
    });
}

fn tie_text(r: &mut Rng) -> String {
    let k = r.range(2, 14);
    let mut al: Vec<char> = ('a'..='z').collect();
    r.shuffle(&mut al);
    let mut words: Vec<String> = (0..k)
        .map(|i| {
            let n = r.range(1, 3);
            let mut w: String = (0..n).map(|j| al[(i * 3 + j) % 26]).collect();
            if r.chance(1, 6) {
                w.push('é');
            }
            w
        })
        .collect();
    let reps = r.range(2, 12);
    let mut s = String::new();
    for _ in 0..reps {
        if r.chance(1, 2) {
            r.shuffle(&mut words);
        }
        for w in &words {
            s.push_str(w);
            s.push_str(*r.pick(&[" ", " ", " ", ".", "\n", "\n\n"]));
        }
    }
    s
}

fn snapshot_dir(d: &Path) -> Vec<(String, Vec<u8>)> {
    json_files(d)
        .iter()
        .map(|p| (p.file_name().unwrap().to_string_lossy().to_string(), std::fs::read(p).unwrap_or_default()))
        .collect()
}

/// C12.
pub fn repeat(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = the same command run two or three times under different conditions (number of CPUs, hash seeds of each process, \
         clock speed); the output files must be identical; texts are biased towards ties between equally frequent bytes and pairs; \
         non-trivial if the output contains tokens of two or more bytes or sequences; distinct by (text, options)",
    );
    let big = if ctx.rep.thorough { 8 } else { 1 };
    let threads_note = "big files";
    for i in 0..big {
        if ctx.rep.stopped() {
            return;
        }
        big_repeat(ctx, i, threads_note);
    }
    let max = if ctx.rep.thorough { 1_000_000 } else { 2000 };
    ctx.rep.run("random", max, if ctx.rep.thorough { 0.7 } else { 0.7 }, |i, r, dir| {
        let mut c = opt_case(ctx, r, i, 600, true, true);
        if r.chance(2, 3) && c.input.is_none() {
            c.text = tie_text(r);
            c.processed = None;
            if let Some(m) = c.min_size {
                c.min_size = Some((m % c.text.len().max(1)).max(c.text.len() / 8 + 1));
            }
        }
        let kind = r.below(8);
        let mut results: Vec<Vec<(String, Vec<u8>)>> = Vec::new();
        let files = c.files();
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        let reps = if r.chance(1, 3) { 3 } else { 2 };
        let mut cmd = String::new();
        for k in 0..reps {
            let out = dir.join(format!("out{}", k));
            std::fs::create_dir_all(&out).unwrap();
            let mut cli = ctx.cli.clone();
            let mut fast_clock = false;
            let mut wd = dir.to_path_buf();
            // each condition by itself, whatever the others are
            if r.chance(2, 7) {
                cli.taskset = Some(r.pick(&["0", "1-3"]).to_string());
            }
            let (mut step, mut by) = (None, None);
            if r.chance(1, 6) {
                fast_clock = true;
                step = Some(*r.pick(&["61", "61", "7", "40", "300", "3600", "100000"]));
            }
            if r.chance(1, 5) {
                by = Some(*r.pick(&["86400", "-86400", "400000000", "-1000000000", "3"]));
                ctx.rep.count("runs at another time of day", 1);
            }
            if step.is_some() || by.is_some() {
                cli = cli.with_env("LD_PRELOAD", &shim(ctx));
                if let Some(x) = step {
                    cli = cli.with_env("CLK_STEP", x);
                }
                if let Some(x) = by {
                    cli = cli.with_env("CLK_REAL", x);
                }
            }
            if r.chance(2, 5) {
                let vars = [("TZ", "Pacific/Apia"), ("LC_ALL", "tr_TR.UTF-8"), ("LANG", "C"), ("HOME", "/nonexistent"), ("USER", "x"),
                    ("RAYON_NUM_THREADS", "1"), ("RUST_LOG", "trace"), ("COLUMNS", "20"), ("SOURCE_DATE_EPOCH", "1"), ("RUST_MIN_STACK", "4000000")];
                for (n, v) in vars {
                    if r.chance(1, 2) {
                        cli = cli.with_env(n, v);
                    }
                }
                for n in ["HOME", "USER", "LOGNAME", "PATH", "LANG", "SHELL", "PWD", "TERM", "RUST_BACKTRACE", "HOSTNAME"] {
                    if r.chance(1, 2) {
                        cli = cli.with_env("-u", n);
                    }
                }
                ctx.rep.count("runs in another environment", 1);
            }
            if r.chance(1, 4) {
                wd = dir.join(format!("another place {}", k));
                std::fs::create_dir_all(&wd).unwrap();
                ctx.rep.count("runs in another directory", 1);
            }
            for (n, d) in &files {
                write(&wd.join(n), d);
            }
            if k > 0 && r.chance(1, 3) {
                // Files of an earlier run in the output directory.
                for (n, d) in results.first().into_iter().flatten() {
                    let mut junk = d.clone();
                    junk.extend_from_slice(b"{\"older\": \"file\"}");
                    junk.reverse();
                    write(&out.join(n), &junk);
                    ctx.rep.count("older output files to be replaced", 1);
                }
            }
            let data = wd.join("data.txt");
            let run = match kind {
                0 => cli.run(&wd, &["process", "-d", path_str(&data), "-o", path_str(&out.join("o.json"))]),
                1 if c.input.is_some() => run_convert(&cli, &wd, &data, None, &wd.join("set.json"), &out),
                2 => {
                    let run = cli.run(&wd, &["count-chars", "-d", path_str(&data)]);
                    write(&out.join("o.json"), &run.stdout);
                    run
                }
                _ => c.run_with(&cli, &wd, &out),
            };
            cmd = run.cmd.clone();
            if !must_succeed(ctx, &run, &c.describe(), &fs) {
                return;
            }
            let mut s = snapshot_dir(&out);
            if fast_clock && s.len() > 1 {
                // checkpoints: compare the final result only, once its name is
                // known
                let names: Vec<String> = results.first().map(|x| x.iter().map(|y| y.0.clone()).collect()).unwrap_or_default();
                if names.len() == 1 {
                    s.retain(|x| x.0 == names[0]);
                } else {
                    continue;
                }
                ctx.rep.count("runs with checkpoints compared", 1);
            }
            results.push(s);
        }
        if results.len() < 2 {
            return;
        }
        ctx.rep.count("runs compared", results.len() as u64);
        let nt = kind < 3 || results[0].iter().any(|x| x.1.len() > 3000) || results[0].iter().any(|x| String::from_utf8_lossy(&x.1).contains("sequences"));
        ctx.rep.case(&(&c.text, c.ttype.json_name(), c.n, kind), nt, || format!("{} runs of {} on {:?}...", results.len(), cmd, c.text.chars().take(40).collect::<String>()));
        for k in 1..results.len() {
            if results[k] != results[0] {
                let mut fs = fs.clone();
                if let (Some(a), Some(b)) = (results[0].first(), results[k].first()) {
                    fs.push(("run0.json", &a.1));
                    fs.push(("run1.json", &b.1));
                }
                ctx.rep.violation(
                    "differ",
                    &format!("{}\n{}\nruns 0 and {} wrote different files: {:?} and {:?}", c.describe(), cmd, k,
                        results[0].iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>(),
                        results[k].iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>()),
                    &fs,
                );
                return;
            }
        }
    });
}

/// Repetitive prose of n bytes made of whole paragraphs.
fn big_text(ctx: &Ctx, r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n + 100_000);
    while s.len() < n {
        match r.below(5) {
            0 => {
                let unit = opt_text(ctx, r, 3000);
                let k = r.range(1, 40);
                for _ in 0..k {
                    s.push_str(&unit);
                    s.push('\n');
                }
            }
            _ => s.push_str(&ctx.corpus.slice(r, 400_000)),
        }
        s.push_str("\n\n");
    }
    s
}

fn big_repeat(ctx: &Ctx, i: u64, _note: &str) {
    let mut r = Rng::new(ctx.rep.seed, "C12/big", i);
    let dir = dir(ctx.rep.work.join(format!("big{}", i)));
    let size = (33 << 20) + r.below(3 << 20);
    let text = big_text(ctx, &mut r, size);
    let data = dir.join("data.txt");
    write(&data, text.as_bytes());
    let t = if i % 2 == 0 { TType::Bytes } else { TType::Bits4 };
    let n = if t == TType::Bytes { 256 + 1 + r.below(2) } else { 16 + r.below(4) };
    let mut results = Vec::new();
    let mut cli = ctx.cli.clone();
    cli.cpu = 600;
    let many = r.range(9, 100).to_string();
    for k in 0..3 {
        let out = dir.join(format!("o{}", k));
        std::fs::create_dir_all(&out).unwrap();
        let mut cli = cli.clone();
        match k {
            0 => cli.taskset = Some("0-7".into()),
            1 => cli.taskset = Some("0-2".into()),
            _ => cli = cli.with_env("LD_PRELOAD", &shim(ctx)).with_env("FAKE_CPUS", &many),
        }
        let run = run_optimize(&cli, &dir, &OptArgs { data: &data, processed: None, out: &out, ttype: t, processing: "raw", n, input: None, min_size: None });
        if !must_succeed(ctx, &run, "big file", &[]) {
            return;
        }
        results.push(snapshot_dir(&out));
    }
    ctx.rep.count("parallel optimizer runs compared", results.len() as u64);
    ctx.rep.case(&(i, "big"), true, || format!("optimize --type {} -n {} on {} bytes with 8 and 3 CPUs and {} threads", t.cli_name(), n, text.len(), many));
    if let Some(k) = (1..3).find(|k| results[0] != results[*k]) {
        let other = if k == 1 { "3" } else { many.as_str() };
        ctx.rep.violation(
            "differ-parallel",
            &format!("optimize --type {} -n {} on {} bytes of text: results with 8 and with {} CPUs differ", t.cli_name(), n, text.len(), other),
            &[("run0.json", &results[0].first().map(|x| x.1.clone()).unwrap_or_default()), ("run1.json", &results[k].first().map(|x| x.1.clone()).unwrap_or_default())],
        );
    }
    let _ = std::fs::remove_dir_all(&dir);
}

/// Sum of minimal costs, cut at blank lines (the tokens must not reach across
/// one).
fn additive_cost(trie: &Trie, data: &[u8]) -> u64 {
    let mut total = 0;
    let mut start = 0;
    while start < data.len() {
        let mut end = (start + (1 << 20)).min(data.len());
        while end < data.len() && !(data[end - 1] == 10 && data[end] != 10) {
            end += 1;
        }
        total += trie.min_cost(&data[start..end]).unwrap();
        start = end;
    }
    total
}

/// C05: files above 32 MiB, where tokenization is parallel.
pub fn parallel(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one `texmo convert-tokens` run on a file of more than 32 MiB (parallel tokenization) on 1 to 8 CPUs and with up to 300 threads, with tokens \
         that do not reach across line ends, so that totals do not depend on fragment ends; totals are compared with a sequential \
         reference; non-trivial if run on two or more CPUs; distinct by (text, CPUs)",
    );
    crate::convert::gigantic(ctx, false);
    let n = if ctx.rep.thorough { 12 } else { 2 };
    for i in 0..n {
        if ctx.rep.stopped() || ctx.rep.out_of_time() {
            return;
        }
        let mut r = Rng::new(ctx.rep.seed, "C05/big", i);
        let dir = dir(ctx.rep.work.join(format!("par{}", i)));
        let size = if i % 3 == 2 { 100 << 20 } else { (32 << 20) + r.below(9 << 20) };
        let text = big_text(ctx, &mut r, size);
        let data = dir.join("data.txt");
        write(&data, text.as_bytes());
        let t = *r.pick(&ALL_TYPES);
        let o = SetOpts { max_long: 60, shuffle: true, multi_seqs: false };
        let sample = ctx.corpus.slice(&mut r, 30_000);
        let mut set = gen::token_set(&mut r, t, "raw", sample.as_bytes(), &o);
        set.tokens.retain(|t| match t {
            Tok::Str(s) => s.len() == 1 || !s[..s.len() - 1].contains(&10) && !s.ends_with(b"\n\n"),
            _ => true,
        });
        let setp = dir.join("set.json");
        let sb = set.to_json().to_string();
        write(&setp, sb.as_bytes());
        let want = additive_cost(&Trie::new(set.spans()), text.as_bytes());
        let mut cli = ctx.cli.clone();
        cli.cpu = 300;
        let mut first: Option<Vec<u8>> = None;
        // The computers "~N" only claim to have N CPUs.
        let (few, many) = (format!("~{}", r.range(9, 40)), format!("~{}", r.range(64, 300)));
        for cpus in ["0", "0-1", "0-2", "0-7", "0-7", few.as_str(), many.as_str()] {
            let out = dir.join("o");
            let _ = std::fs::remove_dir_all(&out);
            std::fs::create_dir_all(&out).unwrap();
            let mut cli = cli.clone();
            match cpus.strip_prefix('~') {
                Some(n) => {
                    cli = cli.with_env("LD_PRELOAD", &shim(ctx)).with_env("FAKE_CPUS", n);
                    ctx.rep.count("parallel tokenizations with more threads than CPUs", 1);
                }
                None => cli.taskset = Some(cpus.to_string()),
            }
            let run = run_convert(&cli, &dir, &data, None, &setp, &out);
            if run.outcome == Outcome::Watchdog {
                ctx.rep.inconclusive("watchdog".into());
                continue;
            }
            if !must_succeed(ctx, &run, &format!("{} bytes of text on CPUs {}", text.len(), cpus), &[("set.json", sb.as_bytes())]) {
                return;
            }
            ctx.rep.count("parallel tokenizations of big files", 1);
            ctx.rep.case(&(i, cpus), cpus != "0", || format!("convert-tokens on {} bytes with {} on CPUs {}: {} tokens", text.len(), gen::describe(&set), cpus, want));
            match single_output(&out) {
                Ok(o) => {
                    if o.scanned() != Some(text.len() as u64) || o.total() != Some(want) {
                        ctx.rep.violation(
                            "wrong-total",
                            &format!("{}\nCPUs {}: {} of {} bytes scanned, {} tokens instead of {}", run.cmd, cpus, o.value["stats"]["scanned_bytes"], text.len(), o.value["stats"]["total_tokens"], want),
                            &[("set.json", sb.as_bytes())],
                        );
                        return;
                    }
                    match &first {
                        None => first = Some(o.bytes),
                        Some(f) => {
                            if *f != o.bytes {
                                ctx.rep.violation("differ", &format!("{}\nresult on CPUs {} differs from that on one CPU", run.cmd, cpus), &[("set.json", sb.as_bytes())]);
                                return;
                            }
                        }
                    }
                }
                Err(e) => {
                    ctx.rep.violation("output", &format!("{}\n{}", run.cmd, e), &[]);
                    return;
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
}

//! C23 effects on the file system, C24 commands running at the same time, C25
//! memory, C26 damaged token sets.
use crate::convert::{set_and_text, text_for};
use crate::util::*;
use crate::Ctx;
use mon::cli::{path_str, Cli, Outcome, Run};
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TSet, TType, Tok, ALL_TYPES};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

// ------------------------------------------------------------------ effects

/// Everything below a directory (except for what `Cli::run` puts there).
fn snapshot(root: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default() {
            let p = e.path();
            if p.is_dir() {
                m.insert(p.clone(), None);
                todo.push(p);
            } else if p.file_name().map_or(true, |n| n != ".stdout" && n != ".stderr") {
                m.insert(p.clone(), Some(std::fs::read(&p).unwrap_or_default()));
            }
        }
    }
    m
}

struct Diff {
    gone: Vec<PathBuf>,
    changed: Vec<PathBuf>,
    new: Vec<PathBuf>,
}

fn diff(a: &BTreeMap<PathBuf, Option<Vec<u8>>>, b: &BTreeMap<PathBuf, Option<Vec<u8>>>) -> Diff {
    Diff {
        gone: a.keys().filter(|k| !b.contains_key(*k)).cloned().collect(),
        changed: a.iter().filter(|(k, v)| b.get(*k).map_or(false, |w| w != *v)).map(|(k, _)| k.clone()).collect(),
        new: b.keys().filter(|k| !a.contains_key(*k)).cloned().collect(),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    Process,
    CountChars,
    Convert,
    Optimize,
}

/// Files that happen to be around.
fn bystanders(r: &mut Rng, dirs: &[&Path], set: &TSet) {
    let names = [
        "notes.txt", "tokens.json", "data.txt", "data.txt.tmp", "output.txt", "processed.txt", "tmp.txt", "temp.txt", ".tmp0001", ".tmpAbCdEf",
        "out.txt", "out.txt.tmp", "tokens2_raw_bits1.json", "tokens4_raw_bits2.json", "tokens16_capswords_bits4.json", "tokens4_capswords_byteshuff.json",
        "tokens3_raw_byteshuff.json", "checkpoint.json", "texmo.tmp", "texmo.log", "a b.txt",
    ];
    for d in dirs {
        for _ in 0..r.range(2, 8) {
            let p = d.join(r.pick(&names));
            if !p.exists() {
                let n = r.below(300);
                write(&p, format!("bystander {} {}", r.next(), "x".repeat(n)).as_bytes());
            }
        }
        if r.chance(1, 2) {
            // The same kind of token set, of another size or with other names.
            for name in [
                format!("tokens{}_{}_{}.json", set.tokens.len() + r.range(1, 3), set.processing, set.ttype.json_name()),
                format!("{}.json.tmp", set.name()),
                format!("{}.json.bak", set.name()),
                format!("{}.json~", set.name()),
                format!(".{}.json", set.name()),
            ] {
                if r.chance(1, 2) && !d.join(&name).exists() {
                    write(&d.join(&name), format!("bystander {}", r.next()).as_bytes());
                }
            }
        }
        if r.chance(1, 3) {
            std::fs::create_dir_all(d.join("sub/dir")).unwrap();
            write(&d.join("sub/dir/file.txt"), b"below");
        }
    }
}

pub fn effects(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of process, count-chars, convert-tokens or optimize in a tree with unrelated files in the input, output, \
         temporary and working directories; the whole tree is compared before and after; after a success only the output may be new or \
         changed and nothing may be left in the temporary directory, after an error (missing or damaged inputs in half of the cases) no \
         existing file but the output may have changed, and not even the output if a file to be read is missing or the token set is \
         damaged; non-trivial if the tree contains at least five other files; distinct by (command, arguments, tree)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 4000 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        let cmd = [Cmd::Process, Cmd::Convert, Cmd::Optimize, Cmd::Convert, Cmd::CountChars, Cmd::Process][i as usize % 6];
        let processing = if r.chance(2, 3) { "capswords" } else { "raw" };
        let ttype = *r.pick(&ALL_TYPES);
        let o = SetOpts { max_long: 12, shuffle: false, multi_seqs: false };
        let (mut set, text) = set_and_text(ctx, r, ttype, processing, if cmd == Cmd::Optimize { 800 } else { 6000 }, &o);
        let text = gen::clean_for_processing(&text);
        if cmd == Cmd::Optimize {
            set = gen::plain_set(ttype, processing);
            for s in gen::long_tokens(r, text.as_bytes(), 2) {
                if s.len() < 6 && !s.windows(2).any(|w| w == b"\n\n") {
                    set.add(s);
                }
            }
        }
        let sub = |n: &str| {
            let p = dir.join(n);
            std::fs::create_dir_all(&p).unwrap();
            p
        };
        let (ind, out, cwd) = (sub("in"), sub("out"), sub("cwd"));
        let tmp = cwd.join("tmp");
        std::fs::create_dir_all(&tmp).unwrap();
        // Sometimes everything is in one place.
        let (ind, out) = match r.below(5) {
            0 => (cwd.clone(), cwd.clone()),
            1 => (ind.clone(), ind.clone()),
            _ => (ind, out),
        };
        let n = if r.chance(1, 2) { set.tokens.len() } else { set.tokens.len() + r.range(1, 3) };
        let data = ind.join("data.txt");
        let procd = ind.join("data-processed.txt");
        // Token sets usually are where the results go.
        let setp = if r.chance(1, 2) { out.join(format!("{}.json", set.name())) } else { ind.join("set.json") };
        let outfile = out.join(*r.pick(&["out.txt", "result", "data.processed"]));
        let use_proc = matches!(cmd, Cmd::Convert | Cmd::Optimize) && r.chance(1, 3);
        let use_input = cmd == Cmd::Convert || cmd == Cmd::Optimize && r.chance(1, 2);
        write(&data, text.as_bytes());
        let set_bytes = set.to_json().to_string().into_bytes();
        if use_proc {
            write(&procd, mon::procspec::encode(&text).as_bytes());
        }
        if use_input {
            write(&setp, &set_bytes);
        }
        bystanders(r, &[&ind, &out, &cwd, &tmp], &set);
        if r.chance(1, 3) && cmd == Cmd::Process {
            write(&outfile, b"an older result\n");
        }
        if r.chance(1, 3) && matches!(cmd, Cmd::Convert | Cmd::Optimize) {
            let p = out.join(format!("tokens{}_{}_{}.json", if cmd == Cmd::Convert { set.tokens.len() } else { n }, processing, ttype.json_name()));
            if !p.exists() {
                write(&p, b"an older result\n");
            }
        }
        // What is wrong, if anything
        let mut blocked = "";
        match r.below(12) {
            0 | 1 => {
                std::fs::remove_file(&data).unwrap();
                blocked = "the data file is missing";
            }
            2 | 3 if use_input => {
                if r.chance(1, 2) {
                    std::fs::remove_file(&setp).unwrap();
                    blocked = "the token set is missing";
                } else {
                    write(&setp, &set_bytes[..r.below(set_bytes.len())]);
                    blocked = "the token set is cut short";
                }
            }
            4 if use_proc && processing == "capswords" => {
                std::fs::remove_file(&procd).unwrap();
                blocked = "the processed data is missing";
            }
            5 if matches!(cmd, Cmd::Process | Cmd::CountChars) => {
                let mut b = text.as_bytes().to_vec();
                let at = r.below(b.len() + 1);
                b.insert(at, 0xff);
                write(&data, &b);
            }
            _ => {}
        }
        let before = snapshot(dir);
        let mut cli = ctx.cli.clone();
        cli.cpu = 5;
        if cmd == Cmd::Optimize {
            // tables of debugging output
            cli.pre = "exec 2>/dev/null;".into();
        }
        let cli = &cli;
        let p = if use_proc { Some(procd.as_path()) } else { None };
        let run = match cmd {
            Cmd::Process => cli.run(&cwd, &["process", "-d", path_str(&data), "-o", path_str(&outfile)]),
            Cmd::CountChars => cli.run(&cwd, &["count-chars", "-d", path_str(&data)]),
            Cmd::Convert => run_convert(cli, &cwd, &data, p, &setp, &out),
            Cmd::Optimize => run_optimize(
                cli,
                &cwd,
                &OptArgs {
                    data: &data,
                    processed: p,
                    out: &out,
                    ttype,
                    processing,
                    n,
                    input: if use_input { Some(&setp) } else { None },
                    min_size: if r.chance(1, 4) { Some(r.range(1, text.len() + 2)) } else { None },
                },
            ),
        };
        if matches!(run.outcome, Outcome::CpuLimit | Outcome::Hung | Outcome::Watchdog) {
            ctx.rep.count("runs given up", 1);
            return;
        }
        let after = snapshot(dir);
        let d = diff(&before, &after);
        let what = format!("{:?} on {} bytes, {} {}{}{}", cmd, text.len(), processing, set.name(), if blocked.is_empty() { "" } else { ", " }, blocked);
        ctx.rep.case(&(&run.cmd.len(), &text, before.len(), i), before.len() > 8, || {
            format!("{} -> {:?}; {} files before, {} changed, {} new", what, run.outcome, before.len(), d.changed.len(), d.new.len())
        });
        ctx.rep.count("files compared", before.len() as u64);
        ctx.rep.count(&format!("{:?} runs: {}", cmd, if run.ok() { "success" } else { "error" }), 1);
        let fail = |kind: &str, e: String| {
            let mut files: Vec<(&str, &[u8])> = vec![("data.txt", text.as_bytes()), ("set.json", &set_bytes)];
            let log = String::from_utf8_lossy(&run.stderr).to_string();
            files.push(("stderr", log.as_bytes()));
            ctx.rep.violation(kind, &format!("{}\n{}\nended with {:?}\n{}", what, run.cmd, run.outcome, e), &files);
        };
        let rel = |p: &Path| p.strip_prefix(dir).unwrap_or(p).display().to_string();
        if let Some(p) = d.gone.first() {
            return fail("removed", format!("{} is gone", rel(p)));
        }
        let is_output = |p: &Path| match cmd {
            Cmd::Process => p == outfile,
            Cmd::CountChars => false,
            _ => {
                let name = p.file_name().unwrap().to_string_lossy().to_string();
                let tail = format!("_{}_{}.json", processing, ttype.json_name());
                p.parent() == Some(out.as_path())
                    && name.strip_prefix("tokens").and_then(|s| s.strip_suffix(&tail)).and_then(|s| s.parse::<usize>().ok()).map_or(false, |m| {
                        if cmd == Cmd::Convert { m == set.tokens.len() } else { m <= n }
                    })
            }
        };
        for p in &d.changed {
            if !is_output(p) {
                return fail("changed", format!("{} was changed", rel(p)));
            }
            if !run.ok() && !blocked.is_empty() {
                return fail("output-lost", format!("{} was changed although {}", rel(p), blocked));
            }
        }
        if run.ok() {
            if !blocked.is_empty() && !(blocked == "the data file is missing" && use_proc) {
                ctx.rep.count("successful in spite of missing files (judged by C13)", 1);
            }
            for p in &d.new {
                if !is_output(p) {
                    return fail("left-behind", format!("{} appeared", rel(p)));
                }
            }
            for p in d.new.iter().chain(&d.changed) {
                if matches!(cmd, Cmd::Convert | Cmd::Optimize) {
                    if let Err(e) = load_output(p) {
                        return fail("not-a-token-set", format!("{}: {}", rel(p), e));
                    }
                }
            }
        }
    });
}

// ----------------------------------------------------------------- together

/// Several commands at the same time, in the same working, temporary and
/// output directories.
pub fn together(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a group of three to six commands (process, convert-tokens, optimize) with different outputs, run alone one after \
         another and then all at once in the same working, temporary and tokens directories, over the same and over different data files; \
         each result is compared byte for byte with the result of the run alone; non-trivial if at least two runs of the group overlapped \
         in time; distinct by (texts, commands)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 400 };
    let seen = Mutex::new(0u64);
    ctx.rep.run("groups", max, 1.0, |i, r, dir| {
        struct Job {
            cmd: Cmd,
            data: usize,
            set: TSet,
            n: usize,
            wait: u64,
        }
        let ntexts = r.range(1, 3);
        let texts: Vec<String> = (0..ntexts)
            .map(|_| {
                let n = if r.chance(1, 4) { r.range(100_000, 700_000) } else { r.range(1000, 40_000) };
                let mut t = String::new();
                while t.len() < n {
                    let want = n - t.len();
                    t.push_str(&if r.chance(1, 2) { gen::wordy(r, want.min(4000)) } else { ctx.corpus.slice(r, want.min(20_000)) });
                    t.push('\n');
                }
                gen::clean_for_processing(&t)
            })
            .collect();
        let mut jobs: Vec<Job> = Vec::new();
        let mut names = std::collections::HashSet::new();
        for _ in 0..r.range(3, 6) {
            let mut cmd = *r.pick(&[Cmd::Process, Cmd::Convert, Cmd::Convert, Cmd::Convert, Cmd::Optimize]);
            let data = r.below(ntexts);
            if texts[data].len() > 5_000 && cmd == Cmd::Optimize {
                cmd = Cmd::Convert;
            }
            let ttype = *r.pick(&ALL_TYPES);
            let processing = if r.chance(3, 4) { "capswords" } else { "raw" };
            let set = if cmd == Cmd::Optimize {
                gen::plain_set(ttype, processing)
            } else {
                gen::token_set(r, ttype, processing, texts[data].as_bytes(), &SetOpts { max_long: 40, shuffle: false, multi_seqs: false })
            };
            let mut n = set.tokens.len();
            if cmd == Cmd::Optimize {
                n += r.below(2);
            }
            let name = if cmd == Cmd::Process { format!("p{}", jobs.len()) } else { format!("{}/{}/{}", n, processing, ttype.json_name()) };
            if names.insert(name) {
                jobs.push(Job { cmd, data, set, n, wait: if r.chance(1, 2) { 0 } else { r.skewed(60) as u64 } });
            }
        }
        if jobs.len() < 2 {
            return;
        }
        let ind = dir.join("in");
        std::fs::create_dir_all(&ind).unwrap();
        for (k, t) in texts.iter().enumerate() {
            write(&ind.join(format!("data{}.txt", k)), t.as_bytes());
        }
        for (k, j) in jobs.iter().enumerate() {
            write(&ind.join(format!("set{}.json", k)), j.set.to_json().to_string().as_bytes());
        }
        let go = |k: usize, own: &Path, shared: &Path| -> Run {
            let j = &jobs[k];
            let tmp = shared.join("tmp");
            let out = shared.join("out");
            std::fs::create_dir_all(own).unwrap();
            let mut cli: Cli = ctx.cli.with_env("TMPDIR", path_str(&tmp));
            cli.pre = format!("cd '{}'; {}", path_str(shared), if j.cmd == Cmd::Optimize { "exec 2>/dev/null;" } else { "" });
            cli.cpu = if j.cmd == Cmd::Optimize { 3 } else { 30 };
            let data = ind.join(format!("data{}.txt", j.data));
            let setp = ind.join(format!("set{}.json", k));
            match j.cmd {
                Cmd::Process | Cmd::CountChars => {
                    cli.run(own, &["process", "-d", path_str(&data), "-o", path_str(&out.join(format!("processed{}.txt", k)))])
                }
                Cmd::Convert => run_convert(&cli, own, &data, None, &setp, &out),
                Cmd::Optimize => run_optimize(
                    &cli,
                    own,
                    &OptArgs {
                        data: &data,
                        processed: None,
                        out: &out,
                        ttype: j.set.ttype,
                        processing: &j.set.processing,
                        n: j.n,
                        input: Some(&setp),
                        min_size: None,
                    },
                ),
            }
        };
        let result = |k: usize, shared: &Path| -> Result<Vec<u8>, String> {
            let j = &jobs[k];
            let name = match j.cmd {
                Cmd::Process | Cmd::CountChars => format!("processed{}.txt", k),
                _ => format!("tokens{}_{}_{}.json", j.n, j.set.processing, j.set.ttype.json_name()),
            };
            std::fs::read(shared.join("out").join(&name)).map_err(|e| format!("{}: {}", name, e))
        };
        let place = |name: String| {
            let p = dir.join(name);
            std::fs::create_dir_all(p.join("tmp")).unwrap();
            std::fs::create_dir_all(p.join("out")).unwrap();
            p
        };
        let mut alone = Vec::new();
        for k in 0..jobs.len() {
            let s = place(format!("alone{}", k));
            let run = go(k, &s.join("own"), &s);
            if !run.ok() {
                ctx.rep.count("groups given up: a run alone failed", 1);
                return;
            }
            match result(k, &s) {
                Ok(b) => alone.push(b),
                // fewer tokens than requested
                Err(_) => {
                    ctx.rep.count("groups given up: smaller set", 1);
                    return;
                }
            }
            let _ = std::fs::remove_dir_all(&s);
        }
        for round in 0..2 {
            let s = place(format!("together{}", round));
            let t0 = std::time::Instant::now();
            let runs: Vec<(Run, f64, f64)> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..jobs.len())
                    .map(|k| {
                        let (s, go, jobs) = (&s, &go, &jobs);
                        sc.spawn(move || {
                            std::thread::sleep(std::time::Duration::from_millis(jobs[k].wait));
                            let a = t0.elapsed().as_secs_f64();
                            let run = go(k, &dir.join(format!("own{}-{}", round, k)), s);
                            (run, a, t0.elapsed().as_secs_f64())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let overlaps = (0..runs.len()).flat_map(|a| (0..a).map(move |b| (a, b))).filter(|(a, b)| runs[*a].1 < runs[*b].2 && runs[*b].1 < runs[*a].2).count();
            ctx.rep.case(&(i, round, &texts), overlaps > 0, || {
                format!("{} commands over {} texts, {} overlapping pairs", jobs.len(), ntexts, overlaps)
            });
            ctx.rep.count("overlapping pairs of runs", overlaps as u64);
            *seen.lock().unwrap() += overlaps as u64;
            for (k, (run, _, _)) in runs.iter().enumerate() {
                let what = format!("{:?} number {} of {}, {} {} on text {}", jobs[k].cmd, k, jobs.len(), jobs[k].set.processing, jobs[k].set.name(), jobs[k].data);
                let e = match &run.outcome {
                    Outcome::Ok => match result(k, &s) {
                        Ok(b) if b == alone[k] => None,
                        Ok(b) => Some(format!("the result ({} bytes) differs from that of the run alone ({} bytes)", b.len(), alone[k].len())),
                        Err(e) => Some(e),
                    },
                    Outcome::Failed(e) => Some(format!("{}: {}", e, run.panic_line())),
                    _ => {
                        ctx.rep.count("runs given up", 1);
                        None
                    }
                };
                if let Some(e) = e {
                    let cmds: Vec<String> = runs.iter().map(|r| r.0.cmd.clone()).collect();
                    let files: Vec<(String, Vec<u8>)> = texts
                        .iter()
                        .enumerate()
                        .map(|(k, t)| (format!("data{}.txt", k), t.as_bytes().to_vec()))
                        .chain(jobs.iter().enumerate().map(|(k, j)| (format!("set{}.json", k), j.set.to_json().to_string().into_bytes())))
                        .collect();
                    let refs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
                    ctx.rep.violation("disturbed", &format!("{}\n{}\nrun at the same time:\n{}", what, e, cmds.join("\n")), &refs);
                    return;
                }
            }
            let _ = std::fs::remove_dir_all(&s);
        }
    });
    if *seen.lock().unwrap() == 0 {
        ctx.rep.inconclusive("no two runs overlapped".into());
    }
}

// ------------------------------------------------------------------- memory

#[repr(C)]
struct Rusage {
    times: [i64; 4],
    maxrss: i64,
    rest: [i64; 13],
}

extern "C" {
    fn wait4(pid: i32, status: *mut i32, options: i32, usage: *mut Rusage) -> i32;
}

/// (wait status, peak memory in MiB)
fn peak(ctx: &Ctx, dir: &Path, args: &[&str]) -> (i32, i64) {
    let (st, ru) = usage(ctx, dir, args, 400);
    (st, ru.maxrss / 1024)
}

/// Runs the program on two CPUs, with a limit of CPU seconds.
fn usage(ctx: &Ctx, dir: &Path, args: &[&str], limit: u64) -> (i32, Rusage) {
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let child = std::process::Command::new("/bin/sh")
        .args(["-c", &format!("ulimit -c 0; ulimit -S -t {}; exec taskset -c 0,1 \"$@\"", limit), "sh"])
        .arg(&ctx.cli.bin)
        .args(args)
        .current_dir(dir)
        .env("TMPDIR", &tmp)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let mut st = 0;
    let mut ru = Rusage { times: [0; 4], maxrss: 0, rest: [0; 13] };
    let pid = child.id() as i32;
    let got = unsafe { wait4(pid, &mut st, 0, &mut ru) };
    assert_eq!(got, pid);
    (st, ru)
}

pub fn memory(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one command (process, count-chars, convert-tokens with raw and caps-words token sets, with and without processed \
         data) on a file and on a file three or more times as big with the same kind of contents; the peak resident memory of the second \
         run may not exceed that of the first by more than a quarter plus 64 MiB; non-trivial if the second file is larger than the \
         peak memory allowed; distinct by (command, sizes)",
    );
    // Two CPUs: the number of worker threads, and with it the memory, depends on them.
    let cases: &[(&str, u64, u64)] = if ctx.rep.thorough {
        &[("process", 100, 700), ("count-chars", 100, 1000), ("convert raw", 200, 2400), ("convert caps", 200, 1500), ("convert processed", 200, 1800), ("convert raw", 150, 600), ("process lines", 30, 300), ("count-chars lines", 30, 300), ("convert raw lines", 160, 1000)]
    } else {
        &[("process", 60, 300), ("count-chars", 60, 400), ("convert raw", 160, 1200), ("convert caps", 160, 900), ("process lines", 20, 120), ("count-chars lines", 20, 160)]
    };
    // One after another (they need disk space), but with two kinds at a time.
    let dir = ctx.rep.work.join("memory");
    let lock = Mutex::new(());
    std::thread::scope(|s| {
        for (k, (kind, small, large)) in cases.iter().enumerate() {
            let dir = dir.join(k.to_string());
            let lock = &lock;
            s.spawn(move || {
                let mut r = Rng::new(ctx.rep.seed, "C25/memory", k as u64);
                let _ = std::fs::create_dir_all(dir.join("out"));
                // Lines of text, some of them long, with blank lines in between.
                let mut unit = String::new();
                while unit.len() < 600_000 {
                    let n = r.range(50, 20_000);
                    unit.push_str(&gen::clean_for_processing(&ctx.corpus.slice(&mut r, n)));
                    unit.push_str(if r.chance(1, 2) { "\n\n" } else { "\n" });
                }
                unit.push_str("\n\n");
                if kind.ends_with("lines") {
                    // very short lines, many of them
                    unit.clear();
                    while unit.len() < 600_000 {
                        unit.push_str(*r.pick(&["", "", "a", "b", "An", "I", ".", "é"]));
                        unit.push('\n');
                    }
                }
                let processing = if kind.starts_with("convert raw") { "raw" } else { "capswords" };
                let set = gen::token_set(&mut r, TType::Bits4, processing, unit[..unit.len().min(3000)].as_bytes(), &SetOpts { max_long: 60, shuffle: false, multi_seqs: false });
                let setp = dir.join("set.json");
                write(&setp, set.to_json().to_string().as_bytes());
                let mut peaks = Vec::new();
                for mib in [*small, *large] {
                    let data = dir.join("data.txt");
                    {
                        use std::io::Write;
                        let mut f = std::fs::File::create(&data).unwrap();
                        for _ in 0..(mib << 20) / unit.len() as u64 {
                            f.write_all(unit.as_bytes()).unwrap();
                        }
                    }
                    let o = dir.join("out/o.txt");
                    let d = path_str(&data);
                    let conv = ["convert-tokens", "-d", d, "-i", path_str(&setp), "-t", path_str(&dir.join("out"))].map(String::from);
                    let args: Vec<String> = match *kind {
                        "process" | "process lines" => ["process", "-d", d, "-o", path_str(&o)].map(String::from).to_vec(),
                        "count-chars" | "count-chars lines" => ["count-chars", "-d", d].map(String::from).to_vec(),
                        "convert processed" => conv.iter().cloned().chain(["--processed-data".to_string(), d.to_string()]).collect(),
                        _ => conv.to_vec(),
                    };
                    let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                    let (st, mb) = peak(ctx, &dir, &refs);
                    let _ = std::fs::remove_file(&o);
                    let _ = std::fs::remove_file(&data);
                    if st & 0x7f == 9 || st & 0x7f == 24 {
                        // out of time, or of the machine's memory
                        ctx.rep.inconclusive(format!("{} on {} MiB was killed at {} MiB of memory", args.join(" "), mib, mb));
                        return;
                    }
                    if st != 0 {
                        let _g = lock.lock().unwrap();
                        ctx.rep.violation("failed", &format!("{} on {} MiB of valid text failed", args.join(" "), mib), &[("unit.txt", unit.as_bytes())]);
                        return;
                    }
                    peaks.push(mb);
                }
                let allowed = peaks[0] + peaks[0] / 4 + 64;
                ctx.rep.case(&(kind, small, large), (*large as i64) > allowed, || {
                    format!("{}: {} MiB of memory for {} MiB of text, {} MiB for {} MiB", kind, peaks[0], small, peaks[1], large)
                });
                ctx.rep.count(&format!("{}: peak MiB for {} MiB", kind, small), peaks[0] as u64);
                ctx.rep.count(&format!("{}: peak MiB for {} MiB", kind, large), peaks[1] as u64);
                if peaks[1] > allowed {
                    ctx.rep.violation(
                        "memory",
                        &format!("{}: {} MiB of memory for a text of {} MiB, but {} MiB for one of {} MiB (two CPUs)", kind, peaks[0], small, peaks[1], large),
                        &[("unit.txt", unit.as_bytes()), ("set.json", set.to_json().to_string().as_bytes())],
                    );
                }
                let _ = std::fs::remove_dir_all(&dir);
            });
        }
    });
}

// ------------------------------------------------------------------- growth

/// C28. Sixteen times the text may take sixteen times the work, and some more,
/// but not 256 times.
pub fn growth(ctx: &Ctx) {
    const FACTOR: f64 = 4.0;
    ctx.rep.rule(
        "one case = one command (process, count-chars, convert-tokens with raw and caps-words token sets) on texts of 4 KiB, 16 KiB, 64 KiB, ... \
         16 MiB (thorough: up to 256 MiB) of one shape (a single word, line or paragraph, lines of one letter, only spaces or line ends, many \
         different characters, words of every kind of case, ...); the processor time (user and system) for n times the text may not \
         exceed 4 n times the time for the smaller text plus 50 ms, for any two of the texts; non-trivial if the largest took 20 ms or more; distinct by (command, shape)",
    );
    let max = if ctx.rep.thorough { 400 } else { 48 };
    ctx.rep.run("growth", max, 1.0, |i, r, dir| {
        let letters: &[&str] = match r.below(7) {
            0 => &["a"],
            1 => &["A"],
            2 => &["a", "B"],
            3 => &["\u{e9}", "\u{e0}", "x"],
            4 => &["\u{4e2d}", "\u{6587}"],
            5 => &["\u{3b1}", "\u{391}"],
            _ => &["\u{1f600}", "q"],
        };
        let letter = |r: &mut Rng| *r.pick(letters);
        let shape = if i < 26 { i as usize / 2 % 13 } else { r.below(13) };
        let (name, between): (&str, &[&str]) = match shape {
            0 => ("one word", &[""]),
            1 => ("words in one line", &[" "]),
            2 => ("lines in one paragraph", &["\n"]),
            3 => ("paragraphs", &["\n\n"]),
            4 => ("spaces", &["     "]),
            5 => ("line ends", &["\n\n\n\n"]),
            6 => ("words with punctuation", &[", ", ". ", "-", "\u{2019}"]),
            7 => ("many different characters", &[""]),
            8 => ("corpus", &["\n"]),
            9 => ("combining marks", &["\u{301}"]),
            10 => ("no letters", &["1", ".", ";", "\t"]),
            11 => ("spaces at line ends", &[" \n", "  \n"]),
            _ => ("a long line, then short ones", &[""]),
        };
        let unit_len = 4096;
        let wordlen = *r.pick(&[1usize, 2, 5, 30]);
        let mut unit = String::new();
        while unit.len() < unit_len {
            match shape {
                4 | 5 | 10 => {}
                7 => unit.push(char::from_u32(r.range(0x4e00, 0x9fff) as u32).unwrap()),
                8 => unit.push_str(&gen::clean_for_processing(&ctx.corpus.slice(r, 500)).replace("\n\n", "\n")),
                _ => (0..wordlen).for_each(|_| unit.push_str(letter(r))),
            }
            unit.push_str(*r.pick(between));
        }
        let kind = i as usize % 4;
        let cmd = ["process", "convert raw", "count-chars", "convert caps"][kind];
        let processing = if kind == 3 { "capswords" } else { "raw" };
        let mut set = gen::token_set(r, TType::Bits4, processing, unit.as_bytes(), &SetOpts { max_long: 60, shuffle: false, multi_seqs: false });
        if r.chance(1, 2) {
            // each inside the next
            let b = unit.as_bytes();
            for k in 2..r.range(3, 80) {
                set.add(b[..k].to_vec());
            }
        }
        let (data, setp, out) = (dir.join("data.txt"), dir.join("set.json"), dir.join("out"));
        std::fs::create_dir_all(&out).unwrap();
        write(&setp, set.to_json().to_string().as_bytes());
        let o = dir.join("o.txt");
        let d = path_str(&data);
        let args: Vec<&str> = match kind {
            0 => vec!["process", "-d", d, "-o", path_str(&o)],
            2 => vec!["count-chars", "-d", d],
            _ => vec!["convert-tokens", "-d", d, "-i", path_str(&setp), "-t", path_str(&out)],
        };
        let mut times: Vec<f64> = Vec::new();
        let mut sizes = Vec::new();
        let top = if ctx.rep.thorough && i % 4 == 0 { 1usize << 28 } else { 1 << 24 };
        while sizes.last().map_or(true, |n| *n < top) {
            sizes.push(sizes.last().map_or(1 << 12, |n| n * 4));
        }
        for (at, &n) in sizes.iter().enumerate() {
            let mut text = unit.repeat(n / unit.len() + 1);
            if shape == 7 && n <= 1 << 20 {
                text.clear();
                while text.len() < n {
                    text.push(char::from_u32(r.range(0x4e00, 0x9fff) as u32).unwrap());
                }
            }
            if shape == 12 {
                let half = (text.len() / 2..).find(|&k| text.is_char_boundary(k)).unwrap();
                let tail = "ab\n".repeat(half / 3);
                text.truncate(half);
                text.push('\n');
                text.push_str(&tail);
            }
            write(&data, text.as_bytes());
            drop(text);
            let from = |k: usize| FACTOR * (n / sizes[k]) as f64 * (times[k] + 0.05);
            let closest = (0..at).min_by(|a, b| from(*a).total_cmp(&from(*b)));
            let bound = closest.map_or(60.0, from);
            if bound > 60.0 {
                ctx.rep.count("too slow for the larger sizes", 1);
                break;
            }
            let (st, ru) = usage(ctx, dir, &args, bound.ceil() as u64 + 1);
            let _ = std::fs::remove_file(&o);
            let t = (ru.times[0] + ru.times[2]) as f64 + (ru.times[1] + ru.times[3]) as f64 / 1e6;
            let what = || format!("{} of {}, letters {:?}, {} bytes", cmd, name, letters, n);
            if times.is_empty() {
                if st != 0 {
                    ctx.rep.inconclusive(format!("{} did not end well", what()));
                    return;
                }
            } else {
                ctx.rep.count("pairs of sizes compared", 1);
                if t > bound {
                    let files: [(&str, &[u8]); 2] = [("unit.txt", unit.as_bytes()), ("set.json", &std::fs::read(&setp).unwrap())];
                    ctx.rep.violation(
                        "growth",
                        &format!("{}\n{:.3} s of processor time or more, but only {:.3} s for {} bytes", what(), t, times[closest.unwrap()], sizes[closest.unwrap()]),
                        &files,
                    );
                    return;
                }
                if st != 0 {
                    ctx.rep.inconclusive(format!("{} did not end well", what()));
                    return;
                }
            }
            times.push(t);
        }
        ctx.rep.case(&(cmd, shape, letters), *times.last().unwrap() >= 0.02, || format!("{} of {}, letters {:?}: {:?} s", cmd, name, letters, times));
        ctx.rep.see("shapes", &(cmd, shape));
        let _ = std::fs::remove_file(&data);
    });
}

// ------------------------------------------------------------------ refused

/// Damages the JSON of a valid token set. None: not applicable.
fn damage(r: &mut Rng, set: &TSet, kind: usize) -> Option<(String, Vec<u8>)> {
    let mut v = set.to_json();
    let obj = v.as_object_mut().unwrap();
    let ntok = set.tokens.len();
    let strs: Vec<usize> = (0..ntok).filter(|i| matches!(set.tokens[*i], Tok::Str(_))).collect();
    let exts: Vec<usize> = (0..ntok).filter(|i| matches!(set.tokens[*i], Tok::Ext(_))).collect();
    let bits = set.ttype.bits().is_some();
    let insert = |obj: &mut serde_json::Map<String, Value>, r: &mut Rng, t: Value| {
        let at = r.range(exts.len(), ntok);
        obj["tokens"].as_array_mut().unwrap().insert(at, t);
    };
    let what = match kind {
        0 => {
            obj.remove("tokens");
            "no tokens".to_string()
        }
        1 => {
            let t = r.pick(&[json!({}), json!(null), json!("abc"), json!(3), json!(true)]).clone();
            obj["tokens"] = t.clone();
            format!("tokens: {}", t)
        }
        2 => {
            obj.remove("type");
            "no type".into()
        }
        3 => {
            let t = r.pick(&[json!("bits3"), json!("bits8"), json!(""), json!(null), json!(1), json!("BITS1"), json!("huff"), json!("byte"), json!("bits1 ")]).clone();
            obj["type"] = t.clone();
            format!("type: {}", t)
        }
        4 => {
            obj["type"] = json!("fallback_bits");
            obj.remove("fallback_bits");
            let t = r.pick(&[json!(3), json!(0), json!(8), json!(16), json!(-1), json!("4"), json!(null)]).clone();
            if r.chance(4, 5) {
                obj.insert("fallback_bits".into(), t.clone());
                format!("fallback_bits: {}", t)
            } else {
                "no fallback_bits".into()
            }
        }
        5 => {
            obj.remove("processing");
            "no processing".into()
        }
        6 => {
            let t = r.pick(&[json!("caps"), json!(""), json!(null), json!("Raw"), json!("caps-words"), json!(0), json!(["raw"])]).clone();
            obj["processing"] = t.clone();
            format!("processing: {}", t)
        }
        7 => {
            let t = r.pick(&[json!("yes"), json!(1), json!("true"), json!([])]).clone();
            obj.insert("split_paragraphs".into(), t.clone());
            format!("split_paragraphs: {}", t)
        }
        8 if set.ttype != TType::Huff => {
            let at = exts.len();
            obj["tokens"].as_array_mut().unwrap().insert(at, json!(at));
            "one fallback token too many".into()
        }
        9 if bits => {
            obj["tokens"].as_array_mut().unwrap().remove(exts.len() - 1);
            if r.chance(1, 2) {
                obj.remove("sequences");
            }
            "one fallback token too few".into()
        }
        10 => {
            let t = r.pick(&[json!(""), json!([])]).clone();
            insert(obj, r, t.clone());
            format!("an empty token: {}", t)
        }
        11 => {
            let t = r.pick(&[json!(null), json!(true), json!({}), json!([[97]]), json!(["a"]), json!([1.5, 98]), json!([null]), json!({"string": "ab"})]).clone();
            insert(obj, r, t.clone());
            format!("token: {}", t)
        }
        12 => {
            let b = *r.pick(&[256i64, 257, 300, -1, -159, 65536 + 97, 4294967296 + 200, 1000]);
            let mut a = vec![json!(r.range(128, 255)), json!(r.range(97, 122))];
            a.insert(r.below(3), json!(b));
            insert(obj, r, json!(a));
            format!("token: {}", json!(a))
        }
        13 if !exts.is_empty() => {
            let at = *r.pick(&exts);
            let n = at as i64 + *r.pick(&[256i64, 512, 65536, 4294967296]);
            let t = r.pick(&[json!(n), json!(-1 - at as i64), json!(at as f64 + 0.5)]).clone();
            obj["tokens"][at] = t.clone();
            if r.chance(1, 2) && bits {
                obj.remove("sequences");
            }
            format!("fallback token: {}", t)
        }
        14 if !strs.is_empty() => {
            let at = *r.pick(&strs);
            let b = match &set.tokens[at] {
                Tok::Str(s) => s.clone(),
                _ => unreachable!(),
            };
            let t = if r.chance(1, 2) { json!(b) } else { obj["tokens"][at].clone() };
            insert(obj, r, t.clone());
            format!("token {} twice", t)
        }
        15..=19 => {
            let tok = if !exts.is_empty() { json!(*r.pick(&exts)) } else { obj["tokens"][*r.pick(&strs)].clone() };
            let mut seqs: Vec<Value> = obj.get("sequences").and_then(|s| s.as_array().cloned()).unwrap_or_default();
            // A string that is not there yet.
            let fresh = loop {
                let s: String = (0..r.range(2, 4)).map(|_| r.range(97, 122) as u8 as char).collect();
                if !set.strs().any(|t| t.as_slice() == s.as_bytes()) {
                    break s;
                }
            };
            let (seq, what) = match kind {
                15 => (json!({"string": fresh, "tokens": [tok, fresh]}), "with a token that is not there"),
                16 => {
                    let missing = if exts.len() < 255 { json!(exts.len() + r.below(255 - exts.len())) } else { json!(-1) };
                    (json!({"string": fresh, "tokens": [missing, tok]}), "with a fallback token that is not there")
                }
                17 => (r.pick(&[json!({"tokens": [tok]}), json!({"string": fresh}), json!([]), json!(null), json!(3), json!("ab")]).clone(), "without a part"),
                18 => (json!({"string": r.pick(&[json!(""), json!([]), json!(0), json!(null)]).clone(), "tokens": [tok]}), "for nothing"),
                _ if !strs.is_empty() => {
                    let t = obj["tokens"][*r.pick(&strs)].clone();
                    (json!({"string": t, "tokens": [tok, tok]}), "for a token")
                }
                _ => return None,
            };
            let at = r.below(seqs.len() + 1);
            seqs.insert(at, seq.clone());
            obj.insert("sequences".into(), json!(seqs));
            format!("a sequence {}: {}", what, seq)
        }
        20 => {
            let t = r.pick(&[json!({}), json!("x"), json!(3), json!(true)]).clone();
            obj.insert("sequences".into(), t.clone());
            format!("sequences: {}", t)
        }
        21 => {
            let s = v.to_string().into_bytes();
            let n = if r.chance(1, 2) { r.below(s.len()) } else { s.len() - r.range(1, 3.min(s.len())) };
            return Some((format!("cut after {} of {} bytes", n, s.len()), s[..n].to_vec()));
        }
        22 => {
            let mut s = v.to_string();
            let junk = *r.pick(&["}", "]", "x", "{}", "0", "\u{0}", ",", "null", "\n\n{\"a\": 1}", "\"", " ]"]);
            s.push_str(junk);
            return Some((format!("followed by {:?}", junk), s.into_bytes()));
        }
        23 => {
            // Not UTF-8 inside a string, or half a surrogate pair
            insert(obj, r, json!("QZQZQZ"));
            let s = v.to_string().into_bytes();
            let at = if r.chance(1, 6) {
                s.windows(7).position(|w| w == b"\"type\":").unwrap() + 2
            } else {
                s.windows(6).position(|w| w == b"QZQZQZ").unwrap() + r.below(7)
            };
            let bad = *r.pick(&[&b"\xff"[..], b"\xc0", b"\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\\ud800", b"\\udc00x", b"\\x41", b"\n", b"\x00"]);
            return Some((format!("bytes {:?} inside a string", bad), [&s[..at], bad, &s[at..]].concat()));
        }
        24 => {
            let s = r.pick(&["", " ", "[]", "3", "\"tokens\"", "null", "{}", "[{}]", "tokens"]).to_string();
            return Some((format!("just {:?}", s), s.into_bytes()));
        }
        25 => {
            let s = v.to_string();
            let s = match r.below(4) {
                0 => s.replace("\"type\"", "'type'"),
                1 => s.replacen(':', "=", 1),
                2 => s.replacen("[", "[,", 1),
                _ => s.replacen(",", " ", 1),
            };
            return Some(("not quite JSON".into(), s.into_bytes()));
        }
        28 if !exts.is_empty() || !strs.is_empty() => {
            // Two encodings of the same string
            let mut seqs: Vec<Value> = obj.get("sequences").and_then(|s| s.as_array().cloned()).unwrap_or_default();
            let tok = if !exts.is_empty() { json!(*r.pick(&exts)) } else { obj["tokens"][*r.pick(&strs)].clone() };
            if seqs.is_empty() {
                seqs.push(json!({"string": "qzqz", "tokens": [tok, tok]}));
                if set.strs().any(|t| t.as_slice() == b"qzqz") {
                    return None;
                }
            }
            let mut twin = r.pick(&seqs).clone();
            if r.chance(1, 2) {
                twin["tokens"].as_array_mut().unwrap().insert(0, tok);
            }
            let at = r.below(seqs.len() + 1);
            seqs.insert(at, twin.clone());
            obj.insert("sequences".into(), json!(seqs));
            format!("a second sequence for a string: {}", twin)
        }
        26 if !exts.is_empty() => {
            // The number of a fallback token twice
            let t = json!(*r.pick(&exts));
            if bits {
                let at = (t.as_u64().unwrap() as usize + 1 + r.below(exts.len() - 1)) % exts.len();
                obj["tokens"][at] = t.clone();
                if r.chance(2, 3) {
                    obj.remove("sequences");
                }
            } else {
                insert(obj, r, t.clone());
            }
            format!("fallback token {} twice", t)
        }
        27 if !exts.is_empty() && exts.len() < 250 => {
            // A number left out
            let t = json!(r.range(exts.len() + 1, 255));
            if bits {
                let at = *r.pick(&exts);
                obj["tokens"][at] = t.clone();
                if r.chance(2, 3) {
                    obj.remove("sequences");
                }
            } else {
                insert(obj, r, t.clone());
            }
            format!("{} fallback tokens, one of them with the number {}", exts.len(), t)
        }
        _ => return None,
    };
    Some((what, v.to_string().into_bytes()))
}

pub fn refused(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of convert-tokens (sometimes optimize with this input token set) with a valid token set damaged in one place \
         (29 kinds of damage), or with an incomplete set and a text it cannot encode; the command must end with an error and neither \
         write nor change any file in the tokens directory; the undamaged set is used first and must be accepted; distinct by (set, damage)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 5000 };
    ctx.rep.run("damaged", max, 0.75, |i, r, dir| {
        let ttype = *r.pick(&ALL_TYPES);
        let processing = if r.chance(1, 3) { "capswords" } else { "raw" };
        let (set, text) = set_and_text(ctx, r, ttype, processing, 300, &SetOpts { max_long: 12, shuffle: false, multi_seqs: true });
        let (data, setp, out) = (dir.join("data.txt"), dir.join("set.json"), dir.join("out"));
        std::fs::create_dir_all(&out).unwrap();
        write(&data, text.as_bytes());
        write(&setp, set.to_json().to_string().as_bytes());
        if i % 16 == 0 {
            let run = run_convert(&ctx.cli, dir, &data, None, &setp, &out);
            let files: [(&str, &[u8]); 2] = [("data.txt", text.as_bytes()), ("set.json", &std::fs::read(&setp).unwrap())];
            if !must_succeed(ctx, &run, &format!("undamaged {}", gen::describe(&set)), &files) {
                return;
            }
            ctx.rep.count("undamaged sets accepted", 1);
            let _ = std::fs::remove_dir_all(&out);
            std::fs::create_dir_all(&out).unwrap();
        }
        for _ in 0..6 {
            let kind = (i as usize * 9 + r.below(29)) % 29;
            let Some((what, bytes)) = damage(r, &set, kind) else { continue };
            write(&setp, &bytes);
            // an older result
            let older = out.join(format!("{}.json", set.name()));
            write(&older, b"older");
            let optimize = r.chance(1, 4);
            let run = if optimize {
                run_optimize(
                    &ctx.cli,
                    dir,
                    &OptArgs { data: &data, processed: None, out: &out, ttype, processing, n: set.tokens.len(), input: Some(&setp), min_size: None },
                )
            } else {
                run_convert(&ctx.cli, dir, &data, None, &setp, &out)
            };
            judge(ctx, &run, &out, &older, &format!("{}, {}", gen::describe(&set), what), &[("data.txt", text.as_bytes()), ("set.json", &bytes)]);
            ctx.rep.case(&(&bytes, optimize), true, || format!("{}: {} -> {:?}", set.name(), what, run.outcome));
            ctx.rep.see("kinds of damage", &kind);
            if ctx.rep.stopped() {
                return;
            }
        }
    });
    ctx.rep.run("incomplete", max, 0.2, |_, r, dir| {
        let ttype = if r.chance(1, 2) { TType::Bytes } else { TType::Huff };
        let text = {
            let t = text_for(ctx, r, 400);
            if t.is_empty() { "a".to_string() } else { t }
        };
        let mut set = gen::token_set(r, ttype, "raw", text.as_bytes(), &SetOpts { max_long: 20, shuffle: false, multi_seqs: false });
        // Take the encoding of a byte away.
        let b = text.as_bytes()[r.below(text.len())];
        let had = set.tokens.iter().position(|t| *t == Tok::Str(vec![b]));
        match had {
            Some(k) => {
                if set.seqs.iter().any(|(_, t)| t.contains(&Tok::Str(vec![b]))) {
                    return;
                }
                set.tokens.remove(k);
            }
            None => set.seqs.retain(|(s, _)| s != &vec![b]),
        }
        if Trie::new(set.spans()).min_cost(text.as_bytes()).is_some() {
            return;
        }
        let (data, setp, out) = (dir.join("data.txt"), dir.join("set.json"), dir.join("out"));
        std::fs::create_dir_all(&out).unwrap();
        let bytes = set.to_json().to_string().into_bytes();
        write(&data, text.as_bytes());
        write(&setp, &bytes);
        let older = out.join(format!("{}.json", set.name()));
        write(&older, b"older");
        let run = run_convert(&ctx.cli, dir, &data, None, &setp, &out);
        judge(ctx, &run, &out, &older, &format!("{} without byte {}", gen::describe(&set), b), &[("data.txt", text.as_bytes()), ("set.json", &bytes)]);
        ctx.rep.case(&(&bytes, &text), true, || format!("{} without byte {} -> {:?}", set.name(), b, run.outcome));
        ctx.rep.count("texts that cannot be encoded", 1);
    });
}

fn judge(ctx: &Ctx, run: &Run, out: &Path, older: &Path, what: &str, files: &[(&str, &[u8])]) {
    match run.outcome {
        Outcome::Ok => ctx.rep.violation("accepted", &format!("{}\n{}\nbut the command succeeded", what, run.cmd), files),
        Outcome::Failed(_) => {
            let names = mon::cli::json_files(out);
            if names.len() != 1 || std::fs::read(older).map_or(true, |b| b != b"older") {
                ctx.rep.violation("written", &format!("{}\n{}\nthe command failed, but changed the tokens directory: {:?}", what, run.cmd, names), files);
            }
        }
        _ => {
            ctx.rep.count("runs given up", 1);
        }
    }
}

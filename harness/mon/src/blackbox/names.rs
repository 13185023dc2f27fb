//! C31: the names and places of files do not matter.
use crate::opt::opt_text;
use crate::util::*;
use crate::Ctx;
use mon::cli::{json_files, path_str, Cli, Outcome, Run};
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::ALL_TYPES;
use std::collections::BTreeMap;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};

const NAMES: &[&str] = &[
    "data file.txt", "däta-文😀.txt", "data", ".hidden", "data.json", "data.txt.gz", "a'b\"c$(x);&|.txt", "new\nline.txt", "%s%d{}.txt", "-x.txt",
    "data.", "tokens3_raw_bits1.json", "capswords", "raw", "~", "*", "data.txt.tmp", "data.processed", " ", "\\", "a=b", "@x", "#",
];
const DIRS: &[&str] = &["a dir", "tok.ens.v2", "文", ".d", "x.json", "-d", "new\nline", "tokens", "..."];

/// One of the names; long ones now and then.
fn name(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        "x".repeat(r.range(200, 255))
    } else {
        r.pick(NAMES).to_string()
    }
}

/// A new directory somewhere below `dir`.
fn place(r: &mut Rng, dir: &Path) -> PathBuf {
    let mut p = dir.to_path_buf();
    let long = r.chance(1, 15);
    for _ in 0..if long { r.range(5, 12) } else { r.below(3) } {
        if long {
            p.push("y".repeat(200));
        } else {
            p.push(*r.pick(DIRS));
        }
    }
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// Another way to write the path.
fn spelling(r: &mut Rng, cwd: &Path, p: &Path) -> String {
    let abs = path_str(p).to_string();
    let rel = p.strip_prefix(cwd).ok().map(|x| x.to_str().unwrap().to_string());
    let s = match (r.below(5), rel) {
        (0, Some(x)) if !x.is_empty() && !x.starts_with('-') => x,
        (1, Some(x)) if !x.is_empty() => format!("./{}", x),
        (2, Some(x)) if !x.is_empty() => format!("../{}/{}", cwd.file_name().unwrap().to_str().unwrap(), x),
        (3, _) => abs.replacen('/', "//", 3),
        _ => abs.clone(),
    };
    if s.len() > 3800 {
        abs
    } else {
        s
    }
}

/// The file with these contents under some name, in some place.
fn input(r: &mut Rng, cwd: &Path, tag: &str, data: &[u8], how: &mut String) -> String {
    if r.chance(1, 16) {
        // Names that some programs do not take literally.
        let n = *r.pick(&["-", "~", "0", "stdin", "%", "*", "nul"]);
        if !cwd.join(n).exists() {
            write(&cwd.join(n), data);
            how.push_str(" (special name)");
            return n.to_string();
        }
    }
    let base = cwd.join(tag);
    std::fs::create_dir_all(&base).unwrap();
    let p = place(r, &base).join(name(r));
    write(&p, data);
    if r.chance(1, 2) {
        // Other files beside it, with names like it.
        let other: &[u8] = if tag == "set" { br#"{"type": "bits2", "processing": "raw", "tokens": [0, 1, 2, 3]}"# } else { b"Another Text\n" };
        let (f, stem) = (p.file_name().unwrap().to_str().unwrap(), p.file_stem().unwrap().to_str().unwrap());
        let mut n = vec![format!("{}.json", f), format!("{}.json", stem), format!("{}.txt", stem), format!("{}.processed", f), format!("{}.gz", f), format!("{}.tmp", f),
                         format!("{}~", f), format!(".{}", f), stem.to_string(), f.to_uppercase(), f.to_lowercase(), format!("{}.bak", f), f.trim().to_string()];
        r.shuffle(&mut n);
        for x in &n[..6] {
            let q = p.with_file_name(x);
            if x.len() < 256 && !x.is_empty() && !q.exists() {
                write(&q, other);
            }
        }
        how.push_str(" (files with like names)");
    }
    if r.chance(1, 3) {
        let t = match r.below(3) {
            0 => std::time::UNIX_EPOCH,
            1 => std::time::UNIX_EPOCH + std::time::Duration::from_secs(4_000_000_000),
            _ => std::time::UNIX_EPOCH + std::time::Duration::from_secs(951_782_400),
        };
        let _ = std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_modified(t));
        how.push_str(" (another time stamp)");
    }
    if r.chance(1, 4) {
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(*r.pick(&[0o444, 0o400, 0o777]))).unwrap();
    }
    let p = match r.below(5) {
        0 => {
            let l = base.join(format!("link{}", r.below(10)));
            symlink(&p, &l).unwrap();
            how.push_str(" (symbolic link)");
            l
        }
        1 => {
            let (l, m) = (base.join("link a"), base.join("link b"));
            symlink(p.strip_prefix(&base).unwrap(), &l).unwrap();
            symlink("link a", &m).unwrap();
            how.push_str(" (link to a link)");
            m
        }
        2 => {
            let l = base.join("hard.txt");
            std::fs::hard_link(&p, &l).unwrap();
            l
        }
        _ => p,
    };
    spelling(r, cwd, &p)
}

fn opt(r: &mut Rng, short: Option<&str>, long: &str, v: &str) -> Vec<String> {
    match (r.below(4), short) {
        (0, _) => vec![format!("--{}", long), v.into()],
        (1, _) => vec![format!("--{}={}", long, v)],
        (2, Some(s)) if !v.is_empty() && !v.starts_with('=') => vec![format!("-{}{}", s, v)],
        (_, Some(s)) => vec![format!("-{}", s), v.into()],
        (_, None) => vec![format!("--{}", long), v.into()],
    }
}

enum Result {
    File(Vec<u8>),
    Stdout(Vec<u8>),
    Sets(BTreeMap<String, Vec<u8>>),
}

fn same(a: &Result, b: &Result) -> bool {
    match (a, b) {
        (Result::File(a), Result::File(b)) | (Result::Stdout(a), Result::Stdout(b)) => a == b,
        (Result::Sets(a), Result::Sets(b)) => a == b,
        _ => false,
    }
}

fn sets(dir: &Path) -> Result {
    Result::Sets(json_files(dir).into_iter().map(|p| (p.file_name().unwrap().to_string_lossy().to_string(), std::fs::read(&p).unwrap())).collect())
}

fn show(a: &Result) -> String {
    match a {
        Result::File(v) => format!("{} bytes written", v.len()),
        Result::Stdout(v) => String::from_utf8_lossy(v).chars().take(300).collect(),
        Result::Sets(m) => m.iter().map(|(k, v)| format!("{}: {}", k, String::from_utf8_lossy(&v[v.len().saturating_sub(150)..]))).collect::<Vec<_>>().join("\n"),
    }
}

pub fn names(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of a command whose files have other names, lie in other places (given by relative paths, symbolic and hard \
         links, through a pipe, with other time stamps and permissions) and whose options are written in another way, compared with a run \
         on plain files of the same contents; distinct by (contents, command line)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 5000 };
    ctx.rep.run("metamorphic", max, 1.0, |i, r, dir| {
        let mode = i as usize % 7;
        let caps = matches!(mode, 3 | 4 | 6) || mode == 5 && r.chance(1, 3);
        let processing = if caps { "capswords" } else { "raw" };
        let ttype = *r.pick(&ALL_TYPES);
        let text = if mode >= 5 {
            opt_text(ctx, r, 200)
        } else {
            let n = *r.pick(&[50usize, 500, 20_000]);
            gen::clean_for_processing(&gen::text(r, n, &ctx.corpus))
        };
        let set = gen::small_set(r, ttype, processing, text.as_bytes(), &SetOpts { max_long: 6, shuffle: true, multi_seqs: mode < 5 });
        if mode >= 5 && set.tokens.len() - set.n_long() > 257 {
            return;
        }
        let set_json = set.to_json().to_string().into_bytes();
        let processed = mon::procspec::encode(&text).into_bytes();
        let with_input = r.chance(1, 3);
        let n = if mode < 5 { 0 } else if with_input { set.tokens.len() + r.below(4) } else { min_n(ttype) + r.below(6) };
        let min = (mode >= 5 && r.chance(1, 4)).then(|| (text.len() / 2).max(1));
        let mut cli: Cli = ctx.cli.clone();
        cli.cpu = 6;
        cli.quiet = mode >= 5;

        let how_in_place = std::cell::Cell::new(false);
        let build = |r: &mut Rng, dir: &Path, plain: bool, how: &mut String| -> (Vec<String>, Cli, Box<dyn Fn(&Run) -> Result>) {
            let mut cli = cli.clone();
            let mut put = |r: &mut Rng, tag: &str, data: &[u8]| {
                if plain {
                    let p = dir.join(format!("{}.txt", tag));
                    write(&p, data);
                    path_str(&p).to_string()
                } else {
                    input(r, dir, tag, data, how)
                }
            };
            let mut args: Vec<Vec<String>> = Vec::new();
            let mut o = |r: &mut Rng, s: Option<&str>, l: &str, v: &str| {
                args.push(if plain { vec![format!("--{}", l), v.to_string()] } else { opt(r, s, l, v) });
            };
            let judge: Box<dyn Fn(&Run) -> Result>;
            let command;
            if mode <= 1 {
                let d = put(r, "data", text.as_bytes());
                if !plain && r.chance(1, 4) {
                    let f = dir.join("piped");
                    write(&f, text.as_bytes());
                    cli.pre = format!("cat '{}' |", path_str(&f));
                    o(r, Some("d"), "data", "/dev/stdin");
                    how.push_str(" (a pipe)");
                } else {
                    o(r, Some("d"), "data", &d);
                }
                if mode == 0 {
                    command = "process";
                    let place = if plain { dir.to_path_buf() } else { place(r, &dir.join("o")) };
                    let p = place.join(if plain { "out.txt".to_string() } else { name(r) });
                    let mut q = p.clone();
                    let mut fifo = false;
                    if !plain {
                        match r.below(6) {
                            5 if cli.pre.is_empty() => {
                                q = place.join("a pipe");
                                fifo = std::process::Command::new("mkfifo").arg(&q).status().map_or(false, |s| s.success());
                                if fifo {
                                    write(&dir.join("drain.sh"), b"timeout 60 cat < \"$1\" > \"$2\"; : > \"$3\"\n");
                                    let quoted: Vec<String> =
                                        [&dir.join("drain.sh"), &q, &p, &dir.join("drained")].iter().map(|x| format!("'{}'", path_str(x).replace('\'', "'\\''"))).collect();
                                    cli.pre = format!("sh {} < /dev/null > /dev/null 2>&1 &", quoted.join(" "));
                                    how.push_str(" (output into a pipe)");
                                } else {
                                    q = p.clone();
                                }
                            }
                            0 => write(&p, &vec![b'?'; 3 * text.len() + 100]),
                            1 => {
                                q = dir.join("o link");
                                symlink(&p, &q).unwrap();
                                if r.chance(1, 2) {
                                    write(&p, b"something else");
                                }
                                how.push_str(" (output through a link)");
                            }
                            _ => {}
                        }
                    }
                    let q = if plain { path_str(&q).to_string() } else { spelling(r, dir, &q) };
                    o(r, Some("o"), "output", &q);
                    let drained = dir.join("drained");
                    judge = Box::new(move |_| {
                        let t0 = std::time::Instant::now();
                        while fifo && !drained.exists() && t0.elapsed().as_secs() < 20 {
                            std::thread::sleep(std::time::Duration::from_millis(2));
                        }
                        Result::File(std::fs::read(&p).unwrap_or_default())
                    });
                } else {
                    command = "count-chars";
                    judge = Box::new(|run| Result::Stdout(run.stdout.clone()));
                }
            } else {
                let d = put(r, "data", text.as_bytes());
                o(r, Some("d"), "data", &d);
                if matches!(mode, 4 | 6) {
                    let p = put(r, "processed", &processed);
                    o(r, None, "processed-data", &p);
                }
                let out = if plain { dir.join("tokens") } else { place(r, &dir.join("t")) };
                std::fs::create_dir_all(&out).unwrap();
                let mut left = None;
                if mode < 5 || with_input {
                    let s = if !plain && r.chance(1, 5) {
                        // Where the result is going to be written, if it has the same size.
                        let p = out.join(format!("{}.json", set.name()));
                        write(&p, &set_json);
                        how_in_place.set(true);
                        left = Some(format!("{}.json", set.name()));
                        spelling(r, dir, &p)
                    } else {
                        put(r, "set", &set_json)
                    };
                    o(r, Some("i"), "input-tokens", &s);
                }
                let mut q = out.clone();
                if !plain && r.chance(1, 4) {
                    q = dir.join("t link");
                    symlink(&out, &q).unwrap();
                    how.push_str(" (tokens directory through a link)");
                }
                let mut q = if plain { path_str(&q).to_string() } else { spelling(r, dir, &q) };
                if !plain {
                    q.push_str(*r.pick(&["", "", "/", "//", "/."]));
                }
                o(r, Some("t"), "tokens-dir", &q);
                if mode >= 5 {
                    command = "optimize";
                    o(r, Some("p"), "processing", proc_cli_name(processing));
                    o(r, None, "type", ttype.cli_name());
                    o(r, Some("n"), "ntokens", &n.to_string());
                    if let Some(m) = min {
                        o(r, None, "min-data-size", &m.to_string());
                    }
                } else {
                    command = "convert-tokens";
                }
                let set_json = set_json.clone();
                judge = Box::new(move |_| {
                    let Result::Sets(mut m) = sets(&out) else { unreachable!() };
                    if let Some(l) = &left {
                        // The input stays if the result has another name.
                        if m.len() == 2 && m.get(l).map_or(false, |b| *b == set_json) {
                            m.remove(l);
                        }
                    }
                    Result::Sets(m)
                });
            }
            if !plain {
                if how_in_place.replace(false) {
                    how.push_str(" (token set in the tokens directory)");
                }
                r.shuffle(&mut args);
                if caps && r.chance(1, 2) {
                    let t = place(r, &dir.join("temporary")).join("a b");
                    std::fs::create_dir_all(&t).unwrap();
                    cli.env.push(("TMPDIR".into(), path_str(&t).into()));
                    how.push_str(" (another directory for temporary files)");
                }
            }
            let mut v = vec![command.to_string()];
            v.extend(args.concat());
            (v, cli, judge)
        };

        let go = |args: &[String], cli: &Cli, dir: &Path| {
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            cli.run(dir, &a)
        };
        let pd = crate::util::dir(dir.join("plain"));
        let (args, c, judge) = build(r, &pd, true, &mut String::new());
        let run = go(&args, &c, &pd);
        if run.outcome == Outcome::CpuLimit {
            ctx.rep.count("runs given up", 1);
            return;
        }
        let files: Vec<(&str, &[u8])> = vec![("data.txt", text.as_bytes()), ("set.json", &set_json)];
        if !must_succeed(ctx, &run, &format!("{} {}", args[0], processing), &files) {
            return;
        }
        let want = judge(&run);
        // Other contents of the same size in the same place with the same time stamps, where the command has run before.
        if mode < 5 && i % 3 == 0 && text.is_ascii() && !text.is_empty() {
            let mut b = text.clone().into_bytes();
            let at = r.below(b.len());
            b[at] = if b[at] == b'#' { b'@' } else { b'#' };
            let p = std::path::PathBuf::from(&args[2]);
            let when = std::fs::metadata(&p).unwrap().modified().unwrap();
            let other = path_str(&p).to_string();
            write(&p, &b);
            std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_modified(when)).unwrap();
            let run = go(&args, &c, &pd);
            let files: Vec<(&str, &[u8])> = vec![("data.txt", &b), ("before.txt", text.as_bytes()), ("set.json", &set_json)];
            let label = format!("{} again, when {} has other contents", args.join(" "), other);
            if run.outcome != Outcome::CpuLimit && mode != 4 {
                let got = judge(&run);
                let fd = crate::util::dir(dir.join("fresh"));
                let td = crate::util::dir(dir.join("fresh temporary"));
                let mut c2 = c.clone();
                c2.env.push(("TMPDIR".into(), path_str(&td).into()));
                let from = path_str(&pd).to_string();
                let to = path_str(&fd).to_string();
                for f in ["set.txt", "data.txt", "processed.txt"] {
                    if pd.join(f).exists() {
                        std::fs::copy(pd.join(f), fd.join(f)).unwrap();
                    }
                }
                std::fs::create_dir_all(fd.join("tokens")).unwrap();
                let args2: Vec<String> = args.iter().map(|a| a.replacen(&from, &to, 1)).collect();
                let run2 = go(&args2, &c2, &fd);
                if run2.outcome != Outcome::CpuLimit {
                    let want2 = match mode {
                        0 => Result::File(std::fs::read(fd.join("out.txt")).unwrap_or_default()),
                        1 => Result::Stdout(run2.stdout.clone()),
                        _ => sets(&fd.join("tokens")),
                    };
                    ctx.rep.count("runs where other contents were before", 1);
                    let (a, b) = (&run.outcome, &run2.outcome);
                    let differ = match (a, b) {
                        (Outcome::Ok, Outcome::Ok) => !same(&want2, &got),
                        (Outcome::Ok, Outcome::Failed(_)) | (Outcome::Failed(_), Outcome::Ok) => true,
                        _ => false,
                    };
                    if differ {
                        ctx.rep.violation("stale", &format!("{}\nelsewhere: {:?} {}\nhere: {:?} {}", label, b, show(&want2), a, show(&got)), &files);
                        return;
                    }
                }
            }
        }
        for k in 0..4 {
            let vd = crate::util::dir(dir.join(format!("v{}", k)));
            let mut how = String::new();
            let (args, c, judge) = build(r, &vd, false, &mut how);
            let run = go(&args, &c, &vd);
            if run.outcome == Outcome::CpuLimit {
                ctx.rep.count("runs given up", 1);
                return;
            }
            let label = format!("{:?}{}", args, how);
            if !must_succeed(ctx, &run, &label, &files) {
                return;
            }
            let got = judge(&run);
            ctx.rep.count(&format!("runs of {}", args[0]), 1);
            for x in how.split('(').skip(1) {
                ctx.rep.count(&format!("with {}", x.trim().trim_end_matches(')')), 1);
            }
            ctx.rep.case(&(&text, &args), true, || label.clone());
            if !same(&want, &got) {
                ctx.rep.violation("differs", &format!("{}\nplain: {}\nhere: {}", label, show(&want), show(&got)), &files);
                return;
            }
        }
    });
}

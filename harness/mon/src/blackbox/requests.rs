//! C27: requests are met exactly or refused.
use crate::opt::{opt_text, Case};
use crate::util::*;
use crate::Ctx;
use mon::cli::{json_files, path_str, Outcome};
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TType, ALL_TYPES};
use std::path::Path;

/// The older file is as it was, and there is no other.
fn untouched(out: &Path, older: &Path) -> bool {
    let names = json_files(out);
    names.len() == 1 && names[0] == *older && std::fs::read(older).map_or(false, |b| b == b"older")
}

fn some_n(r: &mut Rng, c: &Case) -> usize {
    let have = c.input.as_ref().map(|s| s.tokens.len());
    match r.below(8) {
        0 => r.below(min_n(c.ttype) + 3),
        1 => (min_n(c.ttype) + 2).saturating_sub(r.below(6)),
        2 => *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 20, 1 << 32, (1 << 32) + 3, 65536, i64::MAX as usize, 0, 1]),
        3 => r.range(255, 280),
        4 | 5 if have.is_some() => (have.unwrap() + 5).saturating_sub(r.below(12)),
        6 if have.is_some() => have.unwrap() - r.below(have.unwrap()),
        _ => have.unwrap_or(0).max(min_n(c.ttype)) + r.below(12),
    }
}

pub fn requests(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one `texmo optimize` run with a random type, processing and number of tokens, often too small, huge, or less than the \
         input token set has, and with an input token set often of another type or processing (or a command line with a wrong or missing \
         option); either the written set is of the requested kind, no bigger than requested and its statistics are true of the data \
         processed as requested, or the command fails and the tokens directory is as before; consistent requests must succeed; \
         non-trivial if the request contradicts itself or its input; distinct by (text, options, input set)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 4000 };
    ctx.rep.run("optimize", max, 0.85, |i, r, dir| {
        let ttype = ALL_TYPES[i as usize % 5];
        let most = *r.pick(&[6usize, 30, 80, 200]);
        let mut c = Case {
            text: opt_text(ctx, r, most),
            processing: if r.chance(1, 2) { "capswords" } else { "raw" },
            ttype,
            n: 0,
            input: None,
            processed: None,
            min_size: None,
            raw_len: None,
        };
        if r.chance(3, 4) {
            let t2: TType = if r.chance(1, 3) { ttype } else { *r.pick(&ALL_TYPES) };
            let p2 = if r.chance(1, 2) { "capswords" } else { "raw" };
            let d = c.data();
            let o = SetOpts { max_long: 8, shuffle: r.chance(1, 2), multi_seqs: false };
            c.input = Some(gen::small_set(r, t2, p2, &d, &o));
        }
        if r.chance(1, 5) {
            c.processed = Some(if c.processing == "raw" { "not to be used\n".to_string() } else { String::from_utf8(c.data()).unwrap() });
        }
        c.n = some_n(r, &c);
        if c.n > 400 && c.text.len() > 60 {
            // all pairs will be used up
            c.text = c.text.chars().take(40).collect();
            if c.processed.is_some() && c.processing != "raw" {
                c.processed = None;
                c.processed = Some(String::from_utf8(c.data()).unwrap());
            }
        }
        if r.chance(1, 8) && !c.text.is_empty() {
            let l = c.data().len();
            c.min_size = Some((l / 3 + r.below(l)).max(1));
        }
        let other_type = c.input.as_ref().map_or(false, |s| s.ttype != c.ttype);
        let other_proc = c.input.as_ref().map_or(false, |s| s.processing != c.processing);
        let too_many = c.input.as_ref().map_or(false, |s| s.tokens.len() > c.n);
        let too_few = c.n < min_n(c.ttype);
        // (From a Huffman set of more than 257 byte and extension tokens a smaller one need not exist.)
        let crowded = c.ttype == TType::Huff && c.input.as_ref().map_or(false, |s| s.tokens.len() - s.n_long() > 257);
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let older = out.join(match r.below(3) {
            0 => "unrelated.json".to_string(),
            1 => format!("tokens{}_{}_{}.json", c.n, c.processing, c.ttype.json_name()),
            _ => c.input.as_ref().map_or("x.json".to_string(), |s| format!("{}.json", s.name())),
        });
        write(&older, b"older");
        let run = c.run_with(&ctx.cli, dir, &out);
        let files = c.files();
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (a.as_str(), b.as_slice())).collect();
        let contradicts = other_type || other_proc || too_many || too_few;
        match run.outcome {
            Outcome::Ok => {
                if std::fs::read(&older).map_or(false, |b| b == b"older") {
                    let _ = std::fs::remove_file(&older);
                }
                let bad = match single_output(&out) {
                    Err(e) => Some(e),
                    Ok(o) => {
                        if o.set.ttype != c.ttype {
                            Some(format!("the result is of type {}", o.set.ttype.cli_name()))
                        } else if o.set.processing != c.processing {
                            Some(format!("the result is for processing {}", o.set.processing))
                        } else if o.set.split.unwrap_or(false) != c.input.as_ref().map_or(true, |s| s.split.unwrap_or(false)) {
                            Some(format!("its paragraph flag is {:?}, that of the input token set {:?}", o.set.split, c.input.as_ref().map(|s| s.split)))
                        } else if o.set.tokens.len() > c.n {
                            Some(format!("the result has {} tokens", o.set.tokens.len()))
                        } else if let Err(e) = o.set.validate() {
                            Some(e)
                        } else {
                            check_stats(&o, c.raw_size(), &c.data()).err()
                        }
                    }
                };
                if let Some(e) = bad {
                    ctx.rep.violation("not-as-requested", &format!("{}\n{}\nexited successfully, but {}", c.describe(), run.cmd, e), &fs);
                    return;
                }
                ctx.rep.count("requests met", 1);
                ctx.rep.count("requests met from an input set of another type", other_type as u64);
                ctx.rep.count("requests met from an input set with other processing", other_proc as u64);
                ctx.rep.count("requests met from an input set with more tokens", too_many as u64);
            }
            Outcome::Failed(_) => {
                if !contradicts && !crowded {
                    must_succeed(ctx, &run, &c.describe(), &fs);
                    return;
                }
                if !untouched(&out, &older) {
                    ctx.rep.violation(
                        "written",
                        &format!("{}\n{}\nthe command failed, but changed the tokens directory: {:?}", c.describe(), run.cmd, json_files(&out)),
                        &fs,
                    );
                    return;
                }
                ctx.rep.count("requests refused", 1);
                ctx.rep.count("requests refused: too few tokens for the type", too_few as u64);
                ctx.rep.count("requests refused: input set of another type", other_type as u64);
            }
            _ => {
                ctx.rep.count("runs given up", 1);
                return;
            }
        }
        ctx.rep.case(&(&c.text, c.ttype.json_name(), c.processing, c.n, c.input.as_ref().map(|s| s.canon())), contradicts, || {
            format!("{} -> {:?}", c.describe(), run.outcome)
        });
    });
    ctx.rep.run("options", if ctx.rep.thorough { 20_000 } else { 600 }, 0.15, |_, r, dir| {
        let text = opt_text(ctx, r, 60);
        let ttype = *r.pick(&ALL_TYPES);
        let d = dir.join("data.txt");
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        write(&d, text.as_bytes());
        let o = SetOpts { max_long: 5, shuffle: false, multi_seqs: false };
        let set = gen::small_set(r, ttype, "raw", text.as_bytes(), &o);
        let setp = dir.join("set.json");
        write(&setp, set.to_json().to_string().as_bytes());
        let older = out.join("older.json");
        write(&older, b"older");
        let n = set.tokens.len().to_string();
        let mut args: Vec<String> = ["optimize", "-d", path_str(&d), "-t", path_str(&out), "-p", "raw", "--type", ttype.cli_name(), "-n", &n, "-i", path_str(&setp)]
            .map(String::from)
            .to_vec();
        let what = match r.below(9) {
            0 => {
                args[9 - 1] = r.pick(&["bits3", "bits8", "BITS1", "", "byte", "huff", "bits1 ", "Bytes", "bits12", "bytes_huff"]).to_string();
                "an unknown type"
            }
            1 => {
                args[6] = r.pick(&["caps", "Raw", "", "capswords ", "none", "raw,caps-words"]).to_string();
                "unknown processing"
            }
            2 => {
                args[10] = r.pick(&["-1", "", "ten", "1e3", "18446744073709551616", "0x10", "12.0", "1_000", " 300"]).to_string();
                "a number of tokens that is none"
            }
            3 => {
                let k = *r.pick(&[1usize, 3, 5, 7, 9]);
                args.drain(k..k + 2);
                "a missing option"
            }
            4 => {
                args[2] = path_str(&dir.join("nothing.txt")).to_string();
                "missing data"
            }
            5 => {
                args[12] = path_str(&dir.join("nothing.json")).to_string();
                "a missing input set"
            }
            6 => {
                args.push(r.pick(&["extra", "--frobnicate", "--min-data-size", "-x"]).to_string());
                "an argument too many"
            }
            7 => {
                args.extend(["--min-data-size".to_string(), r.pick(&["-5", "1k", "", "18446744073709551616"]).to_string()]);
                "a sample size that is none"
            }
            _ => {
                args[0] = r.pick(&["optimise", "convert", "", "Optimize", "processes"]).to_string();
                "an unknown command"
            }
        };
        let refs: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let run = ctx.cli.run(dir, &refs);
        let fs: [(&str, &[u8]); 1] = [("data.txt", text.as_bytes())];
        match run.outcome {
            Outcome::Ok => ctx.rep.violation("accepted", &format!("{}\n{}\nbut the command succeeded", what, run.cmd), &fs),
            Outcome::Failed(_) => {
                if !untouched(&out, &older) {
                    ctx.rep.violation("written", &format!("{}\n{}\nthe command failed, but changed the tokens directory: {:?}", what, run.cmd, json_files(&out)), &fs);
                }
                ctx.rep.count("wrong command lines refused", 1);
                ctx.rep.case(&(&text, &args[1..]), true, || format!("{}: {}", what, run.cmd));
            }
            _ => ctx.rep.count("runs given up", 1),
        }
    });
}

use crate::Ctx;
use mon::cli::{json_files, path_str, Cli, Outcome, Run};
use mon::rng::Rng;
use mon::tset::{TSet, TType};
use serde_json::Value;
use std::path::{Path, PathBuf};

/// The verdict on a command that should have succeeded. Returns true if it did.
pub fn must_succeed(ctx: &Ctx, run: &Run, what: &str, files: &[(&str, &[u8])]) -> bool {
    match &run.outcome {
        Outcome::Ok => true,
        Outcome::Failed(how) => {
            ctx.rep.violation(
                "failed",
                &format!("valid input, but the command ended with {}\n{}\n{}\n{}", how, what, run.cmd, run.panic_line()),
                files,
            );
            false
        }
        Outcome::CpuLimit => {
            // (Debug dumps of big sets on stderr take long without being endless.)
            if ctx.rep.prop == "C05" {
                ctx.rep.violation(
                    "endless",
                    &format!("did not end within {} s of CPU time\n{}\n{}", ctx.cli.cpu, what, run.cmd),
                    files,
                );
            } else {
                ctx.rep.count("runs given up: out of CPU time", 1);
            }
            false
        }
        Outcome::Hung => {
            if matches!(ctx.rep.prop.as_str(), "C05" | "C10") {
                ctx.rep.violation("hung", &format!("all threads asleep for good\n{}\n{}", what, run.cmd), files);
            } else {
                ctx.rep.keep(&format!("hung: {} {}", what, run.cmd), files);
            ctx.rep.inconclusive(format!("hung: {} {}", what, run.cmd));
            }
            false
        }
        Outcome::Watchdog => {
            ctx.rep.keep(&format!("watchdog: {} {}", what, run.cmd), files);
            ctx.rep.inconclusive(format!("watchdog: {} {}", what, run.cmd));
            false
        }
    }
}

pub fn write(p: &Path, data: &[u8]) {
    std::fs::write(p, data).unwrap();
}

/// A file of that size without contents.
pub fn sparse(p: &Path, len: u64) {
    std::fs::File::create(p).unwrap().set_len(len).unwrap();
}

/// Any size up to a terabyte.
pub fn some_size(r: &mut Rng) -> u64 {
    let bits = r.range(0, 39);
    (1u64 << bits) + (r.next() & ((1u64 << bits) - 1))
}

pub fn dir(p: PathBuf) -> PathBuf {
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}

/// The only file in an output directory, parsed.
pub struct Output {
    pub path: PathBuf,
    pub bytes: Vec<u8>,
    pub set: TSet,
    pub value: Value,
}

pub fn single_output(dir: &Path) -> Result<Output, String> {
    let files = json_files(dir);
    if files.len() != 1 {
        return Err(format!("{} files were written: {:?}", files.len(), files));
    }
    load_output(&files[0])
}

pub fn load_output(path: &Path) -> Result<Output, String> {
    let bytes = std::fs::read(path).map_err(|e| e.to_string())?;
    let (set, value) = TSet::load(path)?;
    let name = path.file_name().unwrap().to_string_lossy().to_string();
    if name != format!("{}.json", set.name()) {
        return Err(format!("file {} contains the token set {}", name, set.name()));
    }
    Ok(Output { path: path.to_path_buf(), bytes, set, value })
}

impl Output {
    pub fn total(&self) -> Option<u64> {
        self.value["stats"]["total_tokens"].as_u64()
    }
    pub fn scanned(&self) -> Option<u64> {
        self.value["stats"]["scanned_bytes"].as_u64()
    }
}

/// Checks the statistics record of an output against the reference.
pub fn check_stats(o: &Output, raw_len: u64, data: &[u8]) -> Result<(), String> {
    let st = &o.value["stats"];
    let want = mon::dp::Trie::new(o.set.spans()).min_cost(data).ok_or("the text cannot be encoded with the token set")?;
    if st["ntokens"].as_u64() != Some(o.set.tokens.len() as u64) {
        return Err(format!("ntokens is {} for {} tokens", st["ntokens"], o.set.tokens.len()));
    }
    if st["total_tokens"].as_u64() != Some(want) {
        return Err(format!("total_tokens is {}, the minimum is {}", st["total_tokens"], want));
    }
    if st["scanned_bytes"].as_u64() != Some(data.len() as u64) {
        return Err(format!("scanned_bytes is {}, the data has {} bytes", st["scanned_bytes"], data.len()));
    }
    if st["initial_size"].as_u64() != Some(raw_len) {
        return Err(format!("initial_size is {}, the file has {} bytes", st["initial_size"], raw_len));
    }
    check_ratio(o, raw_len, want)
}

/// bytes_per_token
pub fn check_ratio(o: &Output, raw_len: u64, want: u64) -> Result<(), String> {
    let st = &o.value["stats"];
    if want > 0 {
        let r = raw_len as f64 / want as f64;
        let got = st["bytes_per_token"].as_f64().unwrap_or(f64::NAN);
        if !((got - r).abs() <= 1e-9 * r.max(1.0)) {
            return Err(format!("bytes_per_token is {}, should be {}", st["bytes_per_token"], r));
        }
    }
    Ok(())
}

pub fn proc_cli_name(p: &str) -> &'static str {
    if p == "raw" {
        "raw"
    } else {
        "caps-words"
    }
}

pub struct OptArgs<'a> {
    pub data: &'a Path,
    pub processed: Option<&'a Path>,
    pub out: &'a Path,
    pub ttype: TType,
    pub processing: &'a str,
    pub n: usize,
    pub input: Option<&'a Path>,
    pub min_size: Option<usize>,
}

pub fn run_optimize(cli: &Cli, work: &Path, a: &OptArgs) -> Run {
    let n = a.n.to_string();
    let ms = a.min_size.map(|m| m.to_string());
    let mut args = vec![
        "optimize", "-d", path_str(a.data), "-t", path_str(a.out), "-p", proc_cli_name(a.processing), "--type",
        a.ttype.cli_name(), "-n", &n,
    ];
    if let Some(p) = a.processed {
        args.extend(["--processed-data", path_str(p)]);
    }
    if let Some(i) = a.input {
        args.extend(["-i", path_str(i)]);
    }
    if let Some(m) = &ms {
        args.extend(["--min-data-size", m]);
    }
    cli.run(work, &args)
}

pub fn run_convert(cli: &Cli, work: &Path, data: &Path, processed: Option<&Path>, input: &Path, out: &Path) -> Run {
    let mut args = vec!["convert-tokens", "-d", path_str(data), "-i", path_str(input), "-t", path_str(out)];
    if let Some(p) = processed {
        args.extend(["--processed-data", path_str(p)]);
    }
    cli.run(work, &args)
}

pub fn min_n(t: TType) -> usize {
    match t {
        TType::Bits1 => 2,
        TType::Bits2 => 4,
        TType::Bits4 => 16,
        TType::Bytes => 256,
        TType::Huff => 3,
    }
}

/// A feasible size for which the optimizer is fast.
pub fn pick_n(r: &mut Rng, t: TType, text_len: usize) -> usize {
    let lo = min_n(t);
    match t {
        TType::Bytes => lo + r.skewed(30),
        TType::Huff => {
            if r.chance(1, 5) {
                r.range(3, 5)
            } else {
                lo + r.skewed(40)
            }
        }
        _ => {
            if r.chance(1, 400) && text_len < 60 {
                // room for every byte
                lo + 256 + r.below(12)
            } else {
                lo + r.skewed(45)
            }
        }
    }
}

//! Black-box monitors: run the real program and judge what it wrote.
use mon::cli::Cli;
use mon::gen::Corpus;
use mon::report::Reporter;
use std::path::PathBuf;

mod convert;
mod effects;
mod encoding;
mod faults;
mod layout;
mod names;
mod opt;
mod process;
mod progress;
mod requests;
mod sched;
mod util;

pub struct Ctx {
    pub rep: Reporter,
    pub cli: Cli,
    pub corpus: Corpus,
    pub repo: PathBuf,
    pub shims: PathBuf,
}

fn main() {
    let mut a = std::env::args().skip(1);
    let stage = a.next().expect("stage");
    let mut opt = std::collections::HashMap::new();
    while let Some(k) = a.next() {
        opt.insert(k.trim_start_matches('-').to_string(), a.next().expect("value"));
    }
    let get = |k: &str| opt.get(k).unwrap_or_else(|| panic!("--{} missing", k)).clone();
    let mut rep = Reporter::new(
        &get("prop"),
        get("seed").parse().unwrap(),
        get("tier") == "thorough",
        PathBuf::from(get("work")),
        PathBuf::from(get("replay")),
        get("budget").parse().unwrap(),
    );
    rep.out = Some(PathBuf::from(get("out")));
    let repo = PathBuf::from(get("repo"));
    let mut cli = Cli::new(&PathBuf::from(get("bin")));
    if !rep.thorough && matches!(stage.as_str(), "repeat" | "builtin" | "checkpoints" | "bpe" | "bytes_only" | "sample_size") {
        // some optimizations take very long; they are given up
        cli.cpu = 8;
    }
    let ctx = Ctx {
        cli,
        corpus: Corpus::load(&repo),
        shims: PathBuf::from(get("shims")),
        repo,
        rep,
    };
    ctx.rep.supervise(|| match stage.as_str() {
        "process" => process::process(&ctx),
        "count_chars" => process::count_chars(&ctx),
        "tokenize" => convert::tokenize(&ctx),
        "roundtrip" => convert::roundtrip(&ctx),
        "published" => convert::published(&ctx),
        "readers" => convert::readers(&ctx),
        "builtin" => convert::builtin(&ctx),
        "optimize" => opt::optimize(&ctx),
        "chains" => opt::chains(&ctx),
        "bpe" => opt::bpe(&ctx),
        "bytes_only" => opt::bytes_only(&ctx),
        "sample_size" => opt::sample_size(&ctx),
        "checkpoints" => sched::checkpoints(&ctx),
        "repeat" => sched::repeat(&ctx),
        "parallel" => sched::parallel(&ctx),
        "faults" => faults::faults(&ctx),
        "effects" => effects::effects(&ctx),
        "together" => effects::together(&ctx),
        "memory" => effects::memory(&ctx),
        "growth" => effects::growth(&ctx),
        "refused" => effects::refused(&ctx),
        "progress" => progress::progress(&ctx),
        "encoding" => encoding::encoding(&ctx),
        "layout" => layout::layout(&ctx),
        "names" => names::names(&ctx),
        "requests" => requests::requests(&ctx),
        s => panic!("unknown stage {}", s),
    });
}

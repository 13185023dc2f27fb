//! C03 tokenize, C07 roundtrip/published, C06 readers, C20 builtin.
use crate::util::*;
use crate::Ctx;
use mon::cli::path_str;
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TSet, TType, Tok, ALL_TYPES};
use std::path::Path;

pub fn text_for(ctx: &Ctx, r: &mut Rng, max: usize) -> String {
    gen::text(r, max, &ctx.corpus)
}

/// Draws a set and a text related to it.
pub fn set_and_text(ctx: &Ctx, r: &mut Rng, ttype: TType, processing: &str, max_text: usize, o: &SetOpts) -> (TSet, String) {
    let base = text_for(ctx, r, max_text);
    let set = gen::token_set(r, ttype, processing, base.as_bytes(), o);
    let text = match r.below(4) {
        0 | 1 => base,
        2 => gen::text_of_tokens(r, &set, max_text),
        _ => {
            let mut t = gen::text_of_tokens(r, &set, max_text / 2);
            t.push_str(&base);
            gen::cut(&mut t, max_text);
            t
        }
    };
    (set, text)
}

fn write_set(r: &mut Rng, p: &Path, set: &TSet) -> Vec<u8> {
    let v = set.to_json();
    let s = if r.chance(1, 4) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() };
    write(p, s.as_bytes());
    s.into_bytes()
}

/// More tokens than fit into 32 bits, from a set with bytes only (so that the
/// total does not depend on where the text is cut).
pub fn gigantic(ctx: &Ctx, optimize: bool) {
    ctx.rep.run("gigantic", 1, 0.5, |i, r, dir| {
        let unit = ctx.corpus.slice(r, 700_000) + "\n\n";
        let mut set = gen::plain_set(TType::Bits1, "raw");
        if !optimize && r.chance(1, 2) {
            set.add(vec![*r.pick(b"zqx#\n")]);
        }
        let cost = Trie::new(set.spans()).min_cost(unit.as_bytes()).unwrap();
        let reps = (1u64 << 32) / cost + 1 + r.below(20) as u64;
        let (data, setp, out) = (dir.join("data.txt"), dir.join("set.json"), dir.join("out"));
        std::fs::create_dir_all(&out).unwrap();
        {
            use std::io::Write;
            let mut f = std::fs::File::create(&data).unwrap();
            for _ in 0..reps {
                f.write_all(unit.as_bytes()).unwrap();
            }
        }
        let set_bytes = write_set(r, &setp, &set);
        let mut cli = ctx.cli.clone();
        cli.cpu = 300;
        let run = if optimize {
            run_optimize(
                &cli,
                dir,
                &OptArgs { data: &data, processed: None, out: &out, ttype: TType::Bits1, processing: "raw", n: 2, input: None, min_size: None },
            )
        } else {
            run_convert(&cli, dir, &data, None, &setp, &out)
        };
        let files: [(&str, &[u8]); 2] = [("unit.txt", unit.as_bytes()), ("set.json", &set_bytes)];
        let what = format!("{} copies of a text of {} bytes, {}", reps, unit.len(), gen::describe(&set));
        if !must_succeed(ctx, &run, &what, &files) {
            return;
        }
        ctx.rep.case(&(i, reps, &unit), true, || what.clone());
        ctx.rep.count("texts of more than 2^32 tokens", 1);
        let e = match single_output(&out) {
            Ok(o) => {
                let (len, want) = (reps * unit.len() as u64, reps * cost);
                if o.total() != Some(want) || o.scanned() != Some(len) {
                    Err(format!("{} tokens and {} bytes reported, there are {} and {}", o.value["stats"]["total_tokens"], o.value["stats"]["scanned_bytes"], want, len))
                } else {
                    check_ratio(&o, len, want)
                }
            }
            Err(e) => Err(e),
        };
        if let Err(e) = e {
            ctx.rep.violation("large-total", &format!("{}\n{}\n{}", run.cmd, what, e), &files);
        }
    });
}

pub fn tokenize(ctx: &Ctx) {
    gigantic(ctx, false);
    ctx.rep.rule(
        "one case = one run of `texmo convert-tokens` on a generated text and a generated (or published) token set; the reported \
         totals are compared with a shortest-path reference; non-trivial if a token of two bytes or more or a fallback sequence \
         is needed in a minimal tokenization; distinct by (text, set)",
    );
    {
        let n = if ctx.rep.thorough { 40 } else { 5 };
        let want = if ctx.rep.thorough { 6_000_000 } else { 2_500_000 };
        ctx.rep.run("huge", n, 0.15, |i, r, dir| {
            let t = ALL_TYPES[i as usize % 5];
            let o = SetOpts { max_long: 200, shuffle: false, multi_seqs: true };
            let base = ctx.corpus.slice(r, 60_000);
            let set = gen::token_set(r, t, "raw", base.as_bytes(), &o);
            let mut text = String::new();
            while text.len() < want {
                let x = gen::text_of_tokens(r, &set, 300_000);
                text.push_str(&x);
                text.push_str(&ctx.corpus.slice(r, 50_000));
            }
            one_tokenize(ctx, r, dir, &set, &text, None);
        });
    }
    let max = if ctx.rep.thorough { 1_000_000 } else { 6000 };
    ctx.rep.run("random", max, if ctx.rep.thorough { 0.7 } else { 0.75 }, |i, r, dir| {
        let t = ALL_TYPES[i as usize % 5];
        let big = r.chance(1, 40);
        let o = SetOpts { max_long: if big { 400 } else { 30 }, shuffle: r.chance(1, 2), multi_seqs: true };
        let proc = if r.chance(1, 5) { "capswords" } else { "raw" };
        let max_text = *r.pick(&[30usize, 200, 1000, 4000, if big { 200_000 } else { 10_000 }]);
        let (set, text) = if i == 0 || i == 5000 {
            // More than 65536 different beginnings of tokens.
            let mut set = gen::token_set(r, t, proc, b"abc", &SetOpts { max_long: 3, shuffle: false, multi_seqs: true });
            let mut have: std::collections::HashSet<Vec<u8>> = set.strs().cloned().chain(set.seqs.iter().map(|s| s.0.clone())).collect();
            let mut states = std::collections::HashSet::new();
            while states.len() < 70_000 {
                let tok: Vec<u8> = (0..r.range(4, 14)).map(|_| b'a' + r.below(12) as u8).collect();
                if have.insert(tok.clone()) {
                    (1..=tok.len()).for_each(|k| {
                        states.insert(tok[..k].to_vec());
                    });
                    set.add(tok);
                }
            }
            let mut text = String::new();
            while text.len() < 100_000 {
                text.push_str(&gen::text_of_tokens(r, &set, 30_000));
            }
            ctx.rep.count("sets with more than 65536 beginnings of tokens", 1);
            (set, text)
        } else if r.chance(1, 80) {
            let base = ctx.corpus.slice(r, 60_000);
            let n = r.range(1000, 5000);
            let set = gen::many_set(r, t, proc, base.as_bytes(), n, o.shuffle);
            let text = if r.chance(1, 2) { base } else { gen::text_of_tokens(r, &set, 60_000) };
            ctx.rep.count("sets of about a thousand tokens or more", 1);
            (set, text)
        } else {
            set_and_text(ctx, r, t, proc, max_text, &o)
        };
        let mut set = set;
        if r.chance(1, 4) && gen::odd_sequences(r, &mut set, text.as_bytes()) {
            ctx.rep.count("sets of a bits type with unusual byte encodings", 1);
        }
        // For caps-words the text given to the tokenizer is passed as
        // processed data, next to an unrelated raw file.
        let raw = if proc == "capswords" { Some(text_for(ctx, r, 100)) } else { None };
        one_tokenize(ctx, r, dir, &set, &text, raw.as_deref());
    });
    // Published sets.
    let files = mon::cli::json_files(&ctx.repo.join("tokens"));
    let n = if files.is_empty() { 0 } else if ctx.rep.thorough { files.len() as u64 * 3 } else { 16 };
    ctx.rep.run("published", n, 0.15, |i, r, dir| {
        let f = if ctx.rep.thorough { &files[i as usize % files.len()] } else { r.pick(&files) };
        if std::fs::metadata(f).map(|m| m.len()).unwrap_or(0) > 200_000 && !ctx.rep.thorough {
            return;
        }
        if let Ok((mut set, _)) = TSet::load(f) {
            if set.validate().is_err() {
                return;
            }
            let text = ctx.corpus.slice(r, 60_000);
            set.split = Some(true);
            let raw = if set.processing == "capswords" { Some("x") } else { None };
            let text = if raw.is_some() { mon::procspec::encode(&gen::clean_for_processing(&text)) } else { text };
            one_tokenize(ctx, r, dir, &set, &text, raw);
        }
    });
}

fn one_tokenize(ctx: &Ctx, r: &mut Rng, dir: &Path, set: &TSet, text: &str, raw: Option<&str>) {
    let data = dir.join("data.txt");
    let proc_path = dir.join("processed.txt");
    let setp = dir.join("set.json");
    let out = dir.join("out");
    std::fs::create_dir_all(&out).unwrap();
    let set_bytes = write_set(r, &setp, set);
    let (processed, raw_len) = match raw {
        Some(raw) => {
            // (Only the size of the raw file matters.)
            let len = if r.chance(1, 2) { some_size(r) } else { raw.len() as u64 };
            if len == raw.len() as u64 {
                write(&data, raw.as_bytes());
            } else {
                sparse(&data, len);
            }
            write(&proc_path, text.as_bytes());
            (Some(proc_path.as_path()), len)
        }
        None => {
            write(&data, text.as_bytes());
            (None, text.len() as u64)
        }
    };
    let run = run_convert(&ctx.cli, dir, &data, processed, &setp, &out);
    let files: [(&str, &[u8]); 2] = [("text.txt", text.as_bytes()), ("set.json", &set_bytes)];
    if !must_succeed(ctx, &run, "convert-tokens", &files) {
        return;
    }
    let o = match single_output(&out) {
        Ok(o) => o,
        Err(e) => {
            ctx.rep.violation("output", &format!("{}\n{}", run.cmd, e), &files);
            return;
        }
    };
    let trie = Trie::new(set.spans());
    let want = trie.min_cost(text.as_bytes()).unwrap();
    let nontrivial = want != text.len() as u64;
    ctx.rep.count("tokens in minimal tokenizations", want);
    ctx.rep.count("bytes tokenized", text.len() as u64);
    ctx.rep.see("token sets", &set_bytes);
    ctx.rep.count(&format!("cases of type {}", set.ttype.json_name()), 1);
    ctx.rep.case(&(text, &set_bytes), nontrivial, || {
        format!("{} bytes of text {:?}..., {}: {} tokens", text.len(), text.chars().take(40).collect::<String>(), gen::describe(set), want)
    });
    if o.total() != Some(want) {
        ctx.rep.violation(
            "not-minimal",
            &format!("{}\n{} tokens reported, the minimum is {} ({} bytes, {})", run.cmd, o.value["stats"]["total_tokens"], want, text.len(), gen::describe(set)),
            &files,
        );
    } else if o.scanned() != Some(text.len() as u64) {
        ctx.rep.violation("scanned", &format!("{}\n{} bytes scanned of {}", run.cmd, o.value["stats"]["scanned_bytes"], text.len()), &files);
    } else if o.value["stats"]["initial_size"].as_u64() != Some(raw_len) {
        ctx.rep.violation("initial-size", &format!("{}\ninitial_size {} of {}", run.cmd, o.value["stats"]["initial_size"], raw_len), &files);
    } else if let Err(e) = check_ratio(&o, raw_len, want) {
        ctx.rep.violation("bytes-per-token", &format!("{}\n{}", run.cmd, e), &files);
    }
}

fn random_json_form(r: &mut Rng, set: &TSet) -> (serde_json::Value, TSet, &'static str) {
    // Returns the file, what it means, and the name of the form.
    let mut v;
    let meaning = set.clone();
    let form = r.below(5);
    match form {
        0 if set.ttype != TType::Huff => {
            let spelt_out = r.chance(1, 3);
            v = set.to_legacy_json(spelt_out).unwrap();
            return (v, meaning, if spelt_out { "older format with sequences" } else { "older format" });
        }
        1 if set.ttype.bits().is_some() => {
            // current type names but no sequences
            v = set.to_json();
            v.as_object_mut().unwrap().remove("sequences");
            return (v, meaning, "no sequences");
        }
        2 => {
            // tokens written as byte arrays although they are valid UTF-8
            v = set.to_json();
            for (t, x) in set.tokens.iter().zip(v["tokens"].as_array_mut().unwrap()) {
                if let Tok::Str(s) = t {
                    if r.chance(1, 3) {
                        *x = serde_json::json!(s);
                    }
                }
            }
            return (v, meaning, "byte arrays");
        }
        3 => {
            // with a statistics record of an earlier run
            v = set.to_json();
            v["stats"] = serde_json::json!({"ntokens": 3, "total_tokens": 17, "scanned_bytes": 99, "bytes_per_token": 1.5});
            return (v, meaning, "with statistics");
        }
        _ => {}
    }
    v = set.to_json();
    (v, meaning, "current format")
}

pub fn roundtrip(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a generated token set file in one of the accepted formats, loaded and written by `texmo convert-tokens`, and \
         its output loaded and written again; non-trivial if the set has tokens of two or more bytes or sequences; distinct by file",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 4000 };
    ctx.rep.run("random", max, 0.7, |i, r, dir| {
        let t = ALL_TYPES[i as usize % 5];
        let o = SetOpts { max_long: if r.chance(1, 30) { 300 } else { 25 }, shuffle: r.chance(1, 2), multi_seqs: true };
        let proc = if r.chance(1, 2) { "capswords" } else { "raw" };
        let max_text = if r.chance(1, 3) { 2000 } else { 60 };
        let (set, text) = set_and_text(ctx, r, t, proc, max_text, &o);
        let text = gen::clean_for_processing(&text);
        let mut set = set;
        let odd = r.chance(1, 4) && gen::odd_sequences(r, &mut set, text.as_bytes());
        let (v, meaning, form) = if odd { (set.to_json(), set.clone(), "unusual byte encodings") } else { random_json_form(r, &set) };
        let bytes = if r.chance(1, 4) { serde_json::to_string_pretty(&v).unwrap() } else { v.to_string() }.into_bytes();
        let nt = set.n_long() > 0 || !set.seqs.is_empty();
        ctx.rep.count(&format!("files: {}", form), 1);
        ctx.rep.count("tokens that are not valid UTF-8", set.strs().filter(|s| std::str::from_utf8(s).is_err()).count() as u64);
        ctx.rep.case(&bytes, nt, || format!("{}: {}", form, gen::describe(&set)));
        round(ctx, dir, &bytes, &meaning, &text, form);
    });
}

/// Loads and writes the set twice. True if fine.
fn round(ctx: &Ctx, dir: &Path, set_bytes: &[u8], meaning: &TSet, text: &str, what: &str) -> bool {
    let data = dir.join("data.txt");
    write(&data, text.as_bytes());
    let setp = dir.join("set.json");
    write(&setp, set_bytes);
    let files: [(&str, &[u8]); 2] = [("text.txt", text.as_bytes()), ("set.json", set_bytes)];
    let o1 = dir.join("o1");
    let o2 = dir.join("o2");
    std::fs::create_dir_all(&o1).unwrap();
    std::fs::create_dir_all(&o2).unwrap();
    let run = run_convert(&ctx.cli, dir, &data, None, &setp, &o1);
    if !must_succeed(ctx, &run, &format!("loading a token set ({})", what), &files) {
        return false;
    }
    let a = match single_output(&o1) {
        Ok(a) => a,
        Err(e) => {
            ctx.rep.violation("output", &format!("{}\n{}\n{}", what, run.cmd, e), &files);
            return false;
        }
    };
    if let Err(e) = meaning.same_as(&a.set) {
        ctx.rep.violation("changed", &format!("{}\n{}\n{}", what, run.cmd, e), &files);
        return false;
    }
    // The statistics show that the set means the same to the program.
    let processed = if meaning.processing == "capswords" {
        let mut t = text.to_string();
        if !t.is_empty() && !t.ends_with('\n') {
            t.push('\n');
        }
        mon::procspec::encode(&t)
    } else {
        text.to_string()
    };
    let want = Trie::new(meaning.spans()).min_cost(processed.as_bytes());
    if let Some(w) = want {
        if a.total() != Some(w) {
            ctx.rep.violation("used-differently", &format!("{}\n{}\n{} tokens with the loaded set, {} with the one in the file", what, run.cmd, a.value["stats"]["total_tokens"], w), &files);
            return false;
        }
    }
    let run2 = run_convert(&ctx.cli, dir, &data, None, &a.path, &o2);
    if !must_succeed(ctx, &run2, &format!("loading a written token set ({})", what), &files) {
        return false;
    }
    match single_output(&o2) {
        Ok(b) => {
            if a.bytes != b.bytes {
                ctx.rep.violation(
                    "not-stable",
                    &format!("{}\nloading and writing the written file again gives a different file", what),
                    &[files[0], files[1], ("first.json", &a.bytes), ("second.json", &b.bytes)],
                );
                return false;
            }
        }
        Err(e) => {
            ctx.rep.violation("output", &format!("{}\n{}\n{}", what, run2.cmd, e), &files);
            return false;
        }
    }
    true
}

pub fn published(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one of the token sets in tokens/, loaded, used and written twice by `texmo convert-tokens`; \
         non-trivial always; distinct by file",
    );
    let mut files = mon::cli::json_files(&ctx.repo.join("tokens"));
    // Big ones first.
    files.sort_by_key(|f| std::cmp::Reverse(std::fs::metadata(f).map(|m| m.len()).unwrap_or(0)));
    let limit = if ctx.rep.thorough { u64::MAX } else { 40_000 };
    ctx.rep.run("published", files.len() as u64, 2.0, |i, r, dir| {
        let f = &files[i as usize];
        if std::fs::metadata(f).unwrap().len() > limit {
            ctx.rep.count("published sets left to the thorough tier", 1);
            return;
        }
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let bytes = std::fs::read(f).unwrap();
        match TSet::load(f) {
            Ok((set, _)) => {
                let text = gen::clean_for_processing(&ctx.corpus.slice(r, 3000));
                ctx.rep.case(&bytes, true, || format!("{}: {}", name, gen::describe(&set)));
                ctx.rep.count("published sets used", 1);
                round(ctx, dir, &bytes, &set, &text, &name);
            }
            Err(e) => ctx.rep.violation("published", &format!("{}: {}", name, e), &[]),
        }
    });
}

fn bytes_set() -> TSet {
    TSet {
        ttype: TType::Bytes,
        processing: "raw".into(),
        split: Some(true),
        tokens: (0..=255u8).map(|b| Tok::Str(vec![b])).collect(),
        seqs: vec![],
    }
}

/// A text of exactly n bytes whose blank lines and multi-byte characters lie
/// around the given fragment end.
pub fn aligned_text(r: &mut Rng, ctx: &Ctx, n: usize, frag: usize) -> String {
    let mut s = String::with_capacity(n + 8);
    let style = r.below(4);
    let filler: Vec<char> = match r.below(3) {
        0 => vec!['x'],
        1 => vec!['é', 'x'],
        _ => vec!['中', '😀', 'a'],
    };
    let prose = ctx.corpus.slice(r, 40_000);
    while s.len() < n {
        let pos = s.len() % frag;
        let left = frag - pos;
        if left < 40 && style != 3 {
            match r.below(5) {
                0 => s.push_str("\n\n"),
                1 => s.push('\n'),
                2 => s.push('a'),
                _ => s.push(*r.pick(&filler)),
            }
        } else if style == 0 {
            s.push_str(&prose);
        } else {
            let k = left.min(n - s.len()).min(1 + r.below(5000));
            for _ in 0..k / 4 + 1 {
                s.push(*r.pick(&filler));
            }
            if style == 2 && r.chance(1, 50) {
                s.push_str("\n\n");
            }
        }
    }
    gen::cut(&mut s, n);
    while s.len() < n {
        s.push('z');
    }
    s
}

/// Files around multiples of the real fragment sizes (16 MiB and 1 MiB).
pub fn readers(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a generated file with a length near a multiple of 16 MiB (convert-tokens) or 1 MiB (optimize), blank lines and \
         multi-byte characters placed around the fragment ends, and a byte-only token set, so that scanned bytes and tokens must \
         both equal the file size; non-trivial if the file is longer than one fragment; distinct by file",
    );
    let mi = 1usize << 20;
    let max = if ctx.rep.thorough { 400 } else { 22 };
    ctx.rep.run("big-files", max, 0.9, |i, r, dir| {
        let data = dir.join("data.txt");
        let setp = dir.join("set.json");
        let out = dir.join("out");
        std::fs::create_dir_all(&out).unwrap();
        let big = i % 5 == 0;
        let (frag, mult) = if big { (16 * mi, r.range(1, 2)) } else { (mi, r.range(1, 4)) };
        let d = r.below(9) as i64 - 4;
        let extra = if r.chance(1, 2) { 0 } else { r.below(frag / 2) as i64 };
        let n = (frag * mult) as i64 + d + extra;
        let s = aligned_text(r, ctx, n as usize, frag);
        write(&data, s.as_bytes());
        let set = bytes_set();
        write(&setp, set.to_json().to_string().as_bytes());
        let run = if big {
            run_convert(&ctx.cli, dir, &data, None, &setp, &out)
        } else {
            run_optimize(
                &ctx.cli,
                dir,
                &OptArgs { data: &data, processed: None, out: &out, ttype: TType::Bytes, processing: "raw", n: 256, input: None, min_size: None },
            )
        };
        ctx.rep.count("bytes in big files", s.len() as u64);
        ctx.rep.case(&s, s.len() > frag, || format!("{} bytes = {} x {} {:+}, {}", s.len(), mult, frag, s.len() as i64 - (frag * mult) as i64, run.cmd));
        if !must_succeed(ctx, &run, &format!("file of {} bytes", s.len()), &[("data.txt", s.as_bytes())]) {
            return;
        }
        match single_output(&out) {
            Ok(o) => {
                if o.scanned() != Some(s.len() as u64) || o.total() != Some(s.len() as u64) {
                    ctx.rep.violation(
                        "lost-data",
                        &format!("{}\n{} bytes in the file, {} scanned, {} single-byte tokens", run.cmd, s.len(), o.value["stats"]["scanned_bytes"], o.value["stats"]["total_tokens"]),
                        &[("data.txt", s.as_bytes())],
                    );
                }
            }
            Err(e) => ctx.rep.violation("output", &format!("{}\n{}", run.cmd, e), &[]),
        }
    });
}

/// C20.
pub fn builtin(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = the same convert-tokens or optimize command run on a raw file and, for caps-words sets, with the output of \
         `texmo process` as --processed-data (for raw sets: with unrelated processed data, which must be ignored); non-trivial if \
         processing changes the text; distinct by (text, command)",
    );
    let max = if ctx.rep.thorough { 100_000 } else { 1500 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        // one file so big that it is tokenized by several threads
        let huge = i % 1500 == 2;
        let data = dir.join("data.txt");
        let other = dir.join("processed.txt");
        let setp = dir.join("set.json");
        let o1 = dir.join("o1");
        let o2 = dir.join("o2");
        std::fs::create_dir_all(&o1).unwrap();
        std::fs::create_dir_all(&o2).unwrap();
        let caps = huge || r.chance(3, 4);
        let processing = if caps { "capswords" } else { "raw" };
        let optimize = !huge && r.chance(1, 2);
        // (now and then more than fits into any buffer)
        let large = huge || !optimize && r.chance(1, 6);
        let max_text = if huge { 2 * r.range(34 << 20, 40 << 20) } else if optimize { 1200 } else if large { 600_000 } else { 5000 };
        let text = match if huge { 2 } else if large { 1 + r.below(2) } else { r.below(3) } {
            0 => {
                let n = r.range(1, max_text);
                gen::wordy(r, n)
            }
            1 => {
                let n = r.range(1, max_text);
                ctx.corpus.slice(r, n)
            }
            _ if large => {
                let mut unit = gen::text(r, 40_000, &ctx.corpus);
                unit.push_str(*r.pick(&["", "\n", " ", "x"]));
                unit.repeat(max_text / 2 / unit.len().max(1) + 1)
            }
            _ => gen::text(r, max_text, &ctx.corpus),
        };
        if large {
            ctx.rep.count(if huge { "texts above 32 MiB" } else { "large texts" }, 1);
        }
        let mut text = gen::clean_for_processing(&text);
        if !large && r.chance(1, 6) {
            // line ends and spaces that make up for the markers: same size before and after
            let n = if r.chance(1, 3) { 1 } else { r.range(1, 30) };
            text = String::new();
            for _ in 0..n {
                let k = r.below(6);
                let words: Vec<String> = (0..k).map(|_| (0..r.range(1, 7)).map(|_| (b'a' + r.below(26) as u8) as char).collect()).collect();
                text.push_str(&words.join(" "));
                text.push_str(if k > 0 { "\r\n" } else { "\n" });
            }
        }
        write(&data, text.as_bytes());
        // line ends are \n after processing, whatever they were
        let mut full = text.replace("\r\n", "\n");
        if !full.is_empty() && !full.ends_with('\n') {
            full.push('\n');
        }
        let encoded = mon::procspec::encode(&full);
        if encoded != text && encoded.len() == text.len() {
            ctx.rep.count("texts that processing leaves at the same size", 1);
        }
        let mut files: Vec<(&str, Vec<u8>)> = vec![("data.txt", text.clone().into_bytes())];
        if caps {
            let run = ctx.cli.run(dir, &["process", "-d", path_str(&data), "-o", path_str(&other)]);
            if !must_succeed(ctx, &run, "process", &[("data.txt", text.as_bytes())]) {
                return;
            }
        } else {
            let mut junk = gen::text(r, 2000, &ctx.corpus);
            junk.push_str("junk\n");
            write(&other, junk.as_bytes());
        }
        let t = *r.pick(&ALL_TYPES);
        let input = if !optimize || r.chance(1, 4) {
            let o = SetOpts { max_long: 12, shuffle: false, multi_seqs: !optimize };
            let s = gen::token_set(r, t, processing, if caps { encoded.as_bytes() } else { text.as_bytes() }, &o);
            if optimize && s.tokens.len() - s.n_long() > 257 {
                return;
            }
            let b = s.to_json().to_string();
            write(&setp, b.as_bytes());
            files.push(("set.json", b.into_bytes()));
            Some(s)
        } else {
            None
        };
        let n = match &input {
            Some(s) => s.tokens.len() + r.below(6),
            None => pick_n(r, t, text.len()),
        };
        let min_size = if optimize && r.chance(1, 8) && text.len() > 100 { Some(text.len() / 2) } else { None };
        let go = |processed: Option<&Path>, out: &Path| {
            if optimize {
                run_optimize(
                    &ctx.cli,
                    dir,
                    &OptArgs { data: &data, processed, out, ttype: t, processing, n, input: input.as_ref().map(|_| setp.as_path()), min_size },
                )
            } else {
                run_convert(&ctx.cli, dir, &data, processed, &setp, out)
            }
        };
        let fs: Vec<(&str, &[u8])> = files.iter().map(|(a, b)| (*a, b.as_slice())).collect();
        let r1 = go(None, &o1);
        if !must_succeed(ctx, &r1, "built-in processing", &fs) {
            return;
        }
        let r2 = go(Some(&other), &o2);
        if !must_succeed(ctx, &r2, "processed data", &fs) {
            return;
        }
        ctx.rep.count(if optimize { "optimize pairs" } else { "convert-tokens pairs" }, 1);
        ctx.rep.count(if caps { "caps-words pairs" } else { "raw pairs" }, 1);
        ctx.rep.case(&(&text, optimize, n, t.json_name()), encoded != text, || format!("{} on {:?}...", r1.cmd, text.chars().take(50).collect::<String>()));
        match (single_output(&o1), single_output(&o2)) {
            (Ok(a), Ok(b)) => {
                if a.bytes != b.bytes || a.path.file_name() != b.path.file_name() {
                    let mut fs = fs.clone();
                    fs.push(("built-in.json", &a.bytes));
                    fs.push(("processed-data.json", &b.bytes));
                    ctx.rep.violation(
                        "differ",
                        &format!("{}\n{}\nresults differ{}", r1.cmd, r2.cmd, if caps { "" } else { ": processed data was used for a raw set" }),
                        &fs,
                    );
                } else {
                    let base: &[u8] = if caps { encoded.as_bytes() } else { text.as_bytes() };
                    if huge {
                        // (the minimum depends on where such texts are cut)
                        if a.scanned() != Some(base.len() as u64) || a.value["stats"]["initial_size"].as_u64() != Some(text.len() as u64) {
                            ctx.rep.violation("stats", &format!("{}\n{} bytes of {} scanned, initial_size {} of {}", r1.cmd, a.value["stats"]["scanned_bytes"], base.len(), a.value["stats"]["initial_size"], text.len()), &fs);
                        }
                    } else if let Err(e) = check_stats(&a, text.len() as u64, base) {
                        ctx.rep.violation("stats", &format!("{}\n{}", r1.cmd, e), &fs);
                    }
                }
            }
            (Err(e), _) | (_, Err(e)) => ctx.rep.violation("output", &format!("{}\n{}", r1.cmd, e), &fs),
        }
    });
}

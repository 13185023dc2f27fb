//! C32: the layout of a token set file does not matter.
use crate::opt::opt_text;
use crate::util::*;
use crate::Ctx;
use mon::cli::{path_str, Outcome};
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TSet, TType, ALL_TYPES};
use serde_json::{json, Map, Value};

fn space(r: &mut Rng, how: usize, out: &mut String) {
    match how {
        0 => {}
        1 => {
            for _ in 0..r.below(4) {
                out.push(*r.pick(&[' ', '\n', '\t', '\r']));
            }
        }
        _ => {
            if r.chance(1, 30) {
                let c = *r.pick(&[' ', '\n', '\t', '\r']);
                let n = r.range(1000, 20_000);
                out.extend(std::iter::repeat(c).take(n));
            }
        }
    }
}

fn string(r: &mut Rng, esc: usize, s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        let escape = must || esc == 1 || esc == 2 && !c.is_ascii() || esc == 3 && r.chance(1, 3);
        if !escape {
            out.push(c);
            continue;
        }
        let short = match c {
            '"' => Some('"'),
            '\\' => Some('\\'),
            '/' => Some('/'),
            '\n' => Some('n'),
            '\t' => Some('t'),
            '\r' => Some('r'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            _ => None,
        };
        match short {
            Some(x) if r.chance(1, 2) => {
                out.push('\\');
                out.push(x);
            }
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    if r.chance(1, 2) {
                        out.push_str(&format!("\\u{:04x}", u));
                    } else {
                        out.push_str(&format!("\\u{:04X}", u));
                    }
                }
            }
        }
    }
    out.push('"');
}

/// The value as a JSON text in a random layout.
fn emit(r: &mut Rng, ws: usize, esc: usize, v: &Value, out: &mut String) {
    space(r, ws, out);
    match v {
        Value::String(s) => string(r, esc, s, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                emit(r, ws, esc, x, out);
            }
            if a.is_empty() {
                space(r, ws, out);
            }
            out.push(']');
        }
        Value::Object(m) => {
            out.push('{');
            let mut keys: Vec<&String> = m.keys().collect();
            r.shuffle(&mut keys);
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                space(r, ws, out);
                let e = (esc == 1 || esc == 3 && r.chance(1, 4)) as usize;
                string(r, e, k, out);
                space(r, ws, out);
                out.push(':');
                emit(r, ws, esc, &m[*k], out);
            }
            if keys.is_empty() {
                space(r, ws, out);
            }
            out.push('}');
        }
        x => out.push_str(&x.to_string()),
    }
    space(r, ws, out);
}

fn junk(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 0 { 9 } else { 7 }) {
        0 => Value::Null,
        1 => json!(r.chance(1, 2)),
        2 => json!(-(r.below(1000) as i64)),
        3 => json!(1.5e300),
        4 => json!(u64::MAX),
        5 => json!(gen::word(r)),
        6 => json!(["a", 0, [255], "e"]),
        7 => Value::Array((0..r.below(4)).map(|_| junk(r, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for _ in 0..r.below(4) {
                let k = if r.chance(1, 2) { r.pick(&["type", "tokens", "sequences", "processing", "split_paragraphs"]).to_string() } else { gen::word(r) };
                m.insert(k, junk(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

/// Members that say nothing about the token set.
fn add_members(r: &mut Rng, v: &mut Value, what: &mut Vec<&str>) {
    let m = v.as_object_mut().unwrap();
    if r.chance(1, 2) {
        m.insert("stats".into(), json!({"ntokens": r.below(10), "scanned_bytes": 3, "total_tokens": 0, "token_counts": [1, 2], "type": "bits1", "initial_size": 77, "bytes_per_token": -1.0}));
        what.push("other statistics");
    }
    for _ in 0..r.below(4) {
        let k = match r.below(3) {
            0 => r.pick(&["name", "Tokens", "TYPE", "comment", "", "version", "ntokens", "token", "sequence", "type ", "fallback", "n", "_"]).to_string(),
            _ => gen::word(r),
        };
        if !["type", "tokens", "processing", "sequences", "split_paragraphs", "fallback_bits", "stats"].contains(&k.as_str()) {
            let j = junk(r, 4);
            m.insert(k, j);
            what.push("unknown members");
        }
    }
    if r.chance(1, 3) {
        if let Some(Value::Array(s)) = m.get_mut("sequences") {
            for q in s.iter_mut() {
                if r.chance(1, 4) {
                    q["count"] = junk(r, 2);
                }
            }
            what.push("unknown members");
        }
    }
}

fn to_list(r: &mut Rng, v: &mut Value, many: bool) {
    if let Value::String(s) = v {
        if many || r.chance(1, 4) {
            *v = json!(s.as_bytes());
        }
    }
}

/// Another way to say the same with the same order of tokens.
fn rewrite(r: &mut Rng, set: &TSet, v: &Value, what: &mut Vec<&str>) -> Value {
    let mut v = v.clone();
    if r.chance(1, 3) {
        what.push("tokens as lists of bytes");
        let many = r.chance(1, 3);
        for t in v["tokens"].as_array_mut().unwrap() {
            to_list(r, t, many);
        }
        if let Some(Value::Array(s)) = v.get_mut("sequences") {
            for q in s.iter_mut() {
                to_list(r, &mut q["string"], many);
                for t in q["tokens"].as_array_mut().unwrap() {
                    to_list(r, t, many);
                }
            }
        }
    }
    if r.chance(1, 4) {
        what.push("fallback tokens elsewhere");
        let mut t = v["tokens"].as_array().unwrap().clone();
        let mut ext: Vec<Value> = t.iter().filter(|x| x.is_number()).cloned().collect();
        t.retain(|x| !x.is_number());
        r.shuffle(&mut ext);
        let ends = r.chance(1, 2);
        for e in ext {
            let at = if ends { t.len() } else { r.below(t.len() + 1) };
            t.insert(at, e);
        }
        v["tokens"] = Value::Array(t);
    }
    if r.chance(1, 4) && set.ttype != TType::Huff {
        what.push("the older name of the type");
        match set.ttype.bits() {
            Some(b) => {
                v["type"] = json!("fallback_bits");
                v["fallback_bits"] = json!(b);
            }
            None => v["type"] = json!("all_tokens"),
        }
    }
    if r.chance(1, 4) && !set.split.unwrap_or(false) {
        what.push("the paragraph flag left out");
        if set.split.is_some() {
            v.as_object_mut().unwrap().remove("split_paragraphs");
        } else {
            v["split_paragraphs"] = json!(false);
        }
    }
    if r.chance(1, 4) && set.seqs.is_empty() {
        what.push("an empty list of sequences");
        v["sequences"] = json!([]);
    }
    if r.chance(1, 2) {
        add_members(r, &mut v, what);
    }
    v
}

/// The same set with another order of tokens and sequences.
fn reorder(r: &mut Rng, set: &TSet) -> TSet {
    let mut s = set.clone();
    r.shuffle(&mut s.tokens);
    r.shuffle(&mut s.seqs);
    s
}

fn member<'a>(v: &'a Value, p: &str) -> &'a Value {
    v.pointer(p).unwrap_or(&Value::Null)
}

pub fn layout(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one run of convert-tokens or optimize on a token set file that holds the same token set in another layout (white space, \
         order of members, escapes, lists of byte values, older names, members without meaning, reformatted by pretty.py, or another order \
         of tokens and sequences), compared with a run on the compact file; distinct by (text, file)",
    );
    let max = if ctx.rep.thorough { 1_000_000 } else { 5000 };
    ctx.rep.run("metamorphic", max, 1.0, |i, r, dir| {
        let optimize = i % 4 == 3;
        let caps = r.chance(1, 4);
        let processing = if caps { "capswords" } else { "raw" };
        let ttype = ALL_TYPES[i as usize / 4 % 5];
        let text = if optimize {
            opt_text(ctx, r, 80)
        } else {
            let n = *r.pick(&[50usize, 500, 5000]);
            gen::clean_for_processing(&gen::text(r, n, &ctx.corpus))
        };
        let o = SetOpts { max_long: if optimize { 6 } else { 40 }, shuffle: r.chance(1, 2), multi_seqs: !optimize };
        let set = if optimize { gen::small_set(r, ttype, processing, text.as_bytes(), &o) } else { gen::token_set(r, ttype, processing, text.as_bytes(), &o) };
        if set.validate().is_err() || optimize && set.tokens.len() - set.n_long() > 257 {
            return;
        }
        let mut set = set;
        if !optimize && r.chance(1, 4) && gen::odd_sequences(r, &mut set, text.as_bytes()) {
            ctx.rep.count("sets of a bits type with unusual byte encodings", 1);
        }
        let value = set.to_json();
        let data = dir.join("data.txt");
        write(&data, text.as_bytes());
        let n = set.tokens.len() + r.below(4);
        let mut cli = ctx.cli.clone();
        cli.cpu = 6;
        cli.quiet = optimize;
        let go = |file: &[u8], tag: &str, pretty: bool| -> Option<(Output, Vec<u8>)> {
            let d = dir.join(tag);
            let _ = std::fs::remove_dir_all(&d);
            let out = crate::util::dir(d.join("out"));
            let p = d.join("set.json");
            write(&p, file);
            if pretty {
                let ok = std::process::Command::new("python3")
                    .args(["-B", path_str(&ctx.repo.join("pretty.py")), path_str(&p)])
                    .stdout(std::process::Stdio::null())
                    .stderr(std::process::Stdio::null())
                    .status();
                if !ok.map_or(false, |s| s.success()) {
                    ctx.rep.count("files that pretty.py did not reformat", 1);
                }
            }
            let run = if optimize {
                run_optimize(&cli, &d, &OptArgs { data: &data, processed: None, out: &out, ttype, processing, n, input: Some(&p), min_size: None })
            } else {
                run_convert(&cli, &d, &data, None, &p, &out)
            };
            if run.outcome == Outcome::CpuLimit {
                ctx.rep.count("runs given up", 1);
                return None;
            }
            let now = std::fs::read(&p).unwrap();
            let files: Vec<(&str, &[u8])> = vec![("data.txt", text.as_bytes()), ("set.json", &now)];
            if !must_succeed(ctx, &run, &format!("{} of a set of type {} ({})", if optimize { "optimize" } else { "convert-tokens" }, ttype.json_name(), tag), &files) {
                return None;
            }
            match single_output(&out) {
                Ok(o) => Some((o, now)),
                Err(e) => {
                    ctx.rep.violation("output", &format!("{}: {}", tag, e), &files);
                    None
                }
            }
        };
        let plain = value.to_string();
        let t0 = std::time::Instant::now();
        let Some((want, _)) = go(plain.as_bytes(), "plain", false) else { return };
        let slow = t0.elapsed().as_millis() > 700;
        for k in 0..if slow { 1 } else { 5 } {
            let mut what: Vec<&str> = Vec::new();
            let moved = k == 4 && !optimize;
            let mut pretty = false;
            let file = if moved {
                what.push("another order of tokens and sequences");
                let s = reorder(r, &set);
                let mut v = s.to_json();
                if set.ttype.bits().is_some() && r.chance(1, 2) {
                    // The encodings that every set of the type has may be left out.
                    let bits = set.ttype.bits().unwrap();
                    if let Some(Value::Array(q)) = v.get_mut("sequences") {
                        let before = q.len();
                        let usual: Vec<bool> = s.seqs.iter().map(|(x, t)| x.len() == 1 && *t == mon::tset::digits(x[0], bits)).collect();
                        let mut it = usual.iter();
                        q.retain(|_| !*it.next().unwrap() || r.chance(1, 3));
                        if q.len() < before {
                            what.push("usual encodings left out");
                        }
                    }
                }
                v.to_string()
            } else {
                let v = rewrite(r, &set, &value, &mut what);
                pretty = r.chance(1, 4);
                if pretty {
                    what.push("reformatted by pretty.py");
                }
                let (ws, esc) = (r.below(3), r.below(4));
                if ws > 0 {
                    what.push("white space");
                }
                if esc > 0 {
                    what.push("escapes");
                }
                let mut s = String::new();
                emit(r, ws, esc, &v, &mut s);
                debug_assert_eq!(serde_json::from_str::<Value>(&s).unwrap(), v);
                s
            };
            let Some((got, now)) = go(file.as_bytes(), &format!("v{}", k), pretty) else { return };
            for w in &what {
                ctx.rep.count(&format!("with {}", w), 1);
            }
            ctx.rep.count(if optimize { "runs of optimize" } else { "runs of convert-tokens" }, 1);
            ctx.rep.case(&(&text, &file), true, || format!("{} tokens, {}", set.tokens.len(), what.join(", ")));
            let differs = if moved {
                ["/stats/total_tokens", "/stats/ntokens", "/stats/scanned_bytes", "/stats/initial_size"].iter().any(|p| member(&got.value, p) != member(&want.value, p))
                    || got.set.same_as(&want.set).is_err()
            } else {
                got.bytes != want.bytes
            };
            if differs {
                ctx.rep.violation(
                    "differs",
                    &format!(
                        "{} of a set of type {} for {}: the same token set in another file ({}) gives another result\ncompact: {}\nhere: {}",
                        if optimize { "optimize" } else { "convert-tokens" },
                        ttype.json_name(),
                        processing,
                        what.join(", "),
                        want.value["stats"],
                        got.value["stats"]
                    ),
                    &[("data.txt", text.as_bytes()), ("compact.json", plain.as_bytes()), ("set.json", &now), ("result.json", &got.bytes), ("expected.json", &want.bytes)],
                );
                return;
            }
        }
    });
}

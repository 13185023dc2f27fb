//! C06 readers, C17 samples.
use crate::*;
use mon::gen;
use mon::rng::Rng;

/// Texts with blank lines and multi-byte characters around multiples of the
/// limit.
fn text_for(ctx: &Ctx, r: &mut Rng, limit: usize) -> String {
    let n = match r.below(6) {
        0 => r.below(3),
        1 => (limit * r.range(1, 4)).saturating_sub(r.below(4)) + r.below(4),
        _ => r.skewed(limit * 6),
    };
    match r.below(5) {
        0 => gen::text(r, n.max(1), &ctx.corpus),
        1 => gen::paragraphs(r, n, &ctx.corpus),
        _ => {
            let al = *r.pick(&[
                ['x', 'x', 'x', '\n'],
                ['x', '\n', '\n', 'é'],
                ['中', '😀', 'é', 'x'],
                ['中', '\n', '\n', 'x'],
                ['😀', '😀', '\n', '\n'],
                ['x', 'y', 'z', '中'],
            ]);
            let mut s = String::new();
            while s.len() < n {
                if r.chance(1, 10) {
                    s.push_str("\n\n");
                }
                s.push(*r.pick(&al));
            }
            s
        }
    }
}

/// Paragraphs of any length up to that of the longest fragments.
fn large_text(r: &mut Rng, limit: usize) -> String {
    let n = limit * r.range(1, 3) + r.below(limit);
    let mut s = String::with_capacity(n + 8);
    let longest = *r.pick(&[limit / 3, limit, limit * 2]);
    while s.len() < n {
        let unit = *r.pick(&["x", "x\n", "é", "中", "😀", "a\nb"]);
        let k = r.skewed(longest).min(n - s.len());
        s.push_str(&unit.repeat(k / unit.len() + 1));
        s.push_str(*r.pick(&["\n\n", "\n\n", "\n\n\n", "\n", ""]));
    }
    s
}

fn fragments<'a, S: Sampler<'a>>(s: &'a S, cap: usize) -> Result<(Vec<Vec<u8>>, u64), String> {
    guard(|| {
        let mut v = Vec::new();
        let mut bytes = 0;
        for f in s.iter() {
            let f = f.as_bytes().to_vec();
            bytes += f.len();
            // Wrong already, and maybe without end.
            let wrong = f.is_empty() || bytes > cap;
            v.push(f);
            if wrong {
                break;
            }
        }
        (v, s.total_size())
    })
}

pub fn readers(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one generated file read through the file reader and the memory reader with a fragment limit of 4 bytes to a few \
         KiB; non-trivial if it took two or more fragments; distinct by (file, limit)",
    );
    let max = if ctx.rep.thorough { 100_000_000 } else { 60_000 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        let large = i % 300 == 7;
        let limit = if large {
            *r.pick(&[1usize << 15, 1 << 16, 100_000, 1 << 18, 1 << 20, 1 << 20, 3_000_000, if i % 1200 == 7 { 1 << 24 } else { 1 << 17 }])
        } else { match r.below(4) {
            0 => r.range(4, 12),
            1 => r.range(4, 40),
            2 => r.range(16, 300),
            _ => r.range(100, 5000),
        } };
        let text = if large {
            ctx.rep.count("files with fragments of 32 KiB to 16 MiB", 1);
            large_text(r, limit)
        } else {
            text_for(ctx, r, limit)
        };
        let data = text.as_bytes();
        let p = dir.join("d.txt");
        std::fs::write(&p, data).unwrap();
        let files: [(&str, &[u8]); 1] = [("data.txt", data)];
        for kind in ["file", "memory", "memory-str"] {
            let label = format!("{} reader, fragment limit {}, {} bytes", kind, limit, data.len());
            let res = match kind {
                "file" => {
                    let s = FileSampler::new(p.to_str().unwrap(), limit, None);
                    fragments(&s, data.len() + 10)
                }
                "memory" => {
                    let s = MemorySampler::from_file(p.to_str().unwrap(), limit);
                    fragments(&s, data.len() + 10)
                }
                _ => {
                    let s = MemorySampler::from_str(&text, limit);
                    fragments(&s, data.len() + 10)
                }
            };
            let (frags, total) = match res {
                Ok(x) => x,
                Err(e) => {
                    ctx.rep.violation("panic", &format!("{}\n{}", label, e), &files);
                    return;
                }
            };
            ctx.rep.count("fragments judged", frags.len() as u64);
            ctx.rep.case(&(&text, limit, kind), frags.len() > 1, || format!("{}: {} fragments", label, frags.len()));
            if let Err(e) = judge(data, &frags, limit) {
                ctx.rep.violation("fragments", &format!("{}\n{}", label, e), &files);
                return;
            }
            if total != data.len() as u64 {
                ctx.rep.violation("size", &format!("{}\nannounced size {}", label, total), &files);
                return;
            }
        }
    });
}

fn judge(data: &[u8], frags: &[Vec<u8>], limit: usize) -> Result<(), String> {
    let mut pos = 0;
    for (i, f) in frags.iter().enumerate() {
        if f.is_empty() {
            return Err(format!("fragment {} is empty", i));
        }
        if f.len() > limit {
            return Err(format!("fragment {} has {} bytes", i, f.len()));
        }
        if pos + f.len() > data.len() || data[pos..pos + f.len()] != f[..] {
            return Err(format!("fragment {} (at byte {}) is not what follows in the file", i, pos));
        }
        if std::str::from_utf8(f).is_err() {
            return Err(format!("fragment {} (at byte {}) cuts a character", i, pos));
        }
        let end = pos + f.len();
        if end < data.len() {
            let ends_blank = f.len() >= 2 && f.ends_with(&[10, 10]) || end >= 2 && data[end - 2..end] == [10, 10];
            if !ends_blank {
                let win = (pos + limit).min(data.len());
                for p in pos + 2..=win {
                    if data[p - 2..p] == [10, 10] {
                        return Err(format!("fragment {} is {}..{} and does not end after a blank line, although there is one ending at {}", i, pos, end, p));
                    }
                }
            }
        }
        pos = end;
    }
    if pos != data.len() {
        return Err(format!("only {} of {} bytes were read", pos, data.len()));
    }
    Ok(())
}

/// C17.
pub fn samples(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a sample of generated size drawn from a generated file of unique paragraphs; it must consist of whole paragraphs in \
         order and follow the proportional share of every prefix within the longest paragraph; non-trivial if some but not all \
         paragraphs were drawn; distinct by (file, size)",
    );
    let max = if ctx.rep.thorough { 100_000_000 } else { 60_000 };
    ctx.rep.run("random", max, 1.0, |i, r, dir| {
        // Unique paragraphs: each begins with its number.
        let big = i % 1500 == 11;
        let n = if big { r.range(1_000, 12_000) } else { r.skewed(60) };
        let mut paras: Vec<String> = Vec::new();
        let lens = match r.below(180) {
            0..=2 if !big => 4,
            3..=17 if !big => 3,
            _ => r.below(3),
        };
        if lens > 2 {
            ctx.rep.count("files of long paragraphs", 1);
        }
        let heads = r.below(6).saturating_sub(1);
        for i in 0..n {
            let mut s = if i == 0 && r.chance(1, 10) { "\n".repeat(r.range(1, 3)) } else { String::new() };
            if heads > 0 && r.chance(heads, 4) {
                // Anything may come first.
                s.push(match r.below(4) {
                    0 => '\t',
                    1 => *r.pick(&[' ', '\r', '\u{0}', '\u{b}', '\u{7f}', '\u{a0}', '\u{2028}', '\u{feff}']),
                    2 => (r.below(10) as u8) as char,
                    _ => Some(gen::any_char(r)).filter(|c| *c != '\n').unwrap_or('-'),
                });
            }
            s.push_str(&format!("{}:", i));
            let m = match lens {
                0 => r.below(4),
                1 => r.below(40),
                3 => r.range(3_000, 12_000),
                4 if r.chance(1, 6) => r.range(60_000, 700_000),
                _ => r.skewed(600),
            };
            let mut body = match r.below(3) {
                0 => "x".repeat(m),
                1 => gen::wordy(r, m).replace('\n', " "),
                _ => ctx.corpus.slice(r, m).replace("\n\n", " \n"),
            };
            // single newlines are fine inside a paragraph
            while body.contains("\n\n") {
                body = body.replace("\n\n", "\n");
            }
            let body = body.trim_matches('\n').to_string();
            s.push_str(&body);
            if i + 1 < n {
                s.push_str(&"\n".repeat(*r.pick(&[2usize, 2, 2, 3, 4])));
            } else {
                s.push_str(&"\n".repeat(r.below(4)));
            }
            paras.push(s);
        }
        // A leading run of blank lines is a paragraph of its own.
        if let Some(f) = paras.first().cloned() {
            let k = f.len() - f.trim_start_matches('\n').len();
            if k >= 2 {
                paras[0] = f[k..].to_string();
                paras.insert(0, f[..k].to_string());
            }
        }
        let text = paras.concat();
        if text.len() < 2 {
            return;
        }
        let size = match r.below(4) {
            0 => r.range(1, 5.min(text.len() - 1)),
            1 => text.len() - 1 - r.below(text.len().min(4) - 1),
            _ => 1 + r.below(text.len() - 1),
        };
        if big {
            ctx.rep.count("bytes in files of thousands of paragraphs", text.len() as u64);
        }
        let p = dir.join("d.txt");
        std::fs::write(&p, &text).unwrap();
        let files: [(&str, &[u8]); 1] = [("data.txt", text.as_bytes())];
        let label = format!("sample of {} bytes from {} ({} paragraphs)", size, text.len(), paras.len());
        let chunk = *r.pick(&[1usize << 20, 64]);
        let res = guard(|| {
            let s = MemorySampler::sample_from_file(p.to_str().unwrap(), size, chunk);
            let v: Vec<u8> = s.iter().flat_map(|f| f.as_bytes().to_vec()).collect();
            (v, s.total_size())
        });
        let (got, total) = match res {
            Ok(x) => x,
            Err(e) => {
                ctx.rep.violation("panic", &format!("{}\n{}", label, e), &files);
                return;
            }
        };
        if total != got.len() as u64 {
            ctx.rep.violation("size", &format!("{}\nannounced size {}, {} bytes", label, total, got.len()), &files);
            return;
        }
        let longest = paras.iter().map(|p| p.len()).max().unwrap() as f64;
        let share = size as f64 / text.len() as f64;
        let mut pos = 0;
        let mut read = 0.0;
        let mut taken = 0usize;
        let mut worst = 0.0f64;
        for q in &paras {
            if got[pos..].starts_with(q.as_bytes()) {
                pos += q.len();
                taken += 1;
            }
            read += q.len() as f64;
            let dev = (pos as f64 - share * read).abs();
            worst = worst.max(dev / longest);
            if dev > longest + 1e-6 * read {
                ctx.rep.violation("uneven", &format!("{}\nof the first {} bytes {} were sampled, the share is {:.1}; the longest paragraph has {}", label, read, pos, share * read, longest), &files);
                return;
            }
        }
        ctx.rep.count("paragraphs drawn", taken as u64);
        ctx.rep.case(&(&text, size), taken > 0 && taken < paras.len(), || format!("{}: {} paragraphs drawn, {} bytes, deviation at most {:.2} of the longest", label, taken, got.len(), worst));
        if pos != got.len() {
            ctx.rep.violation("not-paragraphs", &format!("{}\nthe sample is not made of whole paragraphs in order (differs at byte {})", label, pos), &[files[0], ("sample.txt", &got)]);
        }
    });
}

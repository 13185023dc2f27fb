//! C14: which bytes get tokens.
use crate::*;
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::TType;
use std::collections::{BTreeSet, HashMap};

fn random_count(r: &mut Rng, style: usize) -> u64 {
    match style {
        0 => r.below(4) as u64,
        1 => r.skewed(100_000) as u64,
        2 => {
            if r.chance(1, 2) {
                0
            } else {
                1u64 << r.below(40)
            }
        }
        3 => 7,
        // large and nearly equal
        5..=10 => (1u64 << (15 + 6 * (style - 5))) + r.below(300) as u64,
        _ => r.next() >> (24 + r.below(38)),
    }
}

pub fn bytes(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one call of a byte optimizer with random usage counts (ties, zeros, heavy skew, large), a random input set and a \
         random budget; non-trivial if the result has both bytes with and without their own token; distinct by (counts, set, budget)",
    );
    let max = if ctx.rep.thorough { 100_000_000 } else { 40_000 };
    ctx.rep.run("random", max, 1.0, |i, r, _| {
        let t = [TType::Bits1, TType::Bits2, TType::Bits4, TType::Huff, TType::Bytes][i as usize % 5];
        let huff = matches!(t, TType::Huff | TType::Bytes);
        let text = gen::text(r, 300, &ctx.corpus);
        let o = SetOpts { max_long: 10, shuffle: r.chance(1, 2), multi_seqs: false };
        let processing = if r.chance(1, 2) { "raw" } else { "capswords" };
        let set = gen::token_set(r, t, processing, text.as_bytes(), &o);
        let sut = to_sut(&set);
        let mut stats = TokenStats::new(sut, None);
        let style = if r.chance(1, 4) { r.range(5, 10) } else { r.below(5) };
        let hot = r.below(6) == 0;
        for c in stats.token_counts.iter_mut() {
            *c = random_count(r, style);
        }
        for c in stats.seq_counts.iter_mut() {
            *c = if hot { random_count(r, 4) } else { random_count(r, style) };
        }
        // usage of each byte, in index order of the real structures
        let mut used: HashMap<u8, u64> = HashMap::new();
        for (k, tok) in stats.token_set.tokens.iter().enumerate() {
            if let Token::Str(s) = tok {
                if s.len() == 1 {
                    used.insert(s[0], stats.token_counts[k]);
                }
            }
        }
        for (k, q) in stats.token_set.sequences.iter().enumerate() {
            if q.string.len() == 1 {
                used.insert(q.string[0], stats.seq_counts[k]);
            }
        }
        let cnt = |b: u8| used.get(&b).copied().unwrap_or(0);
        let n_ext = set.n_ext();
        let n = if huff {
            match r.below(5) {
                0 => r.range(3, 6),
                1 => r.range(240, 290),
                _ => r.range(3, 200),
            }
        } else {
            match r.below(5) {
                0 => n_ext + r.below(3),
                1 => n_ext + 250 + r.below(12),
                _ => n_ext + r.below(256),
            }
        };
        let label = format!("{} with {} byte and extension tokens, counts of style {}", gen::describe(&set), n, style);
        let js = set.to_json().to_string();
        let cs = format!("token counts {:?}\nsequence counts {:?}\nbudget {}", stats.token_counts, stats.seq_counts, n);
        let files: [(&str, &[u8]); 2] = [("set.json", js.as_bytes()), ("counts.txt", cs.as_bytes())];
        let res = guard(|| {
            if huff {
                HuffOptimizer::optimize_bytes(&stats, n)
            } else {
                SimpleBytesOptimizer::optimize_bytes(&stats, n)
            }
        });
        let got = match res.and_then(|g| guard(|| from_sut(&g))) {
            Ok(g) => g,
            Err(e) => {
                ctx.rep.violation("panic", &format!("{}\n{}", label, e), &files);
                return;
            }
        };
        let byte_tokens: BTreeSet<u8> = got.strs().filter(|s| s.len() == 1).map(|s| s[0]).collect();
        ctx.rep.count("byte tokens allotted", byte_tokens.len() as u64);
        ctx.rep.case(&(&js, &cs), byte_tokens.len() > 0 && byte_tokens.len() < 256, || format!("{} -> {}", label, gen::describe(&got)));
        let gj = got.to_json().to_string();
        let files = [files[0], files[1], ("result.json", gj.as_bytes())];
        let bad = |kind: &str, e: String| ctx.rep.violation(kind, &format!("{}\n{}", label, e), &files);
        if got.ttype != if huff { TType::Huff } else { t } || got.processing != set.processing {
            return bad("type", format!("the result is {}", got.name()));
        }
        if let Err(e) = got.validate() {
            return bad("invalid-set", e);
        }
        let longs = |s: &TSet| s.strs().filter(|x| x.len() > 1).cloned().collect::<BTreeSet<_>>();
        if longs(&got) != longs(&set) {
            return bad("long-tokens", format!("{} longer tokens became {}", longs(&set).len(), longs(&got).len()));
        }
        let have = byte_tokens.len() + got.n_ext();
        if have != n && byte_tokens.len() < 256 || have > n {
            return bad("size", format!("{} byte and extension tokens", have));
        }
        if !huff {
            if byte_tokens.len() != (n - n_ext).min(256) {
                return bad("size", format!("{} byte tokens", byte_tokens.len()));
            }
            let min_in = byte_tokens.iter().map(|b| cnt(*b)).min().unwrap_or(u64::MAX);
            let out: Vec<u8> = (0..=255u8).filter(|b| !byte_tokens.contains(b)).collect();
            if let Some(b) = out.iter().max_by_key(|b| cnt(**b)) {
                if cnt(*b) > min_in {
                    return bad("order", format!("byte {} is used {} times and has no token; a byte with a token is used {} times", b, cnt(*b), min_in));
                }
            }
        } else {
            let mut code: HashMap<Vec<Tok>, u8> = HashMap::new();
            for s in got.strs() {
                if s.len() == 1 {
                    code.insert(vec![Tok::Str(s.clone())], s[0]);
                }
            }
            for (s, q) in &got.seqs {
                code.insert(q.clone(), s[0]);
            }
            for (c, b) in &code {
                for l in 1..c.len() {
                    if let Some(p) = code.get(&c[..l]) {
                        if cnt(*b) > cnt(*p) {
                            return bad("order", format!("the code of byte {} (used {} times) extends that of byte {} (used {} times)", b, cnt(*b), p, cnt(*p)));
                        }
                    }
                }
            }
        }
    });
}

//! C19: the tokenization cache is transparent.
use crate::*;
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::rng::Rng;
use mon::tset::{TType, ALL_TYPES};

/// A set that differs a little from the given one.
fn variant(r: &mut Rng, s: &TSet, text: &[u8]) -> TSet {
    let mut v = s.clone();
    match r.below(9) {
        0 => r.shuffle(&mut v.tokens),
        1 => r.shuffle(&mut v.seqs),
        2 => {
            // one more long token
            if let Some(t) = gen::long_tokens(r, text, 1).pop() {
                if !v.strs().any(|x| *x == t) {
                    v.tokens.push(Tok::Str(t));
                }
            }
        }
        3 => {
            // one long token less
            let l: Vec<usize> = (0..v.tokens.len()).filter(|&i| matches!(&v.tokens[i], Tok::Str(x) if x.len() > 1)).collect();
            if !l.is_empty() {
                let used: Vec<&Tok> = v.seqs.iter().flat_map(|q| q.1.iter()).collect();
                let i = *r.pick(&l);
                if !used.contains(&&v.tokens[i]) {
                    v.tokens.remove(i);
                }
            }
        }
        4 => {
            // two sequences exchanged: same tokens, other encodings
            if v.ttype == TType::Huff && v.seqs.len() > 1 {
                let i = r.below(v.seqs.len());
                let j = r.below(v.seqs.len());
                let a = v.seqs[i].1.clone();
                v.seqs[i].1 = v.seqs[j].1.clone();
                v.seqs[j].1 = a;
            }
        }
        5 => {
            if v.ttype == TType::Huff && !v.seqs.is_empty() {
                // one sequence made longer by an extension nobody uses
                let i = r.below(v.seqs.len());
                let n_ext = v.n_ext();
                let mut w = v.seqs[i].1.clone();
                w.push(Tok::Ext(r.below(n_ext) as u8));
                let ext = w.clone();
                if !v.seqs.iter().any(|q| q.1.starts_with(&ext)) {
                    v.seqs[i].1 = w;
                }
            } else if let Some(bits) = v.ttype.bits() {
                // a byte token more or less
                let b = text.get(r.below(text.len().max(1))).copied().unwrap_or(b'a');
                if v.has_byte(b) {
                    v.tokens.retain(|t| *t != Tok::Str(vec![b]));
                    v.seqs.push((vec![b], mon::tset::digits(b, bits)));
                } else {
                    v.seqs.retain(|q| q.0 != vec![b]);
                    v.tokens.push(Tok::Str(vec![b]));
                }
            }
        }
        6 => {
            // one byte of a token changed, or two exchanged
            let l: Vec<usize> = (0..v.tokens.len()).filter(|&i| matches!(&v.tokens[i], Tok::Str(x) if x.len() > 1)).collect();
            if !l.is_empty() {
                let i = *r.pick(&l);
                let mut s = match &v.tokens[i] {
                    Tok::Str(s) => s.clone(),
                    _ => unreachable!(),
                };
                let k = r.below(s.len());
                match r.below(3) {
                    0 => s[k] = r.below(256) as u8,
                    1 => s[k] ^= 1 << r.below(8),
                    _ => s.swap(0, k),
                }
                let old = Tok::Str(s.clone());
                let used = v.seqs.iter().any(|q| q.0 == s || q.1.contains(&v.tokens[i]));
                if !used && !v.tokens.contains(&old) {
                    v.tokens[i] = old;
                }
            }
        }
        7 => {
            // a token that is not text
            let s: Vec<u8> = (0..r.range(2, 4)).map(|_| 0x80 + r.below(128) as u8).collect();
            if !v.tokens.contains(&Tok::Str(s.clone())) {
                v.tokens.push(Tok::Str(s));
            }
        }
        _ => {
            v.processing = if v.processing == "raw" { "capswords".into() } else { "raw".into() };
        }
    }
    v
}

pub fn cache(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a history of 3 to 14 (sometimes up to 700) requests with and without pair counts to one cache, for sets that differ in one token, one \
         sequence, their order or processing; every answer is compared with a fresh tokenization and the shortest-path reference; \
         non-trivial if some set was asked for twice; distinct by (text, history)",
    );
    let max = if ctx.rep.thorough { 10_000_000 } else { 20_000 };
    ctx.rep.run("random", max, 1.0, |i, r, _| {
        let t = ALL_TYPES[i as usize % 5];
        let text = gen::text(r, if i % 40 == 3 { 60 } else { [60usize, 300, 800][i as usize % 3] }, &ctx.corpus);
        let frags: Vec<String> = {
            let mut v = Vec::new();
            if !text.is_empty() {
                v.push(text.clone());
            }
            if r.chance(1, 3) {
                v.push("second fragment\n".into());
            }
            v
        };
        let o = SetOpts { max_long: 12, shuffle: r.chance(1, 2), multi_seqs: false };
        let mut pool: Vec<TSet> = vec![gen::token_set(r, t, "raw", text.as_bytes(), &o)];
        if r.chance(1, 3) {
            let t2 = *r.pick(&ALL_TYPES);
            pool.push(gen::token_set(r, t2, "raw", text.as_bytes(), &o));
        }
        let sampler = VecSampler::sync(frags.clone());
        let initial = if r.chance(1, 2) { Some(77) } else { None };
        let mut cache = TokenizerCache::new(&sampler, initial);
        let mut asked: Vec<(usize, bool)> = Vec::new();
        let mut repeats = 0;
        let mut log = String::new();
        let long = i % 40 == 3;
        let (steps, most) = if i == 3 {
            // more sets than a small cache would hold
            if ctx.rep.thorough { (4000, 2500) } else { (900, 600) }
        } else if long { (r.range(200, 700), r.range(20, 300)) } else { (r.range(3, 14), 6) };
        for step in 0..steps {
            if pool.len() < most && (i == 3 || r.chance(1, 2)) {
                let base = r.pick(&pool).clone();
                let v = variant(r, &base, text.as_bytes());
                if v.validate().is_ok() {
                    pool.push(v);
                }
            }
            // the oldest ones again at the end
            let k = if i == 3 && step < most {
                pool.len() - 1
            } else if long && step + 8 > steps {
                r.below(3.min(pool.len()))
            } else {
                r.below(pool.len())
            };
            let with_pairs = r.chance(1, 3);
            let set = &pool[k];
            if asked.iter().any(|a| a.0 == k) {
                repeats += 1;
            }
            asked.push((k, with_pairs));
            log.push_str(&format!("set {}{}; ", k, if with_pairs { " with pairs" } else { "" }));
            let sut = to_sut(set);
            let res = guard(|| {
                let got = if with_pairs { cache.get_stats_with_pairs(&sut) } else { cache.get_stats(&sut) };
                let mut sorted = sut.clone();
                sorted.sort();
                let fresh = tokenize_file(&sorted, &sampler, initial);
                (got, fresh)
            });
            let js = set.to_json().to_string();
            let files: [(&str, &[u8]); 2] = [("text.txt", text.as_bytes()), ("set.json", js.as_bytes())];
            let (got, fresh) = match res {
                Ok(x) => x,
                Err(e) => {
                    ctx.rep.violation("panic", &format!("history: {}\n{}", log, e), &files);
                    return;
                }
            };
            ctx.rep.count("answers checked", 1);
            let (mut a, mut b) = (counts(&got), counts(&fresh));
            let mut err = None;
            if !with_pairs {
                // Pair counts are optional, but must not be wrong.
                if a.pairs.is_empty() {
                    b.pairs.clear();
                } else if a.pairs != b.pairs {
                    err = Some("wrong pair counts".to_string());
                }
                a.pairs.clear();
                b.pairs.clear();
            }
            let gs = from_sut(&got.token_set);
            if let Err(e) = set.same_as(&TSet { split: set.split, ..gs.clone() }) {
                err = Some(format!("the answer is about another token set: {}", e));
            } else if a != b {
                err = Some(format!(
                    "the answer differs from a fresh tokenization: {} and {} tokens, token counts {}, sequence counts {}, pair counts {}",
                    a.total, b.total,
                    if a.tokens == b.tokens { "agree" } else { "differ" },
                    if a.seqs == b.seqs { "agree" } else { "differ" },
                    if a.pairs == b.pairs { "agree" } else { "differ" }
                ));
            } else if got.initial_size != initial {
                err = Some(format!("initial size {:?} instead of {:?}", got.initial_size, initial));
            } else {
                let trie = Trie::new(set.spans());
                let want: u64 = frags.iter().map(|f| trie.min_cost(f.as_bytes()).unwrap()).sum();
                if want != a.total {
                    err = Some(format!("{} tokens, the minimum is {}", a.total, want));
                }
            }
            if let Some(e) = err {
                ctx.rep.violation("stale", &format!("history: {}\n{}", log, e), &files);
                return;
            }
        }
        ctx.rep.count("requests for a set asked for before", repeats);
        ctx.rep.case(&(&text, &log), repeats > 0, || format!("{} on {} bytes, {}", log, text.len(), gen::describe(&pool[0])));
    });
}

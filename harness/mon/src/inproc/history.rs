//! C18: histories of token set edits against a model.
use crate::*;
use mon::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

struct Model {
    tokens: BTreeSet<Tok>,
    seqs: BTreeMap<Vec<u8>, Vec<Tok>>,
    name_tail: String,
}

fn check(m: &Model, s: &TokenSet) -> Result<(), String> {
    let toks: Vec<Tok> = s.tokens.iter().map(from_tok).collect();
    let set: BTreeSet<Tok> = toks.iter().cloned().collect();
    if set.len() != toks.len() {
        return Err("a token is there twice".into());
    }
    if set != m.tokens {
        return Err(format!(
            "tokens: missing {:?}, unexpected {:?}",
            m.tokens.difference(&set).take(3).collect::<Vec<_>>(),
            set.difference(&m.tokens).take(3).collect::<Vec<_>>()
        ));
    }
    if s.ntokens() != m.tokens.len() {
        return Err(format!("size {} for {} tokens", s.ntokens(), m.tokens.len()));
    }
    let long = m.tokens.iter().filter(|t| matches!(t, Tok::Str(x) if x.len() > 1)).count();
    if s.n_long_tokens() != long {
        return Err(format!("long-token count {} for {}", s.n_long_tokens(), long));
    }
    if s.name() != format!("tokens{}_{}", m.tokens.len(), m.name_tail) {
        return Err(format!("name {}", s.name()));
    }
    let mut seqs: BTreeMap<Vec<u8>, Vec<Tok>> = BTreeMap::new();
    for q in &s.sequences {
        let mut v = Vec::new();
        for &i in &q.tokens {
            match toks.get(i) {
                Some(t) => v.push(t.clone()),
                None => return Err(format!("sequence for {:?} refers to token number {} of {}", q.string, i, toks.len())),
            }
        }
        if seqs.insert(q.string.clone(), v).is_some() {
            return Err(format!("two sequences for {:?}", q.string));
        }
    }
    if seqs != m.seqs {
        for (k, v) in &m.seqs {
            if seqs.get(k) != Some(v) {
                return Err(format!("sequence for {:?} was {:?} and is now {:?}", k, v, seqs.get(k)));
            }
        }
        return Err("there are sequences that were not added".into());
    }
    for t in &m.tokens {
        if let Tok::Str(x) = t {
            match s.find_token(x) {
                Some(i) if toks[i] == *t => {}
                o => return Err(format!("looking for {:?} found {:?}", x, o)),
            }
        }
    }
    Ok(())
}

pub fn history(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = a random history of up to 60 add, add-sequence, remove and sort operations on a token set, compared with a model \
         after every operation, plus a save/load of the final state; non-trivial if at least one token was removed and one sequence \
         was there; distinct by history",
    );
    let max = if ctx.rep.thorough { 100_000_000 } else { 60_000 };
    ctx.rep.run("random", max, 1.0, |_, r, _| {
        let start = r.below(6);
        let proc = if r.chance(1, 2) { Processing::Raw } else { Processing::CapsWords };
        let n_ext = r.range(0, 6);
        let made = guard(|| match start {
            0 => TokenSet::new_bits1(proc, true),
            1 => TokenSet::new_bits2(proc, false),
            2 => TokenSet::new_bits4(proc, true),
            3 => TokenSet::new_bytes(proc),
            _ => TokenSet::new(n_ext, proc, TokenType::BytesHuff, true),
        });
        let mut log: Vec<String> = vec![format!("start {} ext {}", start, n_ext)];
        let mut s = match made {
            Ok(s) => s,
            Err(e) => {
                ctx.rep.violation("panic", &format!("{:?}\n{}", log, e), &[]);
                return;
            }
        };
        let mut m = {
            let x = from_sut(&s);
            Model {
                tokens: x.tokens.iter().cloned().collect(),
                seqs: x.seqs.iter().cloned().collect(),
                name_tail: format!("{}_{}", x.processing, x.ttype.json_name()),
            }
        };
        // The starting sets themselves.
        let want = match start {
            0..=2 => {
                let bits = [1u32, 2, 4][start];
                (1usize << bits, (0..=255u8).map(|b| (vec![b], mon::tset::digits(b, bits))).collect::<BTreeMap<_, _>>())
            }
            3 => (256, BTreeMap::new()),
            _ => (n_ext, BTreeMap::new()),
        };
        if m.tokens.len() != want.0 || m.seqs != want.1 {
            ctx.rep.violation("start", &format!("starting set {}: {} tokens, {} sequences", start, m.tokens.len(), m.seqs.len()), &[]);
            return;
        }
        let al = [b'a', b'b', b'c', 0xc3, 0xa9, b'\n'];
        let wild = r.chance(1, 10);
        let big = r.chance(1, 25);
        let word = |r: &mut Rng| -> Vec<u8> {
            let n = if wild && r.chance(1, 2) { r.range(5, 300) } else { r.skewed(4).max(1) };
            if r.chance(1, 5) {
                vec![r.below(256) as u8]
            } else if big {
                (0..n.max(2)).map(|_| r.below(256) as u8).collect()
            } else {
                (0..n).map(|_| *r.pick(&al)).collect()
            }
        };
        // Now and then a big set with long tokens and many sequences.
        let ops = if big { r.range(200, 600) } else { r.range(1, 60) };
        if big {
            ctx.rep.count("long histories", 1);
        }
        let mut removed = 0;
        let mut had_seq = !m.seqs.is_empty();
        for _ in 0..ops {
            let step = if big && r.chance(1, 2) { 4 } else { r.below(10) };
            let mut what = String::new();
            let res = match step {
                0..=3 => {
                    let w = word(r);
                    if m.tokens.contains(&Tok::Str(w.clone())) {
                        continue;
                    }
                    what = format!("add_token {:?}", w);
                    m.tokens.insert(Tok::Str(w.clone()));
                    m.seqs.remove(&w);
                    guard(|| {
                        let i = s.add_token(&w);
                        match s.tokens.get(i) {
                            Some(Token::Str(x)) if *x == w => Ok(()),
                            _ => Err(format!("add_token returned {}, which is another token", i)),
                        }
                    })
                    .and_then(|x| x)
                }
                4 | 5 => {
                    let w = word(r);
                    if m.seqs.contains_key(&w) || m.tokens.contains(&Tok::Str(w.clone())) || s.tokens.is_empty() {
                        continue;
                    }
                    let k = r.range(2, 5);
                    let idx: Vec<usize> = (0..k).map(|_| r.below(s.tokens.len())).collect();
                    let toks: Vec<Tok> = idx.iter().map(|&i| from_tok(&s.tokens[i])).collect();
                    what = format!("add_sequence {:?} {:?}", w, toks);
                    m.seqs.insert(w.clone(), toks);
                    had_seq = true;
                    guard(|| s.add_sequence(w, idx))
                }
                6..=8 => {
                    let in_use: BTreeSet<&Tok> = m.seqs.values().flatten().collect();
                    let free: Vec<usize> = (0..s.tokens.len())
                        .filter(|&i| {
                            let t = from_tok(&s.tokens[i]);
                            matches!(t, Tok::Str(_)) && !in_use.contains(&t)
                        })
                        .collect();
                    if free.is_empty() {
                        continue;
                    }
                    let i = if r.chance(1, 3) { free[0] } else if r.chance(1, 3) { *free.last().unwrap() } else { *r.pick(&free) };
                    let t = from_tok(&s.tokens[i]);
                    what = format!("remove_token {} ({:?})", i, t);
                    m.tokens.remove(&t);
                    removed += 1;
                    guard(|| s.remove_token(i))
                }
                _ => {
                    what.push_str("sort");
                    let r = guard(|| s.sort());
                    let toks: Vec<Tok> = s.tokens.iter().map(from_tok).collect();
                    let canon: Vec<Tok> = m.tokens.iter().cloned().collect();
                    if r.is_ok() && toks != canon && toks.len() == canon.len() {
                        Err("sorting did not give the canonical order".to_string())
                    } else {
                        r
                    }
                }
            };
            log.push(what);
            ctx.rep.count("operations checked", 1);
            let verdict = res.and_then(|_| guard(|| check(&m, &s)).and_then(|x| x));
            if let Err(e) = verdict {
                ctx.rep.violation("history", &format!("after {}\n{}", log.join(" ; "), e), &[]);
                return;
            }
        }
        ctx.rep.see("final states", &from_sut(&s).canon());
        ctx.rep.case(&log, removed > 0 && had_seq, || log.join(" ; ").chars().take(400).collect());
        // Saving and loading keeps what the history built.
        if matches!(start, 0..=2) {
            // Bits sets: only digits are implied when a sequence is missing.
            return;
        }
        match guard(|| from_sut(&TokenSet::from_json(s.to_json()))) {
            Ok(x) => {
                if x.tokens.iter().cloned().collect::<BTreeSet<_>>() != m.tokens || x.seqs.iter().cloned().collect::<BTreeMap<_, _>>() != m.seqs {
                    ctx.rep.violation("history", &format!("after {}\nsaving and loading changed the set", log.join(" ; ")), &[]);
                }
            }
            Err(e) => ctx.rep.violation("history", &format!("after {}\nsaving and loading: {}", log.join(" ; "), e), &[]),
        }
    });
}

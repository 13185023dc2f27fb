//! C04: the counts describe one minimal tokenization.
use crate::*;
use mon::dp::Trie;
use mon::gen::{self, SetOpts};
use mon::tset::ALL_TYPES;
use std::collections::BTreeMap;

/// Counts of one segmentation (span indices) of a fragment.
fn counts_of(set: &TSet, spans: &Trie, seg: &[usize], c: &mut Counts) {
    let nstr = set.strs().count();
    let mut prev: Option<&Vec<u8>> = None;
    for &s in seg {
        let (st, cost) = &spans.spans[s];
        c.total += cost;
        c.scanned += st.len() as u64;
        if s < nstr {
            *c.tokens.entry(Tok::Str(st.clone())).or_insert(0) += 1;
            if let Some(p) = prev {
                *c.pairs.entry((Tok::Str(p.clone()), Tok::Str(st.clone()))).or_insert(0) += 1;
            }
            prev = Some(st);
        } else {
            let q = &set.seqs[s - nstr];
            *c.seqs.entry(st.clone()).or_insert(0) += 1;
            for t in &q.1 {
                *c.tokens.entry(t.clone()).or_insert(0) += 1;
            }
            prev = None;
        }
    }
}

fn empty() -> Counts {
    Counts { total: 0, scanned: 0, tokens: BTreeMap::new(), seqs: BTreeMap::new(), pairs: BTreeMap::new() }
}

/// Conservation laws that hold for every tokenization.
pub fn conservation(set: &TSet, frags: &[String], c: &Counts) -> Result<(), String> {
    let sum: u64 = c.tokens.values().sum();
    if sum != c.total {
        return Err(format!("token counts sum to {}, the total is {}", sum, c.total));
    }
    let mut hist = [0i64; 256];
    let mut len = 0u64;
    for f in frags {
        for b in f.bytes() {
            hist[b as usize] += 1;
            len += 1;
        }
    }
    if c.scanned != len {
        return Err(format!("{} bytes scanned of {}", c.scanned, len));
    }
    // whole tokens: without those used in sequences
    let mut whole: BTreeMap<Tok, i64> = c.tokens.iter().map(|(t, n)| (t.clone(), *n as i64)).collect();
    for (s, ts) in &set.seqs {
        let n = c.seqs.get(s).copied().unwrap_or(0) as i64;
        if n == 0 {
            continue;
        }
        for b in s {
            hist[*b as usize] -= n;
        }
        for t in ts {
            *whole.entry(t.clone()).or_insert(0) -= n;
        }
    }
    let mut n_whole = 0i64;
    for (t, n) in &whole {
        if *n < 0 {
            return Err(format!("token {:?} is used more often in sequences than counted", t));
        }
        match t {
            Tok::Ext(_) => {
                if *n != 0 {
                    return Err(format!("{:?} is counted {} times outside sequences", t, n));
                }
            }
            Tok::Str(s) => {
                n_whole += n;
                for b in s {
                    hist[*b as usize] -= n;
                }
            }
        }
    }
    if let Some(b) = (0..256).find(|&b| hist[b] != 0) {
        return Err(format!("byte {} is accounted for {} times too {}", b, hist[b].abs(), if hist[b] > 0 { "few" } else { "many" }));
    }
    let mut left: BTreeMap<&Tok, i64> = BTreeMap::new();
    let mut right: BTreeMap<&Tok, i64> = BTreeMap::new();
    let mut pairs = 0i64;
    for ((a, b), n) in &c.pairs {
        *left.entry(a).or_insert(0) += *n as i64;
        *right.entry(b).or_insert(0) += *n as i64;
        pairs += *n as i64;
    }
    for side in [&left, &right] {
        for (t, n) in side {
            if *n > whole.get(*t).copied().unwrap_or(0) {
                return Err(format!("{:?} is in {} pairs on one side, but used only {} times", t, n, whole.get(*t).copied().unwrap_or(0)));
            }
        }
    }
    let nfrag = frags.iter().filter(|f| !f.is_empty()).count() as i64;
    let nseq: i64 = c.seqs.values().sum::<u64>() as i64;
    if nseq == 0 && pairs != n_whole - nfrag {
        return Err(format!("{} pairs of {} tokens in {} fragments", pairs, n_whole, nfrag));
    }
    // every sequence and fragment end breaks at most one chain
    if pairs < n_whole - nfrag - nseq || pairs > (n_whole - 1).max(0) {
        return Err(format!("{} pairs of {} tokens with {} sequences in {} fragments", pairs, n_whole, nseq, nfrag));
    }
    Ok(())
}

pub fn counts_stage(ctx: &Ctx) {
    ctx.rep.rule(
        "one case = one call of the tokenizer on one to five fragments with a generated set; counts must obey the conservation laws, \
         the total must be the sum of the minimal costs, and if the minimal segmentations of all fragments can be enumerated the counts \
         must be those of one of them; non-trivial if a token of two or more bytes or a sequence was counted; distinct by (text, set)",
    );
    let max = if ctx.rep.thorough { 10_000_000 } else { 40_000 };
    ctx.rep.run("random", max, 1.0, |i, r, _| {
        let t = ALL_TYPES[i as usize % 5];
        let o = SetOpts { max_long: if r.chance(1, 30) { 150 } else { 25 }, shuffle: r.chance(1, 2), multi_seqs: true };
        let huge = i % 2000 == 7;
        let max_text = *r.pick(&[8usize, 30, 30, 100, 1000]);
        let mut base = gen::text(r, max_text, &ctx.corpus);
        if huge {
            // counts beyond 16 bits
            gen::cut(&mut base, 30);
            base.push('a');
            base = base.repeat(r.range(150_000, 900_000) / base.len());
        }
        let many = i % 400 == 13;
        let set = if many {
            ctx.rep.count("sets of more than 1000 tokens", 1);
            base = ctx.corpus.slice(r, 30_000);
            let n = r.range(1040, 2600);
            gen::many_set(r, t, "raw", base.as_bytes(), n, o.shuffle)
        } else {
            gen::token_set(r, t, "raw", base.as_bytes(), &o)
        };
        let mut set = set;
        if r.chance(1, 4) && gen::odd_sequences(r, &mut set, base.as_bytes()) {
            ctx.rep.count("sets of a bits type with unusual byte encodings", 1);
        }
        let mut frags: Vec<String> = Vec::new();
        let k = if huge { 0 } else if r.chance(1, 2) { 1 } else { r.range(0, 5) };
        if huge {
            frags.push(base.clone());
            ctx.rep.count("texts with counts beyond 16 bits", 1);
        }
        for _ in 0..k {
            let mut f = match r.below(3) {
                0 => gen::text_of_tokens(r, &set, if many { 60_000 } else { max_text }),
                1 => base.clone(),
                _ => gen::text(r, max_text, &ctx.corpus),
            };
            if r.chance(1, 5) {
                f.insert_str(0, *r.pick(&["\n", "\n\n", " ", "\u{14}"]));
            }
            if !f.is_empty() {
                frags.push(f);
            }
        }
        let sampler = VecSampler::sync(frags.clone());
        let sut = to_sut(&set);
        let label = format!("{} fragments, {}", frags.len(), gen::describe(&set));
        let js = set.to_json().to_string();
        let joined = frags.join("\u{1}--fragment--\u{1}");
        let files: [(&str, &[u8]); 2] = [("fragments.txt", joined.as_bytes()), ("set.json", js.as_bytes())];
        let stats = match guard(|| tokenize_file(&sut, &sampler, None)) {
            Ok(s) => s,
            Err(e) => {
                ctx.rep.violation("panic", &format!("{}\n{}", label, e), &files);
                return;
            }
        };
        let got = counts(&stats);
        let trie = Trie::new(set.spans());
        let nt = got.seqs.len() > 0 || got.tokens.keys().any(|t| matches!(t, Tok::Str(s) if s.len() > 1));
        ctx.rep.count("pairs counted", got.pairs.values().sum());
        ctx.rep.count("sequences counted", got.seqs.values().sum());
        ctx.rep.case(&(&joined, &js), nt, || format!("{}: {} tokens, {} distinct pairs", label, got.total, got.pairs.len()));
        let want: u64 = frags.iter().map(|f| trie.min_cost(f.as_bytes()).unwrap()).sum();
        if got.total != want {
            ctx.rep.violation("not-minimal", &format!("{}\n{} tokens, the minimum is {}", label, got.total, want), &files);
            return;
        }
        if let Err(e) = conservation(&set, &frags, &got) {
            ctx.rep.violation("conservation", &format!("{}\n{}", label, e), &files);
            return;
        }
        // Membership.
        const CAP: u64 = 64;
        let mut options: Vec<Vec<Vec<usize>>> = Vec::new();
        let mut combos: u64 = 1;
        for f in &frags {
            let (edges, ways) = trie.minimal_edges(f.as_bytes(), CAP + 1);
            combos = combos.saturating_mul(ways);
            if combos > 512 || ways > CAP {
                combos = u64::MAX;
                break;
            }
            options.push(trie.enumerate(f.len(), &edges, CAP as usize + 1));
        }
        if combos <= 512 {
            let mut idx = vec![0usize; options.len()];
            let mut found = false;
            loop {
                let mut c = empty();
                for (k, o) in options.iter().enumerate() {
                    counts_of(&set, &trie, &o[idx[k]], &mut c);
                }
                if c == got {
                    found = true;
                    break;
                }
                let mut k = 0;
                while k < idx.len() {
                    idx[k] += 1;
                    if idx[k] < options[k].len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
            ctx.rep.count(if combos == 1 { "counts compared with the unique minimal tokenization" } else { "counts searched among all minimal tokenizations" }, 1);
            if !found {
                ctx.rep.violation("no-such-tokenization", &format!("{}\nnone of the {} minimal tokenizations has these counts: {:?}", label, combos, got), &files);
            }
        } else {
            ctx.rep.count("cases with too many minimal tokenizations (conservation laws only)", 1);
        }
    });
}

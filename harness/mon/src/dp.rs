//! Reference tokenizer: shortest segmentation over a trie of spans.
use std::collections::HashMap;

pub struct Trie {
    next: Vec<[u32; 256]>,
    /// (span index) ending at the node, +1; 0 if none
    end: Vec<u32>,
    pub spans: Vec<(Vec<u8>, u64)>,
}

pub const INF: u64 = u64::MAX / 4;

impl Trie {
    pub fn new(spans: Vec<(Vec<u8>, u64)>) -> Trie {
        let mut next: Vec<[u32; 256]> = vec![[0; 256]];
        let mut end = vec![0u32];
        for (i, (s, c)) in spans.iter().enumerate() {
            let mut n = 0usize;
            for &b in s {
                if next[n][b as usize] == 0 {
                    next.push([0; 256]);
                    end.push(0);
                    next[n][b as usize] = (next.len() - 1) as u32;
                }
                n = next[n][b as usize] as usize;
            }
            // The cheapest span wins if a string is listed twice.
            if end[n] == 0 || spans[end[n] as usize - 1].1 > *c {
                end[n] = i as u32 + 1;
            }
        }
        Trie { next, end, spans }
    }

    /// Calls f(length, span index) for every span that starts at the
    /// beginning of `text`.
    #[inline]
    pub fn matches(&self, text: &[u8], mut f: impl FnMut(usize, usize)) {
        let mut n = 0usize;
        for (i, &b) in text.iter().enumerate() {
            n = self.next[n][b as usize] as usize;
            if n == 0 {
                return;
            }
            if self.end[n] != 0 {
                f(i + 1, self.end[n] as usize - 1);
            }
        }
    }

    /// Cost of the cheapest segmentation of every prefix (INF if none).
    pub fn costs(&self, text: &[u8]) -> Vec<u64> {
        let mut cost = vec![INF; text.len() + 1];
        cost[0] = 0;
        for i in 0..text.len() {
            let c = cost[i];
            if c >= INF {
                continue;
            }
            self.matches(&text[i..], |len, s| {
                let n = c + self.spans[s].1;
                if n < cost[i + len] {
                    cost[i + len] = n;
                }
            });
        }
        cost
    }

    pub fn min_cost(&self, text: &[u8]) -> Option<u64> {
        let c = *self.costs(text).last().unwrap();
        if c >= INF {
            None
        } else {
            Some(c)
        }
    }

    /// For each position the spans that can end there in a minimal
    /// segmentation of the whole text (edges on shortest paths), and the number
    /// of minimal segmentations, saturated at `cap`.
    pub fn minimal_edges(&self, text: &[u8], cap: u64) -> (Vec<Vec<usize>>, u64) {
        let n = text.len();
        let cost = self.costs(text);
        let mut back = vec![INF; n + 1];
        back[n] = 0;
        let mut edges: Vec<Vec<usize>> = vec![Vec::new(); n + 1]; // by start
        for i in (0..n).rev() {
            let mut best = INF;
            self.matches(&text[i..], |len, s| {
                if back[i + len] < INF {
                    best = best.min(back[i + len] + self.spans[s].1);
                }
            });
            back[i] = best;
        }
        let total = back[0];
        let mut ways = vec![0u64; n + 1];
        ways[n] = 1;
        for i in (0..n).rev() {
            if cost[i] >= INF || back[i] >= INF || cost[i] + back[i] != total {
                continue;
            }
            let mut es = Vec::new();
            let mut w = 0u64;
            self.matches(&text[i..], |len, s| {
                if back[i + len] < INF && back[i + len] + self.spans[s].1 == back[i] {
                    es.push(s);
                    w = (w + ways[i + len]).min(cap);
                }
            });
            edges[i] = es;
            ways[i] = w;
        }
        (edges, ways[0])
    }

    /// All minimal segmentations (sequences of span indices), given the edges.
    pub fn enumerate(&self, text_len: usize, edges: &[Vec<usize>], limit: usize) -> Vec<Vec<usize>> {
        let mut out = Vec::new();
        let mut stack: Vec<(usize, usize)> = vec![(0, 0)];
        let mut path: Vec<usize> = Vec::new();
        while let Some(&(pos, k)) = stack.last() {
            if pos == text_len {
                out.push(path.clone());
                if out.len() >= limit {
                    return out;
                }
                stack.pop();
                path.pop();
                continue;
            }
            if k < edges[pos].len() {
                stack.last_mut().unwrap().1 += 1;
                let s = edges[pos][k];
                path.push(s);
                stack.push((pos + self.spans[s].0.len(), 0));
            } else {
                stack.pop();
                path.pop();
            }
        }
        out
    }

    /// Is there a minimal segmentation in which no two adjacent spans satisfy
    /// `bad`?
    pub fn minimal_without(&self, text: &[u8], bad: impl Fn(usize, usize) -> bool) -> bool {
        let (edges, _) = self.minimal_edges(text, 2);
        if text.is_empty() {
            return true;
        }
        let mut reach: Vec<Vec<usize>> = vec![Vec::new(); text.len() + 1]; // last spans
        for pos in 0..text.len() {
            if pos > 0 && reach[pos].is_empty() {
                continue;
            }
            for &e in &edges[pos] {
                let ok = pos == 0 || reach[pos].iter().any(|&p| !bad(p, e));
                if ok {
                    let to = pos + self.spans[e].0.len();
                    if !reach[to].contains(&e) {
                        reach[to].push(e);
                    }
                }
            }
        }
        !reach[text.len()].is_empty()
    }
}

pub fn byte_hist(text: &[u8]) -> HashMap<u8, u64> {
    let mut h = HashMap::new();
    for &b in text {
        *h.entry(b).or_insert(0) += 1;
    }
    h
}

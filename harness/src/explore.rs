//! Generic exhaustive explorers: word trees, Hamming balls, windows, and breadth-first search of a
//! finite model whose every transition is replayed against the code.

use crate::engine::{Ctx, Worker};
use std::collections::HashMap;
use std::hash::Hash;

/// All words over `alpha` of length `len`, handed to `f` as a text buffer with `pre` and `post`.
/// `head` selects the item (a word index over the first `hl` letters).
fn tail_words(
    w: &mut Worker,
    alpha: &[char],
    pre: &str,
    post: &str,
    len: usize,
    hl: usize,
    mut head: usize,
    f: &(dyn Fn(&mut Worker, &str) + Sync),
) {
    let k = alpha.len();
    let mut idx = vec![0usize; len];
    for i in (0..hl).rev() {
        idx[i] = head % k;
        head /= k;
    }
    let mut s = String::with_capacity(pre.len() + post.len() + 4 * len);
    loop {
        s.clear();
        s.push_str(pre);
        for &i in &idx {
            s.push(alpha[i]);
        }
        s.push_str(post);
        w.states += 1;
        w.transitions += 1;
        f(w, &s);
        if w.ctx.stop.load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        let mut p = len;
        loop {
            if p == hl {
                return;
            }
            p -= 1;
            idx[p] += 1;
            if idx[p] < k {
                break;
            }
            idx[p] = 0;
        }
    }
}

/// Every word over `alpha` with length in `lens` (prefix tree: one state per word, one transition
/// per appended letter).
pub fn words(
    ctx: &Ctx,
    name: &str,
    alpha: &[char],
    lens: std::ops::RangeInclusive<usize>,
    f: impl Fn(&mut Worker, &str) + Sync,
) {
    words_in(ctx, name, alpha, "", "", lens, f)
}

pub fn words_in(
    ctx: &Ctx,
    name: &str,
    alpha: &[char],
    pre: &str,
    post: &str,
    lens: std::ops::RangeInclusive<usize>,
    f: impl Fn(&mut Worker, &str) + Sync,
) {
    let k = alpha.len();
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for len in lens.clone() {
        let mut hl = 0;
        let mut n = 1;
        while hl < len && n * k <= 3000 {
            n *= k;
            hl += 1;
        }
        items.extend((0..n).map(|h| (len, hl, h)));
    }
    let bound = format!("all words over {} letters, length {:?}", k, lens);
    ctx.par(name, &bound, items.len(), 1, |w, i| {
        let (len, hl, h) = items[i];
        tail_words(w, alpha, pre, post, len, hl, h, &f);
    });
}

pub fn combinations(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(start: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == k {
            out.push(cur.clone());
            return;
        }
        for i in start..n {
            cur.push(i);
            go(i + 1, n, k, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(0, n, k, &mut vec![], &mut out);
    out
}

/// Every word at distance <= `k` from each base (substitutions from `alpha`).
pub fn hamming(
    ctx: &Ctx,
    name: &str,
    bases: &[Vec<char>],
    alpha: &[char],
    k: usize,
    f: impl Fn(&mut Worker, &str) + Sync,
) {
    let mut items = vec![];
    for (b, base) in bases.iter().enumerate() {
        for d in 0..=k.min(base.len()) {
            for c in combinations(base.len(), d) {
                items.push((b, c));
            }
        }
    }
    let bound = format!(
        "all words within {} substitutions ({} letters) of {} bases",
        k,
        alpha.len(),
        bases.len()
    );
    ctx.par(name, &bound, items.len(), 1, |w, i| {
        let (b, pos) = &items[i];
        let base = &bases[*b];
        // alternatives per position: all letters but the base's own
        let alts: Vec<Vec<char>> = pos
            .iter()
            .map(|&p| alpha.iter().copied().filter(|c| *c != base[p]).collect())
            .collect();
        let mut idx = vec![0usize; pos.len()];
        let mut cur = base.clone();
        let mut s = String::new();
        loop {
            for (j, &p) in pos.iter().enumerate() {
                cur[p] = alts[j][idx[j]];
            }
            s.clear();
            s.extend(cur.iter());
            w.states += 1;
            w.transitions += pos.len() as u64;
            f(w, &s);
            if w.ctx.stop.load(std::sync::atomic::Ordering::Relaxed) {
                return;
            }
            let mut j = pos.len();
            loop {
                if j == 0 {
                    return;
                }
                j -= 1;
                idx[j] += 1;
                if idx[j] < alts[j].len() {
                    break;
                }
                idx[j] = 0;
            }
        }
    });
}

/// Every word that equals a base outside one window of `width` letters.
pub fn windows(
    ctx: &Ctx,
    name: &str,
    bases: &[Vec<char>],
    alpha: &[char],
    width: usize,
    f: impl Fn(&mut Worker, &str) + Sync,
) {
    let k = alpha.len();
    let mut items = vec![];
    for (b, base) in bases.iter().enumerate() {
        for st in 0..=base.len() - width.min(base.len()) {
            for h in 0..k {
                items.push((b, st, h));
            }
        }
    }
    let bound = format!(
        "{} bases, every window of {} letters over {} letters",
        bases.len(),
        width,
        k
    );
    ctx.par(name, &bound, items.len(), 1, |w, i| {
        let (b, st, h) = items[i];
        let base = &bases[b];
        let wd = width.min(base.len());
        let pre: String = base[..st].iter().collect();
        let post: String = base[st + wd..].iter().collect();
        tail_words(w, alpha, &pre, &post, wd, 1, h, &f);
    });
}

pub struct Node<S> {
    pub s: S,
    parent: u32,
    input: u16,
    pub depth: u16,
}

/// Reachable states of a model, breadth first: every state with the inputs leading to it.
pub struct Graph<S> {
    pub nodes: Vec<Node<S>>,
}

impl<S: Copy + Eq + Hash> Graph<S> {
    pub fn explore(
        init: S,
        inputs: usize,
        depth: usize,
        step: impl Fn(S, usize) -> Option<S>,
    ) -> Graph<S> {
        let mut nodes = vec![Node {
            s: init,
            parent: u32::MAX,
            input: 0,
            depth: 0,
        }];
        let mut seen: HashMap<S, u32> = HashMap::new();
        seen.insert(init, 0);
        let mut i = 0;
        while i < nodes.len() {
            let (s, d) = (nodes[i].s, nodes[i].depth);
            if (d as usize) < depth {
                for x in 0..inputs {
                    if let Some(t) = step(s, x) {
                        if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(t) {
                            e.insert(nodes.len() as u32);
                            nodes.push(Node {
                                s: t,
                                parent: i as u32,
                                input: x as u16,
                                depth: d + 1,
                            });
                        }
                    }
                }
            }
            i += 1;
        }
        Graph { nodes }
    }
    pub fn path(&self, mut i: usize) -> Vec<u16> {
        let mut p = vec![];
        while self.nodes[i].parent != u32::MAX {
            p.push(self.nodes[i].input);
            i = self.nodes[i].parent as usize;
        }
        p.reverse();
        p
    }
}

/// Replays every transition of the graph (up to `depth`): `f(worker, path to the source, input,
/// source state)`.
pub fn replay<S: Copy + Eq + Hash + Sync>(
    ctx: &Ctx,
    name: &str,
    g: &Graph<S>,
    inputs: usize,
    depth: usize,
    f: impl Fn(&mut Worker, &[u16], usize, S) + Sync,
) {
    let bound = format!("model states to depth {}, {} inputs each", depth, inputs);
    ctx.par(name, &bound, g.nodes.len(), 16, |w, i| {
        w.states += 1;
        if (g.nodes[i].depth as usize) < depth {
            let p = g.path(i);
            for x in 0..inputs {
                w.transitions += 1;
                f(w, &p, x, g.nodes[i].s);
            }
        }
    });
}

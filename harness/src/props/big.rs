//! C31: text sizes near and beyond 2^32-1, reached by sharing: 4 GiB of text from a few tokens.

use crate::engine::*;
use crate::model::*;
use crate::{alloc, ensure, ensure_eq};
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind, TextRange, TextSize};
use std::collections::HashMap;
use std::rc::Rc;

type GElem = NodeOrToken<GreenNode, GreenToken>;
const LIMIT: u64 = 1 << 32;

/// What an element should be. `Piece` stands for shared structure that is described by its text.
#[derive(Clone)]
enum M {
    Tok(Rc<String>),
    Node(u64, Rc<Vec<M>>),
}
impl M {
    fn len(&self) -> u64 {
        match self {
            M::Tok(s) => s.len() as u64,
            M::Node(n, _) => *n,
        }
    }
    fn kids(&self) -> &[M] {
        match self {
            M::Tok(_) => &[],
            M::Node(_, k) => k,
        }
    }
    fn update(&mut self) {
        if let M::Node(n, k) = self {
            *n = k.iter().map(M::len).sum();
        }
    }
    /// The leaf that covers `at`, with its offset.
    fn leaf(&self, at: u64) -> (Rc<String>, u64) {
        let mut m = self;
        let mut start = 0;
        loop {
            match m {
                M::Tok(s) => return (s.clone(), start),
                M::Node(_, k) => {
                    m = k
                        .iter()
                        .find(|c| {
                            if at < start + c.len() {
                                true
                            } else {
                                start += c.len();
                                false
                            }
                        })
                        .unwrap();
                }
            }
        }
    }
}

#[derive(Clone)]
struct Pair {
    g: GElem,
    m: M,
}

thread_local! {
    static PIECES: std::cell::RefCell<HashMap<usize, Vec<(GElem, M)>>> = Default::default();
}

/// Doubling pieces: piece i has `base << i` bytes.
fn pieces(base: usize) -> Vec<Pair> {
    PIECES.with(|p| {
        p.borrow_mut()
            .entry(base)
            .or_insert_with(|| {
                let s: String = (0..base).map(|i| (b'a' + ((i / 7 + i) % 26) as u8) as char).collect();
                let t: GElem = NodeOrToken::Token(GreenToken::new(SyntaxKind(900), &s));
                let m = M::Tok(Rc::new(s));
                let mut v = vec![(t, m)];
                let mut len = base as u64;
                while len * 2 < LIMIT {
                    let (g, m) = v.last().unwrap().clone();
                    len *= 2;
                                    let g2: GElem = NodeOrToken::Node(GreenNode::new(SyntaxKind(900 + v.len() as u16), [g.clone(), g]));
                    v.push((g2, M::Node(len, Rc::new(vec![m.clone(), m]))));
                }
                v
            })
            .iter()
            .map(|(g, m)| Pair { g: g.clone(), m: m.clone() })
            .collect()
    })
}

/// The real length of every node below `g`, by pointer; fails where one says something else.
fn true_len(g: &GreenNodeData, memo: &mut HashMap<*const GreenNodeData, u64>) -> Result<u64, Fail> {
    if let Some(&l) = memo.get(&(g as *const _)) {
        return Ok(l);
    }
    let mut sum = 0u64;
    for c in g.children() {
        sum += match c {
            NodeOrToken::Node(n) => true_len(n, memo)?,
            NodeOrToken::Token(t) => t.text().len() as u64,
        };
    }
    ensure_eq!(u32::from(g.text_len()) as u64, sum, "text_len of a node of kind {}", g.kind().0);
    memo.insert(g, sum);
    Ok(sum)
}

fn small_text(src: &mut Src) -> String {
    let n = src.below(6);
    (0..n).map(|i| (b'0' + i as u8) as char).collect()
}

/// Builds a node over `kids` by one of several routes. Ok(None) if it was rejected.
fn make(src: &mut Src, cx: &mut Cx, kids: Vec<Pair>) -> Result<Option<Pair>, Fail> {
    let sum: u64 = kids.iter().map(|k| k.m.len()).sum();
    let kind = SyntaxKind(src.below(5) as u16);
    let gs: Vec<GElem> = kids.iter().map(|k| k.g.clone()).collect();
    let route = src.below(6);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match route {
        1 if !gs.is_empty() => {
            // Without one child, then inserted.
            let i = src.below(gs.len());
            let mut rest = gs.clone();
            let x = rest.remove(i);
            GreenNode::new(kind, rest).insert_child(i, x)
        }
        2 if !gs.is_empty() => {
            let i = src.below(gs.len());
            let mut v = gs.clone();
            let x = std::mem::replace(&mut v[i], NodeOrToken::Token(GreenToken::new(SyntaxKind(1), "x")));
            // The placeholder must fit too.
            let rest: u64 = sum - kids[i].m.len() + 1;
            if rest >= LIMIT { GreenNode::new(kind, gs.clone()) } else { GreenNode::new(kind, v).replace_child(i, x) }
        }
        3 => {
            let a = src.below(gs.len() + 1);
            let b = a + src.below(gs.len() - a + 1);
            let mut v = gs.clone();
            let mid: Vec<GElem> = v.drain(a..b).collect();
            GreenNode::new(kind, v).splice_children(a..a, mid)
        }
        4 => {
            // One too many first, if that fits; then removed.
            let extra = gs.first().cloned();
            match extra {
                Some(x) if sum + kids[0].m.len() < LIMIT => {
                    let n = gs.len();
                    let g = GreenNode::new(kind, gs.iter().cloned().chain([x]).collect::<Vec<_>>());
                    g.remove_child(n)
                }
                _ => GreenNode::new(kind, gs.clone()),
            }
        }
        _ => GreenNode::new(kind, gs.clone()),
    }));
    match r {
        Ok(g) => {
            ensure!(sum < LIMIT, "a node over {sum} bytes of text was built (route {route}); it says {}", u32::from(g.text_len()));
            ensure_eq!(u32::from(g.text_len()) as u64, sum, "text_len (route {route})");
            Ok(Some(Pair { g: NodeOrToken::Node(g), m: M::Node(sum, Rc::new(kids.into_iter().map(|k| k.m).collect())) }))
        }
        Err(e) => {
            ensure!(sum >= LIMIT, "a node over {sum} bytes of text was rejected (route {route}): {}", panic_text(&e));
            cx.label("rejected: too long for a green node");
            Ok(None)
        }
    }
}

fn target(src: &mut Src, cx: &mut Cx) -> u64 {
    let n = match src.below(7) {
        0 => LIMIT - 1 - src.below(4) as u64,
        1 => LIMIT + src.below(4) as u64,
        2 => (1 << 31) - 2 + src.below(5) as u64,
        3 => LIMIT - 1 - src.draw(1 << 22) as u64,
        4 => LIMIT * (1 + src.below(3) as u64) + src.draw(1 << 21) as u64,
        5 => src.draw(u32::MAX) as u64,
        _ => LIMIT + src.draw(1 << 30) as u64,
    };
    cx.label_if(n == LIMIT - 1, "exactly 2^32-1");
    cx.label_if(n == LIMIT, "exactly 2^32");
    cx.label_if(n >= 2 * LIMIT, "wraps to something small more than once");
    n
}

/// Elements with `n` bytes of text in all.
fn parts(src: &mut Src, n: u64) -> Vec<Pair> {
    let base = *src.pick(&[1 << 20, (1 << 20) - 1, 1 << 21, (1 << 20) + 7, 3 << 19]);
    let ps = pieces(base);
    let mut v = vec![];
    let mut left = n;
    // Now and then a piece split in two.
    for (i, p) in ps.iter().enumerate().rev() {
        while left >= p.m.len() {
            left -= p.m.len();
            if i > 0 && src.chance(1, 6) {
                v.push(ps[i - 1].clone());
                v.push(ps[i - 1].clone());
            } else {
                v.push(p.clone());
            }
        }
    }
    while left > 0 {
        let k = left.min(1 + src.draw(1 << 20) as u64) as usize;
        let k = if src.chance(1, 2) { left as usize } else { k };
        let s: String = (0..k).map(|i| (b'A' + (i % 23) as u8) as char).collect();
        v.push(Pair { g: NodeOrToken::Token(GreenToken::new(SyntaxKind(3), &s)), m: M::Tok(Rc::new(s)) });
        left -= k as u64;
    }
    for _ in 0..src.below(3) {
        v.push(Pair { g: NodeOrToken::Token(GreenToken::new(SyntaxKind(4), "")), m: M::Tok(Rc::new(String::new())) });
    }
    for i in (1..v.len()).rev() {
        let j = src.below(i + 1);
        v.swap(i, j);
    }
    v
}

pub fn c31(src: &mut Src, cx: &mut Cx) -> R {
    let n = target(src, cx);
    let mut v = parts(src, n);
    let show = |v: &[Pair]| v.iter().map(|p| p.m.len().to_string()).collect::<Vec<_>>().join(" ");
    cx.nontrivial = n >= 1 << 31;
    cx.sample(|| format!("{n} bytes from parts {}", show(&v)));
    for _ in 0..src.below(5) {
        if v.len() < 2 {
            break;
        }
        let a = src.below(v.len());
        let b = (a + src.range(1, 5)).min(v.len());
        let group: Vec<Pair> = v.drain(a..b).collect();
        match make(src, cx, group)? {
            Some(p) => v.insert(a, p),
            None => return Ok(()),
        }
    }
    if src.chance(1, 6) {
        return by_builder(src, cx, v);
    }
    let Some(root) = make(src, cx, v)? else { return Ok(()) };
    let NodeOrToken::Node(g) = root.g else { return Ok(()) };
    let mut memo = HashMap::new();
    let l = true_len(&g, &mut memo)?;
    ensure_eq!(l, root.m.len(), "length of the whole tree");
    let mutable = src.chance(1, 2);
    let tree = make_root(src, g, mutable);
    queries(src, cx, &tree, &root.m)?;
    if mutable {
        edits(src, cx, &tree, root.m, &mut memo)?;
    } else {
        replacements(src, cx, &tree, &root.m)?;
    }
    Ok(())
}

fn by_builder(src: &mut Src, cx: &mut Cx, v: Vec<Pair>) -> R {
    // A builder only takes tokens; few big ones repeat.
    let mut cache = NodeCache::default();
    let mut b = GreenNodeBuilder::with_cache(&mut cache);
    let sum: u64 = v.iter().map(|p| p.m.len()).sum();
    if sum > LIMIT + (1 << 30) || !src.chance(1, 8) {
        return Ok(());
    }
    cx.label("4 GiB through the builder");
    b.start_node(SyntaxKind(0));
    fn put(b: &mut GreenNodeBuilder, m: &M) {
        match m {
            M::Tok(s) => b.token(SyntaxKind(1), s),
            M::Node(_, k) => {
                b.start_node(SyntaxKind(2));
                k.iter().for_each(|k| put(b, k));
                b.finish_node();
            }
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v.iter().for_each(|p| put(&mut b, &p.m));
        b.finish_node();
        b.finish()
    }));
    match r {
        Ok(g) => {
            ensure!(sum < LIMIT, "the builder made a node over {sum} bytes; it says {}", u32::from(g.text_len()));
            let l = true_len(&g, &mut HashMap::new())?;
            ensure_eq!(l, sum, "length of what the builder made");
        }
        Err(_) => ensure!(sum >= LIMIT, "the builder rejected {sum} bytes"),
    }
    Ok(())
}

fn tsz(n: u64) -> TextSize {
    TextSize::from(u32::try_from(n).unwrap())
}

/// A random element with its model and its offset.
fn wander<'a>(src: &mut Src, root: &N, m: &'a M) -> Result<(E, &'a M, u64), Fail> {
    let mut e = en(root.clone());
    let mut m = m;
    let mut at = 0u64;
    for _ in 0..src.below(16) {
        if m.kids().is_empty() {
            break;
        }
        let i = match src.below(3) {
            0 => m.kids().len() - 1,
            _ => src.below(m.kids().len()),
        };
        at += m.kids()[..i].iter().map(M::len).sum::<u64>();
        m = &m.kids()[i];
        let n = e.into_node().unwrap();
        let k = match src.below(2) {
            0 => n.children_with_tokens().nth(i),
            _ if i + 1 == n.green().children().len() => n.last_child_or_token(),
            _ => n.children_with_tokens().nth(i),
        };
        e = match k {
            Some(k) => k,
            None => return fail(format!("child {i} is missing")),
        };
    }
    Ok((e, m, at))
}

fn queries(src: &mut Src, cx: &mut Cx, tree: &N, m: &M) -> R {
    let n = m.len();
    ensure_eq!(tree.text_range(), TextRange::up_to(tsz(n)), "range of the root");
    ensure_eq!(tree.text().len(), tsz(n), "length of the text view");
    for _ in 0..6 {
        cx.queries += 1;
        let (e, em, at) = wander(src, tree, m)?;
        ensure_eq!(e.text_range(), TextRange::at(tsz(at), tsz(em.len())), "range of {e:?}");
        if let Some(x) = e.next_sibling_or_token() {
            ensure_eq!(x.text_range().start(), tsz(at + em.len()), "start of the next sibling");
        }
        if let Some(x) = e.prev_sibling_or_token() {
            ensure_eq!(x.text_range().end(), tsz(at), "end of the previous sibling");
        }
        if let NodeOrToken::Node(x) = &e {
            ensure_eq!(x.text().len(), tsz(em.len()), "length of the text of {e:?}");
            if let Some(l) = x.last_token() {
                ensure!(l.text_range().end() <= tsz(at + em.len()), "end of the last token");
            }
        }
    }
    if n == 0 {
        return Ok(());
    }
    for _ in 0..4 {
        cx.queries += 1;
        // Mostly near the end and near boundaries.
        let mut at = match src.below(3) {
            0 => n - 1 - (src.below(4) as u64).min(n - 1),
            1 => n - 1 - (src.draw(1 << 22) as u64).min(n - 1),
            _ => ((src.draw(u32::MAX) as u64) * n) >> 32,
        };
        let (s, start) = m.leaf(at);
        if src.chance(1, 3) {
            at = start;
        }
        let t = tree.token_at_offset(tsz(at));
        match t.clone().right_biased() {
            Some(t) => {
                ensure!(t.text() == s.as_str(), "token at offset {at} has another text");
                ensure_eq!(t.text_range(), TextRange::at(tsz(start), tsz(s.len() as u64)), "range of the token at {at}");
            }
            None => return fail(format!("no token at {at} of {n}")),
        }
        if at == start && at > 0 {
            ensure!(t.left_biased().is_some_and(|t| t.text_range().end() == tsz(at) || t.text_range().is_empty()), "left token at {at}");
        }
        // Inside one leaf.
        let end = (at + 1 + src.below(30) as u64).min(start + s.len() as u64);
        let r = TextRange::new(tsz(at), tsz(end));
        let c = tree.covering_element(r);
        ensure_eq!(c.text_range(), TextRange::at(tsz(start), tsz(s.len() as u64)), "element covering {r:?}");
        let k = tree.child_or_token_at_range(r);
        ensure!(k.is_some_and(|k| k.text_range().contains_range(r)), "child at {r:?}");
        let want = &s[(at - start) as usize..(end - start) as usize];
        let view = tree.text().slice(r);
        ensure_eq!(view.len(), tsz(end - at), "length of a slice");
        ensure!(view == *want, "content of the slice {r:?}");
        ensure_eq!(view.to_string(), want, "slice {r:?}");
        ensure_eq!(tree.text().slice(tsz(at)..).len(), tsz(n - at), "length of the slice from {at}");
        ensure_eq!(tree.text().char_at(tsz(at)), want.chars().next(), "char at {at}");
        // Beyond the end.
        let past = if n + 1 < LIMIT { tree.text().char_at(tsz(n)) } else { None };
        ensure_eq!(past, None, "char at the end");
    }
    Ok(())
}

/// A random node that the model knows and that is not inside shared pieces.
fn pick_path(src: &mut Src, m: &M) -> Vec<usize> {
    let mut p = vec![];
    let mut m = m;
    for _ in 0..src.below(4) {
        let c: Vec<usize> = (0..m.kids().len()).filter(|&i| matches!(m.kids()[i], M::Node(..))).collect();
        if c.is_empty() {
            break;
        }
        let i = *src.pick(&c);
        p.push(i);
        m = &m.kids()[i];
    }
    p
}
fn model_at<'a>(m: &'a mut M, p: &[usize]) -> &'a mut M {
    let mut m = m;
    for &i in p {
        m = match m {
            M::Node(_, k) => &mut Rc::make_mut(k)[i],
            _ => unreachable!(),
        };
    }
    m
}
fn renew(m: &mut M, p: &[usize]) {
    for n in (0..=p.len()).rev() {
        model_at(m, &p[..n]).update();
    }
}
fn real_at(n: &N, p: &[usize]) -> N {
    let mut n = n.clone();
    for &i in p {
        n = n.children_with_tokens().nth(i).unwrap().into_node().unwrap();
    }
    n
}

fn edits(src: &mut Src, cx: &mut Cx, tree: &N, mut m: M, memo: &mut HashMap<*const GreenNodeData, u64>) -> R {
    let mut pool: Vec<(E, M)> = vec![];
    for _ in 0..src.range(1, 6) {
        let p = pick_path(src, &m);
        let n = real_at(tree, &p);
        let len = model_at(&mut m, &p).kids().len();
        let a = src.below(len + 1);
        let b = a + src.below((len - a).min(3) + 1);
        let mut ins: Vec<(E, M)> = vec![];
        for _ in 0..src.below(3) {
            if !pool.is_empty() && src.chance(2, 3) {
                let i = src.below(pool.len());
                ins.push(pool.swap_remove(i));
            } else {
                let ps = pieces(1 << 20);
                let x = src.pick(&ps).clone();
                let x = match (&x.g, src.below(2)) {
                    (NodeOrToken::Node(g), 0) => (en(N::new_root_mut(g.clone())), x.m),
                    _ => {
                        let t = small_text(src);
                        (en(N::new_root_mut(GreenNode::new(SyntaxKind(5), [NodeOrToken::Token(GreenToken::new(SyntaxKind(6), &t))]))), M::Node(t.len() as u64, Rc::new(vec![M::Tok(Rc::new(t))])))
                    }
                };
                ins.push(x);
            }
        }
        let gone: u64 = model_at(&mut m, &p).kids()[a..b].iter().map(M::len).sum();
        let more: u64 = ins.iter().map(|x| x.1.len()).sum();
        let total = m.len() - gone + more;
        let olds: Vec<E> = n.children_with_tokens().skip(a).take(b - a).collect();
        let es: Vec<E> = ins.iter().map(|x| x.0.clone()).collect();
        let rejected = panics(|| n.splice_children(a..b, es));
        cx.queries += 1;
        if total >= LIMIT {
            cx.label("rejected: too long after an edit");
            ensure!(rejected, "an edit gave a tree of {total} bytes; it says {:?}", tree.text_range());
            // Whatever was done before the rejection, lengths are right.
            memo.clear();
            let g = tree.green().into_owned();
            let l = true_len(&g, memo)?;
            ensure_eq!(tree.text_range(), TextRange::up_to(tsz(l)), "range of the root after a rejected edit");
            for c in tree.children_with_tokens() {
                ensure!(c.text_range().end() <= tsz(l), "range of a child after a rejected edit");
            }
            return Ok(());
        }
        ensure!(!rejected, "an edit that gives {total} bytes was rejected");
        cx.label("edited near the limit");
        let M::Node(_, k) = model_at(&mut m, &p) else { unreachable!() };
        let removed: Vec<M> = Rc::make_mut(k).splice(a..b, ins.into_iter().map(|x| x.1)).collect();
        renew(&mut m, &p);
        ensure_eq!(m.len(), total, "harness: model length");
        for (e, em) in olds.into_iter().zip(removed) {
            ensure_eq!(e.text_range(), TextRange::up_to(tsz(em.len())), "range of a removed element");
            pool.push((e, em));
        }
        memo.clear();
        let g = tree.green().into_owned();
        let l = true_len(&g, memo)?;
        ensure_eq!(l, total, "length after an edit");
        queries(src, cx, tree, &m)?;
    }
    Ok(())
}

fn replacements(src: &mut Src, cx: &mut Cx, tree: &N, m: &M) -> R {
    for _ in 0..2 {
        let p = pick_path(src, m);
        let n = real_at(tree, &p);
        let mut want = m.clone();
        let old = model_at(&mut want, &p).len();
        let ps = pieces(1 << 20);
        let Pair { g: NodeOrToken::Node(g), m: gm } = ps[1..][src.below(ps.len() - 1)].clone() else { continue };
        let g = GreenNode::new(SyntaxKind(raw(n.kind())), g.children().map(|c| match c {
            NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
            NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
        }));
        let total = m.len() - old + gm.len();
        cx.queries += 1;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| n.replace_with(g))) {
            Ok(r) => {
                ensure!(total < LIMIT, "replace_with gave a tree of {total} bytes; it says {:?}", r.text_len());
                let l = true_len(&r, &mut HashMap::new())?;
                ensure_eq!(l, total, "length after replace_with");
            }
            Err(_) => {
                cx.label("rejected: too long after replace_with");
                ensure!(total >= LIMIT, "replace_with rejected a tree of {total} bytes");
            }
        }
    }
    Ok(())
}

/// One token of more than 4 GiB (thorough only: it needs the memory).
pub fn token(src: &mut Src, cx: &mut Cx) -> R {
    let _ = src.draw(2);
    alloc::CAP.store(12 << 30, std::sync::atomic::Ordering::Relaxed);
    let len = (1usize << 32) + 10;
    let text = unsafe { String::from_utf8_unchecked(vec![0u8; len]) };
    cx.nontrivial = true;
    cx.sample(|| format!("a token of {len} bytes, and one of {}", u32::MAX));
    let t = std::panic::catch_unwind(|| GreenToken::new(SyntaxKind(1), &text));
    if let Ok(t) = t {
        ensure!(panics(|| GreenNode::new(SyntaxKind(2), [NodeOrToken::Token(t.clone())])), "a node over a token of {len} bytes was built");
    }
    let t = GreenToken::new(SyntaxKind(1), &text[..u32::MAX as usize]);
    let g = GreenNode::new(SyntaxKind(2), [NodeOrToken::Token(t.clone())]);
    ensure_eq!(g.text_len(), TextSize::from(u32::MAX), "length of the longest token");
    ensure!(panics(|| GreenNode::new(SyntaxKind(2), [NodeOrToken::Token(t.clone()), NodeOrToken::Token(GreenToken::new(SyntaxKind(1), "x"))])), "one byte too many was accepted");
    Ok(())
}

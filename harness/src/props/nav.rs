//! C08-C16, C30: reading syntax trees.

use crate::engine::{fail, panics, Cx, R, Src};
use crate::model::*;
use crate::{ensure, ensure_eq};
use rowan::ast::{support, AstChildren, AstNode, AstPtr, SyntaxNodePtr};
use rowan::{Direction, GreenNode, GreenNodeData, NodeOrToken, TextRange, TokenAtOffset, WalkEvent};
use std::collections::hash_map::DefaultHasher;
use std::collections::VecDeque;
use std::hash::{Hash, Hasher};

/// A generated tree in all its forms.
pub struct Case {
    pub e: El,
    pub f: Flat,
    pub g: GreenNode,
    pub root: N,
    pub mutable: bool,
    /// Kept from before the edits that made the tree.
    _held: Vec<E>,
}
pub fn case(src: &mut Src, cx: &mut Cx, size: Size) -> Case {
    let e = gen_tree(src, cx, size);
    let mutable = src.chance(1, 3);
    case_of(src, cx, e, mutable)
}
pub fn case_of(src: &mut Src, cx: &mut Cx, e: El, mutable: bool) -> Case {
    let g = build(src, &e);
    let edited = mutable && e.count() < 1000 && src.chance(1, 3);
    cx.label_if(edited, "mutable tree made by edits");
    let (g, root, held) = if edited {
        let (root, held) = edited_root(src, &e);
        (root.green().into_owned(), root, held)
    } else {
        let root = make_root(src, g.clone(), mutable);
        (g, root, vec![])
    };
    let f = Flat::new(&e);
    cx.label(if mutable { "mutable tree" } else { "immutable tree" });
    cx.nontrivial = f.len() >= 4;
    cx.sample(|| format!("{} {}", if mutable { "mutable" } else { "immutable" }, e.show()));
    Case { e, f, g, root, mutable, _held: held }
}
/// Keeps some handles alive for the rest of the case.
fn maybe_hold(src: &mut Src, held: &mut Vec<(E, usize)>, e: E, id: usize) {
    if held.len() < 12 && src.chance(1, 3) {
        held.push((e, id));
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    c08_on(src, cx, c)
}
pub fn c08_huge(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { huge: 100_000, ..NORMAL });
    let m = src.chance(1, 4);
    let c = case_of(src, cx, e, m);
    c08_on(src, cx, c)
}
fn c08_on(src: &mut Src, cx: &mut Cx, c: Case) -> R {
    let f = &c.f;
    let whole = c.root.text().to_string();
    ensure_eq!(whole, f.text, "text of the root");
    let mut held = vec![];
    for id in f.some(src, 24) {
        let e = reach(src, &c.root, f, id);
        cx.queries += 1;
        is_el(&e, f, id, "element reached by a random route")?;
        let r = e.text_range();
        ensure_eq!(usize::from(r.end()) - usize::from(r.start()), f.els[id].len(), "length of the range of {id}");
        ensure_eq!(&whole[std::ops::Range::<usize>::from(r)], e_text(&e), "root text sliced by the range of {id}");
        match &e {
            NodeOrToken::Node(n) => {
                ensure_eq!(usize::from(n.green().text_len()), f.els[id].len(), "green length of {id}");
                if f.els[id].kids.len() < 500 {
                    let mut at = r.start();
                    for k in n.children_with_tokens() {
                        ensure_eq!(k.text_range().start(), at, "children of {id} tile it");
                        at = k.text_range().end();
                    }
                    ensure_eq!(at, if f.els[id].kids.is_empty() { r.start() } else { r.end() }, "children of {id} fill it");
                    ensure!(!f.els[id].kids.is_empty() || r.is_empty(), "childless node {id} has text");
                }
            }
            NodeOrToken::Token(t) => {
                ensure_eq!(t.text().len(), f.els[id].len(), "token text length of {id}");
                ensure_eq!(usize::from(t.green().text_len()), f.els[id].len(), "green token length of {id}");
            }
        }
        maybe_hold(src, &mut held, e, id);
    }
    for (e, id) in &held {
        is_el(e, f, *id, "held element at the end")?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn gen_filter(src: &mut Src, f: &Flat) -> Vec<u16> {
    match src.below(6) {
        5 => {
            // The rarest kind.
            let mut n: std::collections::BTreeMap<u16, usize> = Default::default();
            f.els.iter().for_each(|e| *n.entry(e.kind).or_default() += 1);
            vec![*n.iter().min_by_key(|(_, c)| **c).unwrap().0]
        }
        0 => vec![f.els[src.below(f.len())].kind],
        1 => vec![f.els[src.below(f.len())].kind, f.els[src.below(f.len())].kind],
        2 => vec![],
        3 => {
            let mut v: Vec<u16> = f.els.iter().map(|e| e.kind).collect();
            v.sort();
            v.dedup();
            v
        }
        _ => {
            let k = f.els[src.below(f.len())].kind;
            vec![k ^ 0x2b5a, k.wrapping_add(1), k]
        }
    }
}

pub fn c09(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    let f = &c.f;
    let mut held = vec![];
    let max = if f.len() > 120 { 6 } else { 14 };
    let mut ids = f.some(src, max);
    // The node with the most children is always among them.
    let widest = (0..f.len()).max_by_key(|&i| f.els[i].kids.len()).unwrap();
    if !ids.contains(&widest) {
        ids.push(widest);
    }
    for id in ids {
        let e = reach(src, &c.root, f, id);
        is_el(&e, f, id, "reached element")?;
        let filt = gen_filter(src, f);
        relations(cx, &e, f, id, &filt)?;
        if src.chance(1, 3) {
            all_iter_laws(src, cx, &c.root, f, id, &[2])?;
        }
        maybe_hold(src, &mut held, e, id);
    }
    for (e, id) in &held {
        is_el(e, f, *id, "held element at the end")?;
    }
    Ok(())
}
pub fn c09_huge(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { huge: 100_000, ..NORMAL });
    let m = src.chance(1, 4);
    let c = case_of(src, cx, e, m);
    let f = &c.f;
    let big = (0..f.len()).max_by_key(|&i| f.els[i].kids.len()).unwrap();
    let n = f.els[big].kids.len();
    let bn = handle(&c.root, f, big).into_node().unwrap();
    let filt = gen_filter(src, f);
    for i in [0, 1, 254, 255, 256, 65_533, 65_534, 65_535, 65_536, 65_537, 65_538, 65_540, n - 2, n - 1] {
        if i >= n {
            continue;
        }
        let id = f.els[big].kids[i];
        let e = bn.children_with_tokens().nth(i).unwrap();
        is_el(&e, f, id, "nth child")?;
        relations(cx, &e, f, id, &filt)?;
        let nx = f.els[big].kids.get(i + 1).copied();
        let pv = i.checked_sub(1).map(|j| f.els[big].kids[j]);
        is_opt(e.next_sibling_or_token(), f, nx, "next_sibling_or_token")?;
        is_opt(e.prev_sibling_or_token(), f, pv, "prev_sibling_or_token")?;
        if let NodeOrToken::Node(x) = &e {
            let nn = f.els[big].kids[i + 1..].iter().copied().find(|&k| !f.els[k].tok);
            let pn = f.els[big].kids[..i].iter().copied().rev().find(|&k| !f.els[k].tok);
            is_opt(on(x.next_sibling()), f, nn, "next_sibling")?;
            is_opt(on(x.prev_sibling()), f, pn, "prev_sibling")?;
        }
    }
    // Neighbours in every direction are the same when reached by a walk.
    let nodes = f.node_kids(big);
    if let Some(&last) = nodes.last() {
        let x = handle(&c.root, f, last).into_node().unwrap();
        is_seq(x.siblings(Direction::Prev).take(700).map(en), f, &nodes.iter().rev().take(700).copied().collect::<Vec<_>>(), "siblings(Prev)")?;
        let from = nodes[nodes.len().saturating_sub(700)];
        let x = handle(&c.root, f, from).into_node().unwrap();
        is_seq(x.siblings(Direction::Next).map(en), f, &nodes[nodes.len().saturating_sub(700)..], "siblings(Next)")?;
    }
    is_seq(bn.children().skip(nodes.len().saturating_sub(400)).map(en), f, &nodes[nodes.len().saturating_sub(400)..], "children")?;
    is_seq(bn.children_with_tokens().skip(n - 400), f, &f.els[big].kids[n - 400..], "children_with_tokens")?;
    is_opt(bn.last_child_or_token(), f, f.els[big].kids.last().copied(), "last_child_or_token")?;
    is_opt(on(bn.last_child()), f, f.node_kids(big).last().copied(), "last_child")
}

/// Every parent, child and sibling query of one element.
pub fn relations(cx: &mut Cx, e: &E, f: &Flat, id: usize, filt: &[u16]) -> R {
    let m = |k: Kind| filt.contains(&raw(k));
    let cm = |k: rowan::SyntaxKind| filt.contains(&k.0);
    let hit = |i: &usize| filt.contains(&f.els[*i].kind);
    let node = |i: &usize| !f.els[*i].tok;
    let fl = &f.els[id];
    let sibs: Vec<usize> = f.siblings(id).to_vec();
    let after: Vec<usize> = if fl.parent.is_some() { sibs[fl.idx + 1..].to_vec() } else { vec![] };
    let before: Vec<usize> = if fl.parent.is_some() { sibs[..fl.idx].iter().rev().copied().collect() } else { vec![] };
    let mut anc = vec![];
    let mut p = fl.parent;
    while let Some(q) = p {
        anc.push(q);
        p = f.els[q].parent;
    }
    cx.queries += 20;
    is_opt(on(e.parent()), f, fl.parent, "parent")?;
    if fl.parent.is_some() {
        ensure_eq!(e.index(), fl.idx, "index of {id}");
    }
    is_opt(e.next_sibling_or_token(), f, after.first().copied(), "next_sibling_or_token")?;
    is_opt(e.prev_sibling_or_token(), f, before.first().copied(), "prev_sibling_or_token")?;
    let ce: CE = e.clone().into();
    is_opt(ce.next_sibling_or_token_by_kind(&cm).map(E::from), f, after.iter().copied().find(hit), "next_sibling_or_token_by_kind (element)")?;
    is_opt(ce.next_sibling_or_token().map(E::from), f, after.first().copied(), "cursor next_sibling_or_token")?;
    is_opt(ce.prev_sibling_or_token().map(E::from), f, before.first().copied(), "cursor prev_sibling_or_token")?;
    let with_self = |v: &[usize]| [&[id], v].concat();
    // Long ancestor chains are compared by their ends only.
    let mut el_anc = if fl.tok { vec![] } else { vec![id] };
    el_anc.extend(&anc);
    let cheap = |v: &Vec<usize>| v.len() <= 60;
    is_opt(ce.parent().map(|n| en(n.into())), f, fl.parent, "cursor parent")?;
    ensure_eq!(ce.kind().0, fl.kind, "cursor kind");
    ensure_eq!(ce.text_range(), fl.range(), "cursor range");
    ensure!(fl.parent.is_none() || ce.index() == fl.idx, "cursor index of {id}");
    if cheap(&el_anc) {
        is_seq(e.ancestors().map(en), f, &el_anc, "ancestors (element)")?;
        is_seq(ce.ancestors().map(|n| en(n.into())), f, &el_anc, "cursor ancestors (element)")?;
    }
    match e {
        NodeOrToken::Node(n) => {
            if cheap(&el_anc) {
                is_seq(n.ancestors().map(en), f, &el_anc, "ancestors")?;
            } else {
                ensure_eq!(n.ancestors().count(), el_anc.len(), "number of ancestors");
            }
            ensure_eq!(n.index(), e.index(), "index");
            let kids = &fl.kids;
            is_opt(on(n.parent()), f, fl.parent, "parent")?;
            is_opt(on(n.first_child()), f, kids.iter().copied().find(node), "first_child")?;
            is_opt(on(n.last_child()), f, kids.iter().rev().copied().find(node), "last_child")?;
            is_opt(n.first_child_or_token(), f, kids.first().copied(), "first_child_or_token")?;
            is_opt(n.last_child_or_token(), f, kids.last().copied(), "last_child_or_token")?;
            is_opt(on(n.first_child_by_kind(&m)), f, kids.iter().copied().find(|i| node(i) && hit(i)), "first_child_by_kind")?;
            is_opt(n.first_child_or_token_by_kind(&m), f, kids.iter().copied().find(hit), "first_child_or_token_by_kind")?;
            is_opt(on(n.next_sibling()), f, after.iter().copied().find(node), "next_sibling")?;
            is_opt(on(n.prev_sibling()), f, before.iter().copied().find(node), "prev_sibling")?;
            is_opt(on(n.next_sibling_by_kind(&m)), f, after.iter().copied().find(|i| node(i) && hit(i)), "next_sibling_by_kind")?;
            is_opt(n.next_sibling_or_token(), f, after.first().copied(), "next_sibling_or_token")?;
            is_opt(n.prev_sibling_or_token(), f, before.first().copied(), "prev_sibling_or_token")?;
            is_opt(n.next_sibling_or_token_by_kind(&m), f, after.iter().copied().find(hit), "next_sibling_or_token_by_kind")?;
            let nodes = |v: &[usize]| v.iter().copied().filter(node).collect::<Vec<_>>();
            if sibs.len() <= 150 {
                is_seq(n.siblings(Direction::Next).map(en), f, &with_self(&nodes(&after)), "siblings(Next)")?;
                is_seq(n.siblings(Direction::Prev).map(en), f, &with_self(&nodes(&before)), "siblings(Prev)")?;
                is_seq(n.siblings_with_tokens(Direction::Next), f, &with_self(&after), "siblings_with_tokens(Next)")?;
                is_seq(n.siblings_with_tokens(Direction::Prev), f, &with_self(&before), "siblings_with_tokens(Prev)")?;
            }
            is_seq(n.children().map(en), f, &nodes(kids), "children")?;
            is_seq(n.children_with_tokens(), f, kids, "children_with_tokens")?;
        }
        NodeOrToken::Token(t) => {
            if cheap(&anc) {
                is_seq(t.parent_ancestors().map(en), f, &anc, "parent_ancestors")?;
                #[allow(deprecated)]
                is_seq(t.ancestors().map(en), f, &anc, "token ancestors")?;
            }
            ensure_eq!(t.index(), e.index(), "index");
            is_opt(on(t.parent()), f, fl.parent, "parent of token")?;
            is_opt(t.next_sibling_or_token(), f, after.first().copied(), "token next_sibling_or_token")?;
            is_opt(t.prev_sibling_or_token(), f, before.first().copied(), "token prev_sibling_or_token")?;
            let ct: CT = t.clone().into();
            is_opt(ct.next_sibling_or_token_by_kind(&cm).map(E::from), f, after.iter().copied().find(hit), "token next_sibling_or_token_by_kind")?;
            if sibs.len() <= 150 {
                is_seq(t.siblings_with_tokens(Direction::Next), f, &with_self(&after), "token siblings_with_tokens(Next)")?;
                is_seq(t.siblings_with_tokens(Direction::Prev), f, &with_self(&before), "token siblings_with_tokens(Prev)")?;
            }
        }
    }
    Ok(())
}

/// The provided methods of an iterator, called in the middle of an iteration, agree with repeated
/// calls of `next`. `mk` starts the iteration, `want` are the elements.
pub fn iter_laws<I: Iterator>(src: &mut Src, cx: &mut Cx, what: &str, mk: impl Fn() -> I, want: &[usize], ok: &dyn Fn(&I::Item, usize, &str) -> R) -> R {
    let mut it = mk();
    let mut q: VecDeque<usize> = want.iter().copied().collect();
    let mut log = what.to_string();
    cx.queries += 1;
    let one = |x: Option<I::Item>, w: Option<usize>, log: &str| match (x, w) {
        (None, None) => Ok(()),
        (Some(x), Some(w)) => ok(&x, w, log),
        (x, w) => fail(format!("{log}: something is {}, expected {w:?}", x.is_some())),
    };
    let hint = |it: &I, q: &VecDeque<usize>, log: &str| -> R {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= q.len() && hi.is_none_or(|h| q.len() <= h), "{log}: size_hint ({lo}, {hi:?}) with {} elements left", q.len());
        Ok(())
    };
    for _ in 0..src.below(5) {
        hint(&it, &q, &log)?;
        let k = if src.chance(1, 3) { src.below(3) } else { src.below(q.len() + 2) };
        let mut n = 0;
        match src.below(7) {
            0 => {
                log.push_str(".next");
                one(it.next(), q.pop_front(), &log)?;
            }
            1 => {
                log.push_str(&format!(".nth({k})"));
                let x = it.nth(k);
                q.drain(..k.min(q.len()));
                one(x, q.pop_front(), &log)?;
            }
            2 => {
                log.push_str(&format!(".take({k})"));
                for x in it.by_ref().take(k) {
                    one(Some(x), q.pop_front(), &log)?;
                }
                n = k.min(q.len());
                ensure!(n == 0 || want.len() - q.len() >= k, "{log}: too few");
            }
            3 => {
                log.push_str(&format!(".find({k})"));
                let x = it.find(|_| {
                    n += 1;
                    n > k
                });
                q.drain(..k.min(q.len()));
                one(x, q.pop_front(), &log)?;
            }
            4 => {
                log.push_str(&format!(".position({k})"));
                let x = it.position(|_| {
                    n += 1;
                    n > k
                });
                ensure_eq!(x, if k < q.len() { Some(k) } else { None }, "{log}");
                q.drain(..(k + 1).min(q.len()));
            }
            5 => {
                log.push_str(&format!(".any({k})"));
                let x = it.any(|_| {
                    n += 1;
                    n > k
                });
                ensure_eq!(x, k < q.len(), "{log}");
                q.drain(..(k + 1).min(q.len()));
            }
            _ => {
                log.push_str(&format!(".find_map({k})"));
                let x = it.find_map(|x| {
                    n += 1;
                    if n > k { Some(x) } else { None }
                });
                q.drain(..k.min(q.len()));
                one(x, q.pop_front(), &log)?;
            }
        }
    }
    hint(&it, &q, &log)?;
    match src.below(9) {
        0 => ensure_eq!(it.count(), q.len(), "{log}.count"),
        1 => one(it.last(), q.back().copied(), &format!("{log}.last"))?,
        2 => {
            let v = it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            all(v, &q, &format!("{log}.fold"), ok)?;
        }
        3 => {
            let k = src.range(1, 4);
            all(it.step_by(k).collect(), &q.into_iter().step_by(k).collect(), &format!("{log}.step_by({k})"), ok)?;
        }
        4 => {
            let k = src.below(q.len() + 2);
            all(it.skip(k).collect(), &q.into_iter().skip(k).collect(), &format!("{log}.skip({k})"), ok)?;
        }
        5 => {
            let (a, b): (Vec<_>, Vec<_>) = it.enumerate().partition(|x| x.0 % 2 == 0);
            let m: Vec<usize> = q.into_iter().collect();
            all(a.into_iter().map(|x| x.1).collect(), &m.iter().copied().step_by(2).collect(), &format!("{log}.partition"), ok)?;
            all(b.into_iter().map(|x| x.1).collect(), &m.iter().copied().skip(1).step_by(2).collect(), &format!("{log}.partition"), ok)?;
        }
        6 => {
            let mut v = vec![];
            it.for_each(|x| v.push(x));
            all(v, &q, &format!("{log}.for_each"), ok)?;
        }
        7 => {
            let k = q.len();
            let x = it.enumerate().max_by_key(|x| x.0);
            ensure_eq!(x.as_ref().map(|x| x.0 + 1).unwrap_or(0), k, "{log}.max_by_key");
            one(x.map(|x| x.1), q.back().copied(), &format!("{log}.max_by_key"))?;
        }
        _ => {
            while let Some(w) = q.pop_front() {
                one(it.next(), Some(w), &log)?;
                hint(&it, &q, &log)?;
            }
            ensure!(it.next().is_none() && it.nth(1).is_none(), "{log}: goes on");
        }
    }
    fn all<X>(v: Vec<X>, q: &VecDeque<usize>, log: &str, ok: &dyn Fn(&X, usize, &str) -> R) -> R {
        ensure_eq!(v.len(), q.len(), "{log}: number of elements");
        v.iter().zip(q).try_for_each(|(x, &w)| ok(x, w, log))
    }
    Ok(())
}
/// All iterators that start at one element, by their provided methods.
fn all_iter_laws(src: &mut Src, cx: &mut Cx, root: &N, f: &Flat, id: usize, which: &[u8]) -> R {
    let quick = |e: &E, id: usize, what: &str| -> R {
        let m = &f.els[id];
        ensure!(e_tok(e) == m.tok && e_raw(e) == m.kind && e.text_range() == m.range() && (m.parent.is_none() || e.index() == m.idx), "{what}: expected element {id}, got {e:?}");
        Ok(())
    };
    let el = |e: &E, id: usize, w: &str| quick(e, id, w);
    let nd = |n: &N, id: usize, w: &str| quick(&en(n.clone()), id, w);
    let cel = |e: &CE, id: usize, w: &str| quick(&e.clone().into(), id, w);
    let cnd = |n: &CN, id: usize, w: &str| quick(&en(n.clone().into()), id, w);
    let fl = &f.els[id];
    let node = |i: &usize| !f.els[*i].tok;
    let e = reach(src, root, f, id);
    let filt = gen_filter(src, f);
    let hit = |i: &usize| filt.contains(&f.els[*i].kind);
    let m = |k: Kind| filt.contains(&raw(k));
    let cm = |k: rowan::SyntaxKind| filt.contains(&k.0);
    let sibs: Vec<usize> = if fl.parent.is_some() { f.siblings(id).to_vec() } else { vec![id] };
    let at = if fl.parent.is_some() { fl.idx } else { 0 };
    let nodes = |v: Vec<usize>| v.into_iter().filter(node).collect::<Vec<_>>();
    match (src.pick(which), &e) {
        (0, NodeOrToken::Node(n)) => {
            let kids = fl.kids.clone();
            let c: CN = n.clone().into();
            match src.below(8) {
                0 => iter_laws(src, cx, "children", || n.children(), &nodes(kids), &nd),
                1 => iter_laws(src, cx, "children_with_tokens", || n.children_with_tokens(), &kids, &el),
                2 => iter_laws(src, cx, "cursor children", || c.children(), &nodes(kids), &cnd),
                3 => iter_laws(src, cx, "cursor children_with_tokens", || c.children_with_tokens(), &kids, &cel),
                4 => iter_laws(src, cx, "children.by_kind", || n.children().by_kind(m), &nodes(kids).into_iter().filter(hit).collect::<Vec<_>>(), &nd),
                5 => iter_laws(src, cx, "children_with_tokens.by_kind", || n.children_with_tokens().by_kind(m), &kids.into_iter().filter(hit).collect::<Vec<_>>(), &el),
                6 => iter_laws(src, cx, "cursor children.by_kind", || c.children().by_kind(cm), &nodes(kids).into_iter().filter(hit).collect::<Vec<_>>(), &cnd),
                _ => iter_laws(src, cx, "cursor children_with_tokens.by_kind", || c.children_with_tokens().by_kind(cm), &kids.into_iter().filter(hit).collect::<Vec<_>>(), &cel),
            }
        }
        (1, NodeOrToken::Node(n)) => {
            let c: CN = n.clone().into();
            let ids: Vec<usize> = (id..fl.sub_end).collect();
            let mut evs = vec![];
            let toks = src.chance(1, 2);
            if ids.len() > 5000 {
                return Ok(());
            }
            walk_model(f, id, toks, &|_| false, &mut evs);
            // Events as numbers.
            let evs: Vec<usize> = evs.iter().map(|e| match e {
                Ev::In(i) => 2 * i,
                Ev::Out(i) => 2 * i + 1,
            }).collect();
            let wel = |e: &WalkEvent<E>, w: usize, what: &str| match (e, w % 2) {
                (WalkEvent::Enter(e), 0) | (WalkEvent::Leave(e), 1) => quick(e, w / 2, what),
                _ => fail(format!("{what}: wrong direction")),
            };
            let wnd = |e: &WalkEvent<N>, w: usize, what: &str| wel(&e.clone().map(en), w, what);
            let cwel = |e: &WalkEvent<CE>, w: usize, what: &str| wel(&e.clone().map(E::from), w, what);
            let cwnd = |e: &WalkEvent<CN>, w: usize, what: &str| wel(&e.clone().map(|n| en(n.into())), w, what);
            match src.below(8) {
                4 if toks => iter_laws(src, cx, "cursor preorder_with_tokens", || c.preorder_with_tokens(), &evs, &cwel),
                4 => iter_laws(src, cx, "cursor preorder", || c.preorder(), &evs, &cwnd),
                0 => iter_laws(src, cx, "descendants", || n.descendants(), &nodes(ids), &nd),
                1 => iter_laws(src, cx, "descendants_with_tokens", || n.descendants_with_tokens(), &ids, &el),
                2 => iter_laws(src, cx, "cursor descendants", || c.descendants(), &nodes(ids), &cnd),
                3 => iter_laws(src, cx, "cursor descendants_with_tokens", || c.descendants_with_tokens(), &ids, &cel),
                _ if toks => iter_laws(src, cx, "preorder_with_tokens", || n.preorder_with_tokens(), &evs, &wel),
                _ => iter_laws(src, cx, "preorder", || n.preorder(), &evs, &wnd),
            }
        }
        (2, _) => {
            let mut anc = vec![];
            let mut p = if fl.tok { fl.parent } else { Some(id) };
            while let Some(q) = p {
                anc.push(q);
                p = f.els[q].parent;
            }
            let fwd = sibs[at..].to_vec();
            let bwd: Vec<usize> = sibs[..=at].iter().rev().copied().collect();
            let dir = |fw: bool| if fw { Direction::Next } else { Direction::Prev };
            let fw = src.chance(1, 2);
            let line = if fw { fwd } else { bwd };
            if line.len() > 2000 || anc.len() > 2000 {
                return Ok(());
            }
            let ce: CE = e.clone().into();
            match (src.below(5), &e) {
                (3, NodeOrToken::Node(_)) => iter_laws(src, cx, "cursor ancestors", || ce.ancestors(), &anc, &cnd),
                (3, NodeOrToken::Token(t)) => {
                    let t: CT = t.clone().into();
                    iter_laws(src, cx, "cursor token siblings_with_tokens", || t.siblings_with_tokens(dir(fw)), &line, &cel)
                }
                (4, NodeOrToken::Node(n)) => {
                    let n: CN = n.clone().into();
                    match src.chance(1, 2) {
                        true => iter_laws(src, cx, "cursor siblings", || n.siblings(dir(fw)), &nodes(line), &cnd),
                        false => iter_laws(src, cx, "cursor siblings_with_tokens", || n.siblings_with_tokens(dir(fw)), &line, &cel),
                    }
                }
                (0, _) => iter_laws(src, cx, "ancestors", || e.ancestors(), &anc, &nd),
                (1, NodeOrToken::Node(n)) => iter_laws(src, cx, "siblings", || n.siblings(dir(fw)), &nodes(line), &nd),
                (_, NodeOrToken::Node(n)) => iter_laws(src, cx, "siblings_with_tokens", || n.siblings_with_tokens(dir(fw)), &line, &el),
                (1, NodeOrToken::Token(t)) => iter_laws(src, cx, "parent_ancestors", || t.parent_ancestors(), &anc, &nd),
                (_, NodeOrToken::Token(t)) => iter_laws(src, cx, "token siblings_with_tokens", || t.siblings_with_tokens(dir(fw)), &line, &el),
            }
        }
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C10

pub fn c10(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    let f = &c.f;
    let mut empties = 0;
    for id in f.some(src, 40) {
        let e = handle(&c.root, f, id);
        let fl = &f.els[id];
        let inside: Vec<usize> = (id..fl.sub_end).filter(|&i| f.els[i].tok).collect();
        cx.queries += 2;
        let ce: CE = e.clone().into();
        is_opt(ce.first_token().map(|t| et(t.into())), f, inside.first().copied(), "first_token (element)")?;
        is_opt(ce.last_token().map(|t| et(t.into())), f, inside.last().copied(), "last_token (element)")?;
        match &e {
            NodeOrToken::Node(n) => {
                empties += (inside.is_empty()) as usize;
                is_opt(ot(n.first_token()), f, inside.first().copied(), "first_token")?;
                is_opt(ot(n.last_token()), f, inside.last().copied(), "last_token")?;
            }
            NodeOrToken::Token(t) => {
                let p = f.toks.binary_search(&id).unwrap();
                is_opt(ot(t.next_token()), f, f.toks.get(p + 1).copied(), "next_token")?;
                is_opt(ot(t.prev_token()), f, p.checked_sub(1).map(|i| f.toks[i]), "prev_token")?;
            }
        }
    }
    if f.toks.len() <= 80 {
        let mut ids = f.toks.clone();
        let fwd: Vec<T> = std::iter::successors(c.root.first_token(), |t| t.next_token()).take(f.toks.len() + 1).collect();
        is_seq(fwd.into_iter().map(et), f, &ids, "tokens forwards")?;
        ids.reverse();
        let bwd = std::iter::successors(c.root.last_token(), |t| t.prev_token()).take(f.toks.len() + 1);
        is_seq(bwd.map(et), f, &ids, "tokens backwards")?;
    }
    cx.label_if(empties > 0, "nodes without tokens");
    cx.nontrivial = f.toks.len() >= 2 && f.len() >= 4;
    Ok(())
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    In(usize),
    Out(usize),
}
fn walk_model(f: &Flat, id: usize, toks: bool, skip: &dyn Fn(usize) -> bool, out: &mut Vec<Ev>) {
    out.push(Ev::In(id));
    if !skip(id) {
        for &k in &f.els[id].kids {
            if toks || !f.els[k].tok {
                walk_model(f, k, toks, skip, out);
            }
        }
    }
    out.push(Ev::Out(id));
}
pub fn c11(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, Size { wide: 2, deep: 2, ..NORMAL });
    let f = &c.f;
    let mut held = vec![];
    for id in f.some_nodes(src, 5) {
        let e = reach(src, &c.root, f, id);
        let n = e.clone().into_node().unwrap();
        held.push(e);
        let sub = f.els[id].sub_end - id;
        let cheap = sub <= 120;
        // Deep trees: positions are compared by kind and range, not by full paths.
        let chk = |e: &E, id: usize, what: &str| -> R {
            if f.len() <= 150 {
                return is_el(e, f, id, what);
            }
            let m = &f.els[id];
            ensure!(e_tok(e) == m.tok && e_raw(e) == m.kind && e.text_range() == m.range() && (m.parent.is_none() || e.index() == m.idx), "{what}: expected element {id}, got {e:?}");
            Ok(())
        };
        let rounds = if cheap { 3 } else { 1 };
        for round in 0..rounds {
            // A set of skipped elements; none in the first round.
            let skips: Vec<bool> = (0..sub).map(|_| round > 0 && src.chance(1, 4)).collect();
            let skip = |x: usize| skips[x - id];
            cx.label_if(skips.iter().any(|&b| b), "skips");
            cx.queries += 2;
            let mut want = vec![];
            walk_model(f, id, true, &skip, &mut want);
            let mut p = n.preorder_with_tokens();
            for (i, w) in want.iter().enumerate() {
                match (p.next(), w) {
                    (Some(WalkEvent::Enter(e)), Ev::In(x)) => {
                        chk(&e, *x, "preorder_with_tokens enter")?;
                        if skip(*x) {
                            p.skip_subtree();
                        }
                    }
                    (Some(WalkEvent::Leave(e)), Ev::Out(x)) => chk(&e, *x, "preorder_with_tokens leave")?,
                    (got, w) => return fail(format!("preorder_with_tokens of {id}: event {i} is {got:?}, expected {w:?}")),
                }
            }
            ensure!(p.next().is_none() && p.next().is_none(), "preorder_with_tokens of {id} goes on after leaving it");
            want.clear();
            walk_model(f, id, false, &skip, &mut want);
            let mut p = n.preorder();
            for (i, w) in want.iter().enumerate() {
                match (p.next(), w) {
                    (Some(WalkEvent::Enter(e)), Ev::In(x)) => {
                        chk(&en(e), *x, "preorder enter")?;
                        if skip(*x) {
                            p.skip_subtree();
                        }
                    }
                    (Some(WalkEvent::Leave(e)), Ev::Out(x)) => chk(&en(e), *x, "preorder leave")?,
                    (got, w) => return fail(format!("preorder of {id}: event {i} is {got:?}, expected {w:?}")),
                }
            }
            ensure!(p.next().is_none() && p.next().is_none(), "preorder of {id} goes on after leaving it");
        }
        if src.chance(1, 2) {
            all_iter_laws(src, cx, &c.root, f, id, &[1])?;
        }
        let ids: Vec<usize> = (id..f.els[id].sub_end).collect();
        let nids: Vec<usize> = ids.iter().copied().filter(|&i| !f.els[i].tok).collect();
        let mut it = n.descendants_with_tokens();
        for &i in &ids {
            let Some(e) = it.next() else { return fail(format!("descendants_with_tokens of {id} ends before {i}")) };
            chk(&e, i, "descendants_with_tokens")?;
        }
        ensure!(it.next().is_none(), "descendants_with_tokens of {id} goes on");
        let mut it = n.descendants();
        for &i in &nids {
            let Some(e) = it.next() else { return fail(format!("descendants of {id} ends before {i}")) };
            chk(&en(e), i, "descendants")?;
        }
        ensure!(it.next().is_none(), "descendants of {id} goes on");
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

enum It {
    Nodes(rowan::SyntaxNodeChildren<Lang>),
    Els(rowan::SyntaxElementChildren<Lang>),
    CNodes(rowan::cursor::SyntaxNodeChildren),
    CEls(rowan::cursor::SyntaxElementChildren),
    CNodesK(rowan::cursor::SyntaxNodeChildrenByKind<Rc>),
    CElsK(rowan::cursor::SyntaxElementChildrenByKind<Rc>),
    Boxed(Box<dyn Iterator<Item = E>>),
}
type Rc = fn(rowan::SyntaxKind) -> bool;
// Plain function filters can be cloned along with the iterator.
fn k_even(k: rowan::SyntaxKind) -> bool {
    k.0 % 2 == 0
}
fn k_low(k: rowan::SyntaxKind) -> bool {
    k.0 <= 1
}
fn k_all(_: rowan::SyntaxKind) -> bool {
    true
}
impl It {
    fn next(&mut self) -> Option<E> {
        match self {
            It::Nodes(i) => on(i.next()),
            It::Els(i) => i.next(),
            It::CNodes(i) => i.next().map(|n| en(n.into())),
            It::CEls(i) => i.next().map(E::from),
            It::CNodesK(i) => i.next().map(|n| en(n.into())),
            It::CElsK(i) => i.next().map(E::from),
            It::Boxed(i) => i.next(),
        }
    }
    fn dup(&self) -> Option<It> {
        Some(match self {
            It::Nodes(i) => It::Nodes(i.clone()),
            It::Els(i) => It::Els(i.clone()),
            It::CNodes(i) => It::CNodes(i.clone()),
            It::CEls(i) => It::CEls(i.clone()),
            It::CNodesK(i) => It::CNodesK(i.clone()),
            It::CElsK(i) => It::CElsK(i.clone()),
            It::Boxed(_) => return None,
        })
    }
}

pub fn c12(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, Size { wide: 1, deep: 1, max_deep: 60, max_wide: 60, ..NORMAL });
    c12_on(src, cx, c, None)
}
/// With `held`, the scripts run while other handles of the caller are alive as well.
fn c12_on(src: &mut Src, cx: &mut Cx, c: Case, _held: Option<()>) -> R {
    let f = &c.f;
    let mut its: Vec<(It, VecDeque<usize>)> = vec![];
    let mut held: Vec<(E, usize)> = vec![];
    let mut log = String::new();
    let parents: Vec<usize> = f.nodes().filter(|&i| !f.els[i].kids.is_empty()).collect();
    if parents.is_empty() {
        cx.nontrivial = false;
        return Ok(());
    }
    let mut root = Some(c.root);
    let mut advanced = false;
    let steps = src.range(3, 40);
    for _ in 0..steps {
        if src.dry() {
            break;
        }
        cx.queries += 1;
        match src.weighted(&[3, 12, 2, 3, 3, 3, 2, 1, if boost() { 3 } else { 1 }, 1]) {
            0 => {
                // A new iteration over some node, the node handle itself is not kept.
                let Some(r) = &root else { continue };
                let p = *src.pick(&parents);
                let n = reach(src, r, f, p).into_node().unwrap();
                let all: VecDeque<usize> = f.els[p].kids.iter().copied().collect();
                let nodes: VecDeque<usize> = f.node_kids(p).into();
                let (it, q) = match src.below(4) {
                    0 => (It::Nodes(n.children()), nodes),
                    1 => (It::Els(n.children_with_tokens()), all),
                    2 => (It::CNodes(CN::from(n).children()), nodes),
                    _ => (It::CEls(CN::from(n).children_with_tokens()), all),
                };
                log.push_str(&format!(" iter{p}"));
                its.push((it, q));
            }
            1 => {
                if its.is_empty() {
                    continue;
                }
                let i = src.below(its.len());
                let (it, q) = &mut its[i];
                let want = q.pop_front();
                let got = it.next();
                log.push_str(&format!(" next{i}"));
                is_opt(got.clone(), f, want, &format!("next after{log}"))?;
                match (got, want) {
                    (Some(e), Some(id)) => match src.below(4) {
                        0 => drop(e),
                        1 => {
                            log.push_str("+keep");
                            held.push((e, id))
                        }
                        2 => {
                            log.push_str("+keep2");
                            held.push((e.clone(), id));
                            held.push((e, id));
                        }
                        _ => {
                            // Keep only a child of it, or its parent.
                            if let Some(p) = e.parent() {
                                held.push((en(p), f.els[id].parent.unwrap()));
                            }
                            if let NodeOrToken::Node(n) = &e {
                                if let Some(k) = n.first_child_or_token() {
                                    log.push_str("+keepchild");
                                    held.push((k, f.els[id].kids[0]));
                                }
                            }
                        }
                    },
                    _ => {
                        // Exhausted for good.
                        ensure!(its[i].0.next().is_none(), "iterator yields again after its end:{log}");
                    }
                }
            }
            2 => {
                if its.is_empty() {
                    continue;
                }
                let i = src.below(its.len());
                if let Some(d) = its[i].0.dup() {
                    let q = its[i].1.clone();
                    log.push_str(&format!(" clone{i}"));
                    its.push((d, q));
                }
            }
            3 => {
                // by_kind on a (partly consumed) iterator.
                if its.is_empty() {
                    continue;
                }
                let i = src.below(its.len());
                let filt = gen_filter(src, f);
                let (it, mut q) = its.swap_remove(i);
                let fns: [(Rc, &str); 3] = [(k_even, "even"), (k_low, "low"), (k_all, "all")];
                let which = *src.pick(&fns);
                let it = match it {
                    It::Nodes(x) => {
                        q.retain(|&j| filt.contains(&f.els[j].kind));
                        It::Boxed(Box::new(x.by_kind(move |k| filt.contains(&raw(k))).map(en)))
                    }
                    It::Els(x) => {
                        q.retain(|&j| filt.contains(&f.els[j].kind));
                        It::Boxed(Box::new(x.by_kind(move |k| filt.contains(&raw(k)))))
                    }
                    It::CNodes(x) => {
                        q.retain(|&j| which.0(sk(f.els[j].kind)));
                        It::CNodesK(x.by_kind(which.0))
                    }
                    It::CEls(x) => {
                        q.retain(|&j| which.0(sk(f.els[j].kind)));
                        It::CElsK(x.by_kind(which.0))
                    }
                    o => o,
                };
                log.push_str(&format!(" by_kind{i}"));
                cx.label("by_kind");
                its.push((it, q));
            }
            8 => {
                // Far ahead; the elements in between are let go.
                if its.is_empty() {
                    continue;
                }
                let i = src.below(its.len());
                let (it, q) = &mut its[i];
                let k = src.below(q.len() + 1);
                log.push_str(&format!(" skip{i}by{k}"));
                let mut last = None;
                for _ in 0..k {
                    last = it.next();
                }
                let want = q.drain(..k).last();
                is_opt(last, f, want, &format!("last of{log}"))?;
            }
            9 => {
                // The provided methods, while handles are held.
                let Some(r) = &root else { continue };
                let p = *src.pick(&parents);
                all_iter_laws(src, cx, r, f, p, &[0])?;
            }
            4 => {
                if !held.is_empty() {
                    let i = src.below(held.len());
                    held.swap_remove(i);
                    log.push_str(" drop");
                }
            }
            5 => {
                // Advance a handle in place.
                if held.is_empty() {
                    continue;
                }
                let i = src.below(held.len());
                let (e, id) = held.swap_remove(i);
                let sibs = f.siblings(id).to_vec();
                let rest: Vec<usize> = if f.els[id].parent.is_some() { sibs[f.els[id].idx + 1..].to_vec() } else { vec![] };
                advanced = true;
                if src.chance(1, 2) {
                    let ce: CE = e.into();
                    let got = ce.to_next_sibling_or_token().map(E::from);
                    log.push_str(&format!(" advance({id})"));
                    is_opt(got.clone(), f, rest.first().copied(), &format!("to_next_sibling_or_token after{log}"))?;
                    if let Some(g) = got {
                        held.push((g, rest[0]));
                    }
                } else if let NodeOrToken::Node(n) = e {
                    let want = rest.iter().copied().find(|&k| !f.els[k].tok);
                    let got = CN::from(n).to_next_sibling().map(|n| en(n.into()));
                    log.push_str(&format!(" advance_node({id})"));
                    is_opt(got.clone(), f, want, &format!("to_next_sibling after{log}"))?;
                    if let (Some(g), Some(w)) = (got, want) {
                        held.push((g, w));
                    }
                }
            }
            6 => {
                if !its.is_empty() {
                    let i = src.below(its.len());
                    its.swap_remove(i);
                    log.push_str(&format!(" dropiter{i}"));
                }
            }
            _ => {
                // The root handle may go; then only held handles keep the tree alive.
                if src.chance(1, 3) {
                    root = None;
                    log.push_str(" droproot");
                }
            }
        }
        for (e, id) in &held {
            is_el(e, f, *id, &format!("held handle after{log}"))?;
            ensure_eq!(e_text_cheap(e, f, *id), true, "text of a held handle after{log}");
        }
    }
    for (mut it, q) in its {
        for id in q {
            is_opt(it.next(), f, Some(id), &format!("rest of iterator after{log}"))?;
        }
        ensure!(it.next().is_none(), "iterator goes on after{log}");
    }
    for (e, id) in &held {
        is_el(e, f, *id, &format!("held handle at the end after{log}"))?;
    }
    cx.label_if(advanced, "advanced in place");
    cx.nontrivial = log.contains("keep") && steps > 5;
    cx.sample(|| log);
    Ok(())
}
fn e_text_cheap(e: &E, f: &Flat, id: usize) -> bool {
    match e {
        NodeOrToken::Token(t) => t.text() == f.text_of(id),
        NodeOrToken::Node(n) => f.els[id].len() == usize::from(n.green().text_len()),
    }
}

// ---------------------------------------------------------------- C13

/// C13 with places of one green element that are exactly a power of two apart.
pub fn c13_far(src: &mut Src, cx: &mut Cx) -> R {
    let x = {
        let leaf = GreenNode::new(sk(5), vec![NodeOrToken::Token(rowan::GreenToken::new(sk(1), &"abcdefg"[..src.range(0, 7)]))]);
        match src.below(2) {
            0 => leaf,
            _ => GreenNode::new(sk(4), vec![leaf.clone().into(), leaf.into()]),
        }
    };
    let len = u32::from(x.text_len()) as usize;
    // Places of `x`, as offsets in the tree.
    let mut kids: Vec<NodeOrToken<GreenNode, rowan::GreenToken>> = vec![];
    let (mut starts, mut at) = (vec![], 0usize);
    static FILLER: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| "-".repeat((1 << 25) + 1));
    let mut log = String::new();
    let n = src.range(2, 4);
    for i in 0..n {
        // Some places are one level deeper.
        let deeper = src.chance(1, 3);
        starts.push((at, kids.len(), deeper));
        kids.push(if deeper { GreenNode::new(sk(6), vec![x.clone().into()]).into() } else { x.clone().into() });
        let apart = (1usize << src.range(3, 25)) + if src.chance(1, 8) { 1 } else { 0 };
        at += apart;
        log.push_str(&format!("{} {apart} ", if deeper { "(x)" } else { "x" }));
        if i + 1 < n && apart > len {
            kids.push(rowan::GreenToken::new(sk(2), &FILLER[..apart - len]).into());
        } else if apart < len {
            at = at - apart + len;
        }
    }
    cx.sample(|| log.clone());
    let g = GreenNode::new(sk(0), kids);
    let mutable = src.chance(1, 2);
    let root = make_root(src, g, mutable);
    let at_place = |src: &mut Src, p: usize| -> N {
        let (start, index, deeper) = starts[p];
        let n = match src.below(4) {
            0 => root.children().find(|c| u32::from(c.text_range().start()) as usize == start).unwrap(),
            1 if len > 0 => root.child_or_token_at_range(TextRange::at(ts(start), ts(1))).unwrap().into_node().unwrap(),
            2 => root.children().nth(p).unwrap(),
            _ => root.children_with_tokens().nth(index).unwrap().into_node().unwrap(),
        };
        if deeper { n.first_child().unwrap() } else { n }
    };
    let hs: Vec<(N, usize)> = (0..n).flat_map(|p| [p, p]).map(|p| (at_place(src, p), p)).collect();
    let deep = |n: &N| n.first_token().unwrap();
    for (a, p) in &hs {
        ensure_eq!(u32::from(a.text_range().start()) as usize, starts[*p].0, "start of place {p} of [{log}]");
        for (b, q) in &hs {
            cx.queries += 1;
            ensure_eq!(a == b, p == q, "node handles to places {p} and {q} of [{log}] are equal");
            ensure_eq!(deep(a) == deep(b), p == q, "token handles in places {p} and {q} of [{log}] are equal");
            ensure_eq!(CN::from(a.clone()) == CN::from(b.clone()), p == q, "cursor handles to places {p} and {q} of [{log}] are equal");
            if p == q {
                ensure_eq!(hash_of(a), hash_of(b), "hashes of handles to place {p} of [{log}]");
            }
            if !mutable {
                let (pa, pb) = (SyntaxNodePtr::new(a), SyntaxNodePtr::new(b));
                ensure_eq!(pa == pb, p == q, "pointers to places {p} and {q} of [{log}] are equal");
                ensure!(pa.to_node(&root) == *a, "pointer to place {p} of [{log}] resolves to it");
            }
        }
    }
    let set: std::collections::HashSet<N> = hs.iter().map(|h| h.0.clone()).collect();
    ensure_eq!(set.len(), n, "number of distinct handles in a hash set for [{log}]");
    cx.nontrivial = true;
    Ok(())
}
fn green_addrs(g: &GreenNodeData, out: &mut Vec<usize>) {
    out.push(g as *const GreenNodeData as *const u8 as usize);
    for c in g.children() {
        match c {
            NodeOrToken::Node(n) => green_addrs(n, out),
            NodeOrToken::Token(t) => out.push(t as *const rowan::GreenTokenData as *const u8 as usize),
        }
    }
}
fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
pub fn c13(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { wide: 1, deep: 1, max_deep: 60, max_wide: 60, ..NORMAL });
    let f = Flat::new(&e);
    // Shared trees (duplicates share green elements), separate trees of the same content.
    let g1 = build(src, &e);
    let g2 = if src.chance(1, 2) { g1.clone() } else { build(src, &e) };
    let mut roots = vec![];
    let mut addrs = vec![];
    for g in [&g1, &g2] {
        for _ in 0..src.range(1, 2) {
            let m = src.chance(1, 3);
            roots.push(make_root(src, g.clone(), m));
            let mut a = vec![];
            green_addrs(g, &mut a);
            addrs.push(a);
        }
    }
    let mut hs: Vec<(E, usize, usize)> = vec![];
    for _ in 0..src.range(4, 14) {
        let r = src.below(roots.len());
        let id = src.below(f.len());
        let h = reach(src, &roots[r], &f, id);
        // The same element again by another route.
        if src.chance(1, 2) {
            hs.push((reach(src, &roots[r], &f, id), r, id));
        }
        hs.push((h, r, id));
        if src.chance(1, 4) && id + 1 < f.len() {
            hs.push((reach(src, &roots[r], &f, id + 1), r, id + 1));
        }
    }
    cx.sample(|| e.show());
    for (x, rx, ix) in &hs {
        for (y, ry, iy) in &hs {
            cx.queries += 1;
            let want = addrs[*rx][*ix] == addrs[*ry][*iy] && f.els[*ix].start == f.els[*iy].start;
            ensure_eq!(x == y, want, "handles to {ix} of tree {rx} and {iy} of tree {ry} are equal");
            ensure_eq!(x != y, !want, "handles to {ix} of tree {rx} and {iy} of tree {ry} are unequal");
            cx.label_if(want && (ix != iy || rx != ry), "equal handles from different trees or places");
            if want {
                ensure_eq!(hash_of(x), hash_of(y), "hashes of equal handles to {ix} and {iy}");
            } else {
                // Same offset, different element: still different.
                cx.label_if(f.els[*ix].start == f.els[*iy].start, "unequal at the same offset");
            }
            match (x, y) {
                (NodeOrToken::Node(a), NodeOrToken::Node(b)) => {
                    ensure_eq!(a == b, want, "node handles {ix} {iy}");
                    let (ca, cb): (CN, CN) = (a.clone().into(), b.clone().into());
                    ensure_eq!(ca == cb, want, "cursor node handles {ix} {iy}");
                    ensure_eq!(N::from(ca.clone()) == *b, want, "converted node handles");
                    if want {
                        ensure_eq!(hash_of(&ca), hash_of(&cb), "cursor node hashes");
                        ensure_eq!(hash_of(a), hash_of(b), "node hashes");
                    }
                }
                (NodeOrToken::Token(a), NodeOrToken::Token(b)) => {
                    ensure_eq!(a == b, want, "token handles {ix} {iy}");
                    let (ca, cb): (CT, CT) = (a.clone().into(), b.clone().into());
                    ensure_eq!(ca == cb, want, "cursor token handles {ix} {iy}");
                    if want {
                        ensure_eq!(hash_of(&ca), hash_of(&cb), "cursor token hashes");
                        ensure_eq!(hash_of(a), hash_of(b), "token hashes");
                    }
                }
                _ => {}
            }
        }
    }
    let set: std::collections::HashSet<E> = hs.iter().map(|h| h.0.clone()).collect();
    let keys: std::collections::HashSet<(usize, usize)> = hs.iter().map(|&(_, r, i)| (addrs[r][i], f.els[i].start)).collect();
    ensure_eq!(set.len(), keys.len(), "number of distinct handles in a hash set");
    cx.nontrivial = f.len() >= 4;
    Ok(())
}

// ---------------------------------------------------------------- C14

pub fn c14(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    let f = &c.f;
    let mut between = false;
    for id in f.some_nodes(src, 6) {
        let n = reach(src, &c.root, f, id).into_node().unwrap();
        let (s, e) = (f.els[id].start, f.els[id].end);
        let toks: Vec<usize> = (id..f.els[id].sub_end).filter(|&i| f.els[i].tok && f.els[i].len() > 0).collect();
        let offs: Vec<usize> = if e - s <= 24 && f.len() < 200 {
            (s..=e).collect()
        } else {
            let mut v = vec![s, e];
            for _ in 0..if toks.is_empty() { 0 } else { 8 } {
                let t = &f.els[*src.pick(&toks)];
                v.extend([t.start, t.end, src.range(t.start, t.end)]);
            }
            v
        };
        for o in offs {
            cx.queries += 1;
            let touch: Vec<usize> = toks.iter().copied().filter(|&t| f.els[t].start <= o && o <= f.els[t].end).collect();
            let got = n.token_at_offset(ts(o));
            let what = format!("token_at_offset({o}) of node {id}");
            match (&got, &touch[..]) {
                (TokenAtOffset::None, []) => {}
                (TokenAtOffset::Single(t), [a]) => is_el(&et(t.clone()), f, *a, &what)?,
                (TokenAtOffset::Between(l, r), [a, b]) => {
                    between = true;
                    is_el(&et(l.clone()), f, *a, &what)?;
                    is_el(&et(r.clone()), f, *b, &what)?;
                }
                _ => return fail(format!("{what} gave {got:?}, expected tokens {touch:?}")),
            }
            is_opt(ot(got.clone().left_biased()), f, touch.first().copied(), "left_biased")?;
            is_opt(ot(got.clone().right_biased()), f, touch.last().copied(), "right_biased")?;
            ensure_eq!(got.size_hint(), (touch.len(), Some(touch.len())), "size_hint");
            ensure_eq!(got.len(), touch.len(), "len");
            let mut it = got.clone();
            for (i, &t) in touch.iter().enumerate() {
                ensure_eq!(it.len(), touch.len() - i, "len while iterating");
                is_opt(ot(it.next()), f, Some(t), "iteration")?;
            }
            ensure!(it.next().is_none() && it.next().is_none() && it.len() == 0, "iteration goes on");
            if src.chance(1, 4) {
                iter_laws(src, cx, &what, || got.clone(), &touch, &|t: &T, w, what| is_el(&et(t.clone()), f, w, what))?;
                let mut it = got.clone();
                it.next();
                let rest = touch.get(1).copied();
                is_opt(ot(it.clone().left_biased()), f, rest, "left_biased after next")?;
                is_opt(ot(it.right_biased()), f, rest, "right_biased after next")?;
            }
            let v: Vec<E> = got.clone().map(et).collect();
            ensure_eq!(v.len(), touch.len(), "map");
            let m = got.map(|t| t.text_range());
            ensure!(m.left_biased() == touch.first().map(|&t| f.els[t].range()), "map then left_biased");
        }
        cx.queries += 2;
        ensure!(panics(|| n.token_at_offset(ts(e + 1))), "offset {} beyond node {id} ({s}..{e}) did not panic", e + 1);
        if s > 0 {
            ensure!(panics(|| n.token_at_offset(ts(s - 1))), "offset {} before node {id} ({s}..{e}) did not panic", s - 1);
            ensure!(panics(|| n.token_at_offset(ts(0))), "offset 0 before node {id} did not panic");
        }
    }
    cx.label_if(between, "offset between two tokens");
    cx.nontrivial = f.toks.len() >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    let f = &c.f;
    for id in f.some_nodes(src, 5) {
        let n = reach(src, &c.root, f, id).into_node().unwrap();
        let (s, e) = (f.els[id].start, f.els[id].end);
        let mut ranges = vec![];
        if e - s <= 9 {
            for a in s..=e {
                for b in a..=e {
                    ranges.push((a, b));
                }
            }
        } else {
            for _ in 0..24 {
                // Boundaries of elements, and points near them.
                let mut pt = |src: &mut Src| -> usize {
                    let x = &f.els[src.range(id, f.els[id].sub_end - 1)];
                    let p = if src.chance(1, 2) { x.start } else { x.end };
                    (p + src.below(3)).saturating_sub(src.below(3)).clamp(s, e)
                };
                let a = pt(src);
                let b = match src.below(3) {
                    0 => a,
                    1 => pt(src),
                    _ => (a + 1).min(e),
                };
                ranges.push((a.min(b), a.max(b)));
            }
        }
        for (a, b) in ranges {
            cx.queries += 1;
            let r = TextRange::new(ts(a), ts(b));
            let has = |i: usize| f.els[i].start <= a && b <= f.els[i].end;
            let what = format!("covering_element({a}..{b}) of node {id} ({s}..{e})");
            let got = n.covering_element(r);
            // Which element it is, by its path.
            let mut cur = 0usize;
            for i in path_of(&got) {
                match f.els[cur].kids.get(i as usize) {
                    Some(&k) => cur = k,
                    None => return fail(format!("{what}: path {:?} does not exist", path_of(&got))),
                }
            }
            is_el(&got, f, cur, &what)?;
            ensure!(id <= cur && cur < f.els[id].sub_end, "{what} left the subtree: {cur}");
            ensure!(has(cur), "{what} gave element {cur} at {:?}, which does not contain the range", f.els[cur].range());
            for &k in &f.els[cur].kids {
                ensure!(!has(k), "{what} gave element {cur}, but its child {k} contains the range");
            }
            let kid = n.child_or_token_at_range(r);
            let any = f.els[id].kids.iter().any(|&k| has(k));
            match kid {
                None => ensure!(!any, "child_or_token_at_range({a}..{b}) of {id} found nothing"),
                Some(k) => {
                    ensure!(k.parent().is_some() && k.index() < f.els[id].kids.len(), "child_or_token_at_range({a}..{b}) of {id}: not a child");
                    let kid = f.els[id].kids[k.index()];
                    is_el(&k, f, kid, "child_or_token_at_range")?;
                    ensure!(has(kid), "child_or_token_at_range({a}..{b}) of {id} gave {:?}", f.els[kid].range());
                }
            }
            cx.label_if(a == b, "empty range");
        }
        // Not inside the node.
        let mut bad = vec![(s, e + 1), (e + 1, e + 1), (e + 1, e + 3)];
        if s > 0 {
            bad.extend([(s - 1, e), (s - 1, s), (s - 1, s - 1), (0, s.saturating_sub(1))]);
        }
        for (a, b) in bad {
            let r = TextRange::new(ts(a), ts(b));
            ensure!(panics(|| n.covering_element(r)), "covering_element({a}..{b}) outside node {id} ({s}..{e}) did not panic");
            if a >= s {
                ensure!(n.child_or_token_at_range(r).is_none(), "child_or_token_at_range({a}..{b}) outside node {id} ({s}..{e})");
            }
        }
    }
    cx.nontrivial = f.toks.len() >= 2 && f.len() >= 4;
    Ok(())
}

// ---------------------------------------------------------------- C16

macro_rules! ast {
    ($n:ident, $k:ident, $p:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $n(pub N);
        impl AstNode for $n {
            type Language = Lang;
            fn can_cast($k: Kind) -> bool {
                let $k = raw($k);
                $p
            }
            fn cast(n: N) -> Option<Self> {
                if Self::can_cast(n.kind()) { Some($n(n)) } else { None }
            }
            fn syntax(&self) -> &N {
                &self.0
            }
        }
    };
}
ast!(Even, k, k % 2 == 0);
ast!(Low, k, k <= 1);
ast!(Any, _k, true);
ast!(Never, k, k == 12_345);

pub fn c16(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { wide: 2, deep: 2, ..NORMAL });
    let c = case_of(src, cx, e, false);
    let f = &c.f;
    let other = N::new_root(build(src, &c.e));
    // A tree that differs in one place.
    let mut e2 = c.e.clone();
    let kinds: Vec<u16> = vec![c.e.kind(), c.e.kind() ^ 1];
    crate::props::green::mutate(src, &mut e2, &kinds);
    let f2 = Flat::new(&e2);
    let diff = N::new_root(build(src, &e2));
    let mutable = N::new_root_mut(c.g.clone());
    let mut made: Vec<(SyntaxNodePtr<Lang>, AstPtr<Any>, Option<AstPtr<Even>>)> = vec![];
    for id in f.some_nodes(src, 16) {
        let n = reach(src, &c.root, f, id).into_node().unwrap();
        let p = SyntaxNodePtr::new(&n);
        // Pointers are equal exactly when kind and range are.
        let ap = AstPtr::new(&Any::cast(n.clone()).unwrap());
        let ep = Even::cast(n.clone()).map(|x| AstPtr::new(&x));
        for (q, aq, eq) in &made {
            let want = q.kind() == p.kind() && q.text_range() == p.text_range();
            ensure_eq!(*q == p, want, "pointers {q:?} and {p:?} equal");
            ensure_eq!(*aq == ap, want, "typed pointers {aq:?} and {ap:?} equal");
            if let (Some(a), Some(b)) = (eq, &ep) {
                ensure_eq!(a == b, want, "narrow typed pointers {a:?} and {b:?} equal");
            }
            ensure!(!want || hash_of(q) == hash_of(&p), "hashes of equal pointers");
            ensure!(!want || hash_of(aq) == hash_of(&ap), "hashes of equal typed pointers");
            cx.label_if(q.text_range() == p.text_range() && q.kind() != p.kind(), "pointers with one range and two kinds");
        }
        made.push((p, ap, ep));
        cx.queries += 3;
        ensure_eq!(raw(p.kind()), f.els[id].kind, "kind of the pointer");
        ensure_eq!(p.text_range(), f.els[id].range(), "range of the pointer");
        let alike = |f: &Flat| -> Vec<usize> { f.nodes().filter(|&i| f.els[i].kind == raw(p.kind()) && f.els[i].range() == p.text_range()).collect() };
        for (root, fl, what) in [(&c.root, f, "own tree"), (&other, f, "equal tree"), (&diff, &f2, "edited tree")] {
            let want = alike(fl);
            match p.try_to_node(root) {
                None => ensure!(want.is_empty(), "pointer {p:?} to node {id} does not resolve in the {what}"),
                Some(r) => {
                    let ix = path_id(&en(r.clone()), fl);
                    ensure!(want.contains(&ix), "pointer {p:?} resolved to element {ix} of the {what}, expected one of {want:?}");
                    ensure_eq!(r.kind(), p.kind(), "kind of the resolved node");
                    ensure_eq!(r.text_range(), p.text_range(), "range of the resolved node");
                    is_el(&en(p.to_node(root)), fl, ix, "to_node")?;
                    if want == [ix] {
                        is_el(&en(r.clone()), fl, ix, "resolved")?;
                        if what == "own tree" {
                            ensure!(ix == id && r == n, "unique node not resolved to itself");
                        }
                    }
                    ensure!(root_of(&r) == *root, "resolved node belongs to the tree it was resolved in");
                }
            }
            if want.is_empty() {
                cx.label("does not resolve in another tree");
                ensure!(panics(|| p.to_node(root)), "to_node did not panic");
            }
        }
        cx.label_if(f.els[id].len() == 0, "empty pointee");
        cx.label_if(alike(f).len() > 1, "several nodes with the same kind and range");
        // Only against roots.
        if id != 0 {
            ensure!(p.try_to_node(&n).is_none(), "pointer resolved against a non-root");
            ensure!(panics(|| p.to_node(&n)), "to_node against a non-root did not panic");
            let sub = n.clone_subtree();
            let sp = SyntaxNodePtr::new(&sub);
            ensure!(sp.try_to_node(&sub).is_some(), "pointer into a cloned subtree does not resolve");
            let par = n.parent().unwrap();
            ensure_eq!(p.try_to_node(&par).is_some(), par.parent().is_none(), "resolved against the parent");
        }
        let part = reach(src, &mutable, f, id).into_node().unwrap();
        ensure!(panics(|| SyntaxNodePtr::new(&part)), "pointer made from node {id} of a mutable tree");
        ensure!(panics(|| SyntaxNodePtr::new(&mutable)), "pointer made from a mutable tree");
        ensure!(panics(|| p.try_to_node(&part)), "pointer resolved in a part of a mutable tree");
        ensure!(panics(|| p.try_to_node(&mutable)), "pointer resolved in a mutable tree");
        // Typed pointers.
        typed_ptr::<Even>(&c.root, &n, p)?;
        typed_ptr::<Low>(&c.root, &n, p)?;
        typed_ptr::<Any>(&c.root, &n, p)?;
        typed_ptr::<Never>(&c.root, &n, p)?;
    }
    Ok(())
}
fn path_id(e: &E, f: &Flat) -> usize {
    let mut cur = 0;
    for i in path_of(e) {
        match f.els[cur].kids.get(i as usize) {
            Some(&k) => cur = k,
            None => return usize::MAX,
        }
    }
    cur
}
fn typed_ptr<A: AstNode<Language = Lang> + std::fmt::Debug>(root: &N, n: &N, p: SyntaxNodePtr<Lang>) -> R {
    let can = A::can_cast(n.kind());
    ensure_eq!(p.cast::<A>().is_some(), can, "SyntaxNodePtr::cast");
    if let Some(a) = A::cast(n.clone()) {
        let ap = AstPtr::new(&a);
        ensure!(ap.syntax_node_ptr() == p, "AstPtr::syntax_node_ptr");
        ensure!(SyntaxNodePtr::from(ap.clone()) == p, "AstPtr into SyntaxNodePtr");
        ensure!(p.cast::<A>().unwrap() == ap, "cast pointer equals the typed one");
        ensure_eq!(hash_of(&p.cast::<A>().unwrap()), hash_of(&ap), "hash of equal pointers");
        let r = ap.try_to_node(root);
        ensure!(r.is_some(), "AstPtr does not resolve");
        let r = r.unwrap();
        ensure!(Some(r.syntax()) == p.try_to_node(root).as_ref(), "AstPtr and SyntaxNodePtr resolve to the same node");
        ensure!(ap.to_node(root).syntax() == r.syntax(), "AstPtr::to_node");
        ensure_eq!(ap.clone().cast::<Even>().is_some(), Even::can_cast(n.kind()), "AstPtr::cast");
        ensure_eq!(ap.clone().cast::<Never>().is_some(), Never::can_cast(n.kind()), "AstPtr::cast to never");
        if let Some(x) = ap.clone().cast::<Any>() {
            ensure!(x.syntax_node_ptr() == p, "pointer kept by a cast");
        } else {
            return fail("AstPtr::cast to any failed");
        }
        if n.parent().is_some() {
            ensure!(ap.try_to_node(n).is_none(), "AstPtr resolved against a non-root");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C30

pub fn c30(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    let f = &c.f;
    let mut held = vec![];
    for id in f.some_nodes(src, 10) {
        let n = reach(src, &c.root, f, id).into_node().unwrap();
        helpers::<Even>(src, cx, &c, id, &n)?;
        helpers::<Low>(src, cx, &c, id, &n)?;
        helpers::<Any>(src, cx, &c, id, &n)?;
        helpers::<Never>(src, cx, &c, id, &n)?;
        let mut kinds: Vec<u16> = f.els[id].kids.iter().take(4).map(|&k| f.els[k].kind).collect();
        kinds.extend(gen_filter(src, f).iter().take(3));
        // A kind found only deeper down.
        if f.els[id].sub_end > id + 1 {
            kinds.push(f.els[src.range(id + 1, f.els[id].sub_end - 1)].kind);
        }
        for k in kinds {
            let want = f.els[id].kids.iter().copied().find(|&x| f.els[x].tok && f.els[x].kind == k);
            cx.queries += 1;
            is_opt(ot(support::token(&n, typed(k))), f, want, &format!("support::token({k}) of {id}"))?;
        }
        held.push(n);
        if src.chance(1, 2) {
            held.clear();
        }
    }
    Ok(())
}
fn helpers<A: AstNode<Language = Lang> + Clone>(src: &mut Src, cx: &mut Cx, c: &Case, id: usize, n: &N) -> R {
    let f = &c.f;
    let want: Vec<usize> = f.node_kids(id).into_iter().filter(|&k| A::can_cast(typed(f.els[k].kind))).collect();
    cx.queries += 2;
    is_opt(support::child::<A>(n).map(|a| en(a.syntax().clone())), f, want.first().copied(), "support::child")?;
    if src.chance(1, 3) {
        iter_laws(src, cx, "support::children", || support::children::<A>(n), &want, &|a: &A, w, what| is_el(&en(a.syntax().clone()), f, w, what))?;
    }
    let mut it: AstChildren<A> = support::children::<A>(n);
    let cut = src.below(want.len() + 1);
    let mut keep = vec![];
    for &w in &want[..cut] {
        let a = it.next();
        is_opt(a.as_ref().map(|a| en(a.syntax().clone())), f, Some(w), "support::children")?;
        if src.chance(1, 2) {
            keep.push((a.unwrap(), w));
        }
    }
    let it2 = it.clone();
    is_seq(it.map(|a| en(a.syntax().clone())), f, &want[cut..], "rest of support::children")?;
    is_seq(it2.map(|a| en(a.syntax().clone())), f, &want[cut..], "cloned support::children")?;
    for (a, w) in &keep {
        is_el(&en(a.syntax().clone()), f, *w, "kept typed child")?;
    }
    // Cloning a typed node.
    if let Some(a) = A::cast(n.clone()) {
        if src.chance(1, 4) {
            let s = a.clone_subtree();
            let el = c.e.at(&f.path(id));
            ensure!(s.syntax().parent().is_none() && !s.syntax().is_mutable(), "clone_subtree gives an immutable root");
            check_green(&s.syntax().green(), el)?;
            ensure_eq!(s.syntax().text_range(), TextRange::up_to(ts(f.els[id].len())), "range of the cloned subtree");
            if !c.mutable {
                let u = a.clone_for_update();
                ensure!(u.syntax().is_mutable(), "clone_for_update gives a mutable tree");
                is_el(&en(u.syntax().clone()), f, id, "typed node cloned for update")?;
                check_green(&u.syntax().green(), el)?;
                check_green(&root_of(u.syntax()).green(), &c.e)?;
                cx.label("typed clone for update");
            }
        }
    }
    Ok(())
}

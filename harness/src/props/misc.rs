//! C19, C24, C27, C28, C29: replace_with, immutability, serialisation, dumps, typed against untyped.

use crate::engine::{fail, panics, Cx, R, Src};
use crate::model::*;
use crate::props::nav::{case, case_of, gen_filter};
use crate::props::strict;
use crate::{ensure, ensure_eq};
use rowan::{Direction, GreenNode, GreenNodeData, GreenToken, Language, NodeOrToken, SyntaxKind, TextRange, TokenAtOffset, WalkEvent};
use serde_json::Value;

// ---------------------------------------------------------------- C19

/// Everything off the path is shared with the original; the path itself leads to the replacement.
fn shared_except(new: &GreenNodeData, old: &GreenNodeData, path: &[u32]) -> R {
    let Some((&i, rest)) = path.split_first() else { return Ok(()) };
    ensure_eq!(new.children().len(), old.children().len(), "number of children on the path");
    for (j, (a, b)) in new.children().zip(old.children()).enumerate() {
        if j == i as usize {
            if let (NodeOrToken::Node(a), NodeOrToken::Node(b)) = (a, b) {
                shared_except(a, b, rest)?;
            }
            continue;
        }
        let same = match (a, b) {
            (NodeOrToken::Node(a), NodeOrToken::Node(b)) => std::ptr::eq(a, b),
            (NodeOrToken::Token(a), NodeOrToken::Token(b)) => std::ptr::eq(a, b),
            _ => false,
        };
        ensure!(same, "untouched subtree {j} beside the path {path:?} is not shared");
    }
    Ok(())
}

pub fn c19(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, NORMAL);
    let f = &c.f;
    let mut held: Vec<(E, usize)> = vec![];
    let whole = c.root.green().into_owned();
    let mut deep = false;
    for id in f.some(src, 8) {
        let e = reach(src, &c.root, f, id);
        let path = f.path(id);
        deep |= path.len() >= 2;
        let k = f.els[id].kind;
        let mut g = gen_cfg(src);
        g.budget = src.range(1, 6);
        // Identical content is a legal replacement as well.
        let new = if src.chance(1, 6) {
            c.e.at(&path).clone()
        } else if f.els[id].tok {
            El::T(k, g.text(src))
        } else {
            match g.node(src, 1) {
                El::N(_, v) => El::N(k, v),
                t => t,
            }
        };
        let mut want = c.e.clone();
        *want.at_mut(&path) = new.clone();
        let rep = g_direct(&new);
        let res = match (&e, rep.clone()) {
            (NodeOrToken::Node(n), NodeOrToken::Node(r)) => n.replace_with(r),
            (NodeOrToken::Token(t), NodeOrToken::Token(r)) => t.replace_with(r),
            _ => return fail("sort of the replacement"),
        };
        cx.queries += 1;
        check_green(&res, &want)?;
        shared_except(&res, &whole, &path)?;
        // The result is usable on its own.
        let root2 = N::new_root(res.clone());
        ensure_eq!(root2.text().to_string(), want.text(), "text of a tree over the result");
        // Another kind.
        let k2 = *src.pick(&[k ^ 1, k.wrapping_add(256), k ^ 0x8000, !k]);
        let bad = match &e {
            NodeOrToken::Node(n) => {
                let r = GreenNode::new(sk(k2), vec![]);
                panics(|| n.replace_with(r))
            }
            NodeOrToken::Token(t) => {
                let r = GreenToken::new(sk(k2), t.text());
                panics(|| t.replace_with(r))
            }
        };
        ensure!(bad, "replacement of kind {k2} for kind {k} did not panic");
        is_el(&e, f, id, "element after replace_with")?;
        if held.len() < 10 && src.chance(1, 2) {
            held.push((e, id));
        }
    }
    check_green(&c.root.green(), &c.e)?;
    ensure!(std::ptr::eq(&*whole, &*c.root.green().into_owned()), "green root of the tree changed");
    for (e, id) in &held {
        is_el(e, f, *id, "held element at the end")?;
    }
    check_green(&c.g, &c.e)?;
    cx.nontrivial = deep;
    Ok(())
}

// ---------------------------------------------------------------- C24

pub fn c24(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { wide: 1, deep: 1, max_deep: 60, max_wide: 80, ..NORMAL });
    let c = case_of(src, cx, e, false);
    let f = &c.f;
    let imm = &c.root;
    let mroot = make_root(src, c.g.clone(), true);
    ensure!(!imm.is_mutable(), "new_root gives an immutable tree");
    ensure!(mroot.is_mutable(), "mutable root");
    let mut held = vec![];
    let same = |what: &str| -> R {
        check_green(&imm.green(), &c.e).map_err(|x| crate::engine::Fail(format!("immutable tree after {what}: {}", x.0)))?;
        check_green(&mroot.green(), &c.e).map_err(|x| crate::engine::Fail(format!("mutable tree after {what}: {}", x.0)))?;
        ensure!(!imm.is_mutable() && mroot.is_mutable(), "mutability after {what}");
        Ok(())
    };
    for _ in 0..6 {
        let id = src.below(f.len());
        let e = reach(src, imm, f, id);
        let m = reach(src, &mroot, f, id);
        // Mutability does not depend on the way to the element.
        let (en_, em) = (e.clone().into_node(), m.clone().into_node());
        if let (Some(a), Some(b)) = (&en_, &em) {
            ensure!(!a.is_mutable(), "node of an immutable tree is mutable");
            ensure!(b.is_mutable(), "node of a mutable tree is immutable");
            let (ca, cb): (CN, CN) = (a.clone().into(), b.clone().into());
            ensure!(!ca.is_mutable() && cb.is_mutable(), "cursor mutability");
            ensure!(!a.clone_subtree().is_mutable() && !b.clone_subtree().is_mutable(), "clone_subtree gives an immutable tree");
            let u = a.clone_for_update();
            ensure!(u.is_mutable() && root_of(&u).is_mutable(), "clone_for_update gives a mutable tree");
            ensure!(!a.is_mutable(), "original after clone_for_update");
        }
        cx.queries += 1;
        match src.below(9) {
            0 => {
                cx.label("detach in an immutable tree");
                ensure!(panics(|| e.detach()), "detach of element {id} of an immutable tree");
                let ce: CE = e.clone().into();
                ensure!(panics(|| ce.detach()), "cursor detach of element {id} of an immutable tree");
                match &e {
                    NodeOrToken::Node(n) => ensure!(panics(|| n.detach()), "node detach"),
                    NodeOrToken::Token(t) => ensure!(panics(|| t.detach()), "token detach"),
                }
                same("rejected detach")?;
            }
            1 | 2 => {
                cx.label("splice into an immutable tree");
                if let Some(n) = &en_ {
                    let k = f.els[id].kids.len();
                    let (a, b) = (src.below(k + 1), src.below(k + 1));
                    let r = a.min(b)..a.max(b);
                    let ins: Vec<E> = match src.below(4) {
                        0 => vec![],
                        1 => vec![en(N::new_root_mut(GreenNode::new(sk(3), vec![])))],
                        2 => vec![en(N::new_root(GreenNode::new(sk(3), vec![])))],
                        _ => vec![m.clone()],
                    };
                    let cins: Vec<CE> = ins.iter().cloned().map(CE::from).collect();
                    ensure!(panics(|| n.splice_children(r.clone(), ins)), "splice_children({r:?}) of node {id} of an immutable tree");
                    let cn: CN = n.clone().into();
                    ensure!(panics(|| cn.splice_children(r.clone(), cins)), "cursor splice_children({r:?}) of node {id} of an immutable tree");
                    // What was to be inserted stays where it was.
                    same("rejected splice")?;
                }
            }
            3 | 4 => {
                cx.label("immutable element into a mutable tree");
                if let Some(n) = &em {
                    let k = f.els[id].kids.len();
                    let i = src.below(k + 1);
                    let x = match src.below(3) {
                        0 => en(N::new_root(GreenNode::new(sk(3), vec![]))),
                        1 => en(N::new_root(c.g.clone())),
                        _ => {
                            let o = src.below(f.len());
                            reach(src, imm, f, o)
                        }
                    };
                    ensure!(panics(|| n.splice_children(i..i, [x.clone()])), "an immutable element was inserted into a mutable tree");
                    let cn: CN = n.clone().into();
                    ensure!(panics(|| cn.splice_children(i..i, [CE::from(x.clone())])), "an immutable element was inserted through the cursor");
                    same("rejected insertion")?;
                    if let NodeOrToken::Node(x) = &x {
                        ensure!(!x.is_mutable(), "element became mutable");
                    }
                }
            }
            5 => {
                cx.label("clone_for_update of a mutable tree");
                if let Some(n) = &em {
                    ensure!(panics(|| n.clone_for_update()), "clone_for_update of mutable node {id}");
                    let cn: CN = n.clone().into();
                    ensure!(panics(|| cn.clone_for_update()), "cursor clone_for_update of mutable node {id}");
                    same("rejected clone_for_update")?;
                }
            }
            6 => {
                cx.label("pointer and mutable tree");
                if let (Some(a), Some(b)) = (&en_, &em) {
                    ensure!(panics(|| rowan::ast::SyntaxNodePtr::new(b)), "pointer made from a mutable tree");
                    let p = rowan::ast::SyntaxNodePtr::new(a);
                    ensure!(panics(|| p.try_to_node(&mroot)), "pointer resolved in a mutable tree");
                    ensure!(panics(|| p.to_node(&mroot)), "pointer resolved in a mutable tree");
                    ensure!(panics(|| p.try_to_node(b)), "pointer resolved in a mutable tree");
                    ensure!(panics(|| p.to_node(b)), "pointer resolved in a mutable tree");
                    if let Some(x) = <crate::props::nav::Any as rowan::ast::AstNode>::cast(b.clone()) {
                        ensure!(panics(|| rowan::ast::AstPtr::new(&x)), "typed pointer made from a mutable tree");
                    }
                    same("rejected pointer")?;
                }
            }
            7 => {
                // An allowed edit: the detached part is mutable, and so is the rest; the immutable
                // tree beneath does not notice.
                cx.label("mutable part detached");
                if let Some(n) = &en_ {
                    let u = n.clone_for_update();
                    let top = root_of(&u);
                    let kids: Vec<N> = u.children().collect();
                    u.detach();
                    ensure!(u.is_mutable() && top.is_mutable() && kids.iter().all(|k| k.is_mutable()), "mutability after detach");
                    ensure!(panics(|| u.clone_for_update()), "clone_for_update of a detached mutable node");
                    same("edit of a mutable clone")?;
                }
            }
            _ => {
                for n in [imm.descendants().nth(src.below(8)), mroot.descendants().nth(src.below(8))].into_iter().flatten() {
                    let want = root_of(&n) == mroot && root_of(&n).is_mutable();
                    ensure_eq!(n.is_mutable(), want, "mutability of a descendant");
                    ensure!(n.ancestors().all(|a| a.is_mutable() == n.is_mutable()), "mutability of the ancestors");
                    ensure!(n.siblings(Direction::Next).all(|a| a.is_mutable() == n.is_mutable()), "mutability of the siblings");
                }
            }
        }
        is_el(&e, f, id, "immutable element after rejected edits")?;
        if src.chance(1, 2) {
            held.push((e, m, id));
        }
    }
    for (e, m, id) in &held {
        is_el(e, f, *id, "held immutable element at the end")?;
        is_el(m, f, *id, "held mutable element at the end")?;
    }
    check_green(&c.g, &c.e)
}

// ---------------------------------------------------------------- C27

/// A language whose kinds print with characters that need escaping.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Odd {}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OddKind(u16);
impl std::fmt::Debug for OddKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0 % 4 {
            0 => write!(f, "K\"{}\\", self.0),
            1 => write!(f, "K {}\n\t{{é€😀}}", self.0),
            2 => write!(f, "{}", self.0),
            _ => f.debug_struct("K").field("raw", &self.0).finish(),
        }
    }
}
impl Language for Odd {
    type Kind = OddKind;
    fn kind_from_raw(r: SyntaxKind) -> OddKind {
        OddKind(r.0 ^ 0x0101)
    }
    fn kind_to_raw(k: OddKind) -> SyntaxKind {
        SyntaxKind(k.0 ^ 0x0101)
    }
}

fn read_back(v: &Value, kinds: &dyn Fn(u16) -> String, e: &El, start: usize) -> R {
    let Some(m) = v.as_object() else { return fail(format!("not a map: {v}")) };
    let mut keys: Vec<&str> = m.keys().map(|s| s.as_str()).collect();
    keys.sort();
    ensure_eq!(keys, if e.is_tok() { vec!["kind", "text", "text_range"] } else { vec!["children", "kind", "text_range"] }, "keys");
    ensure_eq!(m["kind"], Value::String(kinds(e.kind())), "kind");
    ensure_eq!(m["text_range"], serde_json::json!([start, start + e.len()]), "text_range");
    match e {
        El::T(_, t) => ensure_eq!(m["text"], Value::String(t.clone()), "text"),
        El::N(_, kids) => {
            let Some(a) = m["children"].as_array() else { return fail("children is no list") };
            ensure_eq!(a.len(), kids.len(), "number of children");
            let mut at = start;
            for (x, k) in a.iter().zip(kids) {
                read_back(x, kinds, k, at)?;
                at += k.len();
            }
        }
    }
    Ok(())
}

pub fn c27(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = gen_cfg(src);
    let e = if src.chance(1, 2) || boost() {
        gen_tree(src, cx, Size { wide: 1, deep: 1, max_deep: 50, max_wide: 60, ..NORMAL })
    } else {
        g.chars = Chars::Nasty;
        g.budget = src.range(3, 12);
        g.node(src, 0)
    };
    let m = src.chance(1, 3);
    let c = case_of(src, cx, e, m);
    let f = &c.f;
    let g2 = build(src, &c.e);
    let other = make_root(src, g2, !m);
    let kinds = |k: u16| format!("{:?}", typed(k));
    for id in f.some(src, 6) {
        cx.queries += 1;
        let e = reach(src, &c.root, f, id);
        let el = c.e.at(&f.path(id)).clone();
        let o = handle(&other, f, id);
        let (v, s, v2) = match (&e, &o) {
            (NodeOrToken::Node(n), NodeOrToken::Node(o)) => (serde_json::to_value(n), serde_json::to_string(n), serde_json::to_value(o)),
            (NodeOrToken::Token(n), NodeOrToken::Token(o)) => (serde_json::to_value(n), serde_json::to_string(n), serde_json::to_value(o)),
            _ => return fail("sort of element"),
        };
        let (Ok(v), Ok(s), Ok(v2)) = (v, s, v2) else { return fail(format!("element {id} does not serialise")) };
        read_back(&v, &kinds, &el, f.els[id].start).map_err(|x| crate::engine::Fail(format!("element {id} serialised as {s}: {}", x.0)))?;
        let parsed: Value = match serde_json::from_str(&s) {
            Ok(p) => p,
            Err(x) if f.depth(id) + el.depth() > 100 || el.depth() > 40 => {
                // The parser's own recursion limit.
                let _ = x;
                v.clone()
            }
            Err(x) => return fail(format!("element {id} serialises to malformed text {s}: {x}")),
        };
        ensure_eq!(parsed, v, "serialised text against serialised value");
        ensure_eq!(v2, v, "serialised from the other (mutable or immutable) tree");
        // A format that relies on the announced sizes, and one that fails on the way.
        let strict = |fuel: &strict::Fuel| match &e {
            NodeOrToken::Node(n) => serde::Serialize::serialize(n, strict::Strict(fuel)),
            NodeOrToken::Token(t) => serde::Serialize::serialize(t, strict::Strict(fuel)),
        };
        let fuel = strict::Fuel::new(u64::MAX);
        fuel.human.set(src.chance(1, 2));
        match strict(&fuel) {
            Ok(x) => ensure_eq!(x, v, "serialised by a strict serialiser"),
            Err(x) => return fail(format!("element {id} ({}) misuses the serialiser: {x}", el.show())),
        }
        let all = fuel.used.get();
        let stop = src.draw(all.min(1 << 30) as u32) as u64;
        let fuel = strict::Fuel::new(stop);
        ensure_eq!(strict(&fuel), Err(strict::Error::Injected), "result when the serialiser fails at step {stop} of {all}");
        // With kinds that need escaping.
        let raw: CE = e.clone().into();
        let odd = |k: u16| format!("{:?}", Odd::kind_from_raw(sk(k)));
        let v = match raw {
            NodeOrToken::Node(n) => serde_json::to_string(&rowan::SyntaxNode::<Odd>::from(n)),
            NodeOrToken::Token(t) => serde_json::to_string(&rowan::SyntaxToken::<Odd>::from(t)),
        };
        if el.depth() <= 40 {
            let Ok(s) = v else { return fail("does not serialise with escaped kinds") };
            let Ok(v) = serde_json::from_str(&s) else { return fail(format!("malformed with escaped kinds: {s}")) };
            read_back(&v, &odd, &el, f.els[id].start).map_err(|x| crate::engine::Fail(format!("element {id} serialised as {s}: {}", x.0)))?;
        }
        // A detached or copied subtree starts at zero.
        if let NodeOrToken::Node(n) = &e {
            let v = serde_json::to_value(n.clone_subtree()).map_err(|x| crate::engine::Fail(format!("{x}")))?;
            read_back(&v, &kinds, &el, 0)?;
        }
    }
    cx.nontrivial = f.len() >= 4 && f.text.len() >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C28

fn token_line(k: u16, t: &str, start: usize, got: &str) -> R {
    let head = format!("{:?}@{:?}", typed(k), TextRange::new(ts(start), ts(start + t.len())));
    if t.len() < 25 {
        ensure_eq!(got, format!("{head} {t:?}"), "debug form of a short token");
        return Ok(());
    }
    // Shortened at a character boundary near the front.
    for cut in 21..25 {
        if t.is_char_boundary(cut) && got == format!("{head} {:?}", format!("{} ...", &t[..cut])) {
            return Ok(());
        }
    }
    fail(format!("debug form of a token of {} bytes ({t:?}): {got:?}", t.len()))
}

pub fn c28(src: &mut Src, cx: &mut Cx) -> R {
    let mut e = gen_tree(src, cx, Size { wide: 2, deep: 2, max_deep: 120, max_wide: 120, ..NORMAL });
    // Tokens around the length at which they are shortened.
    if src.chance(1, 2) {
        let f = Flat::new(&e);
        for _ in 0..src.range(1, 3) {
            if !f.toks.is_empty() {
                let id = *src.pick(&f.toks);
                let n = src.range(18, 34);
                let ch = *src.pick(&[Chars::Uni, Chars::Mixed, Chars::Nasty, Chars::Ab]);
                let mut s = String::new();
                while s.len() < n {
                    s.push(gen_char(src, ch));
                }
                cx.label("tokens around 25 bytes");
                *e.at_mut(&f.path(id)) = El::T(f.els[id].kind, s);
            }
        }
    }
    let m = src.chance(1, 3);
    let c = case_of(src, cx, e, m);
    let f = &c.f;
    let g2 = build(src, &c.e);
    let other = make_root(src, g2, !m);
    for id in f.some(src, 8) {
        let e = reach(src, &c.root, f, id);
        let o = handle(&other, f, id);
        cx.queries += 1;
        match (&e, &o) {
            (NodeOrToken::Token(t), NodeOrToken::Token(o)) => {
                token_line(f.els[id].kind, f.text_of(id), f.els[id].start, &format!("{t:?}"))?;
                ensure_eq!(format!("{o:?}"), format!("{t:?}"), "debug form in the other tree");
                ensure_eq!(format!("{e:?}"), format!("Token({t:?})"), "debug form of the element");
                ensure_eq!(format!("{t}"), f.text_of(id), "printed token");
            }
            (NodeOrToken::Node(n), NodeOrToken::Node(o)) => {
                let head = |i: usize| format!("{:?}@{:?}", typed(f.els[i].kind), f.els[i].range());
                ensure_eq!(format!("{n:?}"), head(id), "debug form of a node");
                ensure_eq!(format!("{n}"), f.text_of(id), "printed node");
                ensure_eq!(format!("{e}"), f.text_of(id), "printed element");
                let dump = format!("{n:#?}");
                ensure_eq!(format!("{o:#?}"), dump, "dump in the other tree");
                ensure!(dump.ends_with('\n'), "dump ends with a line end");
                let mut lines = dump[..dump.len() - 1].split('\n');
                for i in id..f.els[id].sub_end {
                    let Some(l) = lines.next() else { return fail(format!("dump of {id} ends before element {i}: {dump}")) };
                    let ind = 2 * (f.depth(i) - f.depth(id));
                    ensure!(l.len() > ind && l[..ind].bytes().all(|b| b == b' ') && !l[ind..].starts_with(' '), "indentation of {l:?}, expected {ind}");
                    if f.els[i].tok {
                        token_line(f.els[i].kind, f.text_of(i), f.els[i].start, &l[ind..])?;
                    } else {
                        ensure_eq!(l[ind..], head(i), "line of element {i}");
                    }
                }
                ensure!(lines.next().is_none(), "dump of {id} goes on: {dump}");
            }
            _ => return fail("sort of element"),
        }
    }
    check_green(&c.root.green(), &c.e)
}

// ---------------------------------------------------------------- C29

fn same_e(a: Option<E>, b: Option<CE>, what: &str) -> R {
    match (&a, &b) {
        (None, None) => Ok(()),
        (Some(x), Some(y)) => {
            let back: E = y.clone().into();
            let there: CE = x.clone().into();
            ensure!(back == *x && there == *y, "{what}: {x:?} against {y:?}");
            ensure_eq!(raw(x.kind()), y.kind().0, "{what}: kind");
            ensure_eq!(x.text_range(), y.text_range(), "{what}: range");
            ensure_eq!(x.index(), y.index(), "{what}: index");
            Ok(())
        }
        _ => fail(format!("{what}: {a:?} against {b:?}")),
    }
}
fn same_n(a: Option<N>, b: Option<CN>, what: &str) -> R {
    same_e(a.map(en), b.map(NodeOrToken::Node), what)
}
fn same_t(a: Option<T>, b: Option<CT>, what: &str) -> R {
    same_e(a.map(et), b.map(NodeOrToken::Token), what)
}
fn same_seq(a: impl Iterator<Item = E>, b: impl Iterator<Item = CE>, what: &str) -> R {
    let (mut a, mut b) = (a, b);
    for i in 0..200 {
        let (x, y) = (a.next(), b.next());
        let end = x.is_none();
        same_e(x, y, &format!("{what}[{i}]"))?;
        if end {
            break;
        }
    }
    Ok(())
}

pub fn c29(src: &mut Src, cx: &mut Cx) -> R {
    let c = case(src, cx, Size { wide: 1, deep: 1, max_deep: 40, max_wide: 60, ..NORMAL });
    let f = &c.f;
    let croot: CN = c.root.clone().into();
    for id in f.some(src, 8) {
        let e = reach(src, &c.root, f, id);
        let r: CE = e.clone().into();
        cx.queries += 1;
        is_el(&E::from(r.clone()), f, id, "element converted there and back")?;
        let filt = gen_filter(src, f);
        // A predicate on typed kinds that no confusion of typed and raw kinds leaves unchanged.
        let pick: Vec<Kind> = filt.iter().map(|&k| typed(k)).collect();
        let m = |k: Kind| pick.contains(&k);
        let cm = |k: SyntaxKind| filt.contains(&k.0);
        same_e(Some(e.clone()), Some(r.clone()), "element")?;
        same_n(e.parent(), r.parent(), "parent")?;
        same_seq(e.ancestors().map(en), r.ancestors().map(NodeOrToken::Node), "ancestors")?;
        same_e(e.next_sibling_or_token(), r.next_sibling_or_token(), "next_sibling_or_token")?;
        same_e(e.prev_sibling_or_token(), r.prev_sibling_or_token(), "prev_sibling_or_token")?;
        ensure_eq!(format!("{e}"), format!("{r}"), "printed element");
        match (&e, &r) {
            (NodeOrToken::Node(n), NodeOrToken::Node(r)) => {
                let r2: CN = n.clone().into();
                ensure!(r2 == *r && N::from(r.clone()) == *n, "node conversions");
                ensure_eq!(n.text(), r.text(), "text");
                ensure!(n.green() == r.green(), "green");
                ensure_eq!(n.is_mutable(), r.is_mutable(), "is_mutable");
                ensure_eq!(format!("{n}"), format!("{r}"), "printed node");
                same_n(n.parent(), r.parent(), "node parent")?;
                same_seq(n.ancestors().map(en), r.ancestors().map(NodeOrToken::Node), "node ancestors")?;
                same_seq(n.children().map(en), r.children().map(NodeOrToken::Node), "children")?;
                same_seq(n.children_with_tokens(), r.children_with_tokens(), "children_with_tokens")?;
                let skip = src.below(4);
                let (mut a, mut b) = (n.children(), r.children());
                let (mut x, mut y) = (n.children_with_tokens(), r.children_with_tokens());
                for _ in 0..skip {
                    a.next();
                    b.next();
                    x.next();
                    y.next();
                }
                same_seq(a.by_kind(m).map(en), b.by_kind(cm).map(NodeOrToken::Node), "children by_kind")?;
                same_seq(x.by_kind(m), y.by_kind(cm), "children_with_tokens by_kind")?;
                // Against the model as well: the typed filter sees typed kinds.
                let want: Vec<usize> = f.els[id].kids.iter().copied().filter(|&k| filt.contains(&f.els[k].kind)).collect();
                is_seq(n.children_with_tokens().by_kind(m), f, &want, "children_with_tokens by_kind")?;
                same_n(n.first_child(), r.first_child(), "first_child")?;
                same_n(n.last_child(), r.last_child(), "last_child")?;
                same_n(n.first_child_by_kind(&m), r.first_child_by_kind(&cm), "first_child_by_kind")?;
                same_e(n.first_child_or_token(), r.first_child_or_token(), "first_child_or_token")?;
                same_e(n.last_child_or_token(), r.last_child_or_token(), "last_child_or_token")?;
                same_e(n.first_child_or_token_by_kind(&m), r.first_child_or_token_by_kind(&cm), "first_child_or_token_by_kind")?;
                same_n(n.next_sibling(), r.next_sibling(), "next_sibling")?;
                same_n(n.prev_sibling(), r.prev_sibling(), "prev_sibling")?;
                same_n(n.next_sibling_by_kind(&m), r.next_sibling_by_kind(&cm), "next_sibling_by_kind")?;
                same_e(n.next_sibling_or_token(), r.next_sibling_or_token(), "node next_sibling_or_token")?;
                same_e(n.prev_sibling_or_token(), r.prev_sibling_or_token(), "node prev_sibling_or_token")?;
                same_e(n.next_sibling_or_token_by_kind(&m), r.next_sibling_or_token_by_kind(&cm), "next_sibling_or_token_by_kind")?;
                same_t(n.first_token(), r.first_token(), "first_token")?;
                same_t(n.last_token(), r.last_token(), "last_token")?;
                for d in [Direction::Next, Direction::Prev] {
                    same_seq(n.siblings(d).map(en), r.siblings(d).map(NodeOrToken::Node), "siblings")?;
                    same_seq(n.siblings_with_tokens(d), r.siblings_with_tokens(d), "siblings_with_tokens")?;
                }
                same_seq(n.descendants().map(en), r.descendants().map(NodeOrToken::Node), "descendants")?;
                same_seq(n.descendants_with_tokens(), r.descendants_with_tokens(), "descendants_with_tokens")?;
                walks(src, n, r)?;
                let (s, t) = (f.els[id].start, f.els[id].end);
                let o = src.range(s, t);
                match (n.token_at_offset(ts(o)), r.token_at_offset(ts(o))) {
                    (TokenAtOffset::None, TokenAtOffset::None) => {}
                    (TokenAtOffset::Single(a), TokenAtOffset::Single(b)) => same_t(Some(a), Some(b), "token_at_offset")?,
                    (TokenAtOffset::Between(a, b), TokenAtOffset::Between(x, y)) => {
                        same_t(Some(a), Some(x), "token_at_offset left")?;
                        same_t(Some(b), Some(y), "token_at_offset right")?;
                    }
                    (a, b) => return fail(format!("token_at_offset({o}): {a:?} against {b:?}")),
                }
                let o2 = src.range(s, t);
                let range = TextRange::new(ts(o.min(o2)), ts(o.max(o2)));
                same_e(Some(n.covering_element(range)), Some(r.covering_element(range)), "covering_element")?;
                same_e(n.child_or_token_at_range(range), r.child_or_token_at_range(range), "child_or_token_at_range")?;
                ensure!(n.clone_subtree().green() == r.clone_subtree().green(), "clone_subtree");
                let g = GreenNode::new(sk(f.els[id].kind), vec![]);
                ensure!(n.replace_with(g.clone()) == r.replace_with(g), "replace_with");
                if !c.mutable {
                    let (u, w) = (n.clone_for_update(), r.clone_for_update());
                    ensure!(u.is_mutable() && w.is_mutable() && u.text_range() == w.text_range() && u.index() == w.index(), "clone_for_update");
                    ensure!(root_of(&u).green() == root_of(&w.clone().into()).green(), "clone_for_update root");
                }
            }
            (NodeOrToken::Token(t), NodeOrToken::Token(r)) => {
                let r2: CT = t.clone().into();
                ensure!(r2 == *r && T::from(r.clone()) == *t, "token conversions");
                ensure_eq!(t.text(), r.text(), "token text");
                ensure!(t.green() == r.green(), "token green");
                ensure_eq!(format!("{t}"), format!("{r}"), "printed token");
                same_n(t.parent(), r.parent(), "token parent")?;
                same_seq(t.parent_ancestors().map(en), r.ancestors().map(NodeOrToken::Node), "token ancestors")?;
                same_e(t.next_sibling_or_token(), r.next_sibling_or_token(), "token next_sibling_or_token")?;
                same_e(t.prev_sibling_or_token(), r.prev_sibling_or_token(), "token prev_sibling_or_token")?;
                same_t(t.next_token(), r.next_token(), "next_token")?;
                same_t(t.prev_token(), r.prev_token(), "prev_token")?;
                for d in [Direction::Next, Direction::Prev] {
                    same_seq(t.siblings_with_tokens(d), r.siblings_with_tokens(d), "token siblings_with_tokens")?;
                }
                let g = GreenToken::new(sk(f.els[id].kind), "zz");
                ensure!(t.replace_with(g.clone()) == r.replace_with(g), "token replace_with");
            }
            _ => return fail("a conversion turned a node into a token or back"),
        }
    }
    ensure!(N::from(croot.clone()) == c.root, "converted root");
    // Roots made through either layer.
    let (a, b) = (N::new_root(c.g.clone()), CN::new_root(c.g.clone()));
    ensure!(!a.is_mutable() && !b.is_mutable() && a.green() == b.green(), "new_root");
    edits(src, cx, &c.g)
}

fn walks(src: &mut Src, n: &N, r: &CN) -> R {
    let (mut a, mut b) = (n.preorder(), r.preorder());
    let (mut x, mut y) = (n.preorder_with_tokens(), r.preorder_with_tokens());
    for i in 0..120 {
        let done = match (a.next(), b.next()) {
            (None, None) => true,
            (Some(WalkEvent::Enter(p)), Some(WalkEvent::Enter(q))) => {
                same_n(Some(p), Some(q), "preorder enter")?;
                if i < 60 && src.chance(1, 5) {
                    a.skip_subtree();
                    b.skip_subtree();
                }
                false
            }
            (Some(WalkEvent::Leave(p)), Some(WalkEvent::Leave(q))) => {
                same_n(Some(p), Some(q), "preorder leave")?;
                false
            }
            (p, q) => return fail(format!("preorder: {p:?} against {q:?}")),
        };
        if done {
            break;
        }
    }
    for i in 0..120 {
        let done = match (x.next(), y.next()) {
            (None, None) => true,
            (Some(WalkEvent::Enter(p)), Some(WalkEvent::Enter(q))) => {
                same_e(Some(p), Some(q), "preorder_with_tokens enter")?;
                // Skipping after a token's enter event is not meaningful in either layer.
                if i < 60 && src.chance(1, 5) {
                    x.skip_subtree();
                    y.skip_subtree();
                }
                false
            }
            (Some(WalkEvent::Leave(p)), Some(WalkEvent::Leave(q))) => {
                same_e(Some(p), Some(q), "preorder_with_tokens leave")?;
                false
            }
            (p, q) => return fail(format!("preorder_with_tokens: {p:?} against {q:?}")),
        };
        if done {
            break;
        }
    }
    Ok(())
}

/// The same edits through both layers give the same trees.
fn edits(src: &mut Src, cx: &mut Cx, g: &GreenNode) -> R {
    let (a, b) = (N::new_root_mut(g.clone()), CN::new_root_mut(g.clone()));
    for step in 0..src.below(5) {
        let f = Flat::new(&read_green(&a.green()));
        let id = src.below(f.len());
        let x = handle(&a, &f, id);
        let y: CE = {
            let mut y: CE = NodeOrToken::Node(b.clone());
            for i in f.path(id) {
                y = y.into_node().unwrap().children_with_tokens().nth(i as usize).unwrap();
            }
            y
        };
        cx.label("edited through both layers");
        match src.below(3) {
            0 => {
                match (&x, &y) {
                    (NodeOrToken::Node(x), NodeOrToken::Node(y)) => {
                        x.detach();
                        y.detach()
                    }
                    (NodeOrToken::Token(x), NodeOrToken::Token(y)) => {
                        x.detach();
                        y.detach()
                    }
                    _ => return fail("sort"),
                }
                ensure!(x.parent().is_none() && y.parent().is_none(), "detached element has a parent");
            }
            1 => {
                x.detach();
                y.detach();
                ensure!(x.parent().is_none() && y.parent().is_none(), "detached element has a parent");
            }
            _ => {
                if let (NodeOrToken::Node(x), NodeOrToken::Node(y)) = (&x, &y) {
                    let k = f.els[id].kids.len();
                    let (i, j) = (src.below(k + 1), src.below(k + 1));
                    let (i, j) = (i.min(j), i.max(j));
                    let fresh: Vec<GreenNode> = (0..src.below(3)).map(|n| GreenNode::new(sk(n as u16 + 40), vec![GreenToken::new(sk(9), "new").into()])).collect();
                    x.splice_children(i..j, fresh.iter().map(|g| en(N::new_root_mut(g.clone()))));
                    y.splice_children(i..j, fresh.iter().map(|g| NodeOrToken::Node(CN::new_root_mut(g.clone()))));
                }
            }
        }
        ensure!(a.green() == b.green(), "trees differ after step {step} through the two layers");
        if let (NodeOrToken::Node(x), NodeOrToken::Node(y)) = (&x, &y) {
            ensure!(x.green() == y.green(), "edited elements differ");
        }
        ensure_eq!(x.text_range(), y.text_range(), "range of the edited element");
    }
    Ok(())
}

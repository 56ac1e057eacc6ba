//! C35: costs grow as documented. The same shape is built at two scales; the number of basic blocks
//! executed (and bytes allocated) by one operation is compared. Counting needs the `cost` build, in
//! which every basic block of rowan and of the generic code it uses calls a counter.

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use rowan::ast::SyntaxNodePtr;
use rowan::{Direction, GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, TextRange, TextSize};
use std::hash::{Hash, Hasher};

#[cfg(rw_cost)]
mod counter {
    pub fn now() -> u64 {
        // Bulk copies are calls into libc, which is not instrumented; they show in the bytes allocated.
        let bytes = crate::alloc::TOTAL_BYTES.load(std::sync::atomic::Ordering::Relaxed) as u64;
        crate::cover::steps() + bytes / 16
    }
}
#[cfg(not(rw_cost))]
mod counter {
    pub fn now() -> u64 {
        0
    }
}

/// What `f`, and dropping what it returns, costs.
fn cost<T>(f: impl FnOnce() -> T) -> u64 {
    let a = counter::now();
    drop(std::hint::black_box(f()));
    counter::now() - a
}

const SCALE: u64 = 64;

/// How the cost may grow when the scale does.
#[derive(Clone, Copy, PartialEq)]
enum Growth {
    /// Not at all, or with the logarithm.
    Flat,
    /// With the depth of a tree that halves, or so, at each level.
    Log,
    /// In proportion.
    Linear,
}
use Growth::*;
impl Growth {
    fn name(self) -> &'static str {
        match self {
            Flat => "independent of the size",
            Log => "logarithmic in the size",
            Linear => "in proportion to the size",
        }
    }
}

struct Probe {
    what: String,
    growth: Growth,
    cost: u64,
}

fn judge(small: Vec<Probe>, big: Vec<Probe>, n: usize, cx: &mut Cx) -> R {
    ensure!(small.len() == big.len(), "the harness measured different operations");
    for (s, b) in small.iter().zip(&big) {
        ensure!(s.what == b.what, "the harness measured {} and {}", s.what, b.what);
        let most = match s.growth {
            Flat => 2 * s.cost + 600,
            Log => 8 * s.cost + 2000,
            Linear => SCALE * (2 * s.cost + 600),
        };
        cx.queries += 1;
        if std::env::var_os("RW_COST_SHOW").is_some() {
            let r = b.cost as f64 / s.cost.max(1) as f64;
            println!("{:<60} {:>10} {:>12} {:>8.2} {}", s.what, s.cost, b.cost, r, s.growth.name());
        }
        ensure!(
            b.cost <= most,
            "{} costs {} steps at size {n} and {} steps at size {}; a cost that is {} allows {most}",
            s.what,
            s.cost,
            b.cost,
            n as u64 * SCALE,
            s.growth.name()
        );
    }
    Ok(())
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn leaf(src: &mut Src, empty: bool) -> El {
    let n = src.range(!empty as usize, 4);
    El::T(src.range(1, 4) as u16, "abcdefgh"[..n].into())
}

/// The children that repeat: a nonempty token, a nonempty node, and some others.
fn pattern(src: &mut Src) -> Vec<El> {
    let mut p = vec![leaf(src, false), El::N(7, vec![leaf(src, false)])];
    for _ in 0..src.below(3) {
        let x = match src.below(3) {
            0 => leaf(src, true),
            1 => El::N(src.range(5, 8) as u16, vec![]),
            _ => El::N(src.range(5, 8) as u16, (0..src.below(4)).map(|_| leaf(src, true)).collect()),
        };
        p.insert(src.below(p.len() + 1), x);
    }
    p
}

pub fn c35(src: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let n = src.range(32, 100);
    let shape = src.below(6);
    // The same choices at both scales.
    let choices: Vec<u8> = (0..64).map(|_| src.draw(256) as u8).collect();
    cx.label(["wide", "deep", "bushy", "beside a large part", "building", "wide, edited"][shape]);
    let at = |n: usize| {
        let mut s = Src::bytes(choices.clone());
        match shape {
            0 => wide(&mut s, n),
            1 => deep(&mut s, n),
            2 => bushy(&mut s, n),
            3 => beside(&mut s, n),
            4 => building(&mut s, n),
            _ => wide_edits(&mut s, n),
        }
    };
    let small = at(n);
    let big = at(n * SCALE as usize);
    cx.sample(|| format!("{} operations at sizes {n} and {}", small.len(), n * SCALE as usize));
    judge(small, big, n, cx)
}

struct Probes(Vec<Probe>);
impl Probes {
    fn flat<T>(&mut self, what: &str, f: impl FnOnce() -> T) {
        let cost = cost(f);
        self.0.push(Probe { what: what.into(), growth: Flat, cost });
    }
    fn log<T>(&mut self, what: &str, f: impl FnOnce() -> T) {
        let cost = cost(f);
        self.0.push(Probe { what: what.into(), growth: Log, cost });
    }
    fn linear<T>(&mut self, what: &str, f: impl FnOnce() -> T) {
        let cost = cost(f);
        self.0.push(Probe { what: what.into(), growth: Linear, cost });
    }
}

/// Operations whose cost is theirs alone: on a handle, between neighbours, on a green node.
fn local(p: &mut Probes, root: &N, h: &E, i: usize) {
    let r = h.text_range();
    let same = h.clone();
    p.flat("cloning a handle", || h.clone());
    p.flat("comparing handles", || *h == same);
    p.flat("hashing a handle", || hash_of(h));
    p.flat("text_range", || h.text_range());
    p.flat("kind", || h.kind());
    p.flat("index", || h.index());
    p.flat("parent", || h.parent());
    p.flat("ancestors", || h.ancestors().count());
    p.flat("next_sibling_or_token", || h.next_sibling_or_token());
    p.flat("prev_sibling_or_token", || h.prev_sibling_or_token());
    p.flat("first_child_or_token", || root.first_child_or_token());
    p.flat("last_child_or_token", || root.last_child_or_token());
    p.flat("first_child", || root.first_child());
    p.flat("last_child", || root.last_child());
    p.flat("first_token", || root.first_token());
    p.flat("last_token", || root.last_token());
    p.flat("the first children", || root.children_with_tokens().take(3).count());
    p.flat("the first descendants", || root.descendants_with_tokens().take(5).count());
    match h {
        NodeOrToken::Node(x) => {
            p.flat("first_token of a small node", || x.first_token());
            p.flat("last_token of a small node", || x.last_token());
            p.flat("next_sibling", || x.next_sibling());
            p.flat("prev_sibling", || x.prev_sibling());
            p.flat("three siblings on", || x.siblings(Direction::Next).take(3).count());
            p.flat("three siblings back", || x.siblings_with_tokens(Direction::Prev).take(3).count());
            p.flat("descendants of a small node", || x.descendants_with_tokens().count());
            p.flat("text of a small node", || x.text().to_string());
            p.flat("Debug of a small node", || format!("{x:#?}"));
            p.flat("Display of a small node", || format!("{x}"));
            p.flat("green of a small node", || x.green().into_owned());
            p.flat("clone_subtree of a small node", || x.clone_subtree());
            if !r.is_empty() {
                p.flat("token_at_offset inside a small node", || x.token_at_offset(r.start()));
            }
        }
        NodeOrToken::Token(x) => {
            p.flat("next_token", || x.next_token());
            p.flat("prev_token", || x.prev_token());
            p.flat("text of a token", || x.text().len());
            p.flat("Debug of a token", || format!("{x:?}"));
            p.flat("siblings_with_tokens of a token", || x.siblings_with_tokens(Direction::Next).take(3).count());
        }
    }
    if !r.is_empty() {
        p.flat("child_or_token_at_range", || root.child_or_token_at_range(r));
        p.flat("covering_element", || root.covering_element(r));
        let one = TextRange::empty(r.start() + TextSize::from(u32::from(r.len()) / 2));
        if u32::from(r.len()) > 1 {
            p.flat("covering_element of an empty range", || root.covering_element(one));
        }
    }
    let g = root.green().into_owned();
    p.flat("cloning a green node", || g.clone());
    p.flat("green text_len", || g.text_len());
    p.flat("green children().len()", || g.children().len());
    p.flat("green children().nth", || g.children().nth(i).map(|c| c.kind()));
    p.flat("green children().nth_back", || g.children().nth_back(i).map(|c| c.kind()));
    p.flat("green children().last", || g.children().last().map(|c| c.kind()));
    p.flat("green children().count", || g.children().count());
    p.flat("new_root", || N::new_root(g.clone()));
    p.flat("green of the root", || root.green().into_owned());
    p.flat("clone_subtree of the root", || root.clone_subtree());
    p.flat("length of the root's text", || root.text().len());
    let t = root.text();
    p.flat("slicing a text", || t.slice(r.start()..r.end()).len());
}

fn green(kind: u16, els: impl Iterator<Item = GEl>) -> GreenNode {
    GreenNode::new(sk(kind), els.collect::<Vec<_>>())
}

fn wide_tree(src: &mut Src, n: usize) -> (Vec<El>, GreenNode) {
    let p = pattern(src);
    let shared = src.chance(1, 2);
    let memo: Vec<GEl> = p.iter().map(g_direct).collect();
    let g = green(9, (0..n * p.len()).map(|i| if shared { memo[i % p.len()].clone() } else { g_direct(&p[i % p.len()]) }));
    (p, g)
}

fn wide(src: &mut Src, n: usize) -> Vec<Probe> {
    let (pat, g) = wide_tree(src, n);
    let mutable = src.chance(1, 4);
    let root = if mutable { N::new_root_mut(g.clone()) } else { N::new_root(g.clone()) };
    let q = 1 + src.below(98);
    let phase = src.below(pat.len());
    let i = (n * q / 100).max(1) * pat.len() + phase;
    let h = root.children_with_tokens().nth(i).unwrap();
    let mut p = Probes(vec![]);
    local(&mut p, &root, &h, i);
    if !mutable {
        p.flat("clone_for_update", || root.clone_for_update());
        if let NodeOrToken::Node(x) = &h {
            p.flat("clone_for_update of a child", || x.clone_for_update());
            p.flat("a pointer to a node", || SyntaxNodePtr::<Lang>::new(x));
            let ptr = SyntaxNodePtr::<Lang>::new(x);
            if !x.text_range().is_empty() {
                p.flat("resolving a pointer", || ptr.to_node(&root));
            }
        }
        match &h {
            NodeOrToken::Node(x) => p.linear("replace_with", || x.replace_with(green(raw(x.kind()), [].into_iter()))),
            NodeOrToken::Token(x) => p.linear("replace_with of a token", || x.replace_with(GreenToken::new(x.green().kind(), "new"))),
        }
    }
    whole(&mut p, &root, &g);
    // Filtered iteration makes handles for what it returns only: measured in bytes, it costs nothing.
    drop(h);
    drop(root);
    let again = g.clone();
    drop(g);
    p.linear("dropping a tree", move || drop(again));
    p.0
}

/// Operations on everything: in proportion to the size.
fn whole(p: &mut Probes, root: &N, g: &GreenNode) {
    p.linear("children", || root.children().count());
    p.linear("children_with_tokens", || root.children_with_tokens().count());
    p.linear("children by kind", || root.children().by_kind(|k| raw(k) == 5).count());
    p.linear("children_with_tokens by kind", || root.children_with_tokens().by_kind(|k| raw(k) == 5).count());
    p.linear("keeping all children", || root.children_with_tokens().collect::<Vec<_>>());
    p.linear("descendants", || root.descendants().count());
    p.linear("descendants_with_tokens", || root.descendants_with_tokens().count());
    p.linear("preorder_with_tokens", || root.preorder_with_tokens().count());
    p.linear("first_token, next_token ...", || std::iter::successors(root.first_token(), |t| t.next_token()).count());
    p.linear("last_token, prev_token ...", || std::iter::successors(root.last_token(), |t| t.prev_token()).count());
    p.linear("last_child_or_token, prev_sibling_or_token ...", || std::iter::successors(root.last_child_or_token(), |t| t.prev_sibling_or_token()).count());
    p.linear("to_string of a node", || root.to_string());
    p.linear("to_string of a green node", || g.to_string());
    p.linear("to_string of a text", || root.text().to_string());
    p.linear("searching a text", || root.text().contains_char('\u{1f}'));
    p.linear("comparing texts", || root.text() == root.text());
    let s = root.text().to_string();
    p.linear("comparing a text with a string", || root.text() == s.as_str());
    p.linear("char_at", || root.text().char_at(root.text().len()));
    p.linear("comparing equal green nodes", || *g == *g);
    p.linear("hashing a green node", || hash_of(g));
    p.linear("green children", || g.children().map(|c| u32::from(c.text_len()) as u64).sum::<u64>());
    p.linear("serialising", || serde_json::to_string(root).unwrap().len());
    p.linear("token_at_offset", || root.token_at_offset(TextSize::from(u32::from(root.text_range().len()) / 2)));
}

fn deep(src: &mut Src, n: usize) -> Vec<Probe> {
    let before: Vec<El> = (0..src.below(3)).map(|_| leaf(src, true)).collect();
    let after: Vec<El> = (0..src.below(3)).map(|_| leaf(src, true)).collect();
    let mut g = green(7, [g_direct(&El::T(1, "core".into()))].into_iter());
    for _ in 0..n {
        let kids = before.iter().map(g_direct).chain([NodeOrToken::Node(g)]).chain(after.iter().map(g_direct)).collect::<Vec<_>>();
        g = GreenNode::new(sk(7), kids);
    }
    let mutable = src.chance(1, 4);
    let root = if mutable { N::new_root_mut(g.clone()) } else { N::new_root(g.clone()) };
    let mut p = Probes(vec![]);
    // (In a mutable tree making and comparing handles takes steps in proportion to their depth, so a
    // walk down a chain takes the square.)
    let down = |root: &N| std::iter::successors(Some(root.clone()), |x| x.first_child()).last();
    if !mutable {
        p.linear("going to the deepest node", || down(&root));
    }
    let h = down(&root).unwrap();
    let r = h.text_range();
    p.flat("parent at the bottom", || h.parent());
    p.flat("the next ancestors", || h.ancestors().take(3).count());
    p.flat("clone_subtree at the bottom", || h.clone_subtree());
    p.linear("ancestors", || h.ancestors().count());
    p.linear("ancestors of a token", || h.first_token().unwrap().parent_ancestors().count());
    p.linear("replace_with at the bottom", || h.replace_with(green(7, [].into_iter())));
    p.linear("comparing green nodes", || *g == *g);
    p.linear("hashing a green node", || hash_of(&g));
    p.linear("text_range at the bottom", || h.text_range());
    p.linear("first_token at the bottom", || h.first_token());
    p.linear("comparing and hashing handles at the bottom", || (h.clone() == h, hash_of(&h)));
    if !mutable {
        p.flat("text_range at the bottom", || h.text_range());
        p.flat("cloning, comparing and hashing at the bottom", || (h.clone() == h, hash_of(&h)));
        p.flat("first_token at the bottom", || h.first_token());
        p.flat("text at the bottom", || h.text().to_string());
        p.linear("descendants", || root.descendants().count());
        p.linear("preorder_with_tokens", || root.preorder_with_tokens().count());
        p.linear("to_string of a node", || root.to_string());
        p.linear("to_string of a text", || root.text().to_string());
        p.linear("comparing texts", || root.text() == root.text());
        p.linear("first_token", || root.first_token());
        p.linear("last_token", || root.last_token());
        p.linear("first_token, next_token ...", || std::iter::successors(root.first_token(), |t| t.next_token()).count());
        p.linear("last_token, prev_token ...", || std::iter::successors(root.last_token(), |t| t.prev_token()).count());
        p.linear("covering_element", || root.covering_element(r));
        let ptr = SyntaxNodePtr::<Lang>::new(&h);
        p.linear("resolving a pointer", || ptr.to_node(&root));
        p.linear("clone_for_update", || h.clone_for_update());
    } else {
        let t = h.first_child_or_token().unwrap();
        p.linear("detaching at the bottom", || t.detach());
        let fresh = N::new_root_mut(green(7, [].into_iter()));
        p.linear("inserting at the bottom", || h.splice_children(0..0, vec![en(fresh)]));
    }
    drop(root);
    p.linear("dropping the last handle", move || drop(h));
    p.linear("dropping a tree", move || drop(g));
    p.0
}

fn bushy(src: &mut Src, n: usize) -> Vec<Probe> {
    let k = 2 + src.below(5);
    let pat = pattern(src);
    // About n leaves: levels until the scale is reached, so that depth grows with the logarithm.
    let mut row: Vec<GEl> = (0..n).map(|i| g_direct(&pat[i % pat.len()])).collect();
    while row.len() > 1 {
        row = row.chunks(k).map(|c| NodeOrToken::Node(green(9, c.iter().cloned()))).collect();
    }
    let g = g_node(row.pop().unwrap());
    let root = N::new_root(g.clone());
    let q = 1 + src.below(98);
    let len = u32::from(root.text_range().len()) as u64;
    let off = TextSize::from((len * q as u64 / 100) as u32);
    let mut p = Probes(vec![]);
    p.log("token_at_offset", || root.token_at_offset(off));
    let t = root.token_at_offset(off).right_biased().unwrap();
    let r = t.text_range();
    p.log("covering_element", || root.covering_element(r));
    p.log("child_or_token_at_range", || root.child_or_token_at_range(r));
    p.log("ancestors", || t.parent_ancestors().count());
    p.log("replace_with of a token", || t.replace_with(GreenToken::new(t.green().kind(), "new")));
    p.log("first_token", || root.first_token());
    p.log("last_token", || root.last_token());
    let x = t.parent().unwrap();
    let ptr = SyntaxNodePtr::<Lang>::new(&x);
    p.log("resolving a pointer", || ptr.to_node(&root));
    p.log("clone_for_update of a node", || x.clone_for_update());
    p.log("clone_subtree of a node", || x.clone_subtree());
    let m = x.clone_for_update();
    let mt = m.first_token().unwrap();
    p.log("text_range in a mutable tree", || mt.text_range());
    p.log("detaching a token", || mt.detach());
    p.log("detaching a node", || m.detach());
    whole(&mut p, &root, &g);
    p.0
}

/// Edits of one part cost nothing for what lies beside it.
fn beside(src: &mut Src, n: usize) -> Vec<Probe> {
    let (_, heavy) = wide_tree(src, n);
    let small = |x: &str| g_direct(&El::N(5, vec![El::T(1, x.into()), El::N(6, vec![El::T(2, "deep".into())])]));
    let heavy_first = src.chance(1, 2);
    let both = src.chance(1, 2);
    let mut kids = vec![small("a"), small("b")];
    kids.insert(if heavy_first { 0 } else { 2 }, NodeOrToken::Node(heavy.clone()));
    if both {
        kids.insert(1, NodeOrToken::Node(heavy.clone()));
    }
    let g = green(9, kids.into_iter());
    let root = N::new_root(g.clone());
    let a = root.children().find(|x| raw(x.kind()) == 5).unwrap();
    let t = a.last_token().unwrap();
    let big = root.children().find(|x| raw(x.kind()) == 9).unwrap();
    let mut p = Probes(vec![]);
    p.flat("replace_with beside", || t.replace_with(GreenToken::new(t.green().kind(), "new")));
    p.flat("replace_with of a node beside", || a.replace_with(green(5, [].into_iter())));
    // The replaced part stays alive, so nothing of it has to be dropped.
    p.flat("replace_with of the large part", || big.replace_with(green(9, [].into_iter())));
    p.flat("green replace_child", || g.replace_child(0, small("c")));
    p.flat("green insert_child", || g.insert_child(1, small("c")));
    p.flat("green remove_child", || g.remove_child(1));
    p.flat("green insert_child of a large part", || g.insert_child(1, NodeOrToken::Node(heavy.clone())));
    p.flat("clone_for_update", || root.clone_for_update());
    p.flat("next_sibling of a large node", || big.next_sibling());
    p.flat("prev_sibling of a large node", || big.prev_sibling());
    p.flat("the token before and after", || (root.first_token(), root.last_token()));
    let m = root.clone_for_update();
    let ma = m.children().find(|x| raw(x.kind()) == 5).unwrap();
    let mbig = m.children().find(|x| raw(x.kind()) == 9).unwrap();
    // A handle deep inside the large part must not be visited.
    let inside = mbig.last_token().unwrap();
    p.flat("detaching a token beside", || ma.last_token().unwrap().detach());
    p.flat("inserting beside", || {
        let fresh = N::new_root_mut(g_node(small("d")));
        ma.splice_children(0..1, vec![en(fresh)])
    });
    p.flat("detaching the large part", || mbig.detach());
    p.flat("attaching the large part", || m.splice_children(0..0, vec![en(mbig.clone())]));
    p.flat("moving the large part", || ma.splice_children(0..0, vec![en(mbig.clone())]));
    p.flat("text_range inside the moved part", || inside.text_range());
    p.0
}

fn building(src: &mut Src, n: usize) -> Vec<Probe> {
    let distinct = src.chance(1, 2);
    let pat = pattern(src);
    let mut p = Probes(vec![]);
    let texts: Vec<String> = (0..n).map(|i| if distinct { format!("t{i:06}") } else { format!("t{:06}", i % 7) }).collect();
    p.linear("building: one level of tokens", || {
        let mut b = GreenNodeBuilder::new();
        b.start_node(sk(9));
        for t in &texts {
            b.token(sk(1), t);
        }
        b.finish_node();
        b.finish()
    });
    p.linear("building: nodes of two tokens", || {
        let mut b = GreenNodeBuilder::new();
        b.start_node(sk(9));
        for t in &texts {
            b.start_node(sk(5));
            b.token(sk(1), t);
            b.token(sk(2), "x");
            b.finish_node();
        }
        b.finish_node();
        b.finish()
    });
    p.linear("building: wrapped at a checkpoint", || {
        let mut b = GreenNodeBuilder::new();
        b.start_node(sk(9));
        for t in &texts {
            let cp = b.checkpoint();
            b.token(sk(1), t);
            b.start_node_at(cp, sk(6));
            b.finish_node();
        }
        b.finish_node();
        b.finish()
    });
    let mut cache = NodeCache::default();
    let tree = |cache: &mut NodeCache| {
        let mut b = GreenNodeBuilder::with_cache(cache);
        b.start_node(sk(9));
        for (i, t) in texts.iter().enumerate() {
            b.start_node(sk(5));
            b.token(sk(1), t);
            if i % 3 == 0 {
                b.token(sk(2), "y");
            }
            b.finish_node();
        }
        b.finish_node();
        b.finish()
    };
    p.linear("building through a cache", || tree(&mut cache));
    p.linear("building through a cache that has it all", || tree(&mut cache));
    let little = |cache: &mut NodeCache| {
        let mut b = GreenNodeBuilder::with_cache(cache);
        b.start_node(sk(9));
        b.token(sk(1), "small");
        b.finish_node();
        b.finish()
    };
    // The first time it may make the tables grow.
    little(&mut cache);
    p.flat("building little through a large cache", || little(&mut cache));
    p.linear("dropping the cache", move || drop(cache));
    let els: Vec<GEl> = (0..n).map(|i| g_direct(&pat[i % pat.len()])).collect();
    p.linear("GreenNode::new", || GreenNode::new(sk(9), els));
    let text: String = texts.concat();
    p.linear("GreenToken::new", || GreenToken::new(sk(1), &text));
    p.0
}

fn wide_edits(src: &mut Src, n: usize) -> Vec<Probe> {
    let (pat, g) = wide_tree(src, n);
    let root = N::new_root_mut(g.clone());
    let q = 1 + src.below(98);
    let i = (n * q / 100).max(1) * pat.len();
    let mut p = Probes(vec![]);
    if src.chance(1, 2) {
        // With every child held. (Making the handles again would look for each of them in a list.)
        let mut kept: Vec<E> = root.children_with_tokens().collect();
        p.linear("detaching a child, all held", || kept[i].detach());
        p.linear("detaching the first child, all held", || kept[0].detach());
        p.linear("detaching the last child, all held", || kept.last().unwrap().detach());
        p.flat("text_range of a child, all held", || kept[i + 1].text_range());
        p.flat("parent of a child, all held", || kept[i + 1].parent());
        if src.chance(1, 2) {
            kept.reverse();
        }
        p.linear("dropping all handles", move || drop(kept));
        return p.0;
    }
    let at = |i: usize| root.children_with_tokens().nth(i).unwrap();
    let fresh = || en(N::new_root_mut(green(5, [].into_iter())));
    let (a, b) = (at(i), at(i + 1));
    p.linear("detaching a child", || a.detach());
    p.linear("inserting a child", || root.splice_children(i..i, vec![fresh()]));
    p.linear("replacing a child", || root.splice_children(i..i + 1, vec![fresh()]));
    p.linear("moving a child to the front", || root.splice_children(0..0, vec![b.clone()]));
    p.linear("green insert_child", || g.insert_child(i, g_direct(&El::T(1, "x".into()))));
    p.linear("green remove_child", || g.remove_child(i));
    p.linear("green replace_child", || g.replace_child(i, g_direct(&El::T(1, "x".into()))));
    p.linear("green splice_children of nothing", || g.splice_children(i..i, []));
    drop(a);
    drop(b);
    p.0
}

//! C25: no memory error, no leak - for the histories of every other property and for an API soup of
//! its own. Memory errors show as crashes, allocator damage or sanitizer reports; leaks as an
//! allocation balance that is not zero once everything has been dropped.

use crate::alloc;
use crate::engine::*;
use crate::model::*;
use crate::props::*;
use crate::{ensure, ensure_eq};
use rowan::cursor as cu;
use rowan::{Checkpoint, GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, TextRange, TextSize, TokenAtOffset, WalkEvent};
use std::sync::atomic::Ordering::Relaxed;

const BODIES: &[(&str, u32, Prop)] = &[
    ("history", 10, machine::history),
    ("history with rejected edits", 8, machine::fault_history),
    ("API soup", 14, soup),
    ("C01", 1, green::c01),
    ("C02", 1, green::c02),
    ("C03", 1, green::c03),
    ("C04", 1, green::c04),
    ("C05", 1, green::c05),
    ("C06", 2, green::c06),
    ("C07", 1, green::c07),
    ("C08", 1, nav::c08),
    ("C09", 1, nav::c09),
    ("C10", 1, nav::c10),
    ("C11", 1, nav::c11),
    ("C12", 2, nav::c12),
    ("C13", 1, nav::c13),
    ("C14", 1, nav::c14),
    ("C15", 1, nav::c15),
    ("C16", 1, nav::c16),
    ("C17", 1, text::c17),
    ("C18", 1, text::c18),
    ("C19", 1, misc::c19),
    ("C20", 1, machine::c20),
    ("C21", 1, machine::c21),
    ("C22", 1, machine::c22),
    ("C23", 1, machine::c23),
    ("C24", 1, misc::c24),
    ("C27", 1, misc::c27),
    ("C28", 1, misc::c28),
    ("C29", 1, misc::c29),
    ("C30", 1, nav::c30),
    ("C32", 1, machine::c32),
    ("C33", 1, share::c33),
    ("C34", 1, share::c34),
    ("C37", 4, machine::callbacks::c37),
    ("C38", 2, green::builds::c38),
];

struct Outcome {
    bytes: isize,
    blocks: isize,
    nontrivial: bool,
    queries: u64,
    /// Borrowed data that changed under its borrow.
    stale: Option<String>,
}

/// Runs one body with everything it creates dropped again and takes the balance.
fn bracket(body: usize, src: &mut Src) -> Outcome {
    LAST_PANIC.with(|l| *l.borrow_mut() = String::new());
    let own = src.heap_bytes() as isize;
    let before = alloc::live();
    let (nontrivial, queries);
    let mut stale = None;
    {
        let mut cx = Cx { no_misuse: true, ..Cx::default() };
        // Whether the body's own oracle is content is the business of the other properties.
        if let Err(e) = guarded(BODIES[body].2, src, &mut cx) {
            if e.0.contains("memory: ") {
                stale = Some(e.0);
            }
        }
        nontrivial = cx.nontrivial;
        queries = cx.queries;
        drop(cx);
    }
    LAST_PANIC.with(|l| *l.borrow_mut() = String::new());
    let after = alloc::live();
    let own = src.heap_bytes() as isize - own;
    Outcome { bytes: after.0 - before.0 - own, blocks: after.1 - before.1, nontrivial, queries, stale }
}

fn run(src: &mut Src, cx: &mut Cx, body: usize) -> R {
    cx.label(BODIES[body].0);
    let bad = alloc::BAD.load(Relaxed);
    let from = src.choices.len();
    let o = bracket(body, src);
    cx.nontrivial = o.nontrivial;
    cx.queries = o.queries;
    if let Some(m) = o.stale {
        return fail(m);
    }
    ensure_eq!(alloc::BAD.load(Relaxed), bad, "blocks freed twice, freed with another size or written past their end, in {}", BODIES[body].0);
    if o.bytes != 0 || o.blocks != 0 {
        // Anything set up once per process is not there a second time.
        let mut again = Src::replay(src.choices[from..].to_vec());
        let p = bracket(body, &mut again);
        ensure!(
            p.bytes == 0 && p.blocks == 0,
            "{} bytes in {} blocks are still allocated after everything was dropped, in {}",
            p.bytes,
            p.blocks,
            BODIES[body].0
        );
    }
    if cx.want_sample && cx.nontrivial {
        let mut again = Src::replay(src.choices[from..].to_vec());
        let mut inner = Cx { no_misuse: true, want_sample: true, ..Cx::default() };
        let _ = guarded(BODIES[body].2, &mut again, &mut inner);
        let s = inner.sample.unwrap_or_default();
        cx.sample(|| format!("{}: {s}", BODIES[body].0));
    }
    Ok(())
}

pub fn c25(src: &mut Src, cx: &mut Cx) -> R {
    let ws: Vec<u32> = BODIES.iter().map(|b| b.1).collect();
    let body = src.weighted(&ws);
    run(src, cx, body)
}

/// The cases of another property, with the balance taken.
fn leaks_of(id: &str, src: &mut Src, cx: &mut Cx) -> R {
    let body = BODIES.iter().position(|b| b.0 == id).unwrap();
    run(src, cx, body)
}
pub fn leaks37(src: &mut Src, cx: &mut Cx) -> R {
    leaks_of("C37", src, cx)
}
pub fn leaks38(src: &mut Src, cx: &mut Cx) -> R {
    leaks_of("C38", src, cx)
}

// ---------------------------------------------------------------- soup

/// Anything a program can hold.
enum V {
    G(GreenNode),
    T(GreenToken),
    Cache(NodeCache),
    Builder(GreenNodeBuilder<'static>, Vec<Checkpoint>, usize),
    E(cu::SyntaxElement),
    At(TokenAtOffset<cu::SyntaxToken>),
    Text(rowan::SyntaxText),
    Chars(Box<dyn Iterator<Item = cu::SyntaxElement>>),
    Pre(cu::Preorder),
    PreT(cu::PreorderWithTokens),
    Kids(cu::SyntaxNodeChildren),
    KidsT(cu::SyntaxElementChildren),
    Borrowed(Box<cu::SyntaxElement>, *const str, String),
}

const MAX_WEIGHT: usize = 1500;

fn weigh(g: &rowan::GreenNodeData, left: &mut usize) {
    for c in g.children() {
        if *left == 0 {
            return;
        }
        *left -= 1;
        if let NodeOrToken::Node(n) = c {
            weigh(n, left);
        }
    }
}
fn weight(g: &rowan::GreenNodeData) -> usize {
    let mut left = MAX_WEIGHT;
    weigh(g, &mut left);
    MAX_WEIGHT - left + 1
}
fn depth_of(e: &cu::SyntaxElement) -> usize {
    e.ancestors().take(400).count()
}
fn tree_weight(e: &cu::SyntaxElement) -> usize {
    match e.ancestors().take(400).last() {
        Some(r) => weight(&r.green()),
        None => 1,
    }
}
fn el_weight(e: &cu::SyntaxElement) -> usize {
    match e {
        NodeOrToken::Node(n) => weight(&n.green()),
        _ => 1,
    }
}

struct Soup {
    vs: Vec<V>,
    g: Gen,
    log: String,
    edits: usize,
    looks: usize,
    stale: bool,
}

impl Soup {
    fn find(&self, src: &mut Src, f: impl Fn(&V) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.vs.len()).filter(|&i| f(&self.vs[i])).collect();
        if c.is_empty() { None } else { Some(*src.pick(&c)) }
    }
    fn green(&mut self, src: &mut Src) -> GreenNode {
        match self.find(src, |v| matches!(v, V::G(_))) {
            Some(i) if src.chance(2, 3) => match &self.vs[i] {
                V::G(g) => g.clone(),
                _ => unreachable!(),
            },
            _ => {
                self.g.budget = src.range(1, 8);
                g_node(g_direct(&self.g.node(src, 0)))
            }
        }
    }
    fn green_el(&mut self, src: &mut Src) -> NodeOrToken<GreenNode, GreenToken> {
        if src.chance(1, 2) {
            return NodeOrToken::Node(self.green(src));
        }
        match self.find(src, |v| matches!(v, V::T(_))) {
            Some(i) if src.chance(2, 3) => match &self.vs[i] {
                V::T(t) => NodeOrToken::Token(t.clone()),
                _ => unreachable!(),
            },
            _ => g_direct(&self.g.tok(src)),
        }
    }
    fn el(&self, src: &mut Src) -> Option<cu::SyntaxElement> {
        let i = self.find(src, |v| matches!(v, V::E(_)))?;
        match &self.vs[i] {
            V::E(e) => Some(e.clone()),
            _ => None,
        }
    }
    fn node(&self, src: &mut Src) -> Option<cu::SyntaxNode> {
        let i = self.find(src, |v| matches!(v, V::E(NodeOrToken::Node(_))))?;
        match &self.vs[i] {
            V::E(NodeOrToken::Node(n)) => Some(n.clone()),
            _ => None,
        }
    }
    fn put(&mut self, src: &mut Src, v: V) {
        let small = match &v {
            V::G(g) => weight(g) < MAX_WEIGHT && u32::from(g.text_len()) < 20_000,
            _ => true,
        };
        if small {
            if self.vs.len() >= 24 {
                let i = src.below(self.vs.len());
                self.vs.swap_remove(i);
            }
            self.vs.push(v);
        }
    }
    fn note(&mut self, s: &str) {
        if self.log.len() < 500 {
            self.log.push_str(s);
            self.log.push(' ');
        }
    }
    fn step(&mut self, src: &mut Src) {
        match src.weighted(&[3, 2, 2, 3, 4, 14, 8, 6, 6, 8, 6, 6, 3]) {
            0 => {
                self.note("green");
                let g = self.green(src);
                let n = src.below(5);
                let g = match src.below(6) {
                    0 => g,
                    1 => GreenNode::new(g.kind(), (0..n).map(|_| self.green_el(src)).collect::<Vec<_>>()),
                    2 => g.clone().into(),
                    3 => g.insert_child(src.below(g.children().len() + 1), self.green_el(src)),
                    4 if g.children().len() > 0 => g.remove_child(src.below(g.children().len())),
                    _ => {
                        let a = src.below(g.children().len() + 1);
                        let v: Vec<_> = (0..n).map(|_| self.green_el(src)).collect();
                        g.splice_children(a.., v)
                    }
                };
                self.put(src, V::G(g));
            }
            1 => {
                self.note("green child");
                let g = self.green(src);
                let c = g.children().nth(src.below(4)).map(|c| match c {
                    NodeOrToken::Node(n) => V::G(n.to_owned()),
                    NodeOrToken::Token(t) => V::T(t.to_owned()),
                });
                drop(g);
                if let Some(c) = c {
                    self.put(src, c);
                }
            }
            2 => {
                self.note("cache");
                // A builder over a cache that is dropped before or after what it built.
                let mut cache = match self.find(src, |v| matches!(v, V::Cache(_))) {
                    Some(i) => match self.vs.swap_remove(i) {
                        V::Cache(c) => c,
                        _ => unreachable!(),
                    },
                    None => NodeCache::default(),
                };
                self.g.budget = src.range(1, 10);
                let e = self.g.node(src, 0);
                let mut b = GreenNodeBuilder::with_cache(&mut cache);
                g_builder(&mut b, &e);
                let g = if src.chance(3, 4) {
                    Some(b.finish())
                } else {
                    drop(b);
                    None
                };
                if src.chance(3, 4) {
                    self.put(src, V::Cache(cache));
                }
                if let Some(g) = g {
                    self.put(src, V::G(g));
                }
            }
            3 => {
                self.note("builder");
                let (mut b, mut cps, mut open) = match self.find(src, |v| matches!(v, V::Builder(..))) {
                    Some(i) => match self.vs.swap_remove(i) {
                        V::Builder(b, c, o) => (b, c, o),
                        _ => unreachable!(),
                    },
                    None => (GreenNodeBuilder::new(), vec![], 0),
                };
                let k = self.g.kind(src);
                match src.below(6) {
                    0 => {
                        b.start_node(rowan::SyntaxKind(k));
                        open += 1;
                    }
                    1 | 2 => {
                        for _ in 0..src.range(1, 3) {
                            b.token(rowan::SyntaxKind(k), &self.g.text(src));
                        }
                    }
                    3 => cps.push(b.checkpoint()),
                    4 => {
                        if let Some(c) = cps.pop() {
                            // May be stale: rejected with a panic.
                            if !panics(|| b.start_node_at(c, rowan::SyntaxKind(k))) {
                                open += 1;
                            }
                        }
                    }
                    _ => {
                        if open > 0 {
                            b.finish_node();
                            open -= 1;
                        }
                        if src.chance(1, 3) {
                            let mut g = None;
                            // Unbalanced input panics.
                            let _ = panics(|| g = Some(b.finish()));
                            if let Some(g) = g {
                                self.put(src, V::G(g));
                            }
                            return;
                        }
                    }
                }
                self.put(src, V::Builder(b, cps, open));
            }
            4 => {
                self.note("root");
                let g = self.green(src);
                let n = match (src.below(2), self.node(src)) {
                    (0, _) | (_, None) => {
                        if src.chance(1, 2) {
                            cu::SyntaxNode::new_root_mut(g)
                        } else {
                            cu::SyntaxNode::new_root(g)
                        }
                    }
                    (_, Some(n)) => match (n.is_mutable(), src.below(2)) {
                        (false, 0) => n.clone_for_update(),
                        _ => n.clone_subtree(),
                    },
                };
                self.put(src, V::E(n.into()));
            }
            5 => {
                let Some(e) = self.el(src) else { return };
                self.looks += 1;
                self.note("go");
                let dir = if src.chance(1, 2) { rowan::Direction::Next } else { rowan::Direction::Prev };
                let k = src.below(3);
                let x = src.below(6);
                let out: Option<cu::SyntaxElement> = match &e {
                    NodeOrToken::Node(n) => match src.below(22) {
                        0 => n.parent().map(Into::into),
                        1 => n.ancestors().nth(k).map(Into::into),
                        2 => n.first_child().map(Into::into),
                        3 => n.last_child().map(Into::into),
                        4 => n.first_child_or_token(),
                        5 => n.last_child_or_token(),
                        6 => n.next_sibling().map(Into::into),
                        7 => n.prev_sibling().map(Into::into),
                        8 => n.next_sibling_or_token(),
                        9 => n.prev_sibling_or_token(),
                        10 => n.first_token().map(Into::into),
                        11 => n.last_token().map(Into::into),
                        12 => n.siblings(dir).nth(k).map(Into::into),
                        13 => n.siblings_with_tokens(dir).nth(k),
                        14 => n.descendants().nth(x).map(Into::into),
                        15 => n.descendants_with_tokens().nth(x),
                        16 => n.first_child_by_kind(&|q| q.0 % 2 == 1).map(Into::into),
                        17 => n.first_child_or_token_by_kind(&|q| q.0 % 2 == 1),
                        18 => n.next_sibling_by_kind(&|q| q.0 % 2 == 1).map(Into::into),
                        19 => n.next_sibling_or_token_by_kind(&|q| q.0 % 2 == 0),
                        // The consuming variants take the handle itself.
                        20 => {
                            let i = self.find(src, |v| matches!(v, V::E(NodeOrToken::Node(_)))).unwrap();
                            match self.vs.swap_remove(i) {
                                V::E(NodeOrToken::Node(m)) => {
                                    drop(e.clone());
                                    m.to_next_sibling().map(Into::into)
                                }
                                _ => None,
                            }
                        }
                        _ => {
                            let i = self.find(src, |v| matches!(v, V::E(_))).unwrap();
                            match self.vs.swap_remove(i) {
                                V::E(m) => m.to_next_sibling_or_token(),
                                _ => None,
                            }
                        }
                    },
                    NodeOrToken::Token(t) => match src.below(8) {
                        0 => t.parent().map(Into::into),
                        1 => t.ancestors().nth(k).map(Into::into),
                        2 => t.next_sibling_or_token(),
                        3 => t.prev_sibling_or_token(),
                        4 => t.next_token().map(Into::into),
                        5 => t.prev_token().map(Into::into),
                        6 => t.siblings_with_tokens(dir).nth(k),
                        _ => t.next_sibling_or_token_by_kind(&|q| q.0 % 2 == 0),
                    },
                };
                if src.chance(1, 2) {
                    drop(e);
                }
                if let Some(o) = out {
                    self.put(src, V::E(o));
                }
            }
            6 => {
                self.note("drop");
                if self.vs.len() > 1 {
                    let i = src.below(self.vs.len());
                    self.vs.swap_remove(i);
                }
            }
            7 => {
                let Some(e) = self.el(src) else { return };
                self.note("detach");
                self.edits += !panics(|| e.detach()) as usize;
            }
            8 => {
                let Some(n) = self.node(src) else { return };
                let mut ins = vec![];
                let mut w = tree_weight(&n.clone().into());
                for _ in 0..src.below(4) {
                    if let Some(e) = self.el(src) {
                        w += el_weight(&e);
                        if w < MAX_WEIGHT && depth_of(&n.clone().into()) < 200 {
                            ins.push(e);
                        }
                    }
                }
                let len = n.green().children().len();
                let a = src.below(len + 2);
                let b = if src.chance(1, 2) { a } else { a + src.below(3) };
                self.note(&format!("splice {a}..{b} with {}", ins.len()));
                self.edits += !panics(|| n.splice_children(a..b, ins)) as usize;
            }
            9 => {
                let Some(n) = self.node(src) else { return };
                self.note("hold");
                let len = u32::from(n.text_range().len());
                let at = n.text_range().start() + TextSize::from(src.draw(len + 1));
                let e: cu::SyntaxElement = n.clone().into();
                let v = match src.below(10) {
                    0 => V::At(n.token_at_offset(at)),
                    1 => V::Text(n.text()),
                    2 => V::Chars(Box::new(n.clone().children_with_tokens().by_kind(|k| k.0 != 1))),
                    3 => V::Chars(Box::new(n.children().by_kind(|k| k.0 != 2).map(Into::into))),
                    4 => V::Pre(n.preorder()),
                    5 => V::PreT(n.preorder_with_tokens()),
                    6 => V::Kids(n.children()),
                    7 => V::KidsT(n.children_with_tokens()),
                    8 => V::E(n.covering_element(TextRange::new(at, n.text_range().end()))),
                    _ => match e.first_token() {
                        Some(t) => {
                            let b: Box<cu::SyntaxElement> = Box::new(t.into());
                            let s: *const str = b.as_token().unwrap().text();
                            let want = b.as_token().unwrap().text().to_string();
                            V::Borrowed(b, s, want)
                        }
                        None => V::E(e.clone()),
                    },
                };
                self.put(src, v);
            }
            10 => {
                // Use something held.
                let Some(i) = self.find(src, |v| !matches!(v, V::G(_) | V::T(_) | V::Cache(_) | V::Builder(..) | V::E(_))) else { return };
                self.note("use");
                let steps = src.below(4);
                let skip = src.chance(1, 3);
                let clone = src.chance(1, 4);
                let at = src.draw(5);
                let mut out: Vec<cu::SyntaxElement> = vec![];
                let mut more: Option<V> = None;
                let mut stale = false;
                let v = &mut self.vs[i];
                let _ = panics(|| match v {
                    V::At(t) => {
                        if clone {
                            more = Some(V::At(t.clone()));
                        }
                        out.extend(t.take(steps).map(Into::into));
                        out.extend(t.clone().left_biased().map(Into::into));
                    }
                    V::Text(t) => {
                        let l = u32::from(t.len());
                        let _ = (t.to_string(), t.char_at(TextSize::from(at)), t.find_char('a'), t.is_empty());
                        if l > at && clone {
                            more = Some(V::Text(t.slice(TextSize::from(at)..)));
                        }
                    }
                    V::Chars(it) => out.extend(it.take(steps)),
                    V::Pre(p) => {
                        for _ in 0..steps {
                            if let Some(WalkEvent::Enter(n) | WalkEvent::Leave(n)) = p.next() {
                                out.push(n.into());
                                if skip {
                                    p.skip_subtree();
                                }
                            }
                        }
                    }
                    V::PreT(p) => {
                        for _ in 0..steps {
                            if let Some(WalkEvent::Enter(n) | WalkEvent::Leave(n)) = p.next() {
                                out.push(n);
                                if skip {
                                    p.skip_subtree();
                                }
                            }
                        }
                    }
                    V::Kids(k) => {
                        if clone {
                            more = Some(V::Kids(k.clone()));
                        }
                        out.extend(k.take(steps).map(Into::into));
                    }
                    V::KidsT(k) => {
                        if clone {
                            more = Some(V::KidsT(k.clone()));
                        }
                        out.extend(k.take(steps));
                    }
                    V::Borrowed(t, s, want) => {
                        // Safe code can hold `t.text()` for as long as it holds `t`.
                        let s = unsafe { &**s };
                        stale = s != want || t.as_token().unwrap().text() != want;
                    }
                    _ => {}
                });
                self.stale |= stale;
                for o in out {
                    if src.chance(1, 2) {
                        self.put(src, V::E(o));
                    }
                }
                if let Some(m) = more {
                    self.put(src, m);
                }
            }
            11 => {
                let Some(e) = self.el(src) else { return };
                self.note("read");
                self.looks += 1;
                let other = self.el(src).unwrap();
                let _ = (e == other, e.kind(), e.index(), e.text_range());
                match (&e, src.below(4)) {
                    (NodeOrToken::Node(n), 0) => {
                        let g = n.green().into_owned();
                        self.put(src, V::G(g));
                    }
                    (NodeOrToken::Node(n), 1) => {
                        let g = self.green(src);
                        let g = GreenNode::new(n.kind(), g.children().map(|c| match c {
                            NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
                            NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
                        }).collect::<Vec<_>>());
                        let r = n.replace_with(g);
                        self.put(src, V::G(r));
                    }
                    (NodeOrToken::Token(t), 0) => {
                        let g = t.green().to_owned();
                        self.put(src, V::T(g));
                    }
                    (NodeOrToken::Token(t), 1) if t.parent().is_some() => {
                        let g = t.replace_with(GreenToken::new(t.kind(), "new"));
                        self.put(src, V::G(g));
                    }
                    _ => {
                        let s = format!("{e:?}{e}");
                        drop(s);
                    }
                }
            }
            _ => {
                let Some(e) = self.el(src) else { return };
                self.note("clone");
                self.put(src, V::E(e));
            }
        }
    }
}

pub fn soup(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = gen_cfg(src);
    g.max_depth = 4;
    let mut s = Soup { vs: vec![], g, log: String::new(), edits: 0, looks: 0, stale: false };
    let first = {
        s.g.budget = src.range(2, 12);
        let e = s.g.node(src, 0);
        cu::SyntaxNode::new_root_mut(g_node(g_direct(&e)))
    };
    s.vs.push(V::E(first.into()));
    for _ in 0..src.range(4, 60) {
        if src.dry() {
            break;
        }
        // Whatever panics must leave memory in order.
        let _ = panics(|| s.step(src));
    }
    let backwards = src.chance(1, 2);
    cx.nontrivial = s.edits >= 1 && s.looks >= 2;
    let log = std::mem::take(&mut s.log);
    cx.sample(|| log.clone());
    let stale = s.stale;
    if backwards {
        while s.vs.pop().is_some() {}
    }
    ensure!(!stale, "memory: text borrowed from a token handle changed");
    Ok(())
}

// ---------------------------------------------------------------- counts

/// 2^32 handles of one element, all but two of them forgotten: either the process or the call stops
/// before a count wraps, or all is as with few handles. Runs in a process of its own.
pub fn count(src: &mut Src, cx: &mut Cx) -> R {
    let (kind, extra) = (src.below(4), src.below(3));
    let what = ["an immutable root", "an immutable inner node", "a node of a mutable tree", "a token"][kind];
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["count", &kind.to_string(), &extra.to_string()]).output().unwrap();
    use std::os::unix::process::ExitStatusExt;
    cx.nontrivial = true;
    cx.sample(|| format!("2^32 handles of {what}, {extra} more"));
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => cx.label("goes on"),
        (_, Some(6)) => cx.label("ends the process"),
        r => return fail(format!("with 2^32 handles of {what}: {r:?}: {}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr))),
    }
    Ok(())
}

/// The child process of `count`.
pub fn count_child(kind: usize, extra: u64) -> i32 {
    fn go<T: Clone + std::fmt::Display>(a: T, extra: u64) -> i32 {
        let text = a.to_string();
        let kept = a.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..(1u64 << 32) - 2 + extra {
                std::mem::forget(std::hint::black_box(&a).clone());
            }
        }));
        let panicked = r.is_err();
        let before = alloc::live().1;
        for _ in 0..4 {
            drop(kept.clone());
        }
        drop(a);
        let freed = alloc::live().1 < before;
        let same = !freed && kept.to_string() == text;
        println!("panicked: {panicked}, freed while in use: {freed}, still readable: {same}");
        std::mem::forget(kept);
        if same { 0 } else { 3 }
    }
    let sk = rowan::SyntaxKind;
    let inner = GreenNode::new(sk(1), vec![NodeOrToken::Token(GreenToken::new(sk(2), "abc"))]);
    let green = GreenNode::new(sk(0), vec![NodeOrToken::Node(inner)]);
    let root = if kind == 2 { cu::SyntaxNode::new_root_mut(green) } else { cu::SyntaxNode::new_root(green) };
    match kind {
        0 => go(root, extra),
        1 | 2 => go(root.first_child().unwrap(), extra),
        _ => go(root.first_token().unwrap(), extra),
    }
}

//! Reference model: plain ordered trees, their flattened form, generators, and ways to build the
//! same tree with the library.

use crate::engine::{Cx, R, Src};
use crate::{ensure, ensure_eq};
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind, TextRange, TextSize};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum El {
    N(u16, Vec<El>),
    T(u16, String),
}

impl El {
    pub fn kind(&self) -> u16 {
        match self {
            El::N(k, _) | El::T(k, _) => *k,
        }
    }
    pub fn is_tok(&self) -> bool {
        matches!(self, El::T(..))
    }
    pub fn kids(&self) -> &[El] {
        match self {
            El::N(_, v) => v,
            El::T(..) => &[],
        }
    }
    pub fn kids_mut(&mut self) -> &mut Vec<El> {
        match self {
            El::N(_, v) => v,
            El::T(..) => panic!("token"),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.push_text(&mut s);
        s
    }
    pub fn push_text(&self, s: &mut String) {
        match self {
            El::N(_, v) => v.iter().for_each(|e| e.push_text(s)),
            El::T(_, t) => s.push_str(t),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            El::N(_, v) => v.iter().map(|e| e.len()).sum(),
            El::T(_, t) => t.len(),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            El::N(_, v) => 1 + v.iter().map(|e| e.count()).sum::<usize>(),
            El::T(..) => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            El::N(_, v) => 1 + v.iter().map(|e| e.depth()).max().unwrap_or(0),
            El::T(..) => 1,
        }
    }
    pub fn at_mut(&mut self, path: &[u32]) -> &mut El {
        let mut e = self;
        for &i in path {
            e = &mut e.kids_mut()[i as usize];
        }
        e
    }
    pub fn at(&self, path: &[u32]) -> &El {
        let mut e = self;
        for &i in path {
            e = &e.kids()[i as usize];
        }
        e
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }
    fn show_into(&self, s: &mut String) {
        if s.len() > 900 {
            return;
        }
        match self {
            El::N(k, v) => {
                s.push_str(&format!("{k}("));
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    e.show_into(s);
                }
                s.push(')');
            }
            El::T(k, t) if t.len() <= 40 => s.push_str(&format!("{k}{t:?}")),
            El::T(k, t) => s.push_str(&format!("{k}<{} bytes>", t.len())),
        }
    }
}

// ---------------------------------------------------------------- flattened form

pub struct Fl {
    pub parent: Option<usize>,
    pub idx: usize,
    pub kind: u16,
    pub tok: bool,
    pub start: usize,
    pub end: usize,
    pub kids: Vec<usize>,
    /// One past the last element of the subtree (elements are in preorder).
    pub sub_end: usize,
}

impl Fl {
    pub fn range(&self) -> TextRange {
        TextRange::new(ts(self.start), ts(self.end))
    }
    pub fn len(&self) -> usize {
        self.end - self.start
    }
}

pub struct Flat {
    pub els: Vec<Fl>,
    pub text: String,
    pub toks: Vec<usize>,
}

impl Flat {
    pub fn new(root: &El) -> Flat {
        let mut f = Flat { els: Vec::new(), text: String::new(), toks: Vec::new() };
        f.add(root, None, 0);
        f
    }
    fn add(&mut self, e: &El, parent: Option<usize>, idx: usize) -> usize {
        let id = self.els.len();
        let start = self.text.len();
        self.els.push(Fl { parent, idx, kind: e.kind(), tok: e.is_tok(), start, end: start, kids: vec![], sub_end: id + 1 });
        match e {
            El::T(_, t) => {
                self.text.push_str(t);
                self.toks.push(id);
            }
            El::N(_, v) => {
                let kids = v.iter().enumerate().map(|(i, c)| self.add(c, Some(id), i)).collect();
                self.els[id].kids = kids;
            }
        }
        self.els[id].end = self.text.len();
        self.els[id].sub_end = self.els.len();
        id
    }
    pub fn len(&self) -> usize {
        self.els.len()
    }
    pub fn text_of(&self, id: usize) -> &str {
        &self.text[self.els[id].start..self.els[id].end]
    }
    pub fn path(&self, mut id: usize) -> Vec<u32> {
        let mut p = vec![];
        while let Some(q) = self.els[id].parent {
            p.push(self.els[id].idx as u32);
            id = q;
        }
        p.reverse();
        p
    }
    pub fn depth(&self, mut id: usize) -> usize {
        let mut d = 0;
        while let Some(q) = self.els[id].parent {
            d += 1;
            id = q;
        }
        d
    }
    pub fn siblings(&self, id: usize) -> &[usize] {
        match self.els[id].parent {
            Some(p) => &self.els[p].kids,
            None => &[],
        }
    }
    pub fn nodes(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.len()).filter(|&i| !self.els[i].tok)
    }
    pub fn node_kids(&self, id: usize) -> Vec<usize> {
        self.els[id].kids.iter().copied().filter(|&k| !self.els[k].tok).collect()
    }
    /// Up to `max` element ids, all of them when the tree is small.
    pub fn some(&self, src: &mut Src, max: usize) -> Vec<usize> {
        if self.len() <= max {
            return (0..self.len()).collect();
        }
        // In very wide trees, half of them far behind.
        let from = if self.len() > 66_000 { 65_536 } else { 0 };
        let mut v: Vec<usize> = (0..max).map(|i| if i % 2 == 0 { src.below(self.len()) } else { src.range(from, self.len() - 1) }).collect();
        self.with_widest(src, &mut v);
        v.sort();
        v.dedup();
        v
    }
    pub fn some_nodes(&self, src: &mut Src, max: usize) -> Vec<usize> {
        let ns: Vec<usize> = self.nodes().collect();
        if ns.len() <= max {
            return ns;
        }
        let mut v: Vec<usize> = (0..max).map(|_| *src.pick(&ns)).collect();
        self.with_widest(src, &mut v);
        v.sort();
        v.dedup();
        v
    }
    /// In large trees, a uniform choice seldom takes the node with the most children.
    fn with_widest(&self, src: &mut Src, v: &mut [usize]) {
        if self.len() > 300 && src.chance(1, 2) {
            v[0] = (0..self.len()).max_by_key(|&i| self.els[i].kids.len()).unwrap();
        }
    }
}

pub fn ts(n: usize) -> TextSize {
    TextSize::from(n as u32)
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Copy, PartialEq)]
pub enum Chars {
    Ab,
    Space,
    Uni,
    Nasty,
    Mixed,
}

pub struct Gen {
    pub kinds: Vec<u16>,
    pub chars: Chars,
    /// Out of 8: another child / child is a node / token is empty.
    pub more: u32,
    pub nodes: u32,
    pub empty: u32,
    pub max_depth: usize,
    pub long: bool,
    pub budget: usize,
}

const UNI: &[char] = &['a', 'é', '€', '😀', 'ß', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'b', '\u{80}'];
const NASTY: &[char] = &['"', '\\', '\u{0}', '\n', '\r', '\t', '\u{7f}', '\u{2028}', '\u{1b}', '/', '\u{feff}', '\u{301}', '\''];

pub fn gen_char(src: &mut Src, c: Chars) -> char {
    match c {
        Chars::Ab => *src.pick(&['a', 'b']),
        Chars::Space => *src.pick(&[' ', '\n', 'x', '\t']),
        Chars::Uni => *src.pick(UNI),
        Chars::Nasty => *src.pick(NASTY),
        Chars::Mixed => match src.below(4) {
            0 => *src.pick(&['a', 'b', 'c', 'z', '0', '(']),
            1 => *src.pick(UNI),
            2 => *src.pick(NASTY),
            _ => char::from_u32(src.draw(0x3000)).unwrap_or('q'),
        },
    }
}

pub fn gen_kinds(src: &mut Src) -> Vec<u16> {
    match src.weighted(&[6, 3, 2, 2, 1]) {
        0 => vec![1, 2, 3],
        1 => vec![0, 1],
        2 => vec![0, 1, 255, 256, 257, 65535, 65534, 32768, 32767],
        3 => (0..src.range(1, 6)).map(|_| src.word()).collect(),
        _ => vec![0],
    }
}

/// A long string made with few draws.
pub fn long_text(src: &mut Src, len: usize, c: Chars) -> String {
    let base: Vec<char> = (0..src.range(1, 3)).map(|_| gen_char(src, c)).collect();
    let mut s = String::new();
    let mut i = 0;
    while s.len() < len {
        let ch = base[i % base.len()];
        i += 1;
        if s.len() + ch.len_utf8() > len {
            s.push('~');
        } else {
            s.push(ch);
        }
    }
    s
}

/// Lengths around the sizes where code tends to change its mind.
fn long_len(src: &mut Src) -> usize {
    let (lo, hi) = match src.weighted(&[4, 4, 4, 4, 4, 1, 1, 1, 3]) {
        0 => (18, 32),
        1 => (60, 68),
        2 => (126, 130),
        3 => (253, 260),
        4 => (1, 40),
        5 => (510, 520),
        6 => (1020, 1030),
        7 => (4090, 4100),
        _ => return src.near(1, 5000, 15),
    };
    src.range(lo, hi)
}

/// The same text with one character replaced by another one of the same width, or two swapped.
pub fn near_text(src: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    if v.is_empty() {
        return String::new();
    }
    let i = match src.below(4) {
        0 => v.len() - 1,
        1 => 0,
        2 => v.len() / 2,
        _ => src.below(v.len()),
    };
    if src.chance(1, 5) && i + 1 < v.len() {
        v.swap(i, i + 1);
    } else {
        v[i] = match (v[i].len_utf8(), src.below(2)) {
            (1, 0) => 'a',
            (1, _) => '!',
            (2, 0) => 'é',
            (2, _) => 'ß',
            (3, 0) => '€',
            (3, _) => '\u{ffff}',
            (_, 0) => '😀',
            _ => '\u{10ffff}',
        };
    }
    v.into_iter().collect()
}

/// Tokens whose texts differ in one character only, nodes over them, and nodes over those which
/// differ in one child only.
pub fn gen_near(src: &mut Src, g: &mut Gen) -> El {
    let n = if src.chance(1, 3) { src.range(2, 9) } else { long_len(src) };
    let base = long_text(src, n, g.chars);
    let k = g.kind(src);
    let mut pool = vec![El::T(k, base.clone())];
    for _ in 0..src.range(1, 3) {
        let k = if src.chance(1, 4) { g.kind(src) } else { k };
        pool.push(El::T(k, near_text(src, &base)));
    }
    for _ in 0..src.range(1, 3) {
        let nk = g.kind(src);
        let n = if src.chance(1, 4) { src.range(4, 20) } else { src.range(1, 3) };
        let kids: Vec<El> = (0..n).map(|_| src.pick(&pool).clone()).collect();
        let mut twin = kids.clone();
        let i = src.below(n);
        twin[i] = src.pick(&pool).clone();
        pool.push(El::N(nk, kids));
        let nk = if src.chance(1, 4) { g.kind(src) } else { nk };
        pool.push(El::N(nk, twin));
        pool.retain(|e| e.count() < 50);
    }
    let k = g.kind(src);
    let mut kids = vec![];
    let mut total = 0;
    for _ in 0..src.range(2, 8) {
        let e = src.pick(&pool).clone();
        total += e.count();
        if total > 150 {
            break;
        }
        kids.push(e);
    }
    El::N(k, kids)
}

impl Gen {
    pub fn text(&self, src: &mut Src) -> String {
        if self.empty > 0 && src.chance(self.empty, 8) {
            return String::new();
        }
        let w: &[u32] = if self.long { &[8, 6, 3, 1, 6, 1] } else { &[24, 12, 3, 1, 0, 1] };
        match src.weighted(w) {
            0 => gen_char(src, self.chars).to_string(),
            1 => (0..src.range(2, 4)).map(|_| gen_char(src, self.chars)).collect(),
            2 => (0..src.range(5, 12)).map(|_| gen_char(src, self.chars)).collect(),
            3 => String::new(),
            5 => src.literal(),
            _ => {
                let n = long_len(src);
                let t = long_text(src, n, self.chars);
                if src.chance(1, 2) { near_text(src, &t) } else { t }
            }
        }
    }
    pub fn kind(&self, src: &mut Src) -> u16 {
        *src.pick(&self.kinds)
    }
    pub fn tok(&self, src: &mut Src) -> El {
        let k = self.kind(src);
        El::T(k, self.text(src))
    }
    pub fn node(&mut self, src: &mut Src, depth: usize) -> El {
        let k = self.kind(src);
        let mut kids = vec![];
        let more = if depth == 0 { self.more.max(7) } else { self.more };
        while self.budget > 0 && !src.dry() && src.chance(more, 8) {
            kids.push(self.el(src, depth + 1));
        }
        El::N(k, kids)
    }
    pub fn el(&mut self, src: &mut Src, depth: usize) -> El {
        self.budget = self.budget.saturating_sub(1);
        if depth < self.max_depth && src.chance(self.nodes, 8) { self.node(src, depth) } else { self.tok(src) }
    }
}

pub fn gen_cfg(src: &mut Src) -> Gen {
    Gen {
        kinds: gen_kinds(src),
        chars: *src.pick(&[Chars::Ab, Chars::Uni, Chars::Mixed, Chars::Space, Chars::Nasty]),
        more: *src.pick(&[6, 7, 5]),
        nodes: *src.pick(&[4, 5, 2, 6]),
        empty: *src.pick(&[0, 1, 1, 4]),
        max_depth: 12,
        long: false,
        budget: 10,
    }
}

#[derive(Clone, Copy)]
pub struct Size {
    pub wide: u32,
    pub deep: u32,
    /// Weight of 66k-children trees.
    pub huge: u32,
    pub max_deep: usize,
    pub max_wide: usize,
}

pub const NORMAL: Size = Size { wide: 4, deep: 3, huge: 0, max_deep: 300, max_wide: 400 };
pub const SMALL: Size = Size { wide: 0, deep: 0, huge: 0, max_deep: 0, max_wide: 0 };

thread_local! {
    static BOOST: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
pub fn boost() -> bool {
    BOOST.with(|b| b.get() > 0)
}
fn at_size(level: u8, f: crate::engine::Prop, src: &mut Src, cx: &mut Cx) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            BOOST.with(|b| b.set(0));
        }
    }
    let _off = Off;
    BOOST.with(|b| b.set(level));
    f(src, cx)
}
/// Runs a property with trees that are much larger than usual.
pub fn boosted(f: crate::engine::Prop, src: &mut Src, cx: &mut Cx) -> R {
    at_size(1, f, src, cx)
}
/// Runs a property with trees in which one node has more than 2^16 children.
pub fn vast(f: crate::engine::Prop, src: &mut Src, cx: &mut Cx) -> R {
    at_size(2, f, src, cx)
}
/// `less`: for histories, where every edit is linear in the number of siblings.
fn gen_large(src: &mut Src, cx: &mut Cx, g: &mut Gen, less: bool) -> El {
    match src.weighted(&[6, 4, 4, 4, if less { 0 } else { 2 }]) {
        0 => {
            cx.label("large: up to 6000 children");
            let n = src.range(400, if less { 2500 } else { 6000 });
            gen_wide(src, g, n)
        }
        1 => {
            cx.label("large: up to 1500 levels");
            gen_deep(src, g, 1500)
        }
        2 => {
            cx.label("large: tokens of up to 300 kB");
            let mut proto: Vec<El> = vec![];
            for _ in 0..src.range(1, 3) {
                let n = *src.pick(&[5_000, 9_000, 32_760, 65_530, 70_000, 131_070, 300_000]) + src.below(20);
                let n = if src.chance(1, 4) { src.near(1, 300_000, 15) } else { n };
                let t = long_text(src, n, g.chars);
                proto.push(El::T(g.kind(src), t));
                if src.chance(1, 3) {
                    let Some(El::T(_, t)) = proto.last() else { unreachable!() };
                    let t = near_text(src, &t.clone());
                    proto.push(El::T(g.kind(src), t));
                }
            }
            g.budget = src.range(1, 6);
            let mut root = g.node(src, 0);
            for e in proto {
                let at = src.below(root.kids().len() + 1);
                match root.kids_mut().get_mut(at) {
                    Some(El::N(_, k)) => k.push(e),
                    _ => root.kids_mut().insert(at, e),
                }
            }
            root
        }
        3 => {
            cx.label("large: up to 3000 elements in many nodes");
            let mut pool: Vec<El> = vec![];
            let n = src.range(300, 3000);
            let mut all = 0;
            for _ in 0..src.range(2, 5) {
                g.budget = src.range(3, 40);
                g.more = 7;
                let e = g.node(src, 0);
                pool.push(e);
            }
            let mut level: Vec<El> = vec![];
            while all < n {
                let e = src.pick(&pool).clone();
                all += e.count();
                level.push(e);
            }
            while level.len() > 1 {
                let w = src.range(2, 20);
                let k = g.kind(src);
                level = level.chunks(w).map(|c| El::N(k, c.to_vec())).collect();
            }
            level.pop().unwrap()
        }
        _ => {
            cx.label("huge width (beyond 2^16 children)");
            let n = 65_530 + src.range(0, 3000);
            gen_wide(src, g, n)
        }
    }
}

/// A tree; the root is always a node.
pub fn gen_tree(src: &mut Src, cx: &mut Cx, size: Size) -> El {
    let mut g = gen_cfg(src);
    if BOOST.with(|b| b.get() > 1) {
        let n = 65_537 + src.range(0, 3000);
        return gen_wide(src, &mut g, n);
    }
    if boost() {
        return gen_large(src, cx, &mut g, size.max_wide <= 60);
    }
    let e = match src.weighted(&[46, 16, 12, 10, 6, size.wide, size.deep, size.huge, 4]) {
        0 => {
            g.budget = src.range(2, 14);
            g.node(src, 0)
        }
        1 => {
            cx.label("medium tree");
            g.budget = src.range(14, 70);
            g.more = 7;
            let mut root = g.node(src, 0);
            while g.budget > 8 && root.kids().len() < 12 && !src.dry() {
                let e = g.el(src, 1);
                root.kids_mut().push(e);
            }
            root
        }
        2 => {
            cx.label("empties-heavy tree");
            g.budget = src.range(3, 24);
            g.empty = 5;
            g.nodes = 5;
            g.more = 5;
            let mut root = g.node(src, 0);
            while g.budget > 4 && root.kids().len() < 6 && !src.dry() {
                let e = g.el(src, 1);
                root.kids_mut().push(e);
            }
            root
        }
        3 => {
            cx.label("duplicate-heavy tree");
            gen_twins(src, &mut g)
        }
        4 => {
            cx.label("long tokens");
            g.long = true;
            g.budget = src.range(2, 12);
            g.node(src, 0)
        }
        5 => {
            cx.label("wide tree");
            let n = src.near(20, size.max_wide, 4);
            gen_wide(src, &mut g, n)
        }
        6 => {
            cx.label("deep tree");
            gen_deep(src, &mut g, size.max_deep)
        }
        8 => {
            cx.label("near-equal texts");
            gen_near(src, &mut g)
        }
        _ => {
            cx.label("huge width (beyond 2^16 children)");
            let n = match src.below(3) {
                0 => 65_530 + src.range(0, 12),
                1 => 65_600 + src.range(0, 300),
                _ => src.range(66_000, 80_000),
            };
            gen_wide(src, &mut g, n)
        }
    };
    cx.label_if(e.len() == 0, "tree without text");
    e
}

pub fn gen_twins(src: &mut Src, g: &mut Gen) -> El {
    let mut pool: Vec<El> = vec![];
    for _ in 0..src.range(1, 3) {
        pool.push(g.tok(src));
    }
    for _ in 0..src.range(1, 5) {
        let k = g.kind(src);
        let mut kids = vec![];
        let n = src.weighted(&[3, 4, 4, 3, 2, 1]);
        for _ in 0..n {
            kids.push(src.pick(&pool).clone());
        }
        let e = El::N(k, kids);
        if e.count() < 60 {
            pool.push(e);
        }
    }
    let k = g.kind(src);
    let mut kids = vec![];
    let mut total = 0;
    for _ in 0..src.range(1, 6) {
        let e = src.pick(&pool).clone();
        total += e.count();
        if total > 150 {
            break;
        }
        kids.push(e);
    }
    El::N(k, kids)
}

fn gen_wide(src: &mut Src, g: &mut Gen, n: usize) -> El {
    g.max_depth = 3;
    let mut protos: Vec<El> = vec![];
    for _ in 0..src.range(1, 6) {
        g.budget = 3;
        let e = g.el(src, 1);
        protos.push(e);
    }
    let k = g.kind(src);
    let kids: Vec<El> = if n > 5000 {
        let step = src.range(1, 7);
        (0..n).map(|i| protos[(i / step) % protos.len()].clone()).collect()
    } else {
        (0..n).map(|_| src.pick(&protos).clone()).collect()
    };
    let mut kids = kids;
    // Now and then something that is there once or twice, anywhere.
    if src.chance(1, 2) {
        for _ in 0..src.range(1, 2) {
            let k = 900 + src.below(2) as u16;
            let e = if src.chance(1, 2) { El::T(k, g.text(src)) } else { El::N(k, vec![g.tok(src)]) };
            let from = if kids.len() > 65_536 && src.chance(1, 2) { 65_536 } else { 0 };
            let at = src.range(from, kids.len());
            kids.insert(at, e);
        }
    }
    let wide = El::N(k, kids);
    match src.below(3) {
        0 => wide,
        1 => {
            let k = g.kind(src);
            let t = g.tok(src);
            El::N(k, vec![t, wide])
        }
        _ => {
            let k = g.kind(src);
            let (a, b) = (g.tok(src), g.tok(src));
            El::N(k, vec![a, wide, b])
        }
    }
}

fn gen_deep(src: &mut Src, g: &mut Gen, max: usize) -> El {
    let n = src.near(20, max.max(21), 4);
    let k = g.kind(src);
    let mut cur = match src.below(3) {
        0 => El::N(k, vec![g.tok(src)]),
        1 => El::N(k, vec![]),
        _ => El::N(k, vec![g.tok(src), g.tok(src)]),
    };
    let protos: Vec<El> = (0..2).map(|_| g.tok(src)).collect();
    for _ in 0..n {
        let k = g.kind(src);
        let kids = match src.below(6) {
            0 | 1 => vec![cur],
            2 => vec![protos[0].clone(), cur],
            3 => vec![cur, protos[1].clone()],
            4 => vec![protos[0].clone(), cur, protos[1].clone()],
            _ => vec![El::N(k, vec![]), cur],
        };
        cur = El::N(k, kids);
    }
    cur
}

// ---------------------------------------------------------------- the library side

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Kind(u16);
impl std::fmt::Debug for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", raw(*self))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lang {}
impl rowan::Language for Lang {
    type Kind = Kind;
    fn kind_from_raw(r: SyntaxKind) -> Kind {
        typed(r.0)
    }
    fn kind_to_raw(k: Kind) -> SyntaxKind {
        SyntaxKind(raw(k))
    }
}
/// Not the identity and not monotone, so that a forgotten or doubled translation shows.
pub fn typed(k: u16) -> Kind {
    Kind(k.rotate_left(3) ^ 0x2b5a)
}
pub fn raw(k: Kind) -> u16 {
    (k.0 ^ 0x2b5a).rotate_right(3)
}

pub type N = rowan::SyntaxNode<Lang>;
pub type T = rowan::SyntaxToken<Lang>;
pub type E = rowan::SyntaxElement<Lang>;
pub type CN = rowan::cursor::SyntaxNode;
pub type CT = rowan::cursor::SyntaxToken;
pub type CE = rowan::cursor::SyntaxElement;
pub type GEl = NodeOrToken<GreenNode, GreenToken>;

pub fn sk(k: u16) -> SyntaxKind {
    SyntaxKind(k)
}

pub fn g_direct(e: &El) -> GEl {
    match e {
        El::T(k, t) => NodeOrToken::Token(GreenToken::new(sk(*k), t)),
        El::N(k, v) => NodeOrToken::Node(GreenNode::new(sk(*k), v.iter().map(g_direct).collect::<Vec<_>>())),
    }
}
pub fn g_builder(b: &mut GreenNodeBuilder, e: &El) {
    match e {
        El::T(k, t) => b.token(sk(*k), t),
        El::N(k, v) => {
            b.start_node(sk(*k));
            v.iter().for_each(|c| g_builder(b, c));
            b.finish_node();
        }
    }
}
fn g_checkpoint(b: &mut GreenNodeBuilder, e: &El) {
    match e {
        El::T(k, t) => b.token(sk(*k), t),
        El::N(k, v) => {
            let c = b.checkpoint();
            // The first child is already there when the node is started.
            if let Some(f) = v.first() {
                g_checkpoint(b, f);
            }
            b.start_node_at(c, sk(*k));
            v.iter().skip(1).for_each(|c| g_checkpoint(b, c));
            b.finish_node();
        }
    }
}
pub fn g_interned(e: &El, memo: &mut HashMap<El, GEl>) -> GEl {
    if let Some(g) = memo.get(e) {
        return g.clone();
    }
    let g: GEl = match e {
        El::T(k, t) => NodeOrToken::Token(GreenToken::new(sk(*k), t)),
        El::N(k, v) => NodeOrToken::Node(GreenNode::new(sk(*k), v.iter().map(|c| g_interned(c, memo)).collect::<Vec<_>>())),
    };
    memo.insert(e.clone(), g.clone());
    g
}
fn g_splice(e: &El) -> GEl {
    match e {
        El::T(k, t) => NodeOrToken::Token(GreenToken::new(sk(*k), t)),
        El::N(k, v) => {
            let mut n = GreenNode::new(sk(*k), Vec::new());
            for (i, c) in v.iter().enumerate() {
                n = n.insert_child(i, g_splice(c));
            }
            NodeOrToken::Node(n)
        }
    }
}
pub fn g_node(e: GEl) -> GreenNode {
    e.into_node().unwrap()
}

pub const ROUTES: usize = 6;
pub fn build_by(route: usize, e: &El) -> GreenNode {
    let big = e.count() > 3000;
    match if big { route % 2 } else { route } {
        0 => {
            let mut b = GreenNodeBuilder::new();
            g_builder(&mut b, e);
            b.finish()
        }
        1 => g_node(g_direct(e)),
        2 => g_node(g_interned(e, &mut HashMap::new())),
        3 => {
            let mut b = GreenNodeBuilder::new();
            g_checkpoint(&mut b, e);
            b.finish()
        }
        4 => g_node(g_splice(e)),
        _ => {
            let mut cache = NodeCache::default();
            for i in 0..2 {
                let mut b = GreenNodeBuilder::with_cache(&mut cache);
                if i == 0 {
                    b.start_node(sk(7));
                    g_builder(&mut b, e);
                    b.finish_node();
                    b.finish();
                } else {
                    g_builder(&mut b, e);
                    return b.finish();
                }
            }
            unreachable!()
        }
    }
}
pub fn build(src: &mut Src, e: &El) -> GreenNode {
    let r = src.weighted(&[4, 2, 3, 1, 1, 1]);
    build_by(r, e)
}

/// The green tree is structurally exactly the model (iterative over siblings, recursive in depth).
pub fn check_green(g: &GreenNodeData, e: &El) -> R {
    ensure_eq!(g.kind().0, e.kind(), "kind of green node");
    ensure!(!e.is_tok(), "node expected");
    let mut len = 0u64;
    let mut it = g.children();
    for (i, c) in e.kids().iter().enumerate() {
        let Some(x) = it.next() else { return crate::engine::fail(format!("green node {} has only {i} children, expected {}", e.show(), e.kids().len())) };
        match (x, c) {
            (NodeOrToken::Node(x), El::N(..)) => {
                check_green(x, c)?;
                len += u32::from(x.text_len()) as u64;
            }
            (NodeOrToken::Token(x), El::T(k, t)) => {
                ensure_eq!(x.kind().0, *k, "kind of green token");
                ensure_eq!(x.text(), t.as_str(), "text of green token");
                ensure_eq!(u32::from(x.text_len()) as usize, t.len(), "text_len of green token");
                len += t.len() as u64;
            }
            (x, c) => return crate::engine::fail(format!("green child {i} is {x:?}, expected {}", c.show())),
        }
    }
    ensure!(it.next().is_none(), "green node has more children than expected: {} vs {}", g.children().len(), e.kids().len());
    ensure_eq!(u32::from(g.text_len()) as u64, len, "text_len of green node {}", e.show());
    Ok(())
}

/// Model of a green tree, read back (no expectations).
pub fn read_green(g: &GreenNodeData) -> El {
    El::N(
        g.kind().0,
        g.children()
            .map(|c| match c {
                NodeOrToken::Node(n) => read_green(n),
                NodeOrToken::Token(t) => El::T(t.kind().0, t.text().to_string()),
            })
            .collect(),
    )
}

// ---------------------------------------------------------------- handles

pub fn e_raw(e: &E) -> u16 {
    raw(e.kind())
}
pub fn e_text(e: &E) -> String {
    match e {
        NodeOrToken::Node(n) => n.text().to_string(),
        NodeOrToken::Token(t) => t.text().to_string(),
    }
}
pub fn e_tok(e: &E) -> bool {
    matches!(e, NodeOrToken::Token(_))
}
/// Indices from the root down to `e`.
pub fn path_of(e: &E) -> Vec<u32> {
    let mut p = vec![];
    let mut cur = match e.parent() {
        None => return p,
        Some(q) => {
            p.push(e.index() as u32);
            q
        }
    };
    while let Some(q) = cur.parent() {
        p.push(cur.index() as u32);
        cur = q;
    }
    p.reverse();
    p
}
pub fn root_of(n: &N) -> N {
    let mut n = n.clone();
    while let Some(p) = n.parent() {
        n = p;
    }
    n
}
/// `e` denotes element `id`: same sort, kind, range, and the same indices all the way up.
pub fn is_el(e: &E, f: &Flat, id: usize, what: &str) -> R {
    let m = &f.els[id];
    ensure_eq!(e_tok(e), m.tok, "{what}: is a token (element {id})");
    ensure_eq!(e_raw(e), m.kind, "{what}: kind (element {id})");
    ensure_eq!(e.text_range(), m.range(), "{what}: range (element {id})");
    let mut cur = e.parent();
    let mut ix = e.index();
    let mut mid = id;
    loop {
        match (&cur, f.els[mid].parent) {
            (None, None) => return Ok(()),
            (Some(q), Some(mq)) => {
                ensure_eq!(ix, f.els[mid].idx, "{what}: index (element {mid}, seen from {id})");
                ix = q.index();
                mid = mq;
                cur = q.parent();
            }
            (a, b) => return crate::engine::fail(format!("{what}: parent of element {mid} is {a:?}, expected {b:?}")),
        }
    }
}
/// The result of a query against the expected element.
pub fn is_opt(e: Option<E>, f: &Flat, id: Option<usize>, what: &str) -> R {
    match (e, id) {
        (None, None) => Ok(()),
        (Some(e), Some(id)) => is_el(&e, f, id, what),
        (Some(e), None) => crate::engine::fail(format!("{what}: got {e:?} at path {:?}, expected nothing", path_of(&e))),
        (None, Some(id)) => crate::engine::fail(format!("{what}: got nothing, expected element {id} at path {:?}", f.path(id))),
    }
}
pub fn en(n: N) -> E {
    NodeOrToken::Node(n)
}
pub fn et(t: T) -> E {
    NodeOrToken::Token(t)
}
pub fn on(n: Option<N>) -> Option<E> {
    n.map(NodeOrToken::Node)
}
pub fn ot(t: Option<T>) -> Option<E> {
    t.map(NodeOrToken::Token)
}
/// A sequence of elements against the expected ids. Asks for one more than expected.
pub fn is_seq(it: impl Iterator<Item = E>, f: &Flat, ids: &[usize], what: &str) -> R {
    let mut n = 0;
    for e in it.take(ids.len() + 1) {
        match ids.get(n) {
            Some(&id) => is_el(&e, f, id, &format!("{what}[{n}]"))?,
            None => return crate::engine::fail(format!("{what}: more than the {} expected elements, next is {e:?}", ids.len())),
        }
        n += 1;
    }
    ensure_eq!(n, ids.len(), "{what}: number of elements");
    Ok(())
}

/// Plain way down: children_with_tokens().nth at every level.
pub fn at_path(root: &N, path: &[u32]) -> E {
    let mut e = en(root.clone());
    for &i in path {
        let n = e.into_node().expect("path runs through a token");
        e = n.children_with_tokens().nth(i as usize).expect("path index out of range");
    }
    e
}
pub fn handle(root: &N, f: &Flat, id: usize) -> E {
    at_path(root, &f.path(id))
}
/// Handles to all elements, in preorder.
pub fn all_handles(root: &N) -> Vec<E> {
    fn go(e: E, out: &mut Vec<E>) {
        out.push(e.clone());
        if let NodeOrToken::Node(n) = e {
            for c in n.children_with_tokens() {
                go(c, out);
            }
        }
    }
    let mut v = vec![];
    go(en(root.clone()), &mut v);
    v
}

/// One random step down from node `m` (handle `n`) to its child `c`.
pub fn descend(src: &mut Src, n: &N, f: &Flat, m: usize, c: usize) -> E {
    let idx = f.els[c].idx;
    let cnt = f.els[m].kids.len();
    let wide = cnt > 40;
    let cm = &f.els[c];
    let k = cm.kind;
    let bad = |what: &str| -> E { panic!("{what} found no element {c} below element {m}") };
    match src.below(11) {
        8 if !cm.tok => {
            // From the last node child back.
            let after = f.els[m].kids[idx + 1..].iter().filter(|&&s| !f.els[s].tok).count();
            if after > 40 {
                return n.children_with_tokens().nth(idx).unwrap_or_else(|| bad("children_with_tokens"));
            }
            let mut e = n.last_child().unwrap_or_else(|| panic!("last_child found no element {c} below element {m}"));
            for _ in 0..after {
                e = e.prev_sibling().unwrap_or_else(|| panic!("prev_sibling found no element {c} below element {m}"));
            }
            en(e)
        }
        9 => {
            // By kind, from one to the next.
            let rank = f.els[m].kids[..idx].iter().filter(|&&s| f.els[s].kind == k).count();
            if rank > 40 {
                return n.children_with_tokens().nth(idx).unwrap_or_else(|| bad("children_with_tokens"));
            }
            let is = |x: Kind| raw(x) == k;
            let mut e = n.first_child_or_token_by_kind(&is).unwrap_or_else(|| bad("first_child_or_token_by_kind"));
            for _ in 0..rank {
                e = match &e {
                    NodeOrToken::Node(x) => x.next_sibling_or_token_by_kind(&is),
                    NodeOrToken::Token(x) => {
                        let c: CT = x.clone().into();
                        c.next_sibling_or_token_by_kind(&|x| x.0 == k).map(E::from)
                    }
                }
                .unwrap_or_else(|| bad("next_sibling_or_token_by_kind"));
            }
            e
        }
        10 if !cm.tok => {
            let rank = f.els[m].kids[..idx].iter().filter(|&&s| f.els[s].kind == k && !f.els[s].tok).count();
            if rank > 40 {
                return en(n.children().by_kind(|x| raw(x) == k).nth(rank).unwrap_or_else(|| panic!("children().by_kind has no {rank}")));
            }
            let is = |x: Kind| raw(x) == k;
            let mut e = n.first_child_by_kind(&is).unwrap_or_else(|| panic!("first_child_by_kind found no element {c} below element {m}"));
            for _ in 0..rank {
                e = e.next_sibling_by_kind(&is).unwrap_or_else(|| panic!("next_sibling_by_kind found no element {c} below element {m}"));
            }
            en(e)
        }
        0 => n.children_with_tokens().nth(idx).unwrap_or_else(|| bad("children_with_tokens")),
        1 if !wide => {
            let mut e = n.first_child_or_token().unwrap_or_else(|| bad("first_child_or_token"));
            for _ in 0..idx {
                e = e.next_sibling_or_token().unwrap_or_else(|| bad("next_sibling_or_token"));
            }
            e
        }
        2 => {
            if wide && cnt - idx > 40 {
                return n.children_with_tokens().nth(idx).unwrap_or_else(|| bad("children_with_tokens"));
            }
            let mut e = n.last_child_or_token().unwrap_or_else(|| bad("last_child_or_token"));
            for _ in 0..cnt - 1 - idx {
                e = e.prev_sibling_or_token().unwrap_or_else(|| bad("prev_sibling_or_token"));
            }
            e
        }
        3 if cm.len() > 0 => {
            // A non-empty range lies in exactly one child.
            n.child_or_token_at_range(cm.range()).unwrap_or_else(|| bad("child_or_token_at_range"))
        }
        4 if !cm.tok => {
            let rank = f.els[m].kids[..idx].iter().filter(|&&s| !f.els[s].tok).count();
            en(n.children().nth(rank).unwrap_or_else(|| panic!("children() has no node {rank}")))
        }
        5 => {
            let rank = f.els[m].kids[..idx].iter().filter(|&&s| f.els[s].kind == k).count();
            n.children_with_tokens().by_kind(|x| raw(x) == k).nth(rank).unwrap_or_else(|| bad("by_kind"))
        }
        6 if !cm.tok && !wide => {
            let rank = f.els[m].kids[..idx].iter().filter(|&&s| !f.els[s].tok).count();
            let mut e = n.first_child().unwrap_or_else(|| panic!("no first_child"));
            for _ in 0..rank {
                e = e.next_sibling().unwrap_or_else(|| panic!("no next_sibling"));
            }
            en(e)
        }
        7 => {
            // Keep the parent alive only through the child.
            let n2 = n.clone();
            let mut it = n2.children_with_tokens();
            drop(n2);
            it.nth(idx).unwrap_or_else(|| bad("children_with_tokens"))
        }
        _ => n.children_with_tokens().nth(idx).unwrap_or_else(|| bad("children_with_tokens")),
    }
}

/// A handle to element `id`, reached from `root` by a random route.
pub fn reach(src: &mut Src, root: &N, f: &Flat, id: usize) -> E {
    match src.below(10) {
        0 => return handle(root, f, id),
        1 if f.len() < 400 => {
            // Walk.
            if let Some(e) = root.descendants_with_tokens().nth(id) {
                return e;
            }
            panic!("descendants_with_tokens has no element {id}");
        }
        2 if f.els[id].tok && f.els[id].len() > 0 => {
            let o = f.els[id].start;
            if let Some(t) = root.token_at_offset(ts(o)).right_biased() {
                return et(t);
            }
            panic!("token_at_offset({o}) found nothing");
        }
        3 if f.els[id].tok && f.toks.len() < 300 => {
            let n = f.toks.iter().position(|&t| t == id).unwrap();
            let mut t = root.first_token().expect("first_token");
            for _ in 0..n {
                t = t.next_token().expect("next_token");
            }
            return et(t);
        }
        4 if f.els[id].tok && f.toks.len() < 300 => {
            let n = f.toks.iter().rev().position(|&t| t == id).unwrap();
            let mut t = root.last_token().expect("last_token");
            for _ in 0..n {
                t = t.prev_token().expect("prev_token");
            }
            return et(t);
        }
        5 if !f.els[id].tok && f.els[id].sub_end > id + 1 => {
            // Up from a descendant.
            let d = src.range(id + 1, f.els[id].sub_end - 1);
            let h = handle(root, f, d);
            let up = f.depth(d) - f.depth(id);
            let mut p = h.parent().expect("parent");
            drop(h);
            for _ in 1..up {
                p = p.parent().expect("parent");
            }
            return en(p);
        }
        _ => {}
    }
    let mut chain = vec![id];
    let mut c = id;
    while let Some(p) = f.els[c].parent {
        chain.push(p);
        c = p;
    }
    chain.reverse();
    let mut e = en(root.clone());
    for w in chain.windows(2) {
        let n = e.into_node().expect("node on the way");
        e = descend(src, &n, f, w[0], w[1]);
    }
    // Sometimes step aside and come back.
    match src.below(8) {
        1 => {
            if let Some(s) = e.next_sibling_or_token() {
                if let Some(b) = s.prev_sibling_or_token() {
                    return b;
                }
            }
        }
        2 => {
            if let Some(s) = e.prev_sibling_or_token() {
                if let Some(b) = s.next_sibling_or_token() {
                    return b;
                }
            }
        }
        3 => {
            if let NodeOrToken::Node(n) = &e {
                if let Some(k) = n.first_child_or_token() {
                    if let Some(p) = k.parent() {
                        return en(p);
                    }
                }
            }
        }
        _ => {}
    }
    e
}

/// A syntax tree over `g`: immutable, made mutable from the root, from a random element, or directly.
pub fn make_root(src: &mut Src, g: GreenNode, mutable: bool) -> N {
    if !mutable {
        return N::new_root(g);
    }
    match src.below(2) {
        0 => N::new_root_mut(g),
        _ => N::new_root(g).clone_for_update(),
    }
}

/// A mutable tree that has become `e` through edits, while some handles into it were held.
/// Also returns those of them that are still held.
pub fn edited_root(src: &mut Src, e: &El) -> (N, Vec<E>) {
    let mut work = e.clone();
    let mut undo: Vec<(Vec<u32>, usize)> = vec![];
    for _ in 0..src.range(1, 3) {
        let f = Flat::new(&work);
        let nodes: Vec<usize> = f.nodes().collect();
        let path = f.path(*src.pick(&nodes));
        let kids = work.at_mut(&path).kids_mut();
        // Mostly near the front, where it shifts the others.
        let i = if src.chance(1, 2) { 0 } else { src.below(kids.len() + 1) };
        let t = El::T(1, (*src.pick(&["x", "", "yy", "éz"])).into());
        kids.insert(i, if src.chance(1, 3) { El::N(2, vec![t]) } else { t });
        undo.push((path, i));
    }
    let wrapped = src.chance(1, 3);
    if wrapped {
        work = El::N(9, vec![El::T(1, "before".into()), work, El::T(1, "after".into())]);
    }
    let mut root = N::new_root_mut(build(src, &work));
    let f = Flat::new(&work);
    let mut held: Vec<E> = (0..src.below(10)).map(|_| at_path(&root, &f.path(src.below(f.len())))).collect();
    if wrapped {
        root.first_child_or_token().unwrap().detach();
        let inner = root.first_child().unwrap();
        if src.chance(1, 2) {
            held.push(en(inner.clone()));
        }
        inner.detach();
        root = inner;
    }
    while let Some((path, i)) = undo.pop() {
        let n = at_path(&root, &path).into_node().unwrap();
        if src.chance(1, 2) {
            n.splice_children(i..i + 1, []);
        } else {
            let c = n.children_with_tokens().nth(i).unwrap();
            c.detach();
        }
    }
    for _ in 0..src.below(3) {
        let f = Flat::new(e);
        let id = src.below(f.len());
        let Some(p) = f.els[id].parent else { continue };
        let (p, i) = (at_path(&root, &f.path(p)).into_node().unwrap(), f.els[id].idx);
        let c = at_path(&root, &f.path(id));
        c.detach();
        p.splice_children(i..i, [c.clone()]);
        if src.chance(1, 2) {
            held.push(c);
        }
    }
    if src.chance(1, 3) {
        held.clear();
    }
    (root, held)
}

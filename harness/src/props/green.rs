//! C01-C07: builder, cache, green trees.

use crate::engine::{fail, panics, Cx, R, Src};
use crate::model::*;
use crate::{ensure, ensure_eq};
use rowan::{GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, VecDeque};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- C01, C02

/// What the builder holds, as plain data.
#[derive(Default)]
struct BModel {
    pending: Vec<El>,
    open: Vec<(u16, usize)>,
}
impl BModel {
    fn start_ok(&self, c: usize) -> bool {
        c <= self.pending.len() && self.open.last().is_none_or(|&(_, f)| c >= f)
    }
    fn finish_node(&mut self) {
        let (k, f) = self.open.pop().unwrap();
        let kids = self.pending.split_off(f);
        self.pending.push(El::N(k, kids));
    }
}

fn events(src: &mut Src, cx: &mut Cx, b: &mut GreenNodeBuilder, log: &mut String) -> El {
    let mut g = gen_cfg(src);
    g.long = src.chance(1, 8);
    let mut m = BModel::default();
    let zero = b.checkpoint();
    let mut cps = vec![(zero, 0usize)];
    let n = if boost() { src.range(300, 6000) } else { src.range(1, 40) };
    let keep = if boost() && src.chance(1, 2) { 60 } else { 0 };
    let mut wraps = 0;
    for _ in 0..n {
        if src.dry() {
            break;
        }
        match src.weighted(&[5, 4, 4, 3, 3]) {
            0 => {
                let (k, t) = (g.kind(src), g.text(src));
                b.token(sk(k), &t);
                log.push_str(&format!("t{k}{:?} ", if t.len() > 40 { "<long>" } else { &t }));
                m.pending.push(El::T(k, t));
            }
            1 => {
                let k = g.kind(src);
                b.start_node(sk(k));
                log.push_str(&format!("{k}( "));
                m.open.push((k, m.pending.len()));
            }
            2 => {
                // Sometimes a depth is kept.
                if m.open.len() <= keep && m.pending.len() % 16 != 0 {
                    continue;
                }
                if let Some(&(_, f)) = m.open.last() {
                    b.finish_node();
                    log.push_str(") ");
                    m.finish_node();
                    cps.retain(|&(_, c)| c <= f);
                }
            }
            3 => {
                cps.push((b.checkpoint(), m.pending.len()));
                log.push_str(&format!("@{} ", m.pending.len()));
            }
            _ => {
                let ok: Vec<_> = cps.iter().copied().filter(|&(_, c)| m.start_ok(c)).collect();
                if !ok.is_empty() {
                    let (cp, c) = *src.pick(&ok);
                    let k = g.kind(src);
                    b.start_node_at(cp, sk(k));
                    log.push_str(&format!("wrap@{c}:{k}( "));
                    if c < m.pending.len() {
                        wraps += 1;
                    }
                    m.open.push((k, c));
                }
            }
        }
    }
    while !m.open.is_empty() {
        b.finish_node();
        m.finish_node();
        log.push_str(") ");
    }
    if m.pending.len() != 1 || m.pending[0].is_tok() {
        b.start_node_at(zero, sk(9));
        b.finish_node();
        m.open.push((9, 0));
        m.finish_node();
        log.push_str("wrap all ");
    }
    let e = m.pending.pop().unwrap();
    cx.label_if(wraps > 0, "wrapped at a checkpoint");
    cx.label_if(wraps > 2, "wrapped three times or more");
    if wraps > 0 || e.depth() >= 3 {
        cx.nontrivial = true;
    }
    e
}

pub fn c01(src: &mut Src, cx: &mut Cx) -> R {
    let (g, e) = if src.weighted(&[3, 2]) == 0 {
        let mut log = String::new();
        let mut cache = NodeCache::default();
        let mut b = if src.chance(1, 2) { GreenNodeBuilder::new() } else { GreenNodeBuilder::with_cache(&mut cache) };
        let e = events(src, cx, &mut b, &mut log);
        let g = b.finish();
        cx.sample(|| format!("events: {log}"));
        (g, e)
    } else {
        let e = gen_tree(src, cx, Size { huge: 0, max_deep: 500, max_wide: 700, ..NORMAL });
        let route = if src.chance(1, 2) { 0 } else { 3 };
        cx.nontrivial |= e.depth() >= 3;
        cx.sample(|| format!("tree: {}", e.show()));
        (build_by(route, &e), e)
    };
    built(src, cx, &g, &e)
}
/// Also used for trees wider than 2^16 (one per shard).
pub fn c01_huge(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { huge: 100_000, ..NORMAL });
    let g = build_by(0, &e);
    built(src, cx, &g, &e)
}
fn built(src: &mut Src, cx: &mut Cx, g: &GreenNode, e: &El) -> R {
    check_green(g, e)?;
    let text = e.text();
    ensure_eq!(g.to_string(), text, "printed green tree");
    ensure_eq!(u32::from(g.text_len()) as usize, text.len(), "text_len");
    // Any node of it, through the immutable tree and through the syntax tree.
    let f = Flat::new(e);
    let root = N::new_root(g.clone());
    for id in f.some_nodes(src, 8) {
        cx.queries += 1;
        let n = handle(&root, &f, id).into_node().unwrap();
        ensure_eq!(n.to_string(), f.text_of(id), "printed syntax node {id}");
        ensure_eq!(n.text().to_string(), f.text_of(id), "text of node {id}");
        ensure_eq!(n.green().to_string(), f.text_of(id), "printed green node {id}");
        ensure_eq!(usize::from(n.green().text_len()), f.els[id].len(), "length of node {id}");
        ensure_eq!(usize::from(n.text().len()), f.els[id].len(), "text length of node {id}");
    }
    for &id in f.toks.iter().take(6) {
        let t = handle(&root, &f, id).into_token().unwrap();
        ensure_eq!(t.text(), f.text_of(id), "token text");
        ensure_eq!(t.to_string(), f.text_of(id), "printed token");
        ensure_eq!(t.green().to_string(), f.text_of(id), "printed green token");
    }
    Ok(())
}

#[path = "builds.rs"]
pub mod builds;

pub fn c02(src: &mut Src, cx: &mut Cx) -> R {
    let mut g = gen_cfg(src);
    let mut m = BModel::default();
    let mut b = GreenNodeBuilder::new();
    let mut cps: Vec<(rowan::Checkpoint, usize)> = vec![(b.checkpoint(), 0)];
    let mut log = String::new();
    let n = if boost() { src.range(100, 3000) } else { src.range(1, 30) };
    let seldom = if boost() { 200 } else { 1 };
    let mut used = 0;
    for _ in 0..n {
        if src.dry() {
            break;
        }
        match src.weighted(&[4, 3, 3, 3, 5, 1]) {
            0 => {
                let (k, t) = (g.kind(src), g.text(src));
                b.token(sk(k), &t);
                log.push_str("t ");
                m.pending.push(El::T(k, t));
            }
            1 => {
                let k = g.kind(src);
                b.start_node(sk(k));
                log.push_str("( ");
                m.open.push((k, m.pending.len()));
            }
            2 => {
                if m.open.is_empty() {
                    // Rarely, otherwise most cases end here.
                    if src.chance(1, 4 * seldom) {
                        cx.label("finish_node without open node");
                        cx.nontrivial = true;
                        cx.sample(|| format!("{log} ) with nothing open"));
                        let r = panics(|| b.finish_node());
                        ensure!(r, "finish_node with no open node did not panic: {log}");
                        return Ok(());
                    }
                } else {
                    b.finish_node();
                    log.push_str(") ");
                    m.finish_node();
                }
            }
            3 => {
                cps.push((b.checkpoint(), m.pending.len()));
                log.push_str(&format!("@{} ", m.pending.len()));
            }
            4 => {
                if cps.is_empty() {
                    continue;
                }
                let (cp, c) = *src.pick(&cps);
                let k = g.kind(src);
                let ok = m.start_ok(c);
                if !ok && !src.chance(1, 3 * seldom) {
                    continue;
                }
                used += 1;
                let r = panics(|| b.start_node_at(cp, sk(k)));
                log.push_str(&format!("wrap@{c} "));
                ensure_eq!(r, !ok, "start_node_at panics; pending {}, open at {:?}, {log}", m.pending.len(), m.open.last().map(|o| o.1));
                if !ok {
                    cx.label(if c > m.pending.len() { "checkpoint past the pending elements" } else { "checkpoint before the open node" });
                    cx.nontrivial = true;
                    cx.sample(|| format!("{log} must panic"));
                    return Ok(());
                }
                m.open.push((k, c));
            }
            _ => {
                // Another use of the same checkpoint right away wraps the wrap.
                if let Some(&(cp, c)) = cps.last() {
                    if m.start_ok(c) {
                        for _ in 0..src.range(1, 3) {
                            b.start_node_at(cp, sk(5));
                            m.open.push((5, c));
                            b.finish_node();
                            m.finish_node();
                        }
                        log.push_str("rewrap ");
                        used += 1;
                    }
                }
            }
        }
    }
    cx.nontrivial |= used > 0;
    // Many sequences are completed properly.
    if src.chance(2, 3) {
        while !m.open.is_empty() {
            b.finish_node();
            m.finish_node();
        }
        if m.pending.len() != 1 && src.chance(2, 3) {
            let first = cps.iter().position(|x| x.1 == 0).unwrap_or(usize::MAX);
            if let Some(&(cp, c)) = cps.get(first) {
                b.start_node_at(cp, sk(9));
                b.finish_node();
                m.open.push((9, c));
                m.finish_node();
            }
        }
    }
    // An unclosed node with exactly one pending element is not specified.
    if !m.open.is_empty() && m.pending.len() == 1 {
        while !m.open.is_empty() {
            b.finish_node();
            m.finish_node();
        }
    }
    let ok = m.open.is_empty() && m.pending.len() == 1 && !m.pending[0].is_tok();
    cx.sample(|| format!("{log} finish {}", if ok { "ok" } else { "must panic" }));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.finish())) {
        Ok(g) => {
            ensure!(ok, "finish did not panic with {} pending elements, {} open: {log}", m.pending.len(), m.open.len());
            cx.label("complete build");
            check_green(&g, &m.pending[0])
        }
        Err(_) => {
            ensure!(!ok, "finish panicked after a balanced build: {log}");
            cx.label("finish must panic");
            cx.nontrivial = true;
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C03, C04

pub mod collide {
    //! Tokens and nodes whose cache hashes are fully equal although they differ, made by inverting
    //! the hash function the cache uses at the pinned commit. If that function changes these are
    //! just ordinary values.
    const K: u64 = 0xf135_7aea_2e62_a9c5;
    const SEED1: u64 = 0x243f_6a88_85a3_08d3;
    const SEED2: u64 = 0x1319_8a2e_0370_7344;
    const PTZ: u64 = 0xa409_3822_299f_31d0;
    fn inv(a: u64) -> u64 {
        let mut x = a;
        for _ in 0..6 {
            x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
        }
        x
    }
    fn mm(x: u64, y: u64) -> u64 {
        let f = x as u128 * y as u128;
        f as u64 ^ (f >> 64) as u64
    }
    fn bytes_hash(b: &[u8]) -> u64 {
        let n = b.len();
        let (mut s0, mut s1) = (SEED1, SEED2);
        let u = |x: &[u8]| u64::from_le_bytes(x.try_into().unwrap());
        if n <= 16 {
            if n >= 8 {
                s0 ^= u(&b[..8]);
                s1 ^= u(&b[n - 8..]);
            } else if n >= 4 {
                s0 ^= u32::from_le_bytes(b[..4].try_into().unwrap()) as u64;
                s1 ^= u32::from_le_bytes(b[n - 4..].try_into().unwrap()) as u64;
            } else if n > 0 {
                s0 ^= b[0] as u64;
                s1 ^= (b[n - 1] as u64) << 8 | b[n / 2] as u64;
            }
        } else {
            let mut bulk = &b[..n - 1];
            while bulk.len() >= 16 {
                let t = mm(s0 ^ u(&bulk[..8]), PTZ ^ u(&bulk[8..16]));
                s0 = s1;
                s1 = t;
                bulk = &bulk[16..];
            }
            s0 ^= u(&b[n - 16..n - 8]);
            s1 ^= u(&b[n - 8..]);
        }
        mm(s0, s1) ^ n as u64
    }
    pub fn token_hash(kind: u16, text: &str) -> u64 {
        let h = (kind as u64).wrapping_mul(K);
        let h = h.wrapping_add(bytes_hash(text.as_bytes())).wrapping_mul(K);
        h.wrapping_add(0xff).wrapping_mul(K).rotate_left(26)
    }
    pub fn node_hash(kind: u16, kids: &[u64]) -> u64 {
        let mut h = (kind as u64).wrapping_mul(K);
        for &k in kids {
            h = h.wrapping_add(k).wrapping_mul(K);
        }
        h.rotate_left(26)
    }
    /// A token of some kind (searching upwards from `from`) with the given hash.
    pub fn token_with_hash(h: u64, from: u16) -> Option<(u16, String)> {
        let x = h.rotate_right(26).wrapping_mul(inv(K)).wrapping_sub(0xff);
        for i in 0..=65535u16 {
            let k = from.wrapping_add(i);
            let hb = x.wrapping_mul(inv(K)).wrapping_sub((k as u64).wrapping_mul(K));
            let s0 = (hb ^ 16).rotate_right(47);
            let mut v = (s0 ^ SEED1).to_le_bytes().to_vec();
            v.extend(((1u64 << 47) ^ SEED2).to_le_bytes());
            if let Ok(s) = String::from_utf8(v) {
                return Some((k, s));
            }
        }
        None
    }
    /// A token of exactly this kind with the given hash.
    pub fn token_of_kind_with_hash(h: u64, k: u16, salt: u32) -> Option<String> {
        let x = h.rotate_right(26).wrapping_mul(inv(K)).wrapping_sub(0xff);
        let hb = x.wrapping_mul(inv(K)).wrapping_sub((k as u64).wrapping_mul(K));
        for i in 0..40_000u32 {
            let p = format!("{:016x}", (salt as u64) << 32 | i as u64);
            let b = p.as_bytes();
            let t = mm(SEED1 ^ u64::from_le_bytes(b[..8].try_into().unwrap()), PTZ ^ u64::from_le_bytes(b[8..].try_into().unwrap()));
            let high = t & 0x8080_8080_8080_8080;
            if high.count_ones() != 1 {
                continue;
            }
            // t ^ b1 = high (a power of two), so mm is a rotation of the first factor.
            let b1 = t ^ high;
            let r = high.trailing_zeros();
            let s0 = (hb ^ 32).rotate_right(r);
            let a = s0 ^ SEED2;
            let mut v = b.to_vec();
            v.extend(a.to_le_bytes());
            v.extend(b1.to_le_bytes());
            if let Ok(s) = String::from_utf8(v) {
                return Some(s);
            }
        }
        None
    }
    /// A one-child node (kind, child kind, child text) with the given hash, its child having hash `h`.
    pub fn child_hash_for_node(node: u64, kind: u16) -> u64 {
        node.rotate_right(26).wrapping_mul(inv(K)).wrapping_sub((kind as u64).wrapping_mul(K))
    }
}

/// Trees over small alphabets, so that kinds, texts and shapes collide between builds; returns `builds`
/// trees. One of three styles.
fn cache_trees(src: &mut Src, cx: &mut Cx) -> Vec<El> {
    if boost() && src.chance(2, 3) {
        let mut out = vec![gen_tree(src, cx, NORMAL)];
        if src.chance(1, 2) {
            out.push(gen_tree(src, cx, NORMAL));
        }
        // The same again, with small changes.
        for _ in 0..src.range(1, 3) {
            let mut e = src.pick(&out).clone();
            if src.chance(2, 3) {
                mutate(src, &mut e, &[1, 2, 3]);
            }
            out.push(e);
        }
        return out;
    }
    match src.weighted(&[8, 4, 2, 2]) {
        3 => {
            cx.label("near-equal texts and nodes");
            let mut g = gen_cfg(src);
            let e = gen_near(src, &mut g);
            let mut out: Vec<El> = e.kids().iter().filter(|k| !k.is_tok()).cloned().collect();
            out.push(e);
            out
        }
        0 => {
            // Few kinds, few texts, small trees.
            let mut g = gen_cfg(src);
            g.max_depth = 5;
            let n = src.range(2, 8);
            (0..n)
                .map(|_| {
                    g.budget = src.range(2, 16);
                    if src.chance(1, 8) { gen_tree(src, cx, NORMAL) } else { g.node(src, 0) }
                })
                .collect()
        }
        1 => {
            // Many kinds times few texts: hundreds of entries whose hash tags meet by chance.
            cx.label("bulk: many kinds, few texts");
            bulk(src)
        }
        _ => {
            cx.label("constructed hash collisions");
            collisions(src)
        }
    }
}
fn bulk(src: &mut Src) -> Vec<El> {
    let texts: Vec<String> = (0..src.range(1, 4)).map(|_| { let n = src.range(0, 3); long_text(src, n, Chars::Mixed) }).collect();
    let n = if boost() { src.range(400, 20_000) } else { src.range(20, 400) };
    let (k0, step) = (src.draw(65536), src.range(1, 300) as u32);
    let style = src.below(3);
    let rounds = src.range(2, 3);
    let mut out = vec![];
    for r in 0..rounds {
        let mut kids = vec![];
        for i in 0..n {
            // Every other round covers the kinds in another order.
            let i = if r % 2 == 0 { i } else { n - 1 - i };
            let k = (k0 + i as u32 * step) as u16;
            let t = texts[i % texts.len()].clone();
            match style {
                0 => kids.push(El::T(k, t)),
                1 => kids.push(El::N(k, vec![El::T(1, t)])),
                _ => kids.push(El::N((i % 7) as u16, vec![El::T(k, t.clone()), El::N(k, vec![]), El::T(2, t)])),
            }
        }
        out.push(El::N(3, kids));
    }
    out
}
fn collisions(src: &mut Src) -> Vec<El> {
    let mut g = gen_cfg(src);
    let (k1, t1) = (g.kind(src), g.text(src));
    let h = if src.chance(1, 6) { 0 } else { collide::token_hash(k1, &t1) };
    let mut toks = vec![(k1, t1.clone())];
    if let Some(x) = collide::token_with_hash(h, src.draw(65536) as u16) {
        toks.push(x);
    }
    if let Some(t) = collide::token_of_kind_with_hash(h, k1, src.draw(16)) {
        toks.push((k1, t));
    }
    let mut els: Vec<El> = toks.iter().map(|(k, t)| El::T(*k, t.clone())).collect();
    // Same-kind nodes over tokens with equal hashes, and nodes of other kinds with equal hashes.
    for (k, t) in &toks {
        els.push(El::N(4, vec![El::T(*k, t.clone())]));
        els.push(El::N(4, vec![El::T(1, "x".into()), El::T(*k, t.clone())]));
        els.push(El::N(4, vec![El::T(*k, t.clone()), El::T(1, "x".into())]));
    }
    let nh = collide::node_hash(4, &[h]);
    let k2 = g.kind(src).wrapping_add(11);
    let ch = collide::child_hash_for_node(nh, k2);
    if let Some((k, t)) = collide::token_with_hash(ch, src.draw(65536) as u16) {
        els.push(El::N(k2, vec![El::T(k, t)]));
    }
    // A childless node and one whose hash meets it: (k + h) * K = k' for some token hash h.
    if let Some((k, t)) = collide::token_with_hash(collide::child_hash_for_node(collide::node_hash(k2, &[]), 6), 3) {
        els.push(El::N(6, vec![El::T(k, t)]));
        els.push(El::N(k2, vec![]));
    }
    let mut out = vec![];
    for _ in 0..src.range(2, 5) {
        let mut kids = vec![];
        for _ in 0..src.range(1, 8) {
            kids.push(src.pick(&els).clone());
        }
        out.push(El::N(8, kids));
    }
    out
}

pub fn c03(src: &mut Src, cx: &mut Cx) -> R {
    let trees = cache_trees(src, cx);
    cx.nontrivial = trees.len() >= 2 && trees.iter().map(|t| t.count()).sum::<usize>() >= 6;
    cx.sample(|| trees.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ; "));
    let mut cache = NodeCache::default();
    let mut built = vec![];
    for e in &trees {
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        g_builder(&mut b, e);
        let g = b.finish();
        check_green(&g, e)?;
        cx.queries += 1;
        if e.count() < 200 {
            let alone = build_by(0, e);
            ensure!(alone == g, "tree built through the shared cache differs from the one built alone: {}", e.show());
        }
        // Some are dropped at once: the cache keeps the only reference.
        if src.chance(3, 4) {
            built.push((g, e));
        }
        // A build that is abandoned half way.
        if src.chance(1, 8) {
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            b.start_node(sk(1));
            g_builder(&mut b, e);
        }
    }
    if src.chance(1, 2) {
        for (g, e) in &built {
            check_green(g, e)?;
        }
    }
    drop(cache);
    for (g, e) in &built {
        check_green(g, e)?;
        ensure_eq!(g.to_string(), e.text(), "text after the cache is gone");
    }
    Ok(())
}

fn addr(c: &NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>) -> usize {
    match c {
        NodeOrToken::Node(n) => *n as *const GreenNodeData as *const u8 as usize,
        NodeOrToken::Token(t) => *t as *const rowan::GreenTokenData as *const u8 as usize,
    }
}

#[derive(Default)]
struct Shared {
    toks: HashMap<(u16, String), usize>,
    nodes: HashMap<(u16, Vec<usize>), usize>,
    again_t: u64,
    again_n: u64,
}
impl Shared {
    /// Walks model and tree together; true if the element must be shared.
    fn see(&mut self, c: NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>, e: &El) -> Result<bool, crate::engine::Fail> {
        let a = addr(&c);
        match (c, e) {
            (NodeOrToken::Token(_), El::T(k, t)) => {
                if let Some(&old) = self.toks.get(&(*k, t.clone())) {
                    self.again_t += 1;
                    ensure!(old == a, "token {} was built before but is stored again", e.show());
                } else {
                    self.toks.insert((*k, t.clone()), a);
                }
                Ok(true)
            }
            (NodeOrToken::Node(n), El::N(k, v)) => {
                let mut all = v.len() <= 3;
                let mut ids = vec![];
                ensure_eq!(n.children().len(), v.len(), "number of children of {}", e.show());
                for (c, m) in n.children().zip(v) {
                    ids.push(addr(&c));
                    all &= self.see(c, m)?;
                }
                if all {
                    if let Some(&old) = self.nodes.get(&(*k, ids.clone())) {
                        self.again_n += 1;
                        ensure!(old == a, "node {} with {} children was built before but is stored again", e.show(), v.len());
                    } else {
                        self.nodes.insert((*k, ids), a);
                    }
                }
                Ok(all)
            }
            _ => fail(format!("wrong sort of element for {}", e.show())),
        }
    }
}

pub fn c04(src: &mut Src, cx: &mut Cx) -> R {
    let mut trees = cache_trees(src, cx);
    // Filler between, so that the tables grow; then everything again.
    let fill = match src.weighted(&[4, 3, 1]) {
        0 => 0,
        1 => src.range(1, 60),
        _ => src.range(60, 1500),
    };
    if fill > 0 {
        let nodes = src.chance(1, 2);
        let t = src.below(1000);
        let kids = (0..fill).map(|i| {
            let tok = El::T((i % 5) as u16, format!("{}", t + i));
            if nodes { El::N((i % 3) as u16, vec![tok]) } else { tok }
        });
        let at = src.below(trees.len());
        trees.insert(at, El::N(3, kids.collect()));
        cx.label("filler between");
    }
    for i in 0..trees.len() {
        if src.chance(1, 2) {
            let t = trees[i].clone();
            trees.push(t);
        }
    }
    cx.sample(|| trees.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ; "));
    let mut cache = NodeCache::default();
    let mut keep: Vec<GreenNode> = vec![];
    let mut s = Shared::default();
    for e in &trees {
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        g_builder(&mut b, e);
        let g = b.finish();
        let d: &GreenNodeData = &g;
        s.see(NodeOrToken::Node(d), e)?;
        keep.push(g);
    }
    cx.queries += s.again_t + s.again_n;
    cx.label_if(s.again_n > 0, "a node was built again");
    cx.label_if(s.again_t > 0, "a token was built again");
    cx.label_if(s.toks.len() > 100 || s.nodes.len() > 100, "more than 100 distinct values");
    cx.nontrivial = s.again_t > 0 && s.again_n > 0;
    Ok(())
}

/// Up to some hundred thousand values between building the same ones again.
pub fn c04_huge(src: &mut Src, cx: &mut Cx) -> R {
    // Values `from..from + n` of a family; the text says which.
    fn family(cache: &mut NodeCache, style: usize, tag: char, range: std::ops::Range<usize>) -> GreenNode {
        let mut b = GreenNodeBuilder::with_cache(cache);
        b.start_node(sk(9));
        for i in range {
            let t = format!("{tag}{i}");
            match style {
                0 => b.token(sk((i % 5) as u16), &t),
                1 => {
                    b.start_node(sk((i % 3) as u16));
                    b.token(sk(4), &t);
                    b.finish_node();
                }
                _ => {
                    b.start_node(sk(7));
                    b.token(sk(1), " ");
                    b.start_node(sk(8));
                    b.token(sk(2), &t);
                    b.finish_node();
                    b.token(sk(3), &t);
                    b.finish_node();
                }
            }
        }
        b.finish_node();
        b.finish()
    }
    fn all(c: NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>, out: &mut Vec<usize>) {
        match c {
            NodeOrToken::Node(n) => {
                out.push(n as *const GreenNodeData as usize);
                n.children().for_each(|c| all(c, out));
            }
            NodeOrToken::Token(t) => out.push(t as *const rowan::GreenTokenData as usize),
        }
    }
    let mut cache = NodeCache::default();
    let mut seen: Vec<(usize, char, usize, GreenNode, Vec<usize>)> = vec![];
    let mut left = 300_000usize;
    let mut tag = 'A';
    let mut total = 0;
    for _ in 0..src.range(2, 7) {
        let n = if src.chance(1, 2) { src.range(1, 2000) } else { src.near(1000, 150_000, 8) }.min(left).max(1);
        left -= n.min(left);
        total += n;
        let style = src.below(3);
        let g = family(&mut cache, style, tag, 0..n);
        let ids = g.children().map(|c| { let mut v = vec![]; all(c, &mut v); v }).collect::<Vec<_>>();
        let per = ids[0].len();
        seen.push((style, tag, per, g, ids.into_iter().flatten().collect()));
        tag = (tag as u8 + 1) as char;
        // Some of what was built before, again.
        for _ in 0..src.range(1, 4) {
            let (style, tag, per, g, ids) = &seen[src.below(seen.len())];
            let len = g.children().len();
            let from = src.below(len);
            let to = (from + src.range(1, 3000)).min(len);
            let again = family(&mut cache, *style, *tag, from..to);
            let mut v = vec![];
            again.children().for_each(|c| all(c, &mut v));
            cx.queries += v.len() as u64;
            for (i, (a, b)) in v.iter().zip(&ids[from * per..to * per]).enumerate() {
                ensure!(a == b, "element {} of value {} of a family of {len} (style {style}) is stored again after {total} values", i % per, from + i / per);
            }
        }
    }
    cx.label_if(total > 65_536, "more than 2^16 values");
    cx.sample(|| format!("{} families, {total} values", seen.len()));
    cx.nontrivial = total > 5000;
    Ok(())
}

// ---------------------------------------------------------------- C05

fn hash_of<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Changes one thing. Returns what was done; the result may still equal the original.
pub fn mutate(src: &mut Src, e: &mut El, kinds: &[u16]) -> &'static str {
    let f = Flat::new(e);
    let id = src.below(f.len());
    let path = f.path(id);
    let what = src.below(12);
    // Changes of the child list of a node.
    let nid = if f.els[id].tok { f.els[id].parent.unwrap() } else { id };
    let npath = f.path(nid);
    match what {
        0 => {
            let k = *src.pick(kinds);
            match e.at_mut(&path) {
                El::N(x, _) | El::T(x, _) => *x = k,
            }
            "one kind changed"
        }
        1 => {
            if let El::T(_, t) = e.at_mut(&path) {
                let n = t.chars().count();
                if n > 0 {
                    let i = src.below(n);
                    let c = gen_char(src, Chars::Mixed);
                    *t = t.chars().enumerate().map(|(j, x)| if i == j { c } else { x }).collect();
                }
            }
            "one character changed"
        }
        2 => {
            if let El::T(_, t) = e.at_mut(&path) {
                if src.chance(1, 2) {
                    t.push('a');
                } else {
                    t.pop();
                }
            }
            "text one longer or shorter"
        }
        3 => {
            let v = e.at_mut(&npath).kids_mut();
            if let Some(i) = v.iter().position(|c| c.is_tok() && c.len() > 1) {
                if let El::T(k, t) = v[i].clone() {
                    let mut cuts: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                    cuts.push(t.len());
                    let c = *src.pick(&cuts);
                    v.splice(i..=i, [El::T(k, t[..c].into()), El::T(k, t[c..].into())]);
                }
            }
            "token split in two"
        }
        4 => {
            let v = e.at_mut(&npath).kids_mut();
            if v.len() > 1 {
                let i = src.below(v.len() - 1);
                v.swap(i, i + 1);
            }
            "neighbours swapped"
        }
        5 => {
            let k = *src.pick(kinds);
            if id != 0 {
                let x = e.at_mut(&path);
                let old = std::mem::replace(x, El::N(k, vec![]));
                x.kids_mut().push(old);
            }
            "one element wrapped"
        }
        6 => {
            if id != 0 && !f.els[id].tok {
                let kids = std::mem::take(e.at_mut(&path).kids_mut());
                let (p, i) = (&path[..path.len() - 1], *path.last().unwrap() as usize);
                e.at_mut(p).kids_mut().splice(i..=i, kids);
            }
            "one node dissolved"
        }
        7 => {
            let v = e.at_mut(&npath).kids_mut();
            let i = src.below(v.len() + 1);
            let k = *src.pick(kinds);
            let x = if src.chance(1, 2) { El::T(k, String::new()) } else { El::N(k, vec![]) };
            v.insert(i, x);
            "empty element inserted"
        }
        8 => {
            let v = e.at_mut(&npath).kids_mut();
            if !v.is_empty() {
                let i = src.below(v.len());
                v.remove(i);
            }
            "child removed"
        }
        9 => {
            // A childless node against an empty token of the same kind.
            let x = e.at_mut(&path);
            if id != 0 {
                match x.clone() {
                    El::N(k, v) if v.is_empty() => *x = El::T(k, String::new()),
                    El::T(k, t) if t.is_empty() => *x = El::N(k, vec![]),
                    El::T(k, t) => *x = El::N(k, vec![El::T(k, t)]),
                    El::N(k, v) if v.iter().all(|c| c.is_tok()) => *x = El::T(k, v.iter().map(|c| c.text()).collect()),
                    _ => {}
                }
            }
            "node against token"
        }
        10 => {
            let v = e.at_mut(&npath).kids_mut();
            // Text moves over the border between two tokens.
            for i in 1..v.len() {
                let (a, b) = v.split_at_mut(i);
                if let (El::T(_, s), El::T(_, t)) = (&mut a[i - 1], &mut b[0]) {
                    if let Some(c) = s.pop() {
                        t.insert(0, c);
                        break;
                    }
                }
            }
            "text moved across a token border"
        }
        _ => {
            let v = e.at_mut(&npath).kids_mut();
            // A child moves into or out of a neighbouring node.
            for i in 1..v.len() {
                if !v[i].is_tok() {
                    let x = v.remove(i - 1);
                    v[i - 1].kids_mut().insert(0, x);
                    break;
                }
            }
            "child moved into the next node"
        }
    }
}

pub fn c05(src: &mut Src, cx: &mut Cx) -> R {
    let a = gen_tree(src, cx, Size { wide: 2, deep: 2, ..NORMAL });
    let mut b = a.clone();
    let mut kinds: Vec<u16> = vec![a.kind(), a.kind() ^ 1, a.kind() ^ 256];
    kinds.extend(a.kids().iter().take(3).map(|e| e.kind()));
    let what = match src.weighted(&[3, 6, 1]) {
        0 => "rebuilt by another route",
        1 => mutate(src, &mut b, &kinds),
        _ => {
            b = gen_tree(src, cx, SMALL);
            "unrelated"
        }
    };
    cx.label(what);
    let (ga, gb) = (build(src, &a), build(src, &b));
    let same = a == b;
    cx.nontrivial = same || what != "unrelated";
    cx.label(if same { "equal pair" } else { "different pair" });
    cx.sample(|| format!("{what}: {} / {}", a.show(), b.show()));
    let (da, db): (&GreenNodeData, &GreenNodeData) = (&ga, &gb);
    ensure_eq!(ga == gb, same, "GreenNode ==, {what}");
    ensure_eq!(gb == ga, same, "GreenNode == (swapped), {what}");
    ensure_eq!(ga != gb, !same, "GreenNode !=, {what}");
    ensure_eq!(da == db, same, "GreenNodeData ==, {what}");
    ensure_eq!(da.to_owned() == db.to_owned(), same, "owned copies ==, {what}");
    let (ea, eb): (GEl, GEl) = (NodeOrToken::Node(ga.clone()), NodeOrToken::Node(gb.clone()));
    ensure_eq!(ea == eb, same, "element ==, {what}");
    ensure!(ga == ga.clone() && da == &*ga.clone(), "equal to itself");
    if same {
        ensure_eq!(hash_of(&ga), hash_of(&gb), "hashes of equal nodes, {what}");
        ensure_eq!(hash_of(&ea), hash_of(&eb), "hashes of equal elements");
        ensure_eq!(hash_of(&ga), hash_of(&da.to_owned()), "hash of an owned copy");
    }
    // All pairs of direct children, and of tokens.
    let (ka, kb): (Vec<_>, Vec<_>) = (da.children().take(5).collect(), db.children().take(5).collect());
    for (i, x) in ka.iter().enumerate() {
        for (j, y) in kb.iter().enumerate() {
            cx.queries += 1;
            let same = a.kids()[i] == b.kids()[j];
            match (x, y) {
                (NodeOrToken::Node(x), NodeOrToken::Node(y)) => {
                    ensure_eq!(x == y, same, "child nodes {i} {j}");
                    let (x, y) = ((*x).to_owned(), (*y).to_owned());
                    ensure_eq!(x == y, same, "owned child nodes {i} {j}");
                    if same {
                        ensure_eq!(hash_of(&x), hash_of(&y), "hashes of equal child nodes");
                    }
                }
                (NodeOrToken::Token(x), NodeOrToken::Token(y)) => {
                    ensure_eq!(x == y, same, "child tokens {i} {j}");
                    let (x, y) = ((*x).to_owned(), (*y).to_owned());
                    ensure_eq!(x == y, same, "owned child tokens {i} {j}");
                    ensure_eq!(x != y, !same, "owned child tokens != {i} {j}");
                    if same {
                        ensure_eq!(hash_of(&x), hash_of(&y), "hashes of equal tokens");
                    }
                }
                (x, y) => {
                    let (x, y) = (owned(x), owned(y));
                    ensure!(x != y, "node equal to token");
                }
            }
        }
    }
    // Tokens made directly.
    let g = gen_cfg(src);
    let (k, t) = (g.kind(src), g.text(src));
    let (k2, t2) = match src.below(4) {
        0 => (k, t.clone()),
        1 => (k ^ 1, t.clone()),
        2 => (k, format!("{t}a")),
        _ => (k, g.text(src)),
    };
    let (x, y) = (GreenToken::new(sk(k), &t), GreenToken::new(sk(k2), &t2));
    let same = (k, &t) == (k2, &t2);
    ensure_eq!(x == y, same, "tokens {k} {t:?} and {k2} {t2:?}");
    ensure_eq!(*x == *y, same, "token data {k} {t:?} and {k2} {t2:?}");
    if same {
        ensure_eq!(hash_of(&x), hash_of(&y), "hashes of equal tokens");
    }
    Ok(())
}
fn owned(c: &NodeOrToken<&GreenNodeData, &rowan::GreenTokenData>) -> GEl {
    match c {
        NodeOrToken::Node(n) => NodeOrToken::Node((*n).to_owned()),
        NodeOrToken::Token(t) => NodeOrToken::Token((*t).to_owned()),
    }
}

// ---------------------------------------------------------------- C06

struct Liar<T> {
    v: std::vec::IntoIter<T>,
    claim: usize,
}
impl<T> Iterator for Liar<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.claim, Some(self.claim))
    }
}
impl<T> ExactSizeIterator for Liar<T> {
    fn len(&self) -> usize {
        self.claim
    }
}

pub fn c06(src: &mut Src, cx: &mut Cx) -> R {
    let mut e = gen_tree(src, cx, Size { wide: 3, deep: 1, ..NORMAL });
    let mut g = build(src, &e);
    let mut ge = gen_cfg(src);
    ge.max_depth = 3;
    let mut log = format!("{}", e.show());
    if !cx.no_misuse && src.chance(1, 8) {
        // A length that is not the real one.
        let real: Vec<GEl> = g.children().map(|c| owned(&c)).collect();
        let n = real.len();
        let claim = if src.chance(1, 2) { n + src.range(1, 4) } else { n.saturating_sub(src.range(1, 4)) };
        if claim != n {
            cx.label(if claim > n { "iterator over-reports" } else { "iterator under-reports" });
            cx.nontrivial = true;
            cx.sample(|| format!("{n} children, claims {claim}"));
            let k = g.kind();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| GreenNode::new(k, Liar { v: real.into_iter(), claim })));
            ensure!(r.is_err(), "GreenNode::new accepted an iterator of {n} that claims {claim}");
            return check_green(&g, &e);
        }
    }
    let n = src.range(1, 6);
    for _ in 0..n {
        let before = (g.clone(), e.clone());
        let len = e.kids().len();
        ge.budget = 4;
        if src.chance(1, 8) {
            // A plain list has no such position either.
            let past = len + src.range(1, 3) - 1;
            let x = g_direct(&ge.el(src, 0));
            let (what, r) = match src.below(4) {
                0 => ("insert", panics(|| drop(g.insert_child(past + 1, x)))),
                1 => ("remove", panics(|| drop(g.remove_child(past)))),
                2 => ("splice", panics(|| drop(g.splice_children(src.below(len + 1)..past + 1, [x])))),
                _ => ("splice from", panics(|| drop(g.splice_children(past + 1.., [x])))),
            };
            cx.label("position beyond the list");
            ensure!(r, "{what} at {past} or later of {len} children did not panic");
            check_green(&g, &e)?;
            continue;
        }
        let op = src.below(4);
        let new = match op {
            0 => {
                // replace
                if len == 0 {
                    continue;
                }
                let i = src.below(len);
                let x = if src.chance(1, 4) { e.kids()[src.below(len)].clone() } else { ge.el(src, 0) };
                let gx = if src.chance(1, 4) { owned(&g.children().nth(i).unwrap()) } else { g_direct(&x) };
                let x = model_of(&gx);
                log.push_str(&format!(" replace {i} by {}", x.show()));
                e.kids_mut()[i] = x;
                g.replace_child(i, gx)
            }
            1 => {
                let i = src.below(len + 1);
                let x = ge.el(src, 0);
                log.push_str(&format!(" insert {i} {}", x.show()));
                let gx = g_direct(&x);
                e.kids_mut().insert(i, x);
                g.insert_child(i, gx)
            }
            2 => {
                if len == 0 {
                    continue;
                }
                let i = src.below(len);
                log.push_str(&format!(" remove {i}"));
                e.kids_mut().remove(i);
                g.remove_child(i)
            }
            _ => {
                let lo = src.below(len + 1);
                let hi = src.range(lo, len);
                let xs: Vec<El> = (0..src.below(5)).map(|_| { ge.budget = 3; ge.el(src, 0) }).collect();
                let gs: Vec<GEl> = xs.iter().map(g_direct).collect();
                let form = src.below(9);
                log.push_str(&format!(" splice form {form} {lo}..{hi} +{}", xs.len()));
                use std::ops::Bound::*;
                let v = e.kids_mut();
                match form {
                    0 => {
                        v.splice(lo..hi, xs);
                        g.splice_children(lo..hi, gs)
                    }
                    1 => {
                        v.splice(lo.., xs);
                        g.splice_children(lo.., gs)
                    }
                    2 => {
                        v.splice(..hi, xs);
                        g.splice_children(..hi, gs)
                    }
                    3 => {
                        v.splice(.., xs);
                        g.splice_children(.., gs)
                    }
                    4 if hi < len => {
                        v.splice(lo..=hi, xs);
                        g.splice_children(lo..=hi, gs)
                    }
                    5 if hi < len => {
                        v.splice(..=hi, xs);
                        g.splice_children(..=hi, gs)
                    }
                    6 if lo < hi => {
                        v.splice((Excluded(lo), Excluded(hi)), xs);
                        g.splice_children((Excluded(lo), Excluded(hi)), gs)
                    }
                    7 if lo < len => {
                        v.splice((Excluded(lo), Unbounded), xs);
                        g.splice_children((Excluded(lo), Unbounded), gs)
                    }
                    _ => {
                        // Inserted elements from an iterator without a known length.
                        v.splice((Included(lo), Excluded(hi)), xs);
                        let mut gs = gs.into_iter();
                        g.splice_children((Included(lo), Excluded(hi)), std::iter::from_fn(move || gs.next()))
                    }
                }
            }
        };
        cx.queries += 1;
        cx.nontrivial |= len >= 2;
        cx.label(["replace", "insert", "remove", "splice"][op]);
        check_green(&new, &e).map_err(|x| crate::engine::Fail(format!("{} after {log}", x.0)))?;
        ensure_eq!(new.to_string(), e.text(), "text after {log}");
        check_green(&before.0, &before.1).map_err(|x| crate::engine::Fail(format!("original changed: {} after {log}", x.0)))?;
        // Offsets, as seen through a syntax tree.
        let root = N::new_root(new.clone());
        let mut at = 0;
        for (i, c) in root.children_with_tokens().enumerate() {
            ensure_eq!(usize::from(c.text_range().start()), at, "start of child {i} after {log}");
            at += e.kids()[i].len();
            ensure_eq!(usize::from(c.text_range().end()), at, "end of child {i} after {log}");
        }
        g = new;
    }
    cx.sample(|| log);
    Ok(())
}
fn model_of(g: &GEl) -> El {
    match g {
        NodeOrToken::Node(n) => read_green(n),
        NodeOrToken::Token(t) => El::T(t.kind().0, t.text().to_string()),
    }
}

// ---------------------------------------------------------------- C07

pub fn c07(src: &mut Src, cx: &mut Cx) -> R {
    let n = match src.weighted(&[6, 3, 1]) {
        0 => src.below(9),
        1 => src.range(5, 40),
        _ => src.range(40, 300),
    };
    let n = if boost() { *src.pick(&[300, 1_000, 4_000, 65_530, 70_000]) + src.below(40) } else { n };
    // How far to skip: anywhere, about the end, about 2^8 or 2^16.
    let skip = |src: &mut Src, len: usize| match src.weighted(&[4, 1, if n > 300 { 3 } else { 0 }]) {
        0 => src.below(len + 3),
        1 => (len + 2).saturating_sub(src.below(6)),
        _ => (*src.pick(&[253, 65_533, 65_536]) + src.below(6)).min(len + 2),
    };
    // Distinct objects, so that each child is known by its address.
    let els: Vec<GEl> = (0..n).map(|i| if i % 3 == 1 { NodeOrToken::Node(GreenNode::new(sk(i as u16), vec![])) } else { NodeOrToken::Token(GreenToken::new(sk(i as u16), "x")) }).collect();
    let addrs: VecDeque<usize> = els.iter().map(|e| match e {
        NodeOrToken::Node(x) => &**x as *const GreenNodeData as *const u8 as usize,
        NodeOrToken::Token(x) => &**x as *const rowan::GreenTokenData as *const u8 as usize,
    }).collect();
    let g = GreenNode::new(sk(1), els);
    let mut its: Vec<(rowan::Children, VecDeque<usize>)> = vec![(g.children(), addrs)];
    let mut log = format!("{n} children:");
    let (mut fwd, mut bwd) = (0, 0);
    let ops = src.range(1, 25);
    for _ in 0..ops {
        if its.is_empty() {
            break;
        }
        let w = src.below(its.len());
        let (it, q) = &mut its[w];
        cx.queries += 1;
        macro_rules! same {
            ($a:expr, $b:expr, $w:expr) => {{
                let a: Option<usize> = $a.map(|c| addr(&c));
                ensure!(a == $b, "{} gave the wrong child after {log}", $w);
            }};
        }
        let fin = |mut q: VecDeque<usize>, n: usize, back: bool| {
            for _ in 0..n {
                if back { q.pop_back() } else { q.pop_front() };
            }
            q
        };
        match src.weighted(&[6, 6, 3, 3, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => {
                log.push_str(" next");
                fwd += 1;
                same!(it.next(), q.pop_front(), "next");
            }
            1 => {
                log.push_str(" next_back");
                bwd += 1;
                same!(it.next_back(), q.pop_back(), "next_back");
            }
            2 => {
                let k = skip(src, q.len());
                log.push_str(&format!(" nth({k})"));
                fwd += 1;
                let x = it.nth(k);
                *q = fin(std::mem::take(q), k, false);
                same!(x, q.pop_front(), "nth");
            }
            3 => {
                let k = skip(src, q.len());
                log.push_str(&format!(" nth_back({k})"));
                bwd += 1;
                let x = it.nth_back(k);
                *q = fin(std::mem::take(q), k, true);
                same!(x, q.pop_back(), "nth_back");
            }
            4 => {
                log.push_str(" clone");
                let c = (it.clone(), q.clone());
                if its.len() < 4 {
                    its.push(c);
                }
            }
            5 => {}
            6 => {
                log.push_str(" count");
                let (it, q) = its.swap_remove(w);
                ensure_eq!(it.count(), q.len(), "count after {log}");
            }
            7 => {
                log.push_str(" last");
                let (it, mut q) = its.swap_remove(w);
                same!(it.last(), q.pop_back(), "last");
            }
            8 => {
                log.push_str(" fold");
                let (it, q) = its.swap_remove(w);
                let v = it.fold(vec![], |mut v, c| { v.push(addr(&c)); v });
                ensure!(v == Vec::from(q), "fold after {log}");
            }
            9 => {
                log.push_str(" rfold");
                let (it, q) = its.swap_remove(w);
                let v = it.rfold(vec![], |mut v, c| { v.push(addr(&c)); v });
                ensure!(v == q.into_iter().rev().collect::<Vec<_>>(), "rfold after {log}");
            }
            10 => {
                log.push_str(" collect");
                let (it, q) = its.swap_remove(w);
                let v: Vec<usize> = it.map(|c| addr(&c)).collect();
                ensure!(v == Vec::from(q), "collect after {log}");
            }
            11 => {
                log.push_str(" rev.collect");
                let (it, q) = its.swap_remove(w);
                let v: Vec<usize> = it.rev().map(|c| addr(&c)).collect();
                ensure!(v == q.into_iter().rev().collect::<Vec<_>>(), "rev after {log}");
            }
            12 => {
                let k = skip(src, q.len());
                log.push_str(&format!(" by_ref.take({k})"));
                let v: Vec<usize> = it.by_ref().take(k).map(|c| addr(&c)).collect();
                let e: Vec<usize> = (0..k).filter_map(|_| q.pop_front()).collect();
                ensure!(v == e, "take after {log}");
            }
            13 => {
                let s = src.range(1, 4);
                log.push_str(&format!(" step_by({s})"));
                let (it, q) = its.swap_remove(w);
                let v: Vec<usize> = it.step_by(s).map(|c| addr(&c)).collect();
                ensure!(v == q.into_iter().step_by(s).collect::<Vec<_>>(), "step_by after {log}");
            }
            14 => {
                if !q.is_empty() {
                    let t = q[src.below(q.len())];
                    log.push_str(" position");
                    let p = it.position(|c| addr(&c) == t);
                    let e = q.iter().position(|&x| x == t);
                    *q = fin(std::mem::take(q), e.unwrap() + 1, false);
                    ensure!(p == e, "position after {log}");
                }
            }
            _ => {
                if !q.is_empty() {
                    let t = q[src.below(q.len())];
                    log.push_str(" rposition/rfind");
                    let e = q.iter().rposition(|&x| x == t).unwrap();
                    let left = q.len() - e;
                    if src.chance(1, 2) {
                        ensure!(it.rposition(|c| addr(&c) == t) == Some(e), "rposition after {log}");
                    } else {
                        ensure!(it.rfind(|c| addr(c) == t).map(|c| addr(&c)) == Some(t), "rfind after {log}");
                    }
                    *q = fin(std::mem::take(q), left, true);
                }
            }
        }
        for (it, q) in &its {
            ensure_eq!(it.len(), q.len(), "len after {log}");
            ensure_eq!(it.size_hint(), (q.len(), Some(q.len())), "size_hint after {log}");
        }
    }
    for (mut it, mut q) in its {
        while let Some(e) = q.pop_front() {
            ensure!(it.next().map(|c| addr(&c)) == Some(e), "rest after {log}");
        }
        for _ in 0..2 {
            ensure!(it.next().is_none() && it.next_back().is_none() && it.nth(0).is_none() && it.nth_back(1).is_none(), "exhausted iterator yielded again after {log}");
        }
        ensure_eq!(it.len(), 0, "len when exhausted");
    }
    cx.nontrivial = n >= 3 && fwd > 0 && bwd > 0;
    cx.sample(|| log);
    Ok(())
}

//! C26: green values used by several threads at once.
//!
//! Every thread runs a script of its own over values that all of them own. Content is compared with the
//! model at every read, allocator damage and the allocation balance after the last drop; the same
//! scripts also run under ThreadSanitizer and, in small, under Miri with many scheduler seeds. The
//! harness shares nothing between its threads except plain references and, in some cases, mailboxes:
//! anything more would order the threads and hide races.

use crate::alloc;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rowan::{GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, TextRange};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Barrier, Mutex};

type G = NodeOrToken<GreenNode, GreenToken>;

/// A value with its model; models are per-thread copies.
struct Val {
    g: G,
    m: El,
}
impl Val {
    fn again(&self) -> Val {
        Val { g: self.g.clone(), m: self.m.clone() }
    }
}

fn check(g: &G, m: &El) -> R {
    match (g, m) {
        (NodeOrToken::Node(n), El::N(..)) => check_green(n, m),
        (NodeOrToken::Token(t), El::T(k, s)) => {
            ensure_eq!((t.kind().0, t.text()), (*k, s.as_str()), "shared token");
            Ok(())
        }
        _ => fail("a shared value changed its sort"),
    }
}

fn hash(g: &G) -> u64 {
    let mut h = DefaultHasher::new();
    g.hash(&mut h);
    h.finish()
}

struct Plan {
    bytes: Vec<u8>,
    ops: usize,
    start: Vec<Val>,
    spins: bool,
    eager: bool,
}

fn script(me: usize, p: Plan, barrier: &Barrier, boxes: Option<&[Mutex<Vec<Val>>]>) -> R {
    let Plan { bytes, ops, start, spins, eager } = p;
    let mut src = Src::bytes(bytes);
    let src = &mut src;
    let mut vs = start;
    let mut cache: Option<NodeCache> = None;
    let mut gen_ = Gen { kinds: vec![1, 2, 3], chars: Chars::Ab, more: 5, nodes: 3, empty: 1, max_depth: 3, long: false, budget: 4 };
    barrier.wait();
    for _ in 0..ops {
        if spins && src.chance(1, 3) {
            for _ in 0..src.below(200) {
                std::hint::spin_loop();
            }
        }
        if vs.is_empty() {
            break;
        }
        let i = src.below(vs.len());
        match src.weighted(&[8, if eager { 14 } else { 6 }, 5, 2, 2, 4, 4, 3, 3, 3, 3, 2]) {
            0 => {
                let v = vs[i].again();
                vs.push(v);
            }
            1 => {
                drop(vs.swap_remove(i));
            }
            2 => check(&vs[i].g, &vs[i].m)?,
            3 => {
                let j = src.below(vs.len());
                let (a, b) = (&vs[i], &vs[j]);
                ensure_eq!(a.g == b.g, a.m == b.m, "equality of shared values");
            }
            4 => {
                let v = vs[i].again();
                ensure_eq!(hash(&v.g), hash(&vs[i].g), "hash of a shared value");
            }
            5 => {
                // A functional edit.
                let NodeOrToken::Node(n) = &vs[i].g else { continue };
                gen_.budget = 2;
                let mut m = vs[i].m.clone();
                let len = m.kids().len();
                let j = src.below(vs.len());
                let (x, xm) = if src.chance(1, 2) {
                    (vs[j].g.clone(), vs[j].m.clone())
                } else {
                    let e = gen_.el(src, 2);
                    (g_direct(&e), e)
                };
                if m.count() + xm.count() > 120 {
                    continue;
                }
                let g = match src.below(4) {
                    0 => {
                        let at = src.below(len + 1);
                        m.kids_mut().insert(at, xm);
                        n.insert_child(at, x)
                    }
                    1 if len > 0 => {
                        let at = src.below(len);
                        m.kids_mut()[at] = xm;
                        n.replace_child(at, x)
                    }
                    2 if len > 0 => {
                        let at = src.below(len);
                        m.kids_mut().remove(at);
                        n.remove_child(at)
                    }
                    _ => {
                        let a = src.below(len + 1);
                        let b = a + src.below(len - a + 1);
                        m.kids_mut().splice(a..b, [xm]);
                        n.splice_children(a..b, [x])
                    }
                };
                let v = Val { g: NodeOrToken::Node(g), m };
                check(&v.g, &v.m)?;
                vs.push(v);
            }
            6 => {
                // A value inside another one becomes an owner of its own.
                let c = match &vs[i].g {
                    NodeOrToken::Node(n) if n.children().len() > 0 => {
                        let at = src.below(n.children().len());
                        let g = match n.children().nth(at).unwrap() {
                            NodeOrToken::Node(c) => NodeOrToken::Node(c.to_owned()),
                            NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
                        };
                        Val { g, m: vs[i].m.kids()[at].clone() }
                    }
                    _ => continue,
                };
                vs.push(c);
            }
            7 => {
                // A syntax tree of this thread.
                let NodeOrToken::Node(n) = &vs[i].g else { continue };
                let m = &vs[i].m;
                let root = N::new_root(n.clone());
                ensure_eq!(root.text_range(), TextRange::up_to(ts(m.len())), "range of a tree over a shared value");
                ensure_eq!(root.text().to_string(), m.text(), "text of a tree over a shared value");
                let count = root.descendants_with_tokens().count();
                ensure_eq!(count, m.count(), "elements of a tree over a shared value");
                if src.chance(1, 2) {
                    let last = root.descendants_with_tokens().last().unwrap();
                    drop(root);
                    ensure!(last.ancestors().count() >= 1 || last.parent().is_none(), "ancestors");
                }
            }
            8 => {
                // A mutable tree of this thread: its edits must not reach the others.
                let NodeOrToken::Node(n) = &vs[i].g else { continue };
                let mut m = vs[i].m.clone();
                let root = if src.chance(1, 2) { N::new_root_mut(n.clone()) } else { N::new_root(n.clone()).clone_for_update() };
                let len = m.kids().len();
                let a = src.below(len + 1);
                let b = a + src.below(len - a + 1);
                let j = src.below(vs.len());
                if m.count() + vs[j].m.count() > 120 {
                    continue;
                }
                let ins: Vec<E> = match &vs[j].g {
                    NodeOrToken::Node(x) => vec![en(N::new_root_mut(x.clone()))],
                    _ => vec![],
                };
                m.kids_mut().splice(a..b, ins.iter().map(|_| vs[j].m.clone()));
                root.splice_children(a..b, ins);
                let g = root.green().into_owned();
                drop(root);
                let v = Val { g: NodeOrToken::Node(g), m };
                check(&v.g, &v.m)?;
                vs.push(v);
            }
            9 => {
                // A new node over shared elements, or one from a builder with a cache.
                let j = src.below(vs.len());
                if src.chance(1, 2) {
                    if vs[i].m.count() + vs[j].m.count() > 120 {
                        continue;
                    }
                    let g = GreenNode::new(sk(1), [vs[i].g.clone(), vs[j].g.clone()]);
                    let m = El::N(1, vec![vs[i].m.clone(), vs[j].m.clone()]);
                    vs.push(Val { g: NodeOrToken::Node(g), m });
                } else {
                    let El::N(..) = &vs[i].m else { continue };
                    let m = vs[i].m.clone();
                    let mut b = GreenNodeBuilder::with_cache(cache.get_or_insert_default());
                    g_builder(&mut b, &m);
                    let g = NodeOrToken::Node(b.finish());
                    ensure!(g == vs[i].g, "a rebuilt copy equals the shared value");
                    vs.push(Val { g, m });
                }
            }
            10 => {
                if let Some(boxes) = boxes {
                    let to = src.below(boxes.len());
                    let v = vs.swap_remove(i);
                    boxes[to].lock().unwrap().push(v);
                } else {
                    std::thread::yield_now();
                }
            }
            _ => {
                if let Some(boxes) = boxes {
                    let v = boxes[me].lock().unwrap().pop();
                    if let Some(v) = v {
                        check(&v.g, &v.m)?;
                        vs.push(v);
                    }
                }
            }
        }
        if vs.len() > 30 {
            vs.swap_remove(src.below(30));
        }
    }
    // What is left goes in another order in every thread.
    while !vs.is_empty() {
        let i = src.below(vs.len());
        let v = vs.swap_remove(i);
        if src.chance(1, 4) {
            check(&v.g, &v.m)?;
        }
    }
    Ok(())
}

struct Shape {
    threads: usize,
    max_ops: usize,
    tree: usize,
}

fn stress(src: &mut Src, cx: &mut Cx, shape: Shape) -> R {
    let mut g = Gen { kinds: vec![1, 2, 3], chars: Chars::Ab, more: 6, nodes: 4, empty: 1, max_depth: 5, long: false, budget: 4 };
    // Shared values; some are part of others.
    let mut shared: Vec<Val> = vec![];
    for _ in 0..src.range(1, 4) {
        g.budget = src.range(1, shape.tree);
        let m = if src.chance(1, 4) { g.tok(src) } else { g.node(src, 0) };
        let v = Val { g: g_direct(&m), m };
        shared.push(v);
    }
    if src.chance(1, 2) {
        let m = El::N(2, shared.iter().map(|v| v.m.clone()).collect());
        let n = GreenNode::new(sk(2), shared.iter().map(|v| v.g.clone()).collect::<Vec<_>>());
        shared.push(Val { g: NodeOrToken::Node(n), m });
    }
    let threads = src.range(2, shape.threads);
    let spins = src.chance(1, 2);
    let mut plans = vec![];
    for _ in 0..threads {
        let ops = src.range(1, shape.max_ops);
        let eager = src.chance(1, 2);
        let bytes: Vec<u8> = (0..ops * 6).map(|_| src.draw(256) as u8).collect();
        let mut start: Vec<Val> = shared.iter().map(Val::again).collect();
        if src.chance(1, 3) {
            let i = src.below(start.len());
            start.swap(0, i);
            start.truncate(1);
        }
        plans.push(Plan { bytes, ops, start, spins, eager });
    }
    let posted = src.chance(1, 3);
    cx.label_if(posted, "values handed over between threads");
    cx.label(["", "", "2 threads", "3 threads", "4 threads"][threads]);
    let keep = src.below(3);
    cx.label(["the creator drops first", "the creator drops concurrently", "the creator drops last"][keep]);
    let total: usize = plans.iter().map(|p| p.ops).sum();
    cx.nontrivial = total >= 4;
    cx.sample(|| {
        format!(
            "{} shared values {}; {threads} threads with {} operations{}",
            shared.len(),
            shared.iter().map(|v| v.m.show()).collect::<Vec<_>>().join(" "),
            plans.iter().map(|p| p.ops.to_string()).collect::<Vec<_>>().join("/"),
            if posted { ", with mailboxes" } else { "" }
        )
    });
    if keep == 0 {
        shared.clear();
    }
    let barrier = Barrier::new(threads);
    let boxes: Vec<Mutex<Vec<Val>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
    let mut result = Ok(());
    std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .into_iter()
            .enumerate()
            .map(|(i, p)| {
                let (barrier, boxes) = (&barrier, posted.then_some(&boxes[..]));
                s.spawn(move || {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| script(i, p, barrier, boxes)))
                        .unwrap_or_else(|e| fail(format!("panic in a thread: {}", panic_text(&e))))
                })
            })
            .collect();
        if keep == 1 {
            shared.clear();
        }
        for h in hs {
            if let Err(e) = h.join().unwrap() {
                result = Err(e);
            }
        }
    });
    for v in &shared {
        check(&v.g, &v.m)?;
    }
    for b in boxes {
        for v in b.into_inner().unwrap() {
            check(&v.g, &v.m)?;
        }
    }
    result
}

struct Outcome {
    bytes: isize,
    blocks: isize,
    r: R,
}
fn balance(src: &mut Src, cx: &mut Cx, f: impl Fn(&mut Src, &mut Cx) -> R) -> Outcome {
    LAST_PANIC.with(|l| *l.borrow_mut() = String::new());
    let own = src.heap_bytes() as isize;
    let before = alloc::live();
    let mut inner = Cx::default();
    let r = f(src, &mut inner);
    if r.is_err() {
        return Outcome { bytes: 0, blocks: 0, r };
    }
    cx.nontrivial = inner.nontrivial;
    let labels = std::mem::take(&mut inner.labels);
    let n: Vec<&'static str> = labels.keys().copied().collect();
    drop((inner, labels));
    let mid = alloc::live();
    let (nb, nn) = ((n.capacity() * size_of::<&str>()) as isize, (n.capacity() > 0) as isize);
    let own = src.heap_bytes() as isize - own;
    for l in n {
        cx.label(l);
    }
    Outcome { bytes: mid.0 - before.0 - own - nb, blocks: mid.1 - before.1 - nn, r: Ok(()) }
}

fn measured(src: &mut Src, cx: &mut Cx, shape: impl Fn() -> Shape) -> R {
    let bad = alloc::BAD.load(Relaxed);
    let from = src.choices.len();
    let o = balance(src, cx, |s, c| stress(s, c, shape()));
    o.r?;
    ensure_eq!(alloc::BAD.load(Relaxed), bad, "blocks freed twice, freed with another size or written past their end");
    if o.bytes != 0 || o.blocks != 0 {
        // Say so only if it happens again: it may depend on the schedule, so try for a while.
        for _ in 0..50 {
            let mut again = Src::replay(src.choices[from..].to_vec());
            let p = balance(&mut again, &mut Cx::default(), |s, c| stress(s, c, shape()));
            p.r?;
            ensure!(p.bytes == 0 && p.blocks == 0, "{} bytes in {} blocks are still allocated after every thread dropped everything", p.bytes, p.blocks);
        }
    }
    if cx.want_sample && cx.nontrivial {
        let mut again = Src::replay(src.choices[from..].to_vec());
        let mut inner = Cx { want_sample: true, ..Cx::default() };
        let _ = stress(&mut again, &mut inner, shape());
        let s = inner.sample.unwrap_or_default();
        cx.sample(|| s);
    }
    Ok(())
}

pub fn c26(src: &mut Src, cx: &mut Cx) -> R {
    measured(src, cx, || Shape { threads: 4, max_ops: 40, tree: 12 })
}
/// For Miri: a few operations, two or three threads.
pub fn small(src: &mut Src, cx: &mut Cx) -> R {
    measured(src, cx, || Shape { threads: 3, max_ops: 7, tree: 4 })
}

/// Whether two reads of one count agree is all this needs: many threads, one value, clone and drop.
pub fn hammer(src: &mut Src, cx: &mut Cx) -> R {
    let bad = alloc::BAD.load(Relaxed);
    let mut g = Gen { kinds: vec![1, 2], chars: Chars::Ab, more: 6, nodes: 4, empty: 1, max_depth: 3, long: false, budget: 5 };
    let m = if src.chance(1, 3) { g.tok(src) } else { g.node(src, 0) };
    let threads = src.range(2, 8);
    let rounds = src.range(50, if cfg!(miri) { 60 } else { 2000 });
    let deep = src.chance(1, 2);
    let start = src.heap_bytes() as isize;
    cx.nontrivial = true;
    cx.label(if deep { "inner values" } else { "outer value" });
    cx.sample(|| format!("{threads} threads clone and drop {} {rounds} times", m.show()));
    LAST_PANIC.with(|l| *l.borrow_mut() = String::new());
    let before = alloc::live();
    let v = g_direct(&m);
    let barrier = Barrier::new(threads);
    let mut result: R = Ok(());
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|i| {
                let (v, m, barrier) = (v.clone(), &m, &barrier);
                s.spawn(move || -> R {
                    let mut held = Vec::with_capacity(8);
                    barrier.wait();
                    for r in 0..rounds {
                        if deep && let NodeOrToken::Node(n) = &v {
                            for c in n.children() {
                                let c: G = match c {
                                    NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
                                    NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
                                };
                                held.push(c);
                            }
                        } else {
                            held.push(v.clone());
                        }
                        if (r + i) % 3 == 0 || held.len() > 6 {
                            held.clear();
                        }
                    }
                    held.clear();
                    check(&v, m)
                })
            })
            .collect();
        for h in hs {
            if let Ok(Err(e)) = h.join() {
                result = Err(e);
            }
        }
    });
    result?;
    check(&v, &m)?;
    ensure_eq!(alloc::BAD.load(Relaxed), bad, "blocks freed twice");
    drop(v);
    drop(barrier);
    let after = alloc::live();
    let own = src.heap_bytes() as isize - start;
    ensure_eq!(after.0 - before.0 - own, 0, "bytes still allocated after all threads dropped a shared value");
    Ok(())
}

// ---------------------------------------------------------------- what may cross threads

struct Probe<T>(std::marker::PhantomData<T>);
trait Not {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> Not for &Probe<T> {}
trait IsSend {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Send> IsSend for Probe<T> {}
trait IsSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Sync> IsSync for Probe<T> {}

macro_rules! crosses {
    ($($t:ty => $send:expr, $sync:expr;)*) => {
        vec![$((stringify!($t), (&Probe::<$t>(std::marker::PhantomData)).send(), (&Probe::<$t>(std::marker::PhantomData)).sync(), $send, $sync)),*]
    };
}

pub fn traits(src: &mut Src, cx: &mut Cx) -> R {
    let _ = src.draw(2);
    cx.nontrivial = true;
    use rowan::cursor as cu;
    type FK = fn(Kind) -> bool;
    type FC = fn(rowan::SyntaxKind) -> bool;
    let v = crosses! {
        GreenNode => true, true;
        GreenToken => true, true;
        rowan::GreenNodeData => true, true;
        rowan::GreenTokenData => true, true;
        &'static rowan::GreenNodeData => true, true;
        rowan::SyntaxNode<Lang> => false, false;
        rowan::SyntaxToken<Lang> => false, false;
        rowan::SyntaxElement<Lang> => false, false;
        rowan::SyntaxNodeChildren<Lang> => false, false;
        rowan::SyntaxElementChildren<Lang> => false, false;
        rowan::api::Preorder<Lang> => false, false;
        rowan::api::PreorderWithTokens<Lang> => false, false;
        rowan::SyntaxText => false, false;
        rowan::TokenAtOffset<rowan::SyntaxToken<Lang>> => false, false;
        rowan::WalkEvent<rowan::SyntaxNode<Lang>> => false, false;
        cu::SyntaxNode => false, false;
        cu::SyntaxToken => false, false;
        cu::SyntaxElement => false, false;
        cu::SyntaxNodeChildren => false, false;
        cu::SyntaxElementChildren => false, false;
        cu::Preorder => false, false;
        cu::PreorderWithTokens => false, false;
    };
    cx.sample(|| v.iter().map(|x| format!("{}: Send {} Sync {}", x.0, x.1, x.2)).collect::<Vec<_>>().join(", "));
    cx.queries = 2 * v.len() as u64;
    for (name, send, sync, want_send, want_sync) in v {
        ensure_eq!((send, sync), (want_send, want_sync), "(Send, Sync) of {name}");
    }
    let _: Option<(FK, FC)> = None;
    Ok(())
}

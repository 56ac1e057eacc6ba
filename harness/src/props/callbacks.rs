//! C37: while the library runs the caller's code - kind filters, text visitors, output sinks,
//! serialiser back ends, casts, iterators of elements - that code may use any tree, also the one
//! being worked on, and may panic.

use super::*;
use rowan::ast::{support, AstNode};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;

struct Mine;

struct Agent<'a> {
    w: &'a mut World,
    src: &'a mut Src,
    cx: &'a mut Cx,
    /// Edits it may still make.
    left: usize,
    calls: usize,
    panic_at: usize,
    panicked: bool,
    err: Option<Fail>,
}

impl Agent<'_> {
    fn act(&mut self) {
        self.calls += 1;
        if self.calls < 60 && self.err.is_none() {
            if let Err(e) = self.any() {
                self.err = Some(e);
            }
        }
        if self.calls == self.panic_at {
            self.panicked = true;
            self.w.note(|| "(panic)".into());
            std::panic::panic_any(Mine);
        }
    }
    fn any(&mut self) -> R {
        let edit = if self.left > 0 { 6 } else { 0 };
        match self.src.weighted(&[6, 3, 3, 2, 1, edit, 1]) {
            0 => {}
            1 => {
                // Look around.
                let (e, _) = self.src.pick(&self.w.hs).clone();
                let r = self.src.below(7);
                match (r, &e) {
                    (0, _) => drop((e.parent(), e.prev_sibling_or_token())),
                    (1, _) => drop((e.next_sibling_or_token(), e.text_range())),
                    (2, NodeOrToken::Node(n)) => drop((n.first_child_or_token(), n.text().to_string())),
                    (3, NodeOrToken::Node(n)) => drop(n.children_with_tokens().collect::<Vec<_>>()),
                    (4, NodeOrToken::Node(n)) => drop((n.first_token(), n.last_token())),
                    (4, NodeOrToken::Token(t)) => drop((t.next_token(), t.prev_token())),
                    (5, NodeOrToken::Node(n)) => drop((n.clone_subtree(), n.green().to_owned())),
                    _ => drop(e.ancestors().count()),
                }
            }
            2 => {
                if self.w.hs.len() > 1 {
                    let i = self.src.below(self.w.hs.len());
                    self.w.hs.swap_remove(i);
                }
            }
            3 => self.w.acquire(self.src)?,
            4 => {
                let h = self.src.pick(&self.w.hs).clone();
                self.w.hs.push(h);
            }
            5 => {
                self.left -= 1;
                match self.src.below(3) {
                    0 => self.w.detach(self.src)?,
                    _ => self.w.splice(self.src, self.cx)?,
                }
            }
            _ => {
                if self.w.imm.len() > 1 {
                    let i = self.src.below(self.w.imm.len());
                    self.w.imm.swap_remove(i);
                }
            }
        }
        Ok(())
    }
}

thread_local! {
    static HOOK: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) };
}
fn hook() {
    if let Some(f) = HOOK.with(|h| h.get()) {
        unsafe { (*f)() }
    }
}
/// Runs `body` with the hook of `HookAst` set.
fn hooked<T>(f: &dyn Fn(), body: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            HOOK.with(|h| h.set(None));
        }
    }
    let _off = Off;
    let f: *const (dyn Fn() + '_) = f;
    // Only used during `body`.
    HOOK.with(|h| h.set(Some(unsafe { std::mem::transmute::<*const (dyn Fn() + '_), *const (dyn Fn() + 'static)>(f) })));
    body()
}
struct HookAst(N);
impl AstNode for HookAst {
    type Language = Lang;
    fn can_cast(k: Kind) -> bool {
        hook();
        raw(k) % 2 == 0
    }
    fn cast(n: N) -> Option<Self> {
        hook();
        if raw(n.kind()) % 2 == 0 { Some(HookAst(n)) } else { None }
    }
    fn syntax(&self) -> &N {
        &self.0
    }
}

/// Where text goes; calls back, and fails at one step.
struct Sink<'a> {
    f: &'a dyn Fn(),
    out: String,
    fail_at: usize,
    n: usize,
}
impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        (self.f)();
        self.n += 1;
        if self.n == self.fail_at {
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        (self.f)();
        self.n += 1;
        if self.n == self.fail_at {
            return Err(std::io::Error::other("full"));
        }
        self.out.push_str(&String::from_utf8_lossy(b));
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// What one call gave.
enum Got {
    Els(Vec<E>),
    Text(String),
    /// Text up to a failure of the sink.
    Cut,
    Green(GreenNode, El),
    Done,
}

/// A handle that came out of a call during which the tree changed still has to be one of its tree.
fn sane(e: &E) -> R {
    let path = bounded_path(e)?;
    let top = top_of(e);
    match &top {
        NodeOrToken::Node(n) => {
            let at = at_path(n, &path);
            ensure_eq!(e_raw(&at), e_raw(e), "kind of the element at the place that the found handle reports");
            ensure_eq!(at.text_range(), e.text_range(), "range of the element at the place that the found handle reports");
            ensure_eq!(e_text(&at), e_text(e), "text of the element at the place that the found handle reports");
            ensure!(at == *e, "the found handle and a handle to the place it reports differ");
            let r = e.text_range();
            ensure_eq!(n.to_string()[usize::from(r.start())..usize::from(r.end())].to_string(), e_text(e), "text at the range that the found handle reports");
        }
        NodeOrToken::Token(t) => drop(t.text().to_string()),
    }
    Ok(())
}

impl World {
    fn callback(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        // An element of an immutable tree, or one of a mutable tree.
        let imm = !self.imm.is_empty() && src.chance(1, 3);
        let (f, fid, e, tid) = if imm {
            let (n, e) = src.pick(&self.imm).clone();
            let f = Flat::new(&e);
            let fid = src.below(f.len());
            let x = reach(src, &n, &f, fid);
            (f, fid, x, None)
        } else {
            let (x, id) = src.pick(&self.hs).clone();
            let v = self.view(self.root(id));
            let fid = v.order.iter().position(|&o| o == id).unwrap();
            (v.f, fid, x, Some(id))
        };
        let filt = gen_filter(src, &f);
        let node = !f.els[fid].tok;
        let what = if node { src.below(16) } else { src.weighted(&[1, 0, 0, 1]) };
        let edits_before = self.edits;
        let mut panic_at = if src.chance(1, 4) { src.range(1, 6) } else { 0 };
        if cx.no_misuse && what >= 14 {
            // What a panicking iterator leaves behind is not released.
            panic_at = 0;
        }
        let left = if src.chance(1, 3) { 0 } else { src.range(1, 4) };
        let fail_at = if src.chance(1, 3) { src.range(1, 9) } else { 0 };
        let skip = src.below(3);
        let stop_at = if src.chance(1, 3) { src.range(1, 4) } else { 0 };
        self.note(|| format!("call {what} on {} {:?} of {}", if imm { "immutable" } else { "mutable" }, f.path(fid), if f.len() < 200 { f.text.clone() } else { "..".into() }));
        // For the splice: what to insert where.
        let (a, b) = {
            let n = f.els[fid].kids.len();
            let (a, b) = (src.below(n + 1), src.below(n + 1));
            (a.min(b), a.max(b))
        };
        let mut fresh = vec![];
        if what == 13 && !imm {
            for _ in 0..src.range(1, 4) {
                fresh.push(self.fresh(src));
            }
        }
        let list: Vec<El> = (0..src.below(5)).map(|_| El::T(src.below(4) as u16, src.below(100).to_string())).collect();
        let base = if what >= 14 { Some(match &e { NodeOrToken::Node(n) => n.green().into_owned(), _ => unreachable!() }) } else { None };
        let base_el = if what >= 14 { flat_el(&f, fid) } else { El::N(0, vec![]) };

        let agent = RefCell::new(Agent { w: self, src, cx, left, calls: 0, panic_at, panicked: false, err: None });
        let act = || agent.borrow_mut().act();
        let m = |k: Kind| {
            act();
            filt.contains(&raw(k))
        };
        let mut want_panic = Cell::new(false);
        let e2 = e.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Got {
            let e = e2;
            let n = e.as_node().cloned();
            match what {
                0 => Got::Els(
                    match &e {
                        NodeOrToken::Node(n) if skip > 0 => n.next_sibling_or_token_by_kind(&m),
                        _ => CE::from(e.clone()).next_sibling_or_token_by_kind(&|k| m(typed(k.0))).map(E::from),
                    }
                    .into_iter()
                    .collect(),
                ),
                1 => Got::Els(n.unwrap().next_sibling_by_kind(&m).into_iter().map(en).collect()),
                2 => Got::Els(n.unwrap().first_child_by_kind(&m).into_iter().map(en).collect()),
                3 if !node => {
                    // Text borrowed from a token while its tree changes.
                    let t = e.into_token().unwrap();
                    let s = t.text();
                    act();
                    act();
                    Got::Text(s.to_string())
                }
                3 => Got::Els(n.unwrap().first_child_or_token_by_kind(&m).into_iter().collect()),
                4 => {
                    let mut it = n.unwrap().children();
                    (0..skip).for_each(|_| drop(it.next()));
                    Got::Els(it.by_kind(m).take(400).map(en).collect())
                }
                5 => {
                    let mut it = n.unwrap().children_with_tokens();
                    (0..skip).for_each(|_| drop(it.next()));
                    Got::Els(it.by_kind(m).take(400).collect())
                }
                6 | 7 => {
                    let t = n.unwrap().text();
                    let mut s = String::new();
                    let mut k = 0;
                    if what == 6 {
                        t.for_each_chunk(|c| {
                            act();
                            s.push_str(c);
                        });
                        Got::Text(s)
                    } else {
                        let r = t.try_for_each_chunk(|c| {
                            s.push_str(c);
                            act();
                            k += 1;
                            if k == stop_at { Err(()) } else { Ok(()) }
                        });
                        if r.is_err() { Got::Cut } else { Got::Text(s) }
                    }
                }
                8 | 9 | 10 => {
                    let mut o = Sink { f: &act, out: String::new(), fail_at, n: 0 };
                    let r = match what {
                        8 => write!(o, "{}", n.unwrap()),
                        9 => write!(o, "{:#?}", n.unwrap()),
                        _ => write!(o, "{}", n.unwrap().text()),
                    };
                    match (r, what) {
                        (Err(_), _) => Got::Cut,
                        (_, 9) => Got::Done,
                        _ => Got::Text(o.out),
                    }
                }
                11 => {
                    let o = Sink { f: &act, out: String::new(), fail_at, n: 0 };
                    drop(serde_json::to_writer(o, &n.unwrap()));
                    Got::Done
                }
                12 => hooked(&act, || {
                    let n = n.unwrap();
                    Got::Els(match skip {
                        0 => support::child::<HookAst>(&n).into_iter().map(|x| en(x.0)).collect(),
                        _ => support::children::<HookAst>(&n).take(400).map(|x| en(x.0)).collect(),
                    })
                }),
                13 if imm => Got::Done,
                13 => {
                    let target = tid.unwrap();
                    let n = n.unwrap();
                    // Deletion comes first; then each element goes in at the next index.
                    let mut at = a;
                    let mut first = true;
                    let mut items = fresh.into_iter();
                    let want_panic = &want_panic;
                    let agent = &agent;
                    n.splice_children(
                        a..b,
                        std::iter::from_fn(move || {
                            if first {
                                first = false;
                                agent.borrow_mut().w.m_splice(target, a, b, &[]);
                                agent.borrow_mut().w.edits += 1;
                            }
                            act();
                            let (x, id) = items.next()?;
                            let mut g = agent.borrow_mut();
                            let w = &mut *g.w;
                            if at <= w.els[target].kids.len() {
                                w.els[target].kids.insert(at, id);
                                w.els[id].parent = Some(target);
                                at += 1;
                            } else {
                                want_panic.set(true);
                            }
                            w.hold(x.clone(), id);
                            Some(x)
                        }),
                    );
                    Got::Done
                }
                14 => {
                    let items: Vec<GEl> = list.iter().map(g_direct).collect();
                    let g = GreenNode::new(
                        sk(7),
                        items.into_iter().inspect(|_| act()),
                    );
                    Got::Green(g, El::N(7, list.clone()))
                }
                _ => {
                    let items: Vec<GEl> = list.iter().map(g_direct).collect();
                    let g = base.unwrap().splice_children(a..b, items.into_iter().inspect(|_| act()));
                    let mut want = base_el;
                    want.kids_mut().splice(a..b, list.iter().cloned());
                    Got::Green(g, want)
                }
            }
        }));
        let ag = agent.into_inner();
        let (panicked, calls, err) = (ag.panicked, ag.calls, ag.err);
        if let Some(x) = err {
            return Err(x);
        }
        let want_panic = *want_panic.get_mut();
        let edited = self.edits != edits_before;
        // Whether the tree worked on may have changed meanwhile.
        let changed = edited && !imm;
        cx.label_if(calls > 0, "callbacks ran");
        cx.label_if(changed, "callback edited mutable trees");
        cx.label_if(panicked, "callback panicked");
        let got = match r {
            Err(p) => {
                let mine = p.is::<Mine>();
                drop(p);
                ensure!(mine == panicked || changed, "call {what}: panicked by itself");
                ensure!(!panicked || mine, "call {what}: the callback's panic was replaced");
                cx.label_if(!mine, "the call was rejected after an edit of the callback");
                return Ok(());
            }
            Ok(g) => g,
        };
        ensure!(!panicked, "call {what}: the callback's panic was swallowed");
        ensure!(!want_panic, "call {what}: insertion past the end did not panic");
        if changed {
            if let Got::Els(v) = &got {
                for x in v.iter().take(20) {
                    sane(x)?;
                }
            }
            if let (Got::Green(g, want), _) = (&got, ()) {
                check_green(g, want)?;
            }
            return Ok(());
        }
        let hit = |i: &usize| filt.contains(&f.els[*i].kind);
        let is_node = |i: &usize| !f.els[*i].tok;
        let after: Vec<usize> = match f.els[fid].parent {
            Some(_) => f.siblings(fid)[f.els[fid].idx + 1..].to_vec(),
            None => vec![],
        };
        let kids = &f.els[fid].kids;
        let even = |i: &usize| f.els[*i].kind % 2 == 0;
        let want: Vec<usize> = match what {
            0 => after.iter().copied().find(hit).into_iter().collect(),
            1 => after.iter().copied().find(|i| hit(i) && is_node(i)).into_iter().collect(),
            2 => kids.iter().copied().find(|i| hit(i) && is_node(i)).into_iter().collect(),
            3 => kids.iter().copied().find(hit).into_iter().collect(),
            4 => kids.iter().copied().filter(is_node).skip(skip).filter(hit).take(400).collect(),
            5 => kids.iter().copied().skip(skip).filter(hit).take(400).collect(),
            12 if skip == 0 => kids.iter().copied().find(|i| is_node(i) && even(i)).into_iter().collect(),
            12 => kids.iter().copied().filter(|i| is_node(i) && even(i)).take(400).collect(),
            _ => vec![],
        };
        match got {
            Got::Els(v) => {
                ensure_eq!(v.len(), want.len(), "call {what}: number of elements found");
                for (x, &i) in v.iter().zip(&want) {
                    is_el(x, &f, i, "element found")?;
                }
            }
            Got::Text(s) => ensure_eq!(s, f.text_of(fid), "call {what}: text"),
            Got::Cut => ensure!(fail_at > 0 || stop_at > 0, "call {what}: failed by itself"),
            Got::Green(g, w) => check_green(&g, &w)?,
            Got::Done => {}
        }
        Ok(())
    }
}

fn flat_el(f: &Flat, id: usize) -> El {
    let x = &f.els[id];
    if x.tok { El::T(x.kind, f.text_of(id).to_string()) } else { El::N(x.kind, x.kids.iter().map(|&k| flat_el(f, k)).collect()) }
}

pub fn c37(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(src, Cfg { content: true, handles: true, isolation: true, ..BASE });
    w.new_tree(src, cx, None)?;
    for _ in 0..src.below(2) {
        w.new_tree(src, cx, None)?;
    }
    if src.chance(1, 2) {
        let e = gen_tree(src, cx, Size { wide: 1, deep: 1, huge: 0, max_deep: 20, max_wide: 40 });
        let n = N::new_root(build(src, &e));
        w.imm.push((n, e));
    }
    for _ in 0..src.range(1, 6) {
        w.acquire(src)?;
    }
    let r = (|| -> R {
        for _ in 0..src.range(1, 6) {
            w.callback(src, cx)?;
            if w.policy > 0 {
                w.check(src, cx, w.policy == 2)?;
            }
            if src.chance(1, 3) {
                w.acquire(src)?;
            }
            w.trim(src);
            w.compact();
        }
        w.check(src, cx, true)
    })();
    cx.nontrivial = cx.labels.contains_key("callbacks ran") && (cx.labels.contains_key("callback edited mutable trees") || cx.labels.contains_key("callback panicked") || f_len(&w) > 4);
    let log = std::mem::take(&mut w.log);
    cx.sample(|| log.clone());
    ctx(r, "history", &log)
}
fn f_len(w: &World) -> usize {
    w.els.len()
}

//! C20-C23, C25, C32: histories of edits on mutable trees against a model with persistent identities.

use crate::engine::{fail, panics, Cx, Fail, R, Src};
use crate::model::*;
use crate::props::nav::{gen_filter, relations};
use crate::{ensure, ensure_eq};
use rowan::{GreenNode, NodeOrToken, SyntaxText, TextRange, WalkEvent};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[path = "callbacks.rs"]
pub mod callbacks;

#[derive(Clone)]
pub struct Mel {
    kind: u16,
    tok: bool,
    text: String,
    parent: Option<usize>,
    kids: Vec<usize>,
}

/// What a run checks, and which operations it prefers.
#[derive(Clone, Copy)]
pub struct Cfg {
    pub content: bool,
    pub handles: bool,
    pub isolation: bool,
    pub faults: bool,
    pub loose: bool,
    /// Duplicate-heavy trees, always sharing their green data.
    pub twins: bool,
    /// Nodes with more than 2^16 children.
    pub huge: bool,
    /// Dozens of held handles to the children of one node.
    pub crowd: bool,
    pub max_ops: usize,
    /// new tree, acquire, drop, clone, detach, splice, detach while iterating, snapshot,
    /// clone_subtree, replace_with, clone_for_update of a kept immutable tree, move all children
    pub weights: [u32; 12],
}
const BASE: Cfg = Cfg { content: false, handles: false, isolation: false, faults: false, loose: false, twins: false, huge: false, crowd: false, max_ops: 24, weights: [4, 16, 10, 4, 14, 30, 5, 3, 2, 2, 2, 4] };

/// Every live tree flattened, with the arena ids of its elements in preorder.
struct View {
    f: Flat,
    order: Vec<usize>,
    e: El,
}

enum Held {
    Nodes(rowan::SyntaxNodeChildren<Lang>),
    Els(rowan::SyntaxElementChildren<Lang>),
    Pre(rowan::api::Preorder<Lang>),
    PreT(rowan::api::PreorderWithTokens<Lang>),
    Text(SyntaxText),
    Gt(rowan::GreenToken),
    /// Text and green data borrowed from a handle that lives as long as they do.
    Borrow(Box<T>, *const str, *const rowan::GreenTokenData, String),
    /// Green data borrowed from a handle that lives as long as it does, in the order of dropping.
    Green(std::borrow::Cow<'static, rowan::GreenNodeData>, Box<N>, El),
    Any(Box<dyn Iterator<Item = E>>),
}

/// `n.green()` with the handle it borrows from.
fn green_of(n: &N) -> (std::borrow::Cow<'static, rowan::GreenNodeData>, Box<N>) {
    let n = Box::new(n.clone());
    // Safe code can do this, with the handle in a variable: the box gives it a stable place.
    let g = unsafe { &*(&*n as *const N) }.green();
    (g, n)
}

pub struct World {
    els: Vec<Mel>,
    hs: Vec<(E, usize)>,
    imm: Vec<(N, El)>,
    snaps: Vec<(GreenNode, El)>,
    held: Vec<Held>,
    cows: Vec<(std::borrow::Cow<'static, rowan::GreenNodeData>, Box<N>, El)>,
    cfg: Cfg,
    policy: usize,
    log: String,
    edits: usize,
    crowds: usize,
    g: Gen,
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn ctx(r: R, what: &str, log: &str) -> R {
    r.map_err(|e| Fail(format!("{what}: {} after: {}", e.0, &log[log.len().saturating_sub(700)..].trim_start_matches(|c: char| !c.is_ascii()))))
}

impl World {
    fn new(src: &mut Src, cfg: Cfg) -> World {
        let mut g = gen_cfg(src);
        g.max_depth = 5;
        World { els: vec![], hs: vec![], imm: vec![], snaps: vec![], held: vec![], cows: vec![], cfg, policy: src.weighted(&[3, 4, 2]), log: String::new(), edits: 0, crowds: 0, g }
    }
    fn note(&mut self, s: impl FnOnce() -> String) {
        let s = s();
        self.log.push_str(&s);
        self.log.push_str("; ");
    }
    // ------------------------------------------------------------ model
    fn add(&mut self, e: &El, parent: Option<usize>) -> usize {
        let id = self.els.len();
        let text = if let El::T(_, t) = e { t.clone() } else { String::new() };
        self.els.push(Mel { kind: e.kind(), tok: e.is_tok(), text, parent, kids: vec![] });
        let kids: Vec<usize> = e.kids().iter().map(|k| self.add(k, Some(id))).collect();
        self.els[id].kids = kids;
        id
    }
    fn el(&self, id: usize) -> El {
        let m = &self.els[id];
        if m.tok { El::T(m.kind, m.text.clone()) } else { El::N(m.kind, m.kids.iter().map(|&k| self.el(k)).collect()) }
    }
    fn root(&self, mut id: usize) -> usize {
        while let Some(p) = self.els[id].parent {
            id = p;
        }
        id
    }
    fn inside(&self, mut id: usize, anc: usize) -> bool {
        loop {
            if id == anc {
                return true;
            }
            match self.els[id].parent {
                Some(p) => id = p,
                None => return false,
            }
        }
    }
    fn depth(&self, mut id: usize) -> usize {
        let mut n = 0;
        while let Some(p) = self.els[id].parent {
            id = p;
            n += 1;
        }
        n
    }
    fn idx(&self, id: usize) -> usize {
        self.els[self.els[id].parent.unwrap()].kids.iter().position(|&k| k == id).unwrap()
    }
    fn m_detach(&mut self, id: usize) {
        if let Some(p) = self.els[id].parent.take() {
            self.els[p].kids.retain(|&k| k != id);
        }
    }
    fn order(&self, id: usize, out: &mut Vec<usize>) {
        out.push(id);
        self.els[id].kids.iter().for_each(|&k| self.order(k, out));
    }
    fn view(&self, root: usize) -> View {
        let e = self.el(root);
        let mut order = vec![];
        self.order(root, &mut order);
        View { f: Flat::new(&e), order, e }
    }
    fn roots(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.hs.iter().map(|h| self.root(h.1)).collect();
        v.sort();
        v.dedup();
        v
    }
    fn compact(&mut self) {
        if self.els.len() < 250 {
            return;
        }
        let mut map = std::collections::HashMap::new();
        let mut new: Vec<usize> = vec![];
        for r in self.roots() {
            self.order(r, &mut new);
        }
        new.iter().enumerate().for_each(|(i, &o)| {
            map.insert(o, i);
        });
        let els = new
            .iter()
            .map(|&o| {
                let m = &self.els[o];
                Mel { parent: m.parent.map(|p| map[&p]), kids: m.kids.iter().map(|k| map[k]).collect(), ..m.clone() }
            })
            .collect();
        self.els = els;
        self.hs.iter_mut().for_each(|h| h.1 = map[&h.1]);
    }
    // ------------------------------------------------------------ checks
    fn check(&self, src: &mut Src, cx: &mut Cx, full: bool) -> R {
        for r in self.roots() {
            let v = self.view(r);
            let pos = |id: usize| v.order.iter().position(|&o| o == id).unwrap();
            let mine: Vec<&(E, usize)> = self.hs.iter().filter(|h| self.root(h.1) == r).collect();
            cx.queries += mine.len() as u64;
            if self.cfg.content {
                let top = top_of(&mine[0].0);
                match &top {
                    NodeOrToken::Node(n) => {
                        check_green(&n.green(), &v.e)?;
                        if full {
                            ensure_eq!(n.to_string(), v.f.text, "text of the tree");
                            ensure_eq!(n.text().to_string(), v.f.text, "text view of the tree");
                        }
                        ensure_eq!(n.text_range(), TextRange::up_to(ts(v.f.text.len())), "range of the root");
                    }
                    NodeOrToken::Token(t) => {
                        ensure_eq!(t.text(), v.f.text.as_str(), "text of a detached token");
                        ensure_eq!(t.text_range(), TextRange::up_to(ts(v.f.text.len())), "range of a detached token");
                    }
                }
                ensure_eq!(e_raw(&top), v.e.kind(), "kind of the root");
            }
            if self.cfg.handles {
                for (e, id) in &mine {
                    is_el(e, &v.f, pos(*id), "held handle")?;
                    match e {
                        NodeOrToken::Node(n) => {
                            ensure!(n.is_mutable(), "held node is not mutable");
                            check_green(&n.green(), &self.el(*id))?;
                        }
                        NodeOrToken::Token(t) => ensure_eq!(t.text(), self.els[*id].text.as_str(), "text of a held token"),
                    }
                }
                if full && v.f.len() < 120 {
                    let n = mine.len().min(5);
                    let from = src.below(mine.len());
                    for i in 0..n {
                        let (e, id) = mine[(from + i) % mine.len()];
                        let filt = gen_filter(src, &v.f);
                        relations(cx, e, &v.f, pos(*id), &filt)?;
                        if let NodeOrToken::Node(n) = e {
                            ensure_eq!(n.text().to_string(), v.f.text_of(pos(*id)), "text of a held node");
                        }
                    }
                }
            }
        }
        if self.cfg.handles {
            // Handles are equal exactly when they have the same offset and the same green element.
            let mut starts = std::collections::HashMap::new();
            for r in self.roots() {
                let v = self.view(r);
                v.order.iter().enumerate().for_each(|(i, &o)| {
                    starts.insert(o, v.f.els[i].start);
                });
            }
            let keys: Vec<(*const (), usize)> = self.hs.iter().map(|(e, id)| (green_addr(e), starts[id])).collect();
            for (i, (a, x)) in self.hs.iter().enumerate() {
                for (j, (b, y)) in self.hs[..i].iter().enumerate() {
                    let want = keys[i] == keys[j];
                    ensure!(want || x != y, "two handles to one element differ in offset or green element: {a:?} and {b:?}");
                    ensure!((a == b) == want, "handles {a:?} and {b:?}, to elements {x} and {y}: equal should be {want}");
                    if want {
                        ensure_eq!(hash_of(a), hash_of(b), "hashes of equal handles");
                        cx.label_if(x != y, "equal handles to different elements");
                    } else if keys[i].0 == keys[j].0 {
                        cx.label("unequal handles to places sharing their green element");
                    }
                }
            }
        }
        if self.cfg.isolation {
            for (g, e) in &self.snaps {
                ctx(check_green(g, e), "snapshot", "")?;
            }
            for (g, _, e) in &self.cows {
                ctx(check_green(g, e), "green data borrowed from a handle", "")?;
            }
            for (n, e) in &self.imm {
                ensure!(!n.is_mutable() && n.parent().is_none(), "immutable tree changed its nature");
                ctx(check_green(&n.green(), e), "immutable tree", "")?;
                ensure_eq!(n.text_range(), TextRange::up_to(ts(e.len())), "range of an immutable tree");
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------ operations
    fn handle_of(&self, src: &mut Src, want: impl Fn(&Mel) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.hs.len()).filter(|&i| want(&self.els[self.hs[i].1])).collect();
        if v.is_empty() { None } else { Some(*src.pick(&v)) }
    }
    fn hold(&mut self, e: E, id: usize) {
        self.hs.push((e, id));
    }
    fn trim(&mut self, src: &mut Src) {
        let max = if self.cfg.crowd { 110 } else { 18 };
        while self.hs.len() > max {
            let i = src.below(self.hs.len());
            self.hs.swap_remove(i);
        }
    }
    fn fresh_el(&mut self, src: &mut Src) -> El {
        self.g.budget = src.range(1, 5);
        let mut e = self.g.el(src, 2);
        if src.chance(1, 3) && e.is_tok() {
            e = El::N(self.g.kind(src), vec![e]);
        }
        e
    }
    /// A detached mutable element.
    fn fresh(&mut self, src: &mut Src) -> (E, usize) {
        let e = self.fresh_el(src);
        let id = self.add(&e, None);
        let h = match &e {
            El::N(..) => {
                let g = self.build(src, &e);
                en(if src.chance(1, 2) { N::new_root_mut(g) } else { N::new_root(g).clone_for_update() })
            }
            El::T(k, t) => {
                // There is no way to make a token but to take it out of a tree.
                let g = GreenNode::new(sk(1), vec![rowan::GreenToken::new(sk(*k), t).into()]);
                let n = N::new_root_mut(g);
                let t = n.first_child_or_token().unwrap();
                t.detach();
                t
            }
        };
        (h, id)
    }
    /// In runs with faults every element has its own green data, so that handle equality is identity.
    fn build(&self, src: &mut Src, e: &El) -> GreenNode {
        if self.cfg.faults { g_node(g_direct(e)) } else { build(src, e) }
    }
    fn new_tree(&mut self, src: &mut Src, cx: &mut Cx, e: Option<El>) -> R {
        let e = match e {
            Some(e) => e,
            None if self.cfg.twins => {
                let mut g = gen_cfg(src);
                gen_twins(src, &mut g)
            }
            None if self.cfg.crowd => {
                let kids: Vec<El> = (0..src.range(24, 90)).map(|_| self.fresh_el(src)).collect();
                let e = El::N(self.g.kind(src), kids);
                if src.chance(1, 3) { El::N(self.g.kind(src), vec![self.fresh_el(src), e, self.fresh_el(src)]) } else { e }
            }
            None if self.cfg.huge => gen_tree(src, cx, Size { huge: 100_000, ..NORMAL }),
            None => gen_tree(src, cx, Size { wide: 2, deep: 1, huge: 0, max_deep: 30, max_wide: 60 }),
        };
        self.note(|| if e.kids().len() > 1000 { "a huge tree".into() } else { format!("tree {}", e.show()) });
        let g = self.build(src, &e);
        let id = self.add(&e, None);
        let how = src.below(3);
        if how == 0 {
            self.hold(en(N::new_root_mut(g)), id);
            return Ok(());
        }
        let imm = N::new_root(g);
        self.from_imm(src, cx, &imm, &e, id)?;
        if how == 1 && !self.cfg.faults && self.imm.len() < 4 {
            self.imm.push((imm, e));
        }
        Ok(())
    }
    /// clone_for_update of a random element of an immutable tree.
    fn from_imm(&mut self, src: &mut Src, cx: &mut Cx, imm: &N, e: &El, id: usize) -> R {
        let v = self.view(id);
        let fid = *src.pick(&v.f.nodes().collect::<Vec<_>>());
        let n = reach(src, imm, &v.f, fid).into_node().unwrap();
        let before = en(n.clone());
        let u = n.clone_for_update();
        drop(n);
        cx.label_if(fid != 0, "cloned for update in the middle");
        ensure!(u.is_mutable(), "clone_for_update gave an immutable node");
        is_el(&en(u.clone()), &v.f, fid, "node cloned for update")?;
        is_el(&before, &v.f, fid, "original of clone_for_update")?;
        check_green(&root_of(&u).green(), e)?;
        if self.cfg.isolation {
            relations(cx, &en(u.clone()), &v.f, fid, &[v.f.els[fid].kind])?;
        }
        let i = v.order[fid];
        self.hold(en(u), i);
        Ok(())
    }
    fn acquire(&mut self, src: &mut Src) -> R {
        if self.hs.is_empty() {
            return Ok(());
        }
        let (h, id) = src.pick(&self.hs).clone();
        let r = self.root(id);
        let v = self.view(r);
        let top = top_of(&h);
        drop(h);
        let mut fid = src.below(v.f.len());
        if self.cfg.huge && src.chance(2, 3) {
            let big = (0..v.f.len()).max_by_key(|&i| v.f.els[i].kids.len()).unwrap();
            let kids = &v.f.els[big].kids;
            let at = match src.below(6) {
                0 => 0,
                1 => kids.len(),
                2 => src.range(250, 260),
                _ => src.range(65_530, 65_545),
            };
            // The node itself, or the child.
            fid = match src.below(4) {
                0 => big,
                _ => kids.get(at).or(kids.last()).copied().unwrap_or(big),
            };
        }
        if self.cfg.crowd && src.chance(3, 4) {
            // Many children of one node, in any order.
            let NodeOrToken::Node(root) = &top else { return Ok(()) };
            let big = (0..v.f.len()).max_by_key(|&i| v.f.els[i].kids.len()).unwrap();
            let p = reach(src, root, &v.f, big).into_node().unwrap();
            let len = v.f.els[big].kids.len();
            self.note(|| "take many".to_string());
            if len == 0 {
                return Ok(());
            }
            let (n, lean) = (src.range(5, 50), src.below(3));
            for _ in 0..n {
                let i = match lean {
                    0 => src.below(len),
                    1 => len - 1 - src.below(len.div_ceil(2)),
                    _ => len - 1 - self.hs.len() % len,
                };
                let fid = v.f.els[big].kids[i];
                let e = match src.below(3) {
                    0 => reach(src, root, &v.f, fid),
                    _ => p.children_with_tokens().nth(i).expect("child"),
                };
                is_el(&e, &v.f, fid, "acquired handle")?;
                self.hold(e, v.order[fid]);
            }
            self.crowds += 1;
            return Ok(());
        }
        let e = match &top {
            NodeOrToken::Node(n) => {
                let n = n.clone();
                drop(top);
                reach(src, &n, &v.f, fid)
            }
            NodeOrToken::Token(_) => top,
        };
        is_el(&e, &v.f, fid, "acquired handle")?;
        let i = v.order[fid];
        self.note(|| format!("take {:?}", v.f.path(fid)));
        self.hold(e, i);
        Ok(())
    }
    fn detach(&mut self, src: &mut Src) -> R {
        let Some(i) = self.handle_of(src, |m| m.parent.is_some()).or(self.handle_of(src, |_| true)) else { return Ok(()) };
        let (h, id) = self.hs[i].clone();
        self.note(|| format!("detach #{id}"));
        if src.chance(1, 2) {
            // Only one handle to it.
            drop(h);
            let (h, _) = &self.hs[i];
            h.detach();
        } else {
            h.detach();
        }
        self.edits += 1;
        self.m_detach(id);
        Ok(())
    }
    /// Ids to insert, planned; each is (handle, id).
    fn plan(&mut self, src: &mut Src, n: usize) -> Vec<(E, usize)> {
        let mut ins = vec![];
        for _ in 0..n {
            match src.weighted(&[4, 4, 4]) {
                1 => {
                    if let Some(i) = self.handle_of(src, |m| m.parent.is_some()) {
                        ins.push(self.hs[i].clone());
                        continue;
                    }
                    ins.push(self.fresh(src));
                }
                2 => {
                    if let Some(i) = self.handle_of(src, |m| m.parent.is_none()) {
                        ins.push(self.hs[i].clone());
                        continue;
                    }
                    ins.push(self.fresh(src));
                }
                _ => ins.push(self.fresh(src)),
            }
        }
        ins
    }
    /// Applies a splice to the model; stops before the first insertion that would be rejected and
    /// returns how many were made.
    fn m_splice(&mut self, target: usize, a: usize, b: usize, ids: &[usize]) -> usize {
        let del: Vec<usize> = self.els[target].kids.iter().copied().enumerate().filter(|(i, _)| (a..b).contains(i)).map(|x| x.1).collect();
        del.into_iter().for_each(|d| self.m_detach(d));
        let mut at = a;
        for (n, &id) in ids.iter().enumerate() {
            if self.inside(target, id) {
                return n;
            }
            let old = self.els[id].parent;
            let old_i = old.map(|_| self.idx(id));
            self.m_detach(id);
            if at > self.els[target].kids.len() {
                // Put it back: the caller does not try this one.
                if let Some(p) = old {
                    self.els[p].kids.insert(old_i.unwrap(), id);
                    self.els[id].parent = Some(p);
                }
                return n;
            }
            self.els[target].kids.insert(at, id);
            self.els[id].parent = Some(target);
            at += 1;
        }
        ids.len()
    }
    fn splice(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        let Some(i) = self.handle_of(src, |m| !m.tok) else { return Ok(()) };
        let (h, target) = self.hs[i].clone();
        let len = self.els[target].kids.len();
        let (a, b) = match src.below(5) {
            0 => (len, len),
            1 => (0, 0),
            2 => {
                let a = src.below(len + 1);
                (a, a)
            }
            3 => (0, len),
            _ => {
                let (a, b) = (src.below(len + 1), src.below(len + 1));
                (a.min(b), a.max(b))
            }
        };
        let (a, b) = match len > 2000 {
            // Removing is linear in the number of children.
            true => {
                let a = match src.below(3) {
                    0 => a,
                    1 => src.range(65_531, 65_537).min(len),
                    _ => src.range(250, 260),
                };
                (a, b.clamp(a, (a + 4).min(len)))
            }
            false => (a, b),
        };
        let n = match self.cfg.huge {
            true => src.range(0, 12),
            false => match src.weighted(&[20, 60, 30, 20, 10, 3]) {
                5 => src.range(5, 40),
                n => n,
            },
        };
        let mut ins = self.plan(src, n);
        let ids: Vec<usize> = ins.iter().map(|x| x.1).collect();
        // Whether the elements are kept or handed over.
        let pred_moved = ids.iter().any(|&i| self.els[i].parent.is_some());
        let same_tree = ids.iter().any(|&i| self.root(i) == self.root(target));
        let done = self.m_splice(target, a, b, &ids);
        ins.truncate(done);
        self.note(|| format!("splice #{target} {a}..{b} [{}]", ids[..done].iter().map(|i| format!("#{i}")).collect::<Vec<_>>().join(" ")));
        cx.label_if(a < b, "range deleted");
        cx.label_if(pred_moved && done > 0, "attached element moved");
        cx.label_if(same_tree && done > 0, "moved within one tree");
        cx.label_if(self.depth(target) > 0, "edit below the root");
        let t = h.into_node().unwrap();
        // Keep some of the inserted handles.
        let keep: Vec<(E, usize)> = ins.iter().filter(|_| src.chance(1, 2)).cloned().collect();
        match src.below(3) {
            0 => {
                let v: Vec<E> = ins.into_iter().map(|x| x.0).collect();
                t.splice_children(a..b, v);
            }
            1 => t.splice_children(a..b, ins.iter().map(|x| x.0.clone())),
            _ => {
                // The target's own handle is held by nobody else during the call.
                let v: Vec<E> = ins.into_iter().map(|x| x.0).collect();
                let c: CN = t.into();
                c.splice_children(a..b, v.into_iter().map(CE::from));
            }
        }
        self.edits += 1;
        for (e, id) in keep {
            self.hold(e, id);
        }
        Ok(())
    }
    /// Moves all children of one node into another while iterating over them.
    fn move_children(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        let Some(i) = self.handle_of(src, |m| !m.tok) else { return Ok(()) };
        let Some(j) = self.handle_of(src, |m| !m.tok && !m.kids.is_empty()) else { return Ok(()) };
        let (t, target) = self.hs[i].clone();
        let (s, source) = self.hs[j].clone();
        if self.inside(target, source) || self.els[source].kids.len() > 2000 {
            return Ok(());
        }
        let at = src.below(self.els[target].kids.len() + 1);
        let nodes_only = src.chance(1, 3);
        let ids: Vec<usize> = self.els[source].kids.iter().copied().filter(|&k| !nodes_only || !self.els[k].tok).collect();
        self.note(|| format!("move children of #{source} to #{target} at {at}"));
        let done = self.m_splice(target, at, at, &ids);
        if done != ids.len() {
            return fail("harness: moving children should always be possible");
        }
        cx.label("children moved while iterating over them");
        let (t, s) = (t.into_node().unwrap(), s.into_node().unwrap());
        if nodes_only {
            t.splice_children(at..at, s.children().map(en));
        } else {
            t.splice_children(at..at, s.children_with_tokens());
        }
        self.edits += 1;
        Ok(())
    }
    /// C22.
    fn detach_iter(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        let Some(i) = self.handle_of(src, |m| m.kids.len() > 1).or(self.handle_of(src, |m| !m.tok)) else { return Ok(()) };
        let (h, id) = self.hs[i].clone();
        let n = h.into_node().unwrap();
        let mode = src.below(6);
        let kids = self.els[id].kids.clone();
        let kinds: Vec<u16> = match (kids.is_empty(), src.below(3)) {
            (false, 0) => vec![self.els[*src.pick(&kids)].kind],
            (false, 1) => vec![self.els[*src.pick(&kids)].kind, self.els[*src.pick(&kids)].kind],
            (false, _) => kids.iter().map(|&k| self.els[k].kind).collect(),
            _ => vec![1],
        };
        let node_only = mode % 2 == 0;
        let all: Vec<usize> = kids.iter().copied().filter(|&k| !node_only || !self.els[k].tok).collect();
        // Filtered from the start, or after some steps (which may detach as well).
        let filter_at = match mode {
            0 | 1 => usize::MAX,
            2 | 3 => 0,
            _ => src.below(all.len() + 1),
        };
        let k2 = kinds.clone();
        let m = move |k: Kind| k2.contains(&raw(k));
        let want: Vec<usize> = all.iter().copied().enumerate().filter(|(i, k)| *i < filter_at || kinds.contains(&self.els[*k].kind)).map(|x| x.1).collect();
        let dens = *src.pick(&[2u32, 4, 3, 1]);
        self.note(|| format!("loop #{id} mode {mode} from {filter_at}"));
        enum It {
            N(rowan::SyntaxNodeChildren<Lang>),
            E(rowan::SyntaxElementChildren<Lang>),
            B(Box<dyn Iterator<Item = E>>),
            Gone,
        }
        let mut it = if node_only { It::N(n.children()) } else { It::E(n.children_with_tokens()) };
        if src.chance(1, 2) {
            drop(n);
        }
        let mut given: Vec<(E, usize)> = vec![];
        let mut at = 0;
        let mut detached = 0;
        loop {
            if at == filter_at {
                it = match std::mem::replace(&mut it, It::Gone) {
                    It::N(x) => It::B(Box::new(x.by_kind(m.clone()).map(en))),
                    It::E(x) => It::B(Box::new(x.by_kind(m.clone()))),
                    x => x,
                };
            }
            let e = match &mut it {
                It::N(x) => x.next().map(en),
                It::E(x) => x.next(),
                It::B(x) => x.next(),
                It::Gone => None,
            };
            let Some(e) = e else { break };
            let Some(&cid) = want.get(at) else { return fail(format!("the loop over {} children visits {e:?} beyond the end, detached {detached}", want.len())) };
            at += 1;
            // It is the right child, where the model says it is now.
            let mel = &self.els[cid];
            ensure!(e_tok(&e) == mel.tok && e_raw(&e) == mel.kind, "child {} of the loop is {e:?}, expected kind {}", at - 1, mel.kind);
            ensure_eq!(e.index(), self.idx(cid), "index of child {} of the loop, {detached} detached", at - 1);
            ensure!(e.parent().is_some(), "child given by the loop has no parent");
            match &e {
                NodeOrToken::Node(x) => check_green(&x.green(), &self.el(cid))?,
                NodeOrToken::Token(t) => ensure_eq!(t.text(), mel.text.as_str(), "token given by the loop"),
            }
            if src.chance(dens, 4) {
                e.detach();
                self.m_detach(cid);
                detached += 1;
                self.note(|| format!("detach #{cid}"));
            } else if !given.is_empty() && src.chance(1, 4) {
                // One given earlier.
                let (g, gid) = src.pick(&given).clone();
                g.detach();
                if self.els[gid].parent == Some(id) {
                    detached += 1;
                }
                self.m_detach(gid);
                self.note(|| format!("detach earlier #{gid}"));
            }
            if src.chance(1, 2) {
                given.push((e, cid));
            }
        }
        ensure_eq!(at, want.len(), "children visited by the loop, {detached} detached");
        drop(it);
        cx.label_if(detached > 0, "detached while iterating");
        cx.label_if(detached > 0 && detached < want.len(), "some detached, some kept");
        self.edits += (detached > 0) as usize;
        for (e, id) in given {
            self.hold(e, id);
        }
        Ok(())
    }
    fn snapshot(&mut self, src: &mut Src) -> R {
        let Some(i) = self.handle_of(src, |m| !m.tok) else { return Ok(()) };
        let (h, id) = self.hs[i].clone();
        let n = h.into_node().unwrap();
        let e = self.el(id);
        self.note(|| format!("snapshot #{id}"));
        if src.chance(1, 2) {
            if self.cows.len() > 3 {
                let i = src.below(self.cows.len());
                self.cows.swap_remove(i);
            }
            let (g, b) = green_of(&n);
            check_green(&g, &e)?;
            self.cows.push((g, b, e));
            return Ok(());
        }
        if self.snaps.len() > 6 {
            let i = src.below(self.snaps.len());
            self.snaps.swap_remove(i);
        }
        let g = n.green().into_owned();
        check_green(&g, &e)?;
        self.snaps.push((g, e));
        Ok(())
    }
    fn subtree(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        let Some(i) = self.handle_of(src, |m| !m.tok) else { return Ok(()) };
        let (h, id) = self.hs[i].clone();
        let n = h.into_node().unwrap();
        let e = self.el(id);
        self.note(|| format!("clone_subtree #{id}"));
        let s = n.clone_subtree();
        ensure!(s.parent().is_none() && !s.is_mutable(), "clone_subtree gives an immutable root");
        ensure_eq!(s.text_range(), TextRange::up_to(ts(e.len())), "range of a cloned subtree");
        check_green(&s.green(), &e)?;
        if e.count() < 60 {
            let f = Flat::new(&e);
            let x = src.below(f.len());
            relations(cx, &handle(&s, &f, x), &f, x, &[e.kind()])?;
        }
        if self.imm.len() > 5 {
            let i = src.below(self.imm.len());
            self.imm.swap_remove(i);
        }
        self.imm.push((s, e));
        Ok(())
    }
    fn update_again(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        if self.imm.is_empty() || self.cfg.faults {
            return Ok(());
        }
        let (n, e) = src.pick(&self.imm).clone();
        self.note(|| "clone_for_update of a kept tree".into());
        let id = self.add(&e, None);
        self.from_imm(src, cx, &n, &e, id)
    }
    fn replace(&mut self, src: &mut Src) -> R {
        let Some(i) = self.handle_of(src, |m| m.parent.is_some()).or(self.handle_of(src, |m| !m.tok)) else { return Ok(()) };
        let (h, id) = self.hs[i].clone();
        let k = self.els[id].kind;
        self.note(|| format!("replace_with #{id}"));
        self.g.budget = 3;
        let new = match &h {
            NodeOrToken::Node(_) => match self.g.node(src, 2) {
                El::N(_, v) => El::N(k, v),
                t => t,
            },
            NodeOrToken::Token(_) => El::T(k, self.g.text(src)),
        };
        // The expected tree.
        let r = self.root(id);
        let v = self.view(r);
        let p = v.f.path(v.order.iter().position(|&o| o == id).unwrap());
        let mut want = v.e;
        *want.at_mut(&p) = new.clone();
        let res = match (&h, g_direct(&new)) {
            (NodeOrToken::Node(n), NodeOrToken::Node(g)) => n.replace_with(g),
            (NodeOrToken::Token(t), NodeOrToken::Token(g)) => t.replace_with(g),
            _ => return fail("sort"),
        };
        ctx(check_green(&res, &want), "replace_with", "")?;
        if self.snaps.len() < 6 {
            self.snaps.push((res, want));
        }
        Ok(())
    }
    fn step(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        let w = self.cfg.weights;
        match src.weighted(&w) {
            0 => {
                if self.roots().len() < 4 {
                    self.new_tree(src, cx, None)?
                }
            }
            1 => self.acquire(src)?,
            2 => {
                if self.hs.len() > 1 {
                    let i = src.below(self.hs.len());
                    let (_, id) = self.hs.swap_remove(i);
                    self.note(|| format!("drop #{id}"));
                }
            }
            3 => {
                if let Some(i) = self.handle_of(src, |_| true) {
                    let h = self.hs[i].clone();
                    self.hs.push(h);
                }
            }
            4 => self.detach(src)?,
            5 => self.splice(src, cx)?,
            6 => self.detach_iter(src, cx)?,
            7 => self.snapshot(src)?,
            8 => self.subtree(src, cx)?,
            9 => self.replace(src)?,
            10 => self.update_again(src, cx)?,
            _ => self.move_children(src, cx)?,
        }
        self.trim(src);
        Ok(())
    }
    // ------------------------------------------------------------ rejected edits (C32)
    fn fault(&mut self, src: &mut Src, cx: &mut Cx) -> R {
        let Some(i) = self.handle_of(src, |m| !m.tok) else { return Ok(()) };
        let (h, target) = self.hs[i].clone();
        let t = h.into_node().unwrap();
        let len = self.els[target].kids.len();
        let (a, b) = {
            let (a, b) = (src.below(len + 1), src.below(len + 1));
            if src.chance(1, 2) { (a, a) } else { (a.min(b), a.max(b)) }
        };
        // Valid insertions before the bad one.
        let n = src.below(3);
        let mut ins = self.plan(src, n);
        let mut touched: Vec<usize> = ins.iter().map(|x| self.root(x.1)).collect();
        touched.push(self.root(target));
        let kept: Vec<(E, usize)> = ins.iter().filter(|_| src.chance(1, 2)).cloned().collect();
        let must = match src.below(6) {
            0 => {
                cx.label("rejected: insertion past the end");
                let x = self.plan(src, 1).pop().unwrap();
                touched.push(self.root(x.1));
                self.note(|| format!("insert #{} past the end of #{target}", x.1));
                if src.chance(1, 2) {
                    self.hs.push(x.clone());
                }
                let at = len + 1 + src.below(3);
                let r = if src.chance(1, 2) { at..at } else { at..at + 2 };
                ensure!(panics(|| t.splice_children(r, [x.0])), "insertion past the end of #{target} did not panic");
                ins.clear();
                false
            }
            1 => {
                cx.label("rejected: insertion into the own subtree");
                // An ancestor of the target, or the target.
                let mut anc = en(t.clone());
                let mut aid = target;
                for _ in 0..src.below(self.depth(target) + 1) {
                    anc = en(anc.parent().unwrap());
                    aid = self.els[aid].parent.unwrap();
                }
                self.note(|| format!("splice #{target} {a}..{b} with its ancestor #{aid}"));
                ins.push((anc, aid));
                // The valid ones before may move the target out of the ancestor.
                n == 0
            }
            2 => {
                cx.label("rejected: immutable element");
                let e = self.fresh_el(src);
                let e = if e.is_tok() { El::N(5, vec![e]) } else { e };
                let imm = N::new_root(g_node(g_direct(&e)));
                let x = match src.below(2) {
                    0 => en(imm.clone()),
                    _ => imm.first_child_or_token().unwrap_or(en(imm.clone())),
                };
                self.note(|| format!("splice #{target} {a}..{b} with an immutable element after {n}"));
                let v: Vec<E> = ins.drain(..).map(|x| x.0).chain([x]).collect();
                ensure!(panics(|| t.splice_children(a..b, v)), "insertion of an immutable element did not panic");
                ctx(check_green(&imm.green(), &e), "immutable tree after the rejected insertion", "")?;
                false
            }
            3 | 4 => {
                cx.label("rejected: the iterator panics");
                self.note(|| format!("splice #{target} {a}..{b} with an iterator that panics after {n}"));
                let v: Vec<E> = ins.drain(..).map(|x| x.0).collect();
                let it = v.into_iter().chain(std::iter::from_fn(|| -> Option<E> { panic!("caller's iterator") }));
                ensure!(panics(|| t.splice_children(a..b, it)), "the iterator's panic was swallowed");
                false
            }
            _ => {
                cx.label("iterator that edits");
                // Detaches something each time it is asked.
                let Some(j) = self.handle_of(src, |m| m.parent.is_some()) else { return Ok(()) };
                let (d, did) = self.hs[j].clone();
                touched.push(self.root(did));
                self.note(|| format!("splice #{target} {a}..{b} with an iterator that detaches #{did}"));
                let v: Vec<E> = ins.drain(..).map(|x| x.0).collect();
                let mut it = v.into_iter();
                let _ = panics(|| {
                    t.splice_children(
                        a..b,
                        std::iter::from_fn(|| {
                            d.detach();
                            it.next()
                        }),
                    )
                });
                false
            }
        };
        if !ins.is_empty() {
            let v: Vec<E> = ins.into_iter().map(|x| x.0).collect();
            let p = panics(|| t.splice_children(a..b, v));
            ensure!(p || !must, "insertion into the own subtree did not panic");
        }
        drop(t);
        self.hs.extend(kept);
        self.edits += 1;
        self.resync(cx, &touched)
    }
    /// After a rejected edit any consistent state is fine; take it over.
    fn resync(&mut self, cx: &mut Cx, touched: &[usize]) -> R {
        let _ = cx;
        // Uninvolved trees did not change.
        for r in self.roots() {
            if !touched.contains(&r) {
                let h = self.hs.iter().find(|h| self.root(h.1) == r).unwrap();
                match top_of(&h.0) {
                    NodeOrToken::Node(n) => ctx(check_green(&n.green(), &self.el(r)), "uninvolved tree", "")?,
                    NodeOrToken::Token(t) => ensure_eq!(t.text(), self.els[r].text.as_str(), "uninvolved token"),
                }
            }
        }
        let old = std::mem::take(&mut self.els);
        let hs = std::mem::take(&mut self.hs);
        let mut trees: Vec<(E, usize)> = vec![];
        let mut new: Vec<(E, usize)> = vec![];
        for (e, id) in hs {
            ensure!(e_tok(&e) == old[id].tok && e_raw(&e) == old[id].kind, "handle to #{id} changed its nature: {e:?}");
            if let NodeOrToken::Token(t) = &e {
                ensure_eq!(t.text(), old[id].text.as_str(), "text of the token #{id}");
            }
            let path = bounded_path(&e)?;
            let top = top_of(&e);
            let root = match trees.iter().find(|t| t.0 == top) {
                Some(t) => t.1,
                None => {
                    let m = match &top {
                        NodeOrToken::Node(n) => read_green(&n.green()),
                        NodeOrToken::Token(t) => El::T(raw(t.kind()), t.text().to_string()),
                    };
                    let r = self.add(&m, None);
                    trees.push((top, r));
                    r
                }
            };
            let mut at = root;
            for i in path {
                let Some(&k) = self.els[at].kids.get(i as usize) else { return fail(format!("handle to #{id} has index {i} in a node with {} children", self.els[at].kids.len())) };
                at = k;
            }
            new.push((e, at));
        }
        drop(trees);
        self.hs = new;
        Ok(())
    }
    // ------------------------------------------------------------ things kept across edits (C25)
    fn keep_something(&mut self, src: &mut Src, cx: &mut Cx) {
        let Some(i) = self.handle_of(src, |m| !m.tok) else { return };
        let n = self.hs[i].0.clone().into_node().unwrap();
        cx.label("iterator, walk or view kept across edits");
        let h = match src.below(11) {
            10 => {
                let (g, b) = green_of(&n);
                let e = self.el(self.hs[i].1);
                Held::Green(g, b, e)
            }
            9 => match self.hs.iter().filter_map(|h| h.0.as_token()).last() {
                Some(t) => {
                    let t = Box::new(t.clone());
                    let (s, g) = (t.text() as *const str, t.green() as *const rowan::GreenTokenData);
                    let want = t.text().to_string();
                    Held::Borrow(t, s, g, want)
                }
                None => Held::Text(n.text()),
            },
            0 => Held::Nodes(n.children()),
            1 => Held::Els(n.children_with_tokens()),
            2 => Held::Pre(n.preorder()),
            3 => Held::PreT(n.preorder_with_tokens()),
            4 => Held::Text(n.text()),
            5 => match n.first_token() {
                Some(t) => Held::Gt(t.green().to_owned()),
                None => Held::Text(n.text()),
            },
            6 => {
                let v: Vec<N> = n.siblings(rowan::Direction::Next).collect();
                Held::Any(Box::new(v.into_iter().map(en)))
            }
            7 => {
                let m = |k: Kind| raw(k) % 2 == 1;
                Held::Any(Box::new(n.children_with_tokens().by_kind(m)))
            }
            _ => {
                let m = |k: Kind| raw(k) % 2 == 0;
                Held::Any(Box::new(n.children().by_kind(m).map(en)))
            }
        };
        if self.held.len() > 5 {
            let i = src.below(self.held.len());
            self.held.swap_remove(i);
        }
        self.held.push(h);
    }
    /// Uses something kept; what it yields after an edit is unspecified, panics included.
    fn use_something(&mut self, src: &mut Src) -> R {
        if self.held.is_empty() {
            return Ok(());
        }
        let mut stale = false;
        let i = src.below(self.held.len());
        let steps = src.below(4);
        let skip = src.chance(1, 3);
        let h = &mut self.held[i];
        let mut out: Vec<E> = vec![];
        let dead = panics(|| match h {
            Held::Nodes(x) => out.extend(x.take(steps).map(en)),
            Held::Els(x) => out.extend(x.take(steps)),
            Held::Any(x) => out.extend(x.take(steps)),
            Held::Pre(x) => {
                for _ in 0..steps {
                    if let Some(WalkEvent::Enter(n) | WalkEvent::Leave(n)) = x.next() {
                        out.push(en(n));
                        if skip {
                            x.skip_subtree();
                        }
                    }
                }
            }
            Held::PreT(x) => {
                for _ in 0..steps {
                    if let Some(WalkEvent::Enter(n) | WalkEvent::Leave(n)) = x.next() {
                        out.push(n);
                        if skip {
                            x.skip_subtree();
                        }
                    }
                }
            }
            Held::Text(x) => {
                let s = x.to_string();
                x.char_at(ts(steps));
                x.contains_char('a');
                let _ = *x == *s.as_str();
                let _ = x == x;
            }
            Held::Gt(t) => assert!(t.text().len() < 1 << 20),
            Held::Green(g, _, e) => stale = check_green(g, e).is_err(),
            Held::Borrow(t, s, g, want) => {
                // Safe code can hold `t.text()` and `t.green()` for as long as it holds `t`.
                let (s, g) = unsafe { (&**s, &**g) };
                stale = s != want.as_str() || g.text() != want.as_str() || t.text() != want.as_str();
            }
        });
        if dead {
            self.held.swap_remove(i);
        }
        for e in out {
            // Reads are fine wherever the element is now.
            let _ = (e.kind(), e.text_range(), e.index(), e.parent(), e_text(&e));
        }
        ensure!(!stale, "memory: data borrowed from a handle changed");
        Ok(())
    }
}

fn green_addr(e: &E) -> *const () {
    match e {
        NodeOrToken::Node(n) => &*n.green() as *const rowan::GreenNodeData as *const (),
        NodeOrToken::Token(t) => t.green() as *const rowan::GreenTokenData as *const (),
    }
}
fn top_of(e: &E) -> E {
    match e.parent() {
        Some(p) => en(root_of(&p)),
        None => e.clone(),
    }
}
fn bounded_path(e: &E) -> Result<Vec<u32>, Fail> {
    let mut p = vec![];
    let mut cur = e.clone();
    for _ in 0..2000 {
        match cur.parent() {
            None => {
                p.reverse();
                return Ok(p);
            }
            Some(q) => {
                p.push(cur.index() as u32);
                cur = en(q);
            }
        }
    }
    fail("parent chain does not end")
}

fn play(src: &mut Src, cx: &mut Cx, cfg: Cfg) -> R {
    let mut w = World::new(src, cfg);
    w.new_tree(src, cx, None)?;
    let many = src.chance(1, 3);
    for _ in 0..if many { 8 } else { src.below(4) } {
        w.acquire(src)?;
    }
    let ops = src.range(2, cfg.max_ops);
    let r = (|| -> R {
        for _ in 0..ops {
            if src.dry() {
                break;
            }
            if cfg.faults && src.chance(1, 4) {
                w.fault(src, cx)?;
            } else if cfg.loose && src.chance(1, 4) {
                if src.chance(1, 2) {
                    w.keep_something(src, cx);
                }
                w.use_something(src)?;
            } else {
                w.step(src, cx)?;
            }
            if w.policy > 0 {
                w.check(src, cx, w.policy == 2)?;
            }
            w.compact();
        }
        w.check(src, cx, true)?;
        // Drop handles one by one; the rest must not notice.
        let stop = src.below(4);
        while w.hs.len() > 1 && stop > 0 {
            let i = src.below(w.hs.len());
            w.hs.swap_remove(i);
            if stop == 1 {
                w.check(src, cx, false)?;
            }
        }
        w.check(src, cx, true)
    })();
    cx.label_if(w.crowds > 0, "handles to many siblings");
    cx.label(["checked at the end", "checked after every step", "checked with all queries after every step"][w.policy]);
    cx.nontrivial = w.edits >= 2;
    let log = std::mem::take(&mut w.log);
    cx.sample(|| log.clone());
    ctx(r, "history", &log)
}

/// Edits of nodes with more children than 16 bits count.
pub fn huge(src: &mut Src, cx: &mut Cx) -> R {
    let r = play(src, cx, Cfg { content: true, handles: true, huge: true, max_ops: 12, weights: [0, 16, 2, 1, 8, 16, 0, 1, 1, 1, 0, 0], ..BASE });
    cx.nontrivial = cx.labels.contains_key("huge width (beyond 2^16 children)");
    r
}
pub fn c20(src: &mut Src, cx: &mut Cx) -> R {
    play(src, cx, Cfg { content: true, ..BASE })
}
pub fn c21(src: &mut Src, cx: &mut Cx) -> R {
    play(src, cx, Cfg { handles: true, weights: [3, 22, 10, 4, 14, 30, 3, 1, 1, 1, 2, 4], ..BASE })
}
/// Histories in which dozens of handles to siblings are held at once.
pub fn crowd(src: &mut Src, cx: &mut Cx) -> R {
    let r = play(src, cx, Cfg { content: true, handles: true, crowd: true, max_ops: 14, weights: [1, 22, 6, 2, 14, 24, 3, 1, 1, 1, 1, 2], ..BASE });
    cx.nontrivial &= cx.labels.contains_key("handles to many siblings");
    r
}
/// Histories with many elements that share their green data.
pub fn c13(src: &mut Src, cx: &mut Cx) -> R {
    let r = play(src, cx, Cfg { handles: true, twins: true, weights: [3, 30, 6, 3, 14, 30, 1, 0, 1, 0, 2, 6], ..BASE });
    cx.nontrivial &= cx.labels.contains_key("unequal handles to places sharing their green element");
    r
}
pub fn c22(src: &mut Src, cx: &mut Cx) -> R {
    let r = play(src, cx, Cfg { content: true, handles: true, max_ops: 10, weights: [2, 16, 8, 2, 4, 8, 30, 0, 0, 0, 0, 2], ..BASE });
    cx.nontrivial = cx.labels.contains_key("detached while iterating");
    r
}
pub fn c23(src: &mut Src, cx: &mut Cx) -> R {
    let r = play(src, cx, Cfg { content: true, isolation: true, weights: [6, 12, 8, 2, 12, 24, 5, 12, 10, 6, 12, 4], ..BASE });
    cx.nontrivial &= true;
    r
}
pub fn c32(src: &mut Src, cx: &mut Cx) -> R {
    let r = play(src, cx, Cfg { content: true, handles: true, faults: true, max_ops: 16, ..BASE });
    cx.nontrivial = cx.labels.keys().any(|k| k.starts_with("rejected"));
    r
}
pub fn history(src: &mut Src, cx: &mut Cx) -> R {
    play(src, cx, Cfg { loose: true, content: true, ..BASE })
}
pub fn fault_history(src: &mut Src, cx: &mut Cx) -> R {
    play(src, cx, Cfg { loose: true, content: true, faults: true, ..BASE })
}

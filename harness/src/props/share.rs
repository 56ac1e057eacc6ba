//! C33, C34: what edits and copies share, and what handles keep alive.

use crate::alloc;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rowan::{GreenNode, GreenNodeData, GreenTokenData, NodeOrToken, WalkEvent};
use std::collections::BTreeSet;

type Ref<'a> = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;

fn addr(c: Ref) -> usize {
    match c {
        NodeOrToken::Node(n) => n as *const GreenNodeData as *const u8 as usize,
        NodeOrToken::Token(t) => t as *const GreenTokenData as *const u8 as usize,
    }
}
fn own_addr(c: &GEl) -> usize {
    match c {
        NodeOrToken::Node(n) => addr(NodeOrToken::Node(n)),
        NodeOrToken::Token(t) => addr(NodeOrToken::Token(t)),
    }
}
fn owned(c: Ref) -> GEl {
    match c {
        NodeOrToken::Node(n) => NodeOrToken::Node(n.to_owned()),
        NodeOrToken::Token(t) => NodeOrToken::Token(t.to_owned()),
    }
}
fn node_addr(n: &GreenNodeData) -> usize {
    addr(NodeOrToken::Node(n))
}
fn el_addr(e: &E) -> usize {
    match e {
        NodeOrToken::Node(n) => node_addr(&n.green()),
        NodeOrToken::Token(t) => addr(NodeOrToken::Token(t.green())),
    }
}
fn kid_addrs(n: &GreenNodeData) -> Vec<usize> {
    n.children().map(addr).collect()
}

// ---------------------------------------------------------------- C33

/// Which allocation stands where; `None` where an edit may have made a new one.
#[derive(Clone)]
struct Place {
    at: Option<usize>,
    kids: Vec<Place>,
}
fn places(c: Ref) -> Place {
    Place {
        at: Some(addr(c)),
        kids: match c {
            NodeOrToken::Node(n) => n.children().map(places).collect(),
            NodeOrToken::Token(_) => vec![],
        },
    }
}
fn compare(c: Ref, p: &Place, path: &mut Vec<usize>) -> R {
    if let Some(a) = p.at {
        ensure!(addr(c) == a, "the part at {path:?}, which no edit touched, is not the same allocation any more");
        return Ok(());
    }
    let NodeOrToken::Node(n) = c else { return fail("a token where a node was edited") };
    ensure_eq!(n.children().len(), p.kids.len(), "number of children of the edited node at {path:?}");
    for (i, (c, p)) in n.children().zip(&p.kids).enumerate() {
        path.push(i);
        compare(c, p, path)?;
        path.pop();
    }
    Ok(())
}
/// Marks the nodes on the way to `path` as replaced and gives the last of them.
fn touch<'a>(p: &'a mut Place, path: &[u32]) -> &'a mut Place {
    p.at = None;
    match path.split_first() {
        None => p,
        Some((&i, rest)) => touch(&mut p.kids[i as usize], rest),
    }
}

pub fn c33(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, NORMAL);
    let g = build(src, &e);
    cx.nontrivial = e.count() >= 4;
    match src.below(4) {
        0 => c33_green(src, cx, &g),
        1 => c33_replace(src, cx, &e, &g),
        2 => c33_wrap(src, cx, &e, &g),
        _ => c33_edits(src, cx, &e, g),
    }
}

fn green_at(g: &GreenNode, path: &[u32]) -> GEl {
    let mut c: GEl = NodeOrToken::Node(g.clone());
    for &i in path {
        let n = c.into_node().unwrap();
        c = owned(n.children().nth(i as usize).unwrap());
    }
    c
}

fn some_part(src: &mut Src, g: &GreenNode) -> GEl {
    if src.chance(1, 3) {
        return g_direct(&El::T(3, "new".into()));
    }
    let mut c: GEl = NodeOrToken::Node(g.clone());
    for _ in 0..src.range(1, 4) {
        let NodeOrToken::Node(n) = &c else { break };
        let len = n.children().len();
        if len == 0 {
            break;
        }
        c = owned(n.children().nth(src.below(len)).unwrap());
    }
    c
}

fn c33_green(src: &mut Src, cx: &mut Cx, g: &GreenNode) -> R {
    cx.label("edits of green nodes");
    let f = Flat::new(&read_green(g));
    let nodes: Vec<usize> = f.nodes().collect();
    let mut n = green_at(g, &f.path(*src.pick(&nodes))).into_node().unwrap();
    for _ in 0..src.range(1, 5) {
        let len = n.children().len();
        let mut want = kid_addrs(&n);
        let what;
        let new = match src.below(6) {
            0 if len > 0 => {
                what = "replace_child";
                let (i, x) = (src.below(len), some_part(src, g));
                want[i] = own_addr(&x);
                n.replace_child(i, x)
            }
            1 => {
                what = "insert_child";
                let (i, x) = (src.below(len + 1), some_part(src, g));
                want.insert(i, own_addr(&x));
                n.insert_child(i, x)
            }
            2 if len > 0 => {
                what = "remove_child";
                let i = src.below(len);
                want.remove(i);
                n.remove_child(i)
            }
            3 => {
                what = "GreenNode::new over the children of another node";
                GreenNode::new(sk(5), n.children().map(owned).collect::<Vec<_>>())
            }
            4 => {
                what = "to_owned";
                let o: GreenNode = (*n).to_owned();
                ensure_eq!(node_addr(&o), node_addr(&n), "address of an owned copy");
                let c = o.clone();
                ensure_eq!(node_addr(&c), node_addr(&n), "address of a clone");
                c
            }
            _ => {
                what = "splice_children";
                let a = src.below(len + 1);
                let b = src.range(a, len);
                let ins: Vec<GEl> = (0..src.below(4)).map(|_| some_part(src, g)).collect();
                want.splice(a..b, ins.iter().map(own_addr));
                n.splice_children(a..b, ins)
            }
        };
        cx.queries += want.len() as u64;
        let got = kid_addrs(&new);
        ensure_eq!(got.len(), want.len(), "number of children after {what}");
        for (i, (a, b)) in got.iter().zip(&want).enumerate() {
            ensure!(a == b, "child {i} after {what} is a copy, not the element that was there or was given");
        }
        n = new;
    }
    Ok(())
}

fn c33_replace(src: &mut Src, cx: &mut Cx, e: &El, g: &GreenNode) -> R {
    cx.label("replace_with");
    let f = Flat::new(e);
    let mutable = src.chance(1, 3);
    let root = make_root(src, g.clone(), mutable);
    for id in f.some(src, 6) {
        let h = reach(src, &root, &f, id);
        let path = f.path(id);
        let k = f.els[id].kind;
        let rep = if f.els[id].tok { g_direct(&El::T(k, "other".into())) } else { g_direct(&El::N(k, vec![El::T(2, "other".into())])) };
        let rep_addr = own_addr(&rep);
        let mut want = places(NodeOrToken::Node(g));
        *touch(&mut want, &path) = Place { at: Some(rep_addr), kids: vec![] };
        let before = alloc::live().1;
        let new = match (&h, rep) {
            (NodeOrToken::Node(n), NodeOrToken::Node(r)) => n.replace_with(r),
            (NodeOrToken::Token(t), NodeOrToken::Token(r)) => t.replace_with(r),
            _ => return fail("sort of the replacement"),
        };
        let made = alloc::live().1 - before;
        cx.queries += 1;
        compare(NodeOrToken::Node(&new), &want, &mut vec![])?;
        ensure!(made <= path.len() as isize + 2, "replace_with at depth {} left {made} new allocations", path.len());
    }
    Ok(())
}

fn c33_wrap(src: &mut Src, cx: &mut Cx, e: &El, g: &GreenNode) -> R {
    cx.label("trees over green nodes and their copies");
    let f = Flat::new(e);
    let root = match src.below(3) {
        0 => N::new_root_mut(g.clone()),
        _ => N::new_root(g.clone()),
    };
    let base = alloc::live().1;
    for id in f.some(src, 8) {
        let h = reach(src, &root, &f, id);
        let raw = own_addr(&green_at(g, &f.path(id)));
        ensure_eq!(el_addr(&h), raw, "allocation behind the handle to element {id}");
        let NodeOrToken::Node(n) = h else { continue };
        let owned: GreenNode = n.green().into_owned();
        ensure_eq!(node_addr(&owned), raw, "allocation behind the owned green node of element {id}");
        let sub = n.clone_subtree();
        ensure_eq!(node_addr(&sub.green()), raw, "allocation behind clone_subtree of element {id}");
        if !root.is_mutable() {
            let up = n.clone_for_update();
            ensure_eq!(node_addr(&up.green()), raw, "allocation behind clone_for_update of element {id}");
            let top = up.ancestors().last().unwrap();
            ensure_eq!(node_addr(&top.green()), node_addr(g), "allocation behind the root above clone_for_update of element {id}");
            let made = alloc::live().1 - base;
            // The handle, the copies and their ancestors; no green data.
            ensure!(made <= 2 * (f.depth(id) as isize + 1) + 6, "a copy of element {id} at depth {} left {made} allocations", f.depth(id));
        }
        cx.queries += 1;
    }
    Ok(())
}

fn c33_edits(src: &mut Src, cx: &mut Cx, e: &El, g: GreenNode) -> R {
    cx.label("edits of mutable trees");
    let mut model = e.clone();
    let root = make_root(src, g.clone(), true);
    let mut keep: Vec<GreenNode> = vec![g]; // no address is used twice
    let mut loose: Vec<(E, El)> = vec![];
    let mut held: Vec<E> = vec![];
    for _ in 0..src.range(1, 6) {
        let f = Flat::new(&model);
        let snap = root.green().into_owned();
        let mut want = places(NodeOrToken::Node(&snap));
        let nodes: Vec<usize> = f.nodes().collect();
        let nid = *src.pick(&nodes);
        let path = f.path(nid);
        let n = at_path(&root, &path).into_node().unwrap();
        if src.chance(1, 2) {
            held.push(en(n.clone()));
        }
        let len = f.els[nid].kids.len();
        if src.chance(1, 2) && len > 0 {
            let i = src.below(len);
            let c = n.children_with_tokens().nth(i).unwrap();
            let was = el_addr(&c);
            c.detach();
            touch(&mut want, &path).kids.remove(i);
            ensure_eq!(el_addr(&c), was, "allocation behind a detached element");
            loose.push((c, model.at_mut(&path).kids_mut().remove(i)));
        } else {
            let a = src.below(len + 1);
            let b = if src.chance(1, 3) { src.range(a, len) } else { a };
            let mut ins: Vec<E> = vec![];
            let mut els = vec![];
            let mut at: Vec<Place> = vec![];
            for _ in 0..src.below(3) {
                if !loose.is_empty() && src.chance(1, 2) {
                    let (x, m) = loose.remove(src.below(loose.len()));
                    ins.push(x);
                    els.push(m);
                } else {
                    let m = El::N(4, vec![El::T(1, "in".into())]);
                    ins.push(en(N::new_root_mut(g_node(g_direct(&m)))));
                    els.push(m);
                }
                at.push(Place { at: Some(el_addr(ins.last().unwrap())), kids: vec![] });
            }
            n.splice_children(a..b, ins);
            model.at_mut(&path).kids_mut().splice(a..b, els);
            touch(&mut want, &path).kids.splice(a..b, at);
        }
        cx.queries += 1;
        let now = root.green().into_owned();
        compare(NodeOrToken::Node(&now), &want, &mut vec![])?;
        ensure_eq!(node_addr(&root.green()), node_addr(&now), "allocation behind the root, asked twice");
        keep.push(snap);
    }
    check_green(&root.green(), &model)
}

// ---------------------------------------------------------------- C34

/// The elements that must be alive for the held handles: they and their ancestors, each named by
/// the path below the top of its tree.
fn closure(paths: &[(usize, Vec<u32>)]) -> usize {
    let mut all: BTreeSet<(usize, &[u32])> = BTreeSet::new();
    for (top, p) in paths {
        for n in 0..=p.len() {
            all.insert((*top, &p[..n]));
        }
    }
    all.len()
}

pub fn c34(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, NORMAL);
    let g = build(src, &e);
    let f = Flat::new(&e);
    match src.below(4) {
        0 => c34_held(src, cx, &f, &g, false),
        1 => c34_held(src, cx, &f, &g, true),
        2 => c34_walk(src, cx, &f, &g),
        _ => c34_edited(src, cx, &e),
    }
}

fn c34_held(src: &mut Src, cx: &mut Cx, f: &Flat, g: &GreenNode, mutable: bool) -> R {
    cx.label(if mutable { "handles into a mutable tree" } else { "handles into an immutable tree" });
    let mut held: Vec<(E, usize)> = Vec::with_capacity(64);
    let base = alloc::live().1;
    let root = make_root(src, g.clone(), mutable);
    held.push((en(root.clone()), 0));
    let mut root = Some(root);
    let mut clones = 0;
    for _ in 0..src.range(2, 14) {
        match (src.below(5), &root) {
            (0..=2, Some(r)) if held.len() < 60 => {
                let id = src.below(f.len());
                let h = reach(src, r, f, id);
                held.push((h, id));
            }
            (3, _) if held.len() < 60 && !held.is_empty() => {
                let (h, id) = held[src.below(held.len())].clone();
                held.push((h, id));
                clones += 1;
            }
            (_, _) if held.len() > 1 => {
                let i = src.below(held.len());
                held.swap_remove(i);
            }
            _ => {}
        }
        if src.chance(1, 8) && !held.is_empty() {
            root = None;
        }
        let live = alloc::live().1 - base;
        let mut ids: Vec<usize> = held.iter().map(|h| h.1).collect();
        if root.is_some() {
            ids.push(0);
        }
        let paths: Vec<(usize, Vec<u32>)> = ids.iter().map(|&id| (0, f.path(id))).collect();
        let least = closure(&paths) as isize;
        let most: isize = if mutable { least } else { 1 + paths.iter().map(|p| p.1.len() as isize).sum::<isize>() };
        cx.queries += 1;
        ensure!(
            live >= least && live <= most,
            "{} handles (elements {:?}) keep {live} allocations alive; they and their ancestors are {least}, at most {most} counting repeats",
            held.len(),
            ids
        );
    }
    // Everything but one handle goes.
    drop(root.take());
    let i = src.below(held.len());
    let (last, id) = held.swap_remove(i);
    held.clear();
    let live = alloc::live().1 - base;
    ensure_eq!(live, f.depth(id) as isize + 1, "allocations kept by the only handle, at depth {}", f.depth(id));
    is_el(&last, f, id, "the only handle left")?;
    drop(last);
    ensure_eq!(alloc::live().1 - base, 0, "allocations after the last handle was dropped");
    cx.label_if(clones > 0, "with clones");
    cx.nontrivial = f.len() >= 4;
    Ok(())
}

fn c34_walk(src: &mut Src, cx: &mut Cx, f: &Flat, g: &GreenNode) -> R {
    cx.label("what a traversal keeps");
    let depth = (0..f.len()).map(|i| f.depth(i)).max().unwrap() as isize;
    let mutable = src.chance(1, 3);
    if mutable && f.len() > 2000 {
        return Ok(());
    }
    let root = make_root(src, g.clone(), mutable);
    let base = alloc::live().1;
    // The element returned, the one looked up next, and their ancestors.
    let most = 2 * (depth + 1) + 8;
    let mut seen = 0usize;
    let mut peak = 0isize;
    let mut at = |_: &E| {
        peak = peak.max(alloc::live().1 - base);
        seen += 1;
    };
    let (what, want) = match src.below(6) {
        0 => {
            root.preorder_with_tokens().for_each(|ev| {
                if let WalkEvent::Enter(e) = &ev {
                    at(e)
                }
            });
            ("preorder_with_tokens", f.len())
        }
        1 => {
            root.descendants().for_each(|n| at(&en(n)));
            ("descendants", f.nodes().count())
        }
        2 => {
            root.children_with_tokens().for_each(|e| at(&e));
            ("children_with_tokens", f.els[0].kids.len())
        }
        3 => {
            root.children().for_each(|n| at(&en(n)));
            ("children", f.node_kids(0).len())
        }
        4 => {
            let mut t = root.first_token();
            while let Some(x) = t.take() {
                t = x.next_token();
                at(&et(x));
            }
            ("first_token and next_token", f.toks.len())
        }
        _ => {
            let mut t = root.last_token();
            while let Some(x) = t.take() {
                t = x.prev_token();
                at(&et(x));
            }
            ("last_token and prev_token", f.toks.len())
        }
    };
    cx.queries += 1;
    ensure_eq!(seen, want, "number of elements in {what}");
    ensure!(peak <= most, "{what} over {want} elements, at most {depth} deep, held {peak} allocations at a time");
    ensure_eq!(alloc::live().1 - base, 0, "allocations left by {what}");
    cx.label_if(want as isize > most, "longer than what may be kept");
    cx.nontrivial = want as isize > most;
    Ok(())
}

fn c34_edited(src: &mut Src, cx: &mut Cx, e: &El) -> R {
    cx.label("handles into an edited tree");
    let (root, mut held) = edited_root(src, e);
    let f = Flat::new(e);
    if f.len() > 3000 {
        return Ok(());
    }
    for _ in 0..src.below(5) {
        let id = src.below(f.len());
        held.push(reach(src, &root, &f, id));
    }
    // Owning the green trees, the drops below free handles only.
    let top_of = |e: &E| e.ancestors().last().map(en).unwrap_or_else(|| e.clone());
    let mut tops: Vec<E> = vec![en(root.clone())];
    let mut names: Vec<(usize, usize, Vec<u32>)> = vec![];
    for (i, h) in held.iter().enumerate() {
        let t = top_of(h);
        let k = tops.iter().position(|x| *x == t).unwrap_or_else(|| {
            tops.push(t.clone());
            tops.len() - 1
        });
        // Tops of different trees can compare equal; whether they are the same is not asked here.
        names.push((k, if k == 0 { 0 } else { i + 1 }, path_of(h)));
    }
    let greens: Vec<GEl> = tops
        .iter()
        .map(|t| match t {
            NodeOrToken::Node(n) => NodeOrToken::Node(n.green().into_owned()),
            NodeOrToken::Token(t) => NodeOrToken::Token(t.green().to_owned()),
        })
        .collect();
    names.push((0, 0, vec![]));
    let least = closure(&names.iter().map(|n| (n.0, n.2.clone())).collect::<Vec<_>>()) as isize;
    let most = closure(&names.iter().map(|n| (n.1, n.2.clone())).collect::<Vec<_>>()) as isize;
    let n = held.len();
    drop(tops);
    let vec_block = (held.capacity() > 0) as isize;
    let before = alloc::live().1;
    drop(root);
    while !held.is_empty() {
        let i = src.below(held.len());
        drop(held.swap_remove(i));
    }
    drop(held);
    let freed = before - alloc::live().1 - vec_block;
    cx.queries += 1;
    ensure!(freed >= least && freed <= most, "dropping {n} handles and the root freed {freed} allocations, they and their ancestors are {least} (to {most})");
    drop(greens);
    cx.nontrivial = f.len() >= 4 && n > 0;
    Ok(())
}

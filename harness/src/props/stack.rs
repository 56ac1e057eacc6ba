//! C36: walking, printing, editing and letting go of a tree takes no stack for its depth.
//! Green nodes themselves are released recursively, so the last owner of each of them stays on the
//! harness's large stack; everything else runs on a small one.

use crate::engine::*;
use crate::model::*;
use crate::{ensure, ensure_eq};
use rowan::ast::SyntaxNodePtr;
use rowan::{Direction, GreenNode, NodeOrToken, TextSize, WalkEvent};

/// Runs `f` on a stack of `kib` KiB. A stack overflow takes the process down.
fn on_stack<X: Send>(kib: usize, f: impl FnOnce() -> X + Send) -> Result<X, Fail> {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(kib << 10).spawn_scoped(s, f).map_err(|e| Fail(format!("thread: {e}")))?;
        t.join().map_err(|e| Fail(format!("panic on the small stack: {}", panic_text(&e))))
    })
}

struct Chain {
    g: GreenNode,
    depth: usize,
    before: Vec<String>,
    after: Vec<String>,
}

fn chain(src: &mut Src, depth: usize) -> Chain {
    let texts = |src: &mut Src| (0..src.below(3)).map(|_| "abcd"[..src.below(4)].to_string()).collect::<Vec<_>>();
    let (before, after) = (texts(src), texts(src));
    let b: Vec<GEl> = before.iter().map(|t| g_direct(&El::T(1, t.clone()))).collect();
    let a: Vec<GEl> = after.iter().map(|t| g_direct(&El::T(2, t.clone()))).collect();
    let mut g = GreenNode::new(sk(7), [g_direct(&El::T(3, "core".into()))]);
    for _ in 0..depth {
        g = GreenNode::new(sk(7), b.iter().cloned().chain([NodeOrToken::Node(g)]).chain(a.iter().cloned()).collect::<Vec<_>>());
    }
    Chain { g, depth, before, after }
}

impl Chain {
    fn text(&self) -> String {
        format!("{}core{}", self.before.concat().repeat(self.depth), self.after.concat().repeat(self.depth))
    }
    fn elements(&self) -> usize {
        2 + self.depth * (1 + self.before.len() + self.after.len())
    }
    fn core_at(&self) -> TextSize {
        ts(self.before.concat().len() * self.depth)
    }
}

fn bottom(root: &N) -> N {
    std::iter::successors(Some(root.clone()), |x| x.first_child()).last().unwrap()
}

pub fn c36(src: &mut Src, cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let mutable = src.chance(1, 5);
    // Making a handle in a mutable tree takes steps in proportion to its depth.
    let (depth, kib) = if mutable { (src.range(2_000, 3_000), 48) } else { (src.range(8_000, 24_000), 96) };
    let c = chain(src, depth);
    let ops: Vec<u32> = (0..src.range(2, 5)).map(|_| src.draw(1 << 16)).collect();
    cx.label(if mutable { "mutable" } else { "immutable" });
    cx.queries += ops.len() as u64;
    cx.sample(|| format!("depth {depth}, {} KiB of stack, {} operations {}", kib, ops.len(), if mutable { "on a mutable tree" } else { "on an immutable tree" }));
    // What the small stack made comes back to be dropped here.
    let (r, keep) = on_stack(kib, || {
        let mut keep: Vec<GreenNode> = vec![];
        let r = if mutable { edits(&c, &ops, &mut keep) } else { reads(&c, &ops) };
        (r, keep)
    })?;
    drop(keep);
    r
}

fn reads(c: &Chain, ops: &[u32]) -> R {
    let root = N::new_root(c.g.clone());
    for &op in ops {
        match op % 15 {
            0 => ensure_eq!(root.descendants().count(), c.depth + 1, "nodes in a walk"),
            1 => ensure_eq!(root.descendants_with_tokens().count(), c.elements(), "elements in a walk"),
            2 => {
                let mut p = root.preorder();
                let (mut enters, mut leaves) = (0, 0);
                while let Some(e) = p.next() {
                    match e {
                        WalkEvent::Enter(_) => enters += 1,
                        WalkEvent::Leave(_) => leaves += 1,
                    }
                    if enters == c.depth / 2 && leaves == 0 {
                        p.skip_subtree();
                    }
                }
                ensure_eq!((enters, leaves), (c.depth / 2, c.depth / 2), "events of a walk that skips its lower half");
            }
            3 => ensure!(root.to_string() == c.text(), "Display of a deep tree"),
            4 => ensure!(root.text() == c.text().as_str(), "text of a deep tree"),
            5 => ensure!(format!("{:?}", root).starts_with(&format!("{:?}@0..{}", root.kind(), c.text().len())), "Debug of a deep tree"),
            6 => {
                let t = root.covering_element(rowan::TextRange::at(c.core_at(), TextSize::from(4)));
                ensure!(t.as_token().is_some_and(|t| t.text() == "core"), "covering element of the innermost token");
            }
            7 | 8 => {
                // (From the top, first_token and last_token recurse.)
                let t = bottom(&root).first_token().unwrap();
                let n = if op % 15 == 7 {
                    std::iter::successors(Some(t), |t| t.next_token()).count()
                } else {
                    std::iter::successors(Some(t), |t| t.prev_token()).count()
                };
                let beside = if op % 15 == 7 { c.after.len() } else { c.before.len() };
                ensure_eq!(n, 1 + c.depth * beside, "tokens from the innermost one on");
            }
            9 => {
                let b = bottom(&root);
                ensure_eq!(b.ancestors().count(), c.depth + 1, "ancestors of the innermost node");
                ensure_eq!(b.first_token().unwrap().parent_ancestors().count(), c.depth + 1, "ancestors of the innermost token");
                ensure!(b.ancestors().last().unwrap() == root, "the top");
            }
            10 => {
                // The only handle into the tree keeps its ancestors; letting go of it frees them all.
                let own = N::new_root(c.g.clone());
                let b = bottom(&own);
                drop(own);
                ensure_eq!(b.text_range().start(), c.core_at(), "start of the innermost node");
                drop(b);
            }
            11 => {
                let b = bottom(&root);
                let p = SyntaxNodePtr::<Lang>::new(&b);
                if !b.text_range().is_empty() {
                    ensure!(p.to_node(&root) == b || c.before.concat().len() + c.after.concat().len() == 0, "pointer to the innermost node");
                }
            }
            12 => {
                let b = bottom(&root);
                ensure_eq!(b.siblings_with_tokens(Direction::Next).count(), 1 + if c.depth > 0 { c.after.len() } else { 0 }, "siblings of the innermost node");
                ensure!(b.clone_subtree().to_string() == "core", "copy of the innermost node");
            }
            13 => {
                let all: Vec<N> = root.descendants().collect();
                ensure_eq!(all.len(), c.depth + 1, "nodes kept");
                drop(root.clone());
                drop(all);
            }
            _ => {
                let mut n = 0usize;
                root.text().for_each_chunk(|s| n += s.len());
                ensure_eq!(n, c.text().len(), "length of the chunks");
                ensure!(root.text().contains_char('r'), "search in a deep text");
                let at = root.text().slice(c.core_at()..c.core_at() + TextSize::from(4));
                ensure!(at == "core", "slice of a deep text");
            }
        }
    }
    Ok(())
}

fn edits(c: &Chain, ops: &[u32], keep: &mut Vec<GreenNode>) -> R {
    let root = N::new_root_mut(c.g.clone());
    let b = bottom(&root);
    for &op in ops {
        keep.push(root.green().into_owned());
        match op % 5 {
            0 => {
                let at = b.children_with_tokens().count();
                let fresh = N::new_root_mut(g_node(g_direct(&El::N(6, vec![El::T(1, "new".into())]))));
                b.splice_children(at..at, vec![en(fresh)]);
            }
            1 => {
                if let Some(x) = b.last_child_or_token() {
                    x.detach();
                }
            }
            2 => ensure_eq!(b.text_range().start(), c.core_at(), "start of the innermost node"),
            3 => ensure_eq!(b.ancestors().count(), c.depth + 1, "ancestors in a mutable tree"),
            _ => ensure!(b.ancestors().last().unwrap() == root, "the top of a mutable tree"),
        }
    }
    // (In a mutable tree a walk takes the square of the depth.)
    let inner = b.text().to_string();
    ensure!(root.to_string() == c.text().replacen("core", &inner, 1), "text of a deep tree after edits");
    keep.push(root.green().into_owned());
    if ops[0] & 256 != 0 {
        drop(root);
        drop(b);
    } else {
        drop(b);
        drop(root);
    }
    Ok(())
}

//! C38: builders over several caches side by side; calls that are rejected and builds that are
//! abandoned change nothing for the calls and builds after them.

use super::*;

struct Job<'a> {
    b: GreenNodeBuilder<'a>,
    m: BModel,
    cps: Vec<(rowan::Checkpoint, usize)>,
    cache: Option<usize>,
    log: String,
}

#[derive(Default)]
struct Stats {
    rejected: u64,
    abandoned: u64,
    after: u64,
    complete: u64,
}

/// A few calls; rejected ones must leave the builder as it was.
fn step(j: &mut Job, src: &mut Src, g: &mut Gen, foreign: &[(rowan::Checkpoint, usize)], st: &mut Stats) -> R {
    match src.weighted(&[4, 3, 4, 2, 3, 3]) {
        0 => {
            let (k, t) = (g.kind(src), g.text(src));
            j.b.token(sk(k), &t);
            j.log.push_str("t ");
            j.m.pending.push(El::T(k, t));
        }
        1 => {
            let k = g.kind(src);
            j.b.start_node(sk(k));
            j.log.push_str("( ");
            j.m.open.push((k, j.m.pending.len()));
        }
        2 => {
            let b = &mut j.b;
            let r = panics(|| b.finish_node());
            ensure_eq!(r, j.m.open.is_empty(), "finish_node panics with {} nodes open: {}", j.m.open.len(), j.log);
            j.log.push_str(if r { ")! " } else { ") " });
            if r {
                st.rejected += 1;
            } else {
                j.m.finish_node();
            }
        }
        3 => {
            j.cps.push((j.b.checkpoint(), j.m.pending.len()));
            j.log.push_str(&format!("@{} ", j.m.pending.len()));
        }
        4 => {
            // Its own checkpoints, of any age.
            if j.cps.is_empty() {
                return Ok(());
            }
            let (cp, c) = *src.pick(&j.cps);
            wrap(j, src, g, cp, c, st)?;
        }
        _ => {
            // One of another build, past the end of this one.
            let v: Vec<_> = foreign.iter().filter(|x| x.1 > j.m.pending.len()).copied().collect();
            if v.is_empty() {
                return Ok(());
            }
            let (cp, c) = *src.pick(&v);
            wrap(j, src, g, cp, c, st)?;
        }
    }
    Ok(())
}
fn wrap(j: &mut Job, src: &mut Src, g: &mut Gen, cp: rowan::Checkpoint, c: usize, st: &mut Stats) -> R {
    let k = g.kind(src);
    let ok = j.m.start_ok(c);
    let b = &mut j.b;
    let r = panics(|| b.start_node_at(cp, sk(k)));
    j.log.push_str(&format!("wrap@{c}{} ", if r { "!" } else { "" }));
    ensure_eq!(r, !ok, "start_node_at panics; pending {}, open at {:?}, {}", j.m.pending.len(), j.m.open.last().map(|o| o.1), j.log);
    if r {
        st.rejected += 1;
    } else {
        j.m.open.push((k, c));
    }
    Ok(())
}

pub fn c38(src: &mut Src, cx: &mut Cx) -> R {
    let n = src.range(1, 4);
    let mut caches: Vec<NodeCache> = (0..n).map(|_| NodeCache::default()).collect();
    let mut shared: Vec<Shared> = (0..n).map(|_| Shared::default()).collect();
    let mut g = gen_cfg(src);
    if src.chance(1, 2) {
        g.kinds.truncate(3);
    }
    let mut done: Vec<(GreenNode, El, String)> = vec![];
    let mut foreign: Vec<(rowan::Checkpoint, usize)> = vec![];
    let mut st = Stats::default();
    let mut log = String::new();
    for round in 0..src.range(1, 5) {
        // Builders over each cache, and some over none, side by side.
        let mut jobs: Vec<Job> = vec![];
        for (i, c) in caches.iter_mut().enumerate() {
            if src.chance(3, 4) {
                jobs.push(Job { b: GreenNodeBuilder::with_cache(c), m: BModel::default(), cps: vec![], cache: Some(i), log: format!("#{round}.{i}: ") });
            }
        }
        if jobs.is_empty() || src.chance(1, 3) {
            jobs.push(Job { b: GreenNodeBuilder::new(), m: BModel::default(), cps: vec![], cache: None, log: format!("#{round}: ") });
        }
        let steps = if boost() { src.range(200, 3000) } else { src.range(1, 14 * jobs.len()) };
        for _ in 0..steps {
            if src.dry() {
                break;
            }
            let i = src.below(jobs.len());
            step(&mut jobs[i], src, &mut g, &foreign, &mut st)?;
            if foreign.len() < 40 && src.chance(1, 6) {
                foreign.extend(jobs[i].cps.last().copied());
            }
        }
        while !jobs.is_empty() {
            let i = src.below(jobs.len());
            let mut j = jobs.swap_remove(i);
            let end = src.weighted(&[6, 2, 2]);
            if end == 0 {
                // Completed.
                while !j.m.open.is_empty() {
                    j.b.finish_node();
                    j.m.finish_node();
                }
                if j.m.pending.len() != 1 || j.m.pending[0].is_tok() {
                    // With whatever is pending under a new root, or that dropped and built anew.
                    if let Some(&(cp, c)) = j.cps.iter().find(|x| x.1 == 0) {
                        j.b.start_node_at(cp, sk(9));
                        j.m.open.push((9, c));
                        j.b.finish_node();
                        j.m.finish_node();
                    }
                }
            }
            let well = j.m.open.is_empty() && j.m.pending.len() == 1 && !j.m.pending[0].is_tok();
            // What an unclosed node with exactly one pending element does is not specified.
            let vague = !j.m.open.is_empty() && j.m.pending.len() == 1;
            if end == 1 || vague {
                st.abandoned += 1;
                drop(j.b);
                log.push_str(&format!("{}dropped; ", j.log));
                continue;
            }
            let b = j.b;
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.finish())) {
                Ok(t) => {
                    ensure!(well, "finish did not panic with {} pending elements, {} open: {}", j.m.pending.len(), j.m.open.len(), j.log);
                    let e = j.m.pending.pop().unwrap();
                    check_green(&t, &e)?;
                    let d: &GreenNodeData = &t;
                    // Rounds before may have been rejected or abandoned; sharing goes on.
                    if let Some(i) = j.cache {
                        shared[i].see(NodeOrToken::Node(d), &e)?;
                    }
                    if e.count() < 200 {
                        ensure!(build_by(0, &e) == t, "tree differs from the same tree built without a cache: {}", e.show());
                    }
                    if st.rejected + st.abandoned > 0 {
                        st.after += 1;
                    }
                    st.complete += 1;
                    log.push_str(&format!("{}ok; ", j.log));
                    // `Shared` goes by address, so what it has seen has to stay.
                    done.push((t, e, j.log));
                }
                Err(p) => {
                    drop(p);
                    ensure!(!well, "finish panicked after a balanced build: {}", j.log);
                    st.abandoned += 1;
                    log.push_str(&format!("{}rejected; ", j.log));
                }
            }
        }
        cx.queries += 1;
        for (t, e, l) in &done {
            check_green(t, e).map_err(|x| crate::engine::Fail(format!("tree of {l}: {}", x.0)))?;
        }
    }
    cx.label_if(st.rejected > 0, "a call was rejected");
    cx.label_if(st.abandoned > 0, "a build was abandoned");
    cx.label_if(st.after > 0, "a build was completed after a rejected call or an abandoned build");
    cx.nontrivial = st.after > 0;
    cx.sample(|| log.clone());
    drop(caches);
    for (t, e, l) in &done {
        ensure_eq!(t.to_string(), e.text(), "text after the caches are gone, of {l}");
    }
    Ok(())
}

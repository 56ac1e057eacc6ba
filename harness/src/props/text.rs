//! C17, C18: the text view of a node.

use crate::engine::{panics, Cx, R, Src};
use crate::model::*;
use crate::props::nav::case_of;
use crate::{ensure, ensure_eq};
use rowan::{SyntaxText, TextRange, TextSize};

fn bounds(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|x| x.0).collect();
    v.push(s.len());
    v
}
/// A random subrange of `s` at character boundaries; empty and full ranges are frequent.
fn subrange(src: &mut Src, s: &str) -> (usize, usize) {
    let b = bounds(s);
    match src.below(6) {
        0 => (0, s.len()),
        1 => {
            let i = *src.pick(&b);
            (i, i)
        }
        2 => (*src.pick(&b), s.len()),
        3 => (0, *src.pick(&b)),
        _ => {
            let (i, j) = (*src.pick(&b), *src.pick(&b));
            (i.min(j), i.max(j))
        }
    }
}
/// One slice, through one of the five kinds of range.
fn slice(src: &mut Src, v: &SyntaxText, a: usize, b: usize, len: usize) -> SyntaxText {
    let r = TextRange::new(ts(a), ts(b));
    match src.below(4) {
        0 => v.slice(r),
        1 if b == len => v.slice(ts(a)..),
        2 if a == 0 => v.slice(..ts(b)),
        1 | 2 if a == 0 && b == len => v.slice(..),
        _ => v.slice(ts(a)..ts(b)),
    }
}

/// Everything a view can be asked, against the string it stands for.
fn view_is(src: &mut Src, cx: &mut Cx, v: &SyntaxText, s: &str, around: &str) -> R {
    cx.queries += 1;
    ensure_eq!(usize::from(v.len()), s.len(), "len of the view of {s:?}");
    ensure_eq!(v.is_empty(), s.is_empty(), "is_empty");
    ensure_eq!(v.to_string(), s, "to_string");
    ensure_eq!(String::from(v.clone()), s, "String::from");
    ensure_eq!(format!("{v:?}"), format!("{s:?}"), "debug form");
    // Chunks.
    let mut got = String::new();
    let mut n = 0usize;
    v.for_each_chunk(|c| {
        got.push_str(c);
        n += 1;
    });
    ensure_eq!(got, s, "for_each_chunk");
    let stop = src.below(n + 2);
    let (mut seen, mut got) = (0, String::new());
    let r: Result<(), usize> = v.try_for_each_chunk(|c| {
        if seen == stop {
            seen += 100_000;
            return Err(stop * 7 + 1);
        }
        seen += 1;
        got.push_str(c);
        Ok(())
    });
    if stop < n {
        ensure_eq!(r, Err(stop * 7 + 1), "error of try_for_each_chunk");
        ensure_eq!(seen, stop + 100_000, "chunks visited before and after the early exit");
        ensure!(s.starts_with(&got), "chunks before the early exit: {got:?} of {s:?}");
    } else {
        ensure_eq!(r, Ok(()), "try_for_each_chunk");
        ensure_eq!(got, s, "try_for_each_chunk");
    }
    let folded: Result<(usize, String), String> = v.try_fold_chunks((0, String::new()), |(i, mut acc), c| {
        if i == stop {
            return Err(acc);
        }
        acc.push_str(c);
        Ok((i + 1, acc))
    });
    match folded {
        Ok((i, acc)) => {
            ensure!(stop >= n, "try_fold_chunks went on after an error");
            ensure_eq!(i, n, "number of folded chunks");
            ensure_eq!(acc, s, "try_fold_chunks");
        }
        Err(acc) => {
            ensure!(stop < n, "try_fold_chunks failed");
            ensure_eq!(acc, got, "chunks folded before the error");
        }
    }
    // Characters.
    let mut chars: Vec<char> = vec!['a', 'é', '\u{0}'];
    let a: Vec<char> = around.chars().collect();
    for _ in 0..4 {
        if !a.is_empty() {
            chars.push(*src.pick(&a));
        }
    }
    // The last character seen for the first time is the farthest to search.
    let mut first: Vec<char> = vec![];
    s.chars().for_each(|c| {
        if !first.contains(&c) && first.len() < 12 {
            first.push(c)
        }
    });
    chars.extend(first.last());
    for c in chars {
        ensure_eq!(v.contains_char(c), s.contains(c), "contains_char({c:?}) of {s:?}");
        ensure_eq!(v.find_char(c).map(usize::from), s.find(c), "find_char({c:?}) of {s:?}");
    }
    let b = bounds(s);
    let offs: Vec<usize> = if b.len() <= 12 { b.clone() } else { (0..10).map(|_| *src.pick(&b)).chain([0, s.len()]).collect() };
    for o in offs {
        ensure_eq!(v.char_at(ts(o)), s[o..].chars().next(), "char_at({o}) of {s:?}");
    }
    for o in [s.len() + 1, s.len() + 2, around.len() + 1, u32::MAX as usize] {
        ensure_eq!(v.char_at(ts(o)), None, "char_at({o}) beyond the end of {s:?}");
    }
    Ok(())
}

fn bad_slices(src: &mut Src, cx: &mut Cx, v: &SyntaxText, len: usize) -> R {
    let l = len as u64;
    let cand = [(0, l + 1), (l + 1, l + 1), (l, l + 1), (l + 1, l + 2), (l + 3, l + 2), (1, 0), (l + 1, l), (0, u32::MAX as u64), (u32::MAX as u64, u32::MAX as u64), (u32::MAX as u64 - l - 1, u32::MAX as u64 - l), (u32::MAX as u64, 0)];
    for _ in 0..3 {
        let (a, b) = *src.pick(&cand);
        let (a, b) = (TextSize::from(a as u32), TextSize::from(b as u32));
        cx.queries += 1;
        ensure!(panics(|| v.slice(a..b)), "slice({a:?}..{b:?}) of a view of length {len} did not panic");
        if a <= b {
            ensure!(panics(|| v.slice(TextRange::new(a, b))), "slice(TextRange {a:?}..{b:?}) of a view of length {len} did not panic");
        }
        if usize::from(a) > len {
            ensure!(panics(|| v.slice(a..)), "slice({a:?}..) of a view of length {len} did not panic");
        }
        if usize::from(b) > len {
            ensure!(panics(|| v.slice(..b)), "slice(..{b:?}) of a view of length {len} did not panic");
        }
    }
    Ok(())
}

pub fn c17(src: &mut Src, cx: &mut Cx) -> R {
    let e = gen_tree(src, cx, Size { wide: 2, deep: 1, max_deep: 100, max_wide: 150, ..NORMAL });
    let m = src.chance(1, 3);
    let c = case_of(src, cx, e, m);
    let f = &c.f;
    let mut inner = false;
    for id in f.some_nodes(src, 4) {
        let n = reach(src, &c.root, f, id).into_node().unwrap();
        let mut v = n.text();
        drop(n);
        let mut s = f.text_of(id).to_string();
        view_is(src, cx, &v, &s, &f.text)?;
        ensure_eq!(c.root.to_string(), f.text, "printed root");
        for _ in 0..src.below(4) {
            bad_slices(src, cx, &v, s.len())?;
            let (a, b) = subrange(src, &s);
            inner |= 0 < a && a < b && b < s.len();
            v = slice(src, &v, a, b, s.len());
            s = s[a..b].to_string();
            view_is(src, cx, &v, &s, &f.text)?;
        }
        bad_slices(src, cx, &v, s.len())?;
        let w = v.clone();
        drop(v);
        ensure_eq!(w.to_string(), s, "clone of a view that outlives it");
    }
    cx.label_if(inner, "slice with text on both sides");
    cx.nontrivial = f.toks.len() >= 2 && f.text.len() >= 2;
    Ok(())
}

// ---------------------------------------------------------------- C18

/// A tree whose text is `s`, split at random places.
pub fn tree_over(src: &mut Src, s: &str, g: &mut Gen) -> El {
    let mut cuts = vec![0];
    let one_token = src.chance(1, 6);
    for b in bounds(s) {
        if b > 0 && b < s.len() && !one_token && src.chance(2, 5) {
            cuts.push(b);
        }
    }
    cuts.push(s.len());
    let mut leaves: Vec<El> = vec![];
    for w in cuts.windows(2) {
        while src.chance(1, 6) {
            let k = g.kind(src);
            leaves.push(if src.chance(1, 2) { El::T(k, String::new()) } else { El::N(k, vec![]) });
        }
        leaves.push(El::T(g.kind(src), s[w[0]..w[1]].to_string()));
    }
    while src.chance(1, 6) {
        let k = g.kind(src);
        leaves.push(if src.chance(1, 2) { El::T(k, String::new()) } else { El::N(k, vec![]) });
    }
    // Group neighbours into nodes.
    for _ in 0..src.below(6) {
        let n = leaves.len();
        let i = src.below(n);
        let j = src.range(i, n);
        let kids: Vec<El> = leaves.drain(i..j).collect();
        leaves.insert(i, El::N(g.kind(src), kids));
    }
    El::N(g.kind(src), leaves)
}

fn change(src: &mut Src, s: &str, chars: Chars) -> String {
    let cs: Vec<char> = s.chars().collect();
    if cs.is_empty() {
        return gen_char(src, chars).to_string();
    }
    let i = match src.below(4) {
        0 => cs.len() - 1,
        1 => 0,
        _ => src.below(cs.len()),
    };
    let mut v = cs.clone();
    match src.below(5) {
        0 => v[i] = gen_char(src, chars),
        1 => {
            v.remove(i);
        }
        2 => v.insert(i, gen_char(src, chars)),
        3 => {
            // Same number of bytes, other character.
            let l = v[i].len_utf8();
            let alt: &[char] = match l {
                1 => &['a', 'b', '\u{0}', '~'],
                2 => &['é', 'ß', '\u{7ff}'],
                3 => &['€', '\u{800}', '\u{ffff}'],
                _ => &['😀', '\u{10000}', '\u{10ffff}'],
            };
            v[i] = *src.pick(alt);
        }
        _ => v.truncate(i),
    }
    v.into_iter().collect()
}

pub fn c18(src: &mut Src, cx: &mut Cx) -> R {
    let chars = *src.pick(&[Chars::Ab, Chars::Uni, Chars::Mixed, Chars::Ab, Chars::Space]);
    let mut g = gen_cfg(src);
    g.chars = chars;
    let n = *src.pick(&[6, 1, 2, 12, 0, 30]);
    let base: String = if boost() {
        let n = *src.pick(&[300, 1_000, 4_000, 20_000, 66_000]) + src.below(20);
        long_text(src, n, chars)
    } else {
        (0..src.below(n + 1)).map(|_| gen_char(src, chars)).collect()
    };
    let other = match src.below(3) {
        0 => base.clone(),
        1 => change(src, &base, chars),
        _ => {
            let once = change(src, &base, chars);
            change(src, &once, chars)
        }
    };
    // Both texts inside their own surroundings.
    let mut views: Vec<(SyntaxText, String)> = vec![];
    let mut shown = vec![];
    for s in [&base, &other] {
        let pre: String = (0..src.below(3)).map(|_| gen_char(src, chars)).collect();
        let post: String = (0..src.below(3)).map(|_| gen_char(src, chars)).collect();
        let whole = format!("{pre}{s}{post}");
        let e = tree_over(src, &whole, &mut g);
        shown.push(e.show());
        let green = build(src, &e);
        let m = src.chance(1, 4);
        let root = make_root(src, green, m);
        let v = root.text().slice(ts(pre.len())..ts(pre.len() + s.len()));
        views.push((root.text(), whole.clone()));
        views.push((v.clone(), s.to_string()));
        // The text of some node in the middle.
        let f = Flat::new(&e);
        let id = *src.pick(&f.nodes().collect::<Vec<_>>());
        let h = handle(&root, &f, id).into_node().unwrap();
        views.push((h.text(), f.text_of(id).to_string()));
        for _ in 0..2 {
            let (a, b) = subrange(src, s);
            views.push((slice(src, &v, a, b, s.len()), s[a..b].to_string()));
        }
        let k = views.len() - 3 + src.below(3);
        let (v, s) = views[k].clone();
        let (a, b) = subrange(src, &s);
        views.push((slice(src, &v, a, b, s.len()), s[a..b].to_string()));
    }
    cx.sample(|| format!("{base:?} as {} against {other:?} as {}", shown[0], shown[1]));
    let (mut eq, mut near) = (0, 0);
    for (i, (v, s)) in views.iter().enumerate() {
        for (w, t) in &views {
            cx.queries += 1;
            let want = s == t;
            if want && !s.is_empty() {
                eq += 1;
            }
            if !want && s.len() == t.len() {
                near += 1;
            }
            ensure_eq!(v == w, want, "view {s:?} == view {t:?}");
            ensure_eq!(v != w, !want, "view {s:?} != view {t:?}");
            let st: &str = t.as_str();
            ensure_eq!(*v == *st, want, "view {s:?} == str {t:?}");
            ensure_eq!(*v == st, want, "view {s:?} == &str {t:?}");
            ensure_eq!(*st == *v, want, "str {t:?} == view {s:?}");
            ensure_eq!(st == *v, want, "&str {t:?} == view {s:?}");
        }
        // Strings close to the view's own.
        for _ in 0..2 {
            let t = change(src, s, chars);
            let want = *s == t;
            ensure_eq!(*v == *t.as_str(), want, "view {i} {s:?} == str {t:?}");
            ensure_eq!(*t.as_str() == *v, want, "str {t:?} == view {i} {s:?}");
            ensure_eq!(*v == t.as_str(), want, "view {i} {s:?} == &str {t:?}");
            ensure_eq!(t.as_str() == *v, want, "&str {t:?} == view {i} {s:?}");
        }
    }
    cx.label_if(near > 0, "same length, different text");
    cx.label_if(base != other, "texts differ");
    cx.nontrivial = eq > views.len() && base.len() >= 2;
    Ok(())
}

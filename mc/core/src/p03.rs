//! P03: a batch of edits means the same on every representation: the spliced text.
use crate::util::*;
use mc_kit::*;
use oak_core::source::{RopeBuffer, Source, SourceText, TextEdit};

type E = (usize, usize, String);

/// All batches of at most `n` pairwise compatible edits (disjoint, possibly touching,
/// any number of insertions at one place), listed in every order.
pub fn batches(t: &str, n: usize, reps: &[&str]) -> Vec<Vec<E>> {
    let b = seq::bounds(t);
    let mut single = Vec::new();
    for (k, a) in b.iter().enumerate() {
        for e in &b[k..] {
            for r in reps {
                if a != e || !r.is_empty() {
                    single.push((*a, *e, r.to_string()));
                }
            }
        }
    }
    let compatible = |x: &E, y: &E| x.1 <= y.0 || y.1 <= x.0;
    let mut out: Vec<Vec<E>> = vec![vec![]];
    let mut layer: Vec<Vec<E>> = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for l in &layer {
            for s in &single {
                if l.iter().all(|x| compatible(x, s)) {
                    let mut m = l.clone();
                    m.push(s.clone());
                    next.push(m);
                }
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}
/// Short texts behind long ones of about 2^16 bytes.
pub fn far() -> Vec<(String, &'static str)> {
    let mut v = Vec::new();
    for n in [65535, 65536, 65537] {
        for t in ["a", "é", "a b", "\nb", ""] {
            v.push(("a".repeat(n), t));
        }
    }
    v.push(("é\n".repeat(30000), "ab "));
    v
}
fn te(e: &[E]) -> Vec<TextEdit> {
    e.iter().map(|x| edit(x.0, x.1, &x.2)).collect()
}
fn whole(s: &dyn Source) -> String {
    s.get_text_in(range(0, s.length())).into_owned()
}
fn check_batch(t: &str, e: &[E], cx: &mut Cx, rope0: &RopeBuffer) -> Result<RopeBuffer, Fail> {
    let want = splice(t, e);
    cx.exec();
    cx.steps(e.len() as u64);
    let mut s = SourceText::new(t.to_string());
    let r1 = s.apply_edits_range(&te(e));
    ensure_eq!(s.text(), want.as_str(), "text", "contiguous text after {e:?}");
    let mut rope = rope0.clone();
    let snap = rope.snapshot();
    let r2 = rope.apply_edits_range(&te(e));
    ensure_eq!(whole(&rope), want, "text", "rope after {e:?}");
    ensure_eq!(whole(&snap), t, "snapshot", "snapshot taken before {e:?}");
    ensure_eq!((r2.start, r2.end), (r1.start, r1.end), "range", "affected range on a rope and on contiguous text for {e:?}");
    let mut s2 = SourceText::new_with_id(t.to_string(), 3);
    ensure_eq!(s2.apply_edits(&te(e)), r1.start, "range", "reported first affected offset for {e:?}");
    ensure_eq!(Source::source_id(&s2), Some(3), "id", "source id after an edit");
    ensure_eq!(rope0.clone().apply_edits(&te(e)), r1.start, "range", "reported first affected offset on a rope for {e:?}");
    // nothing outside the affected range changed
    if e.is_empty() {
        ensure!(r1.start == t.len() && r1.end == t.len(), "range", "no edit affects {}..{}", r1.start, r1.end);
    }
    else {
        ensure!(r1.start <= r1.end && r1.end <= want.len(), "range", "affected range {}..{} of {:?}", r1.start, r1.end, want);
        ensure_eq!(&t[..r1.start], &want[..r1.start], "range", "text before the affected range of {e:?}");
        let tail = want.len() - r1.end;
        ensure!(tail <= t.len() && t.as_bytes()[t.len() - tail..] == want.as_bytes()[r1.end..], "range", "text behind the affected range {}..{} of {e:?} changed", r1.start, r1.end);
        ensure_eq!(r1.start, e.iter().map(|x| x.0).min().unwrap(), "range", "first affected offset of {e:?}");
    }
    Ok(rope)
}
fn queries(rope: &RopeBuffer, t: &str, cx: &mut Cx) -> Res {
    let pos = seq::bounds(t);
    crate::p01::same_as_text("edited rope", rope, t, &pos, &['a', 'é', 'x', 'z'], &["", "a", "xé", "éa", "ab"], cx)?;
    crate::p01::same_as_text("snapshot of edited rope", &rope.snapshot(), t, &pos, &['a', 'é', 'x', 'z'], &["", "a", "xé", "éa", "ab"], cx)
}

pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let mut v = Vec::new();
    // batches
    let d = tier.pick(4, 5);
    let frags: &'static [&'static str] = &["a", "é", "\n"];
    let texts = seq::strings(frags, d);
    let mut cases: Vec<(String, usize)> = Vec::new();
    for t in &texts {
        let depth = if t.chars().count() <= 3 { 3 } else { 2 };
        cases.push((t.clone(), depth));
    }
    let c2 = cases.clone();
    v.push(space(
        "every text, every batch of at most 2 or 3 edits in every listing order",
        cases.len() as u64,
        move |i| format!("{:?}", c2[i as usize]),
        move |i, cx| {
            let (t, depth) = &cases[i as usize];
            for e in batches(t, *depth, &["", "x", "yé"]) {
                cx.state(&e);
                cx.nontrivial(e.len() > 1);
                let rope = check_batch(t, &e, cx, &RopeBuffer::new(t))?;
                queries(&rope, &splice(t, &e), cx)?;
            }
            Ok(())
        },
    ));
    let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
    v.push(space("every character, put in, taken out and written next to", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
        let c = all[i as usize];
        cx.nontrivial(!c.is_ascii());
        let one = c.to_string();
        let t = format!("é{c}");
        for e in batches(&t, 2, &["", &one]) {
            cx.state(&e);
            let rope = check_batch(&t, &e, cx, &RopeBuffer::new(&t))?;
            let now = splice(&t, &e);
            ensure_eq!(whole(&rope.snapshot()), now, "text", "snapshot after {e:?}");
        }
        Ok(())
    }));
    // histories on one rope
    let texts = seq::strings(&["a", "é"], tier.pick(2, 3));
    let h = 4;
    let mut firsts: Vec<(String, Vec<E>)> = Vec::new();
    for t in &texts {
        for e in batches(t, 2, &["", "xé"]) {
            firsts.push((t.clone(), e));
        }
    }
    let f2 = firsts.clone();
    v.push(space(
        format!("every history of {h} batches on one rope (first of at most 2 edits, then single ones)"),
        firsts.len() as u64,
        move |i| format!("{:?}", f2[i as usize]),
        move |i, cx| {
            let (t, e) = &firsts[i as usize];
            let rope = check_batch(t, e, cx, &RopeBuffer::new(t))?;
            fn go(t: &str, rope: &RopeBuffer, left: u32, cx: &mut Cx) -> Res {
                if left == 0 {
                    return queries(rope, t, cx);
                }
                for e in batches(t, 1, &["", "b"]) {
                    if e.is_empty() {
                        continue;
                    }
                    cx.state(&(t, &e, left));
                    cx.nontrivial(true);
                    let n = check_batch(t, &e, cx, rope)?;
                    go(&splice(t, &e), &n, left - 1, cx)?;
                }
                Ok(())
            }
            go(&splice(t, e), &rope, h - 1, cx)
        },
    ));
    // replacements and texts longer than an internal chunk
    let sizes: Vec<usize> = tier.pick(vec![0, 1, 4095, 4096, 4097, 8192, 9000], vec![0, 1, 2, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 9000, 13000]);
    let k = sizes.len() as u64;
    let r = [k, k, 5, 5];
    let s2 = sizes.clone();
    v.push(space(
        "edits of and with texts around the internal chunk size",
        seq::prod(&r),
        move |i| {
            let g = seq::digits(&r, i);
            format!("text {} bytes, replacement {} bytes, cuts {} {}", s2[g[0] as usize] + 2, s2[g[1] as usize] + 2, g[2], g[3])
        },
        move |i, cx| {
            let g = seq::digits(&r, i);
            let t = format!("{}é", "x".repeat(sizes[g[0] as usize]));
            let rep = format!("{}中", "y".repeat(sizes[g[1] as usize]));
            let at = |k: u64| {
                let p = match k {
                    0 => 0,
                    1 => t.len() / 2,
                    2 => t.len().min(4096),
                    3 => t.len().saturating_sub(2),
                    _ => t.len(),
                };
                (0..=p).rev().find(|x| t.is_char_boundary(*x)).unwrap()
            };
            let (a, b) = (at(g[2]).min(at(g[3])), at(g[2]).max(at(g[3])));
            cx.state(&(&t, &rep, a, b));
            let rope = check_batch(&t, &[(a, b, rep.clone())], cx, &RopeBuffer::new(&t))?;
            let n = splice(&t, &[(a, b, rep)]);
            // take it out again, and once more in the middle
            let m = (0..=n.len() / 2).rev().find(|x| n.is_char_boundary(*x)).unwrap();
            let e = vec![(0, m, String::new()), (m, m, "é".to_string())];
            let rope = check_batch(&n, &e, cx, &rope)?;
            ensure_eq!(whole(&rope), splice(&n, &e), "text", "second edit");
            Ok(())
        },
    ));
    // the same far behind the start
    let far = far();
    let f2 = far.clone();
    v.push(space(
        "every batch of at most 2 edits of a short text behind 2^16 bytes",
        far.len() as u64,
        move |i| format!("{} bytes, then {:?}", f2[i as usize].0.len(), f2[i as usize].1),
        move |i, cx| {
            let (head, t) = &far[i as usize];
            let (n, whole) = (head.len(), format!("{head}{t}"));
            let rope0 = RopeBuffer::new(&whole);
            for e in batches(t, 2, &["", "yé"]) {
                cx.state(&(n, &e));
                cx.nontrivial(e.len() > 1);
                let e: Vec<E> = e.into_iter().map(|x| (x.0 + n, x.1 + n, x.2)).collect();
                let brief = |f: Fail| Fail { kind: f.kind, detail: f.detail.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect() };
                let rope = check_batch(&whole, &e, cx, &rope0).map_err(brief)?;
                let after = splice(&whole, &e);
                let pos: Vec<usize> = seq::marks(&after, 1).into_iter().filter(|p| *p < 2 || *p + 9 > n).collect();
                crate::p01::same_as_text("edited rope", &rope, &after, &pos, &['a', 'x'], &["a", "xé"], cx).map_err(brief)?;
            }
            Ok(())
        },
    ));
    // many edits at once
    let ns = seq::sizes(70, tier.pick(256, 4096));
    let len = ns.len() as u64 * 6 * 4;
    let name = ["in order", "backwards", "odd ones first", "from both ends"];
    let make = move |i: u64| -> (String, Vec<E>, &'static str) {
        let g = seq::digits(&[ns.len() as u64, 6, 4], i);
        let n = ns[g[0] as usize] as usize;
        let t = "aé\n".repeat(n);
        let mut e: Vec<E> = (0..n)
            .map(|k| match g[1] {
                0 => (4 * k, 4 * k, "x".to_string()),
                1 => (4 * k, 4 * k + 1, String::new()),
                2 => (4 * k + 1, 4 * k + 3, "yé".to_string()),
                3 => (4 * (k / 2), 4 * (k / 2), format!("{k};")),
                4 => (4 * k, 4 * k + 4, ["", "中"][k % 2].to_string()),
                _ => (4 * k + 3, 4 * k + 3, "1234567".repeat(k % 3 + 1)),
            })
            .collect();
        match g[2] {
            0 => {}
            1 => e.reverse(),
            2 => e = e.iter().skip(1).step_by(2).chain(e.iter().step_by(2)).cloned().collect(),
            _ => {
                let mut d: std::collections::VecDeque<E> = e.into();
                e = vec![];
                while let Some(x) = d.pop_front() {
                    e.push(x);
                    e.extend(d.pop_back());
                }
            }
        }
        (t, e, name[g[2] as usize])
    };
    let m2 = make.clone();
    v.push(space(
        "batches of many edits, each over the whole text, listed in four orders",
        len,
        move |i| {
            let (_, e, o) = m2(i);
            format!("{} edits {o}: {:?} ...", e.len(), e.iter().take(3).collect::<Vec<_>>())
        },
        move |i, cx| {
            let (t, e, _) = make(i);
            cx.state(&i);
            cx.nontrivial(e.len() > 1);
            let rope = check_batch(&t, &e, cx, &RopeBuffer::new(&t))?;
            let n = splice(&t, &e);
            let pos = seq::marks(&n, 2);
            crate::p01::same_as_text("edited rope", &rope, &n, &pos, &['a', 'x'], &["", "a", "xé"], cx)?;
            // once more, on the rope that is now in pieces
            let e: Vec<E> = seq::bounds(&n).windows(2).step_by(3).map(|w| (w[0], w[1], "é".to_string())).collect();
            check_batch(&n, &e, cx, &rope)?;
            Ok(())
        },
    ));
    v
}

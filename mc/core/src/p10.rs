//! P10: an incremental parse after any edits equals a fresh parse, diagnostics included.
use crate::{lang::*, p03::batches, util::*};
use mc_kit::*;
use oak_core::source::TextEdit;
use oak_core::{ParseSession, Parser};

type B = Vec<(usize, usize, String)>;
fn te(e: &B) -> Vec<TextEdit> {
    e.iter().map(|x| edit(x.0, x.1, &x.2)).collect()
}
fn replay(g: G, start: &str, path: &[B], cx: &mut Cx) -> Result<String, Fail> {
    let mut s = ParseSession::<Mock>::new(16);
    let mut cur = start.to_string();
    let mut o = out(MockParser(g).parse(cur.as_str(), &[], &mut s));
    for e in path {
        cur = splice(&cur, e);
        BUILT.with(|b| b.set(0));
        o = out(MockParser(g).parse(cur.as_str(), &te(e), &mut s));
    }
    let inc = BUILT.with(|b| b.replace(0));
    let f = fresh(g, &cur);
    cx.nontrivial(inc < BUILT.with(|b| b.get()));
    cx.exec();
    cx.step();
    cx.state(&(g as u8, &cur, path.len()));
    ensure!(o == f, "differs", "{g:?} {start:?} {path:?}: incremental {:?} {:?}, fresh {:?} {:?}", o.tree.as_ref().map(|m| m.show()), (&o.diags, &o.notes), f.tree.as_ref().map(|m| m.show()), (&f.diags, &f.notes));
    if let Ok(m) = &f.tree {
        ensure!(f.lengths && o.lengths, "length", "{g:?} {cur:?}: a node's length is not the sum of its children's");
        ensure!(m.len() == cur.len(), "length", "{g:?} {cur:?}: tree covers {} of {} bytes", m.len(), cur.len());
    }
    Ok(cur)
}
fn go(g: G, start: &str, cur: &str, path: &mut Vec<B>, depth: u32, per: usize, reps: &[&str], cx: &mut Cx) -> Res {
    if depth == 0 {
        return Ok(());
    }
    for e in batches(cur, per, reps) {
        if e.is_empty() && path.len() > 0 {
            continue;
        }
        path.push(e);
        let n = replay(g, start, path, cx)?;
        go(g, start, &n, path, depth - 1, 1, reps, cx)?;
        path.pop();
    }
    Ok(())
}
static GS: [G; 5] = [G::Nodes, G::Opt, G::Nest, G::Word, G::Meta];
static WORDS: &[&str] = &["a", "b", "x", "y", " ", ")"];
static ALPHA: &[&str] = &["a", "b", "(", ")", ",", " "];
static WITHC: &[&str] = &["a", "b", "(", ")", ",", "c"];
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let mut v = Vec::new();
    let all: &'static Vec<char> = Box::leak(Box::new(seq::characters(tier.pick(false, true))));
    v.push(space("every character, put in and taken out anywhere", all.len() as u64, |i| format!("U+{:04X}", all[i as usize] as u32), |i, cx| {
        let c = all[i as usize].to_string();
        let g = GS[i as usize % GS.len()];
        go(g, &format!("a,{c}b"), &format!("a,{c}b"), &mut vec![], 1, 1, &["", &c], cx)
    }));
    for g in GS {
        for (name, al, d, depth, per, reps) in [
            ("every single edit", ALPHA, tier.pick(5, 6), 1, 1, &["", "a", "b", "(", ")", ",", " ", "a,"] as &[&str]),
            ("every batch of 2 edits", ALPHA, tier.pick(3, 4), 1, 2, &["", "a", "b", "(", ",", ")"]),
            ("every history of 2 edits", ALPHA, tier.pick(3, 4), 2, 1, &["", "a", ",", "("]),
            ("every history of 3 edits, failing parses included", WITHC, tier.pick(2, 3), 3, 1, &["", "a", "c"]),
        ] {
            let (al, reps) = if g != G::Word {
                (al, reps)
            }
            else if depth == 3 {
                (&["a", "b", "x", "y", " ", "c"] as &[&str], &["", "y", "x"] as &[&str])
            }
            else {
                (WORDS, &["", "x", "y", "a", " ", "界"] as &[&str])
            };
            v.push(space(
                format!("{g:?}: every text of at most {d} symbols, {name}"),
                seq::count_upto(6, d),
                move |i| format!("{:?}", seq::string(al, d, i)),
                move |i, cx| {
                    let t = seq::string(al, d, i);
                    go(g, &t, &t, &mut vec![], depth, per, reps, cx)
                },
            ));
        }
        // larger documents: repeated units, one edit anywhere; deep reuse search
        let units: &'static [&'static str] = &["a ", "a,b ", "(a b) ", "((a,b)a) ", "a,a,b\n", "b) ", "a x a ", "b x y a b ", "ybxb", "xayaxbyb"];
        let reps = tier.pick(40u64, 150);
        v.push(space(
            format!("{g:?}: documents of many statements, an edit anywhere"),
            units.len() as u64 * reps,
            move |i| format!("{:?} x {}", units[(i / reps) as usize], i % reps + 1),
            move |i, cx| {
                let t = units[(i / reps) as usize].repeat((i % reps) as usize + 1);
                let step = (t.len() / 12).max(1);
                for at in (0..=t.len()).filter(|a| *a < 7 || *a + 7 > t.len() || a % step == 0) {
                    for e in [(at, at, "a"), (at, at, "("), (at, (at + 1).min(t.len()), ""), (at, (at + 2).min(t.len()), ","), (at, at, ")"), (at, at, "界")] {
                        replay(g, &t, &[vec![(e.0, e.1, e.2.to_string())]], cx)?;
                    }
                }
                // one edit near the start and one near the end, then another
                let n = t.len();
                for e in [(n / 2, "a"), (n / 3, ","), (0, " ")] {
                    replay(g, &t, &[vec![(1, 1, "a ".to_string()), (n - 1, n - 1, " b".to_string())], vec![(e.0, e.0, e.1.to_string())]], cx)?;
                }
                Ok(())
            },
        ));
        const HEADS: [(&str, usize); 4] = [("a", 65534), ("b", 65536), (" ", 65537), ("a ", 300)];
        const TAILS: [&str; 6] = [" a", " a b", "(a)b", " x a y", ",b ", ")"];
        v.push(space(
            format!("{g:?}: every edit of a short text behind 2^16 bytes, then one in front"),
            HEADS.len() as u64 * TAILS.len() as u64,
            |i| format!("{:?} before {:?}", HEADS[i as usize % 4], TAILS[i as usize / 4]),
            move |i, cx| {
                let (h, t) = (HEADS[i as usize % 4], TAILS[i as usize / 4]);
                // the last head: many tokens behind a long one
                let t = if h.1 == 300 { "a".repeat(65536) + " " } else { String::new() } + &h.0.repeat(h.1) + t;
                let from = t.len() - TAILS[i as usize / 4].len() - 1;
                for a in from..=t.len() {
                    for e in [(a, a, "b "), (a, (a + 1).min(t.len()), ""), (a, (a + 2).min(t.len()), "x")] {
                        replay(g, &t, &[vec![(e.0, e.1, e.2.to_string())], vec![(1, 2, "b ".to_string())]], cx).map_err(|f| Fail { kind: f.kind, detail: format!("{e:?}: {}", f.detail.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect::<String>()) })?;
                    }
                }
                Ok(())
            },
        ));
        let ns: &'static Vec<u64> = Box::leak(Box::new(seq::sizes(0, tier.pick(256, 2048)).into_iter().filter(|n| *n > 15).collect()));
        v.push(space(
            format!("{g:?}: large and deep documents, edits at both ends and the middle"),
            8 * ns.len() as u64,
            move |i| format!("{} times {}", ns[i as usize / 8], i % 8),
            move |i, cx| {
                let n = ns[i as usize / 8] as usize;
                let t = match i % 8 {
                    0 => "a ".repeat(n),
                    1 => "a,b ".repeat(n),
                    2 => "(".repeat(n) + "a" + &")".repeat(n),
                    3 => "(a ".repeat(n) + "b" + &") ".repeat(n),
                    4 => "x a ".repeat(n),
                    5 => "a".to_string() + &" ".repeat(n) + "b",
                    6 => "(a b)".repeat(n),
                    _ => "a,".repeat(n) + "a",
                };
                let at = seq::bounds(&t).into_iter().filter(|a| *a < 2 || *a + 2 > t.len() || a.abs_diff(t.len() / 2) < 2).collect::<Vec<_>>();
                for a in at {
                    for e in [(a, a, "a"), (a, (a + 1).min(t.len()), ""), (a, a, ") ")] {
                        replay(g, &t, &[vec![(e.0, e.1, e.2.to_string())], vec![(0, 0, "b ".to_string())]], cx)?;
                    }
                }
                Ok(())
            },
        ));
    }
    v
}

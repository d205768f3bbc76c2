//! P20 (histories) and P21 (interleavings) of the global symbol table.
use mc_kit::*;
use oak_core::language::UniversalElementRole;
use oak_resolver::GlobalSymbolTable;
use oak_symbols::SymbolInformation;
use std::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering::SeqCst}};

const FILES: [&str; 2] = ["file:///a", "file:///b"];
/// (container, name)
const NAMES: [(Option<&str>, &str); 4] = [(None, "f"), (None, "g"), (Some("C"), "f"), (Some("C"), "fé")];
/// Symbol lists a file may have: indices into NAMES.
const LISTS: [&[usize]; 8] = [&[], &[0], &[1], &[0, 1], &[0, 0], &[2], &[2, 0, 3], &[3, 1]];

fn sym(file: usize, name: usize, at: usize) -> SymbolInformation {
    SymbolInformation { name: NAMES[name].1.into(), role: UniversalElementRole::Definition, uri: FILES[file].into(), range: (at..at + 1).into(), container_name: NAMES[name].0.map(|c| c.into()) }
}
/// `stamp` tells the updates apart.
fn list(file: usize, which: usize, stamp: usize) -> Vec<SymbolInformation> {
    LISTS[which].iter().enumerate().map(|(k, n)| sym(file, *n, stamp * 10 + k)).collect()
}
fn fqn(n: usize) -> String {
    match NAMES[n].0 {
        Some(c) => format!("{c}::{}", NAMES[n].1),
        None => NAMES[n].1.into(),
    }
}
type Key = (String, Option<String>, String, usize);
fn key(s: &SymbolInformation) -> Key {
    (s.name.clone(), s.container_name.clone(), s.uri.to_string(), s.range.start)
}
fn sorted(v: Vec<SymbolInformation>) -> Vec<Key> {
    let mut v: Vec<Key> = v.iter().map(key).collect();
    v.sort();
    v
}
fn qual(s: &SymbolInformation) -> String {
    s.container_name.as_ref().map_or(s.name.clone(), |c| format!("{c}::{}", s.name))
}

fn whole(t: &GlobalSymbolTable, files: &[Vec<SymbolInformation>; 2], cx: &mut Cx) -> Res {
    for (k, f) in FILES.iter().enumerate() {
        let got: Vec<Key> = t.query_file(f).iter().map(key).collect();
        ensure_eq!(got, files[k].iter().map(key).collect::<Vec<_>>(), "file", "query_file({f})");
    }
    ensure!(t.query_file("file:///none").is_empty(), "file", "query_file of an unknown file");
    for n in 0..NAMES.len() {
        let q = fqn(n);
        let defs: Vec<Key> = files.iter().flatten().filter(|s| qual(s) == q).map(key).collect();
        match t.lookup(&q) {
            None => ensure!(defs.is_empty(), "lookup", "lookup({q:?}) finds nothing, {defs:?} are defined"),
            Some(s) => ensure!(defs.contains(&key(&s)), "lookup", "lookup({q:?}) finds {:?}, defined are {defs:?}", key(&s)),
        }
        cx.step();
    }
    for bad in ["", "C", "C::", "::f", "f::C", "F"] {
        ensure!(t.lookup(bad).is_none(), "lookup", "lookup({bad:?}) finds something");
    }
    for q in ["", "f", "g", "C", "::f", "é", "C::fé", "x"] {
        // searching a name matches its qualified form
        let want = sorted(files.iter().flatten().filter(|s| qual(s).contains(q)).cloned().collect());
        ensure_eq!(sorted(t.query(q)), want, "query", "query({q:?})");
        cx.step();
    }
    Ok(())
}

fn histories(d: u32) -> Box<dyn Space> {
    let n = 2 * LISTS.len() as u64;
    let show = |o: usize| format!("{} := {:?}", FILES[o / 8], LISTS[o % 8].iter().map(|n| fqn(*n)).collect::<Vec<_>>());
    space(
        "updates",
        seq::count_upto(n, d),
        move |i| seq::nth(n, d, i).into_iter().map(show).collect::<Vec<_>>().join("; "),
        move |i, cx| {
            let t = GlobalSymbolTable::new();
            let mut files: [Vec<SymbolInformation>; 2] = Default::default();
            for (stamp, o) in seq::nth(n, d, i).into_iter().enumerate() {
                files[o / 8] = list(o / 8, o % 8, stamp + 1);
                t.update_file_symbols(FILES[o / 8].to_string(), files[o / 8].clone());
                whole(&t, &files, cx)?;
            }
            cx.exec();
            cx.state(&files.iter().map(|f| f.iter().map(key).collect::<Vec<_>>()).collect::<Vec<_>>());
            cx.nontrivial(files.iter().all(|f| !f.is_empty()));
            Ok(())
        },
    )
}

/// Symbols of unusual names: every pair in two files, then every other symbol in place of the first.
fn names() -> Box<dyn Space> {
    const CONT: [Option<&str>; 8] = [None, Some(""), Some("C"), Some("C::D"), Some("f"), Some("::"), Some("é"), Some("Cf")];
    const NAME: [&str; 9] = ["", "C", "Cf", "f", "C::f", "D", "::", "éf", "f f"];
    const ROLES: [UniversalElementRole; 3] = [UniversalElementRole::Definition, UniversalElementRole::Reference, UniversalElementRole::None];
    const URIS: [[&str; 2]; 3] = [["file:///a", "file:///b"], ["file:///a", "file:///a/b"], ["", "é"]];
    let n = (CONT.len() * NAME.len()) as u64;
    let make = |k: u64, u: &str, stamp: usize| SymbolInformation { name: NAME[k as usize % 9].into(), role: ROLES[(k as usize + stamp) % 3], uri: u.into(), range: (stamp..stamp * 7 + k as usize).into(), container_name: CONT[k as usize / 9].map(|c| c.into()) };
    let full = |s: &SymbolInformation| (s.name.clone(), s.container_name.clone(), s.uri.to_string(), s.range.start, s.range.end, format!("{:?}", s.role));
    let check = move |t: &GlobalSymbolTable, files: &[(String, Vec<SymbolInformation>)], story: &str, cx: &mut Cx| -> Res {
        let all: Vec<&SymbolInformation> = files.iter().flat_map(|f| &f.1).collect();
        for (u, v) in files {
            ensure_eq!(t.query_file(u).iter().map(full).collect::<Vec<_>>(), v.iter().map(full).collect::<Vec<_>>(), "file", "{story}: query_file({u:?})");
        }
        for c in CONT {
            for m in NAME {
                let q = c.map_or(m.to_string(), |c| format!("{c}::{m}"));
                let defs: Vec<_> = all.iter().filter(|s| qual(s) == q).map(|s| full(s)).collect();
                match t.lookup(&q) {
                    None => ensure!(defs.is_empty(), "lookup", "{story}: lookup({q:?}) finds nothing, {defs:?} are defined"),
                    Some(s) => ensure!(defs.contains(&full(&s)), "lookup", "{story}: lookup({q:?}) finds {:?}, defined are {defs:?}", full(&s)),
                }
                cx.step();
            }
        }
        for q in NAME.iter().chain(&["C::", "::f", ":", "é"]) {
            let mut want: Vec<_> = all.iter().filter(|s| qual(s).contains(q)).map(|s| full(s)).collect();
            let mut got: Vec<_> = t.query(q).iter().map(full).collect();
            want.sort();
            got.sort();
            ensure_eq!(got, want, "query", "{story}: query({q:?})");
        }
        Ok(())
    };
    space(
        "names and containers of all forms",
        3 * n * n,
        move |i| {
            let d = seq::digits(&[3, n, n], i);
            let s = |k: u64| qual(&make(k, "", 0));
            format!("{:?} {:?} {:?}", URIS[d[0] as usize], s(d[1]), s(d[2]))
        },
        move |i, cx| {
            let d = seq::digits(&[3, n, n], i);
            let u = URIS[d[0] as usize];
            // symbols may be located elsewhere than in the file they were registered for
            let a = make(d[1], u[0], 1);
            let b = make(d[2], u[(d[1] % 2) as usize], 2);
            let story = format!("{:?}", (full(&a), full(&b)));
            let t = GlobalSymbolTable::new();
            let mut files = vec![(u[0].to_string(), vec![a.clone()]), (u[1].to_string(), vec![b.clone()])];
            for (u, v) in &files {
                t.update_file_symbols(u.clone(), v.clone())
            }
            check(&t, &files, &story, cx)?;
            // both in one file, in the other order
            files[0].1 = vec![b, a];
            t.update_file_symbols(files[0].0.clone(), files[0].1.clone());
            check(&t, &files, &format!("{story}, the second added to the first file"), cx)?;
            files[0].1.clear();
            t.update_file_symbols(files[0].0.clone(), vec![]);
            check(&t, &files, &format!("{story}, the first file emptied"), cx)?;
            cx.exec();
            cx.nontrivial(true);
            cx.state(&story);
            Ok(())
        },
    )
}

// ---------------------------------------------------------------- interleavings
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Update(usize, usize),
    Lookup(usize),
    File(usize),
    Query,
}
#[derive(Clone, Debug)]
struct Call {
    op: Op,
    stamp: usize,
    got: Vec<Key>,
    from: u64,
    to: u64,
}
fn explore(start: &[Op], programs: &[Vec<Op>], bound: usize, cx: &mut Cx) -> Res {
    let _ = oak_resolver::mc::HOOKS.set(oak_resolver::mc::Hooks {
        access: || {
            sched::released();
            sched::yield_point()
        },
        blocked: sched::block,
    });
    let slot: Arc<Mutex<Option<(Arc<GlobalSymbolTable>, Arc<Mutex<Vec<Call>>>)>>> = Arc::default();
    let s2 = slot.clone();
    let apply = |t: &GlobalSymbolTable, op: Op, stamp: usize| -> Vec<Key> {
        match op {
            Op::Update(f, w) => {
                t.update_file_symbols(FILES[f].to_string(), list(f, w, stamp));
                vec![]
            }
            Op::Lookup(n) => t.lookup(&fqn(n)).iter().map(key).collect(),
            Op::File(f) => t.query_file(FILES[f]).iter().map(key).collect(),
            Op::Query => sorted(t.query("")),
        }
    };
    let (start, programs) = (start.to_vec(), programs.to_vec());
    let st2 = start.clone();
    let mut seen = 0;
    let r = sched::explore(
        bound,
        || {
            let t = Arc::new(GlobalSymbolTable::new());
            for (k, op) in start.iter().enumerate() {
                apply(&t, *op, k + 1);
            }
            let log: Arc<Mutex<Vec<Call>>> = Arc::default();
            let clock = Arc::new(AtomicU64::new(100));
            *s2.lock().unwrap() = Some((t.clone(), log.clone()));
            programs
                .iter()
                .enumerate()
                .map(|(th, p)| {
                    let (t, log, clock, p) = (t.clone(), log.clone(), clock.clone(), p.clone());
                    Box::new(move || {
                        for (k, op) in p.into_iter().enumerate() {
                            let stamp = (th + 1) * 10 + k;
                            let from = clock.fetch_add(1, SeqCst);
                            let got = apply(&t, op, stamp);
                            let to = clock.fetch_add(1, SeqCst);
                            log.lock().unwrap().push(Call { op, stamp, got, from, to });
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect()
        },
        |o| {
            ensure!(!o.deadlock, "deadlock", "threads wait for each other forever; schedule {:?}", o.schedule);
            ensure!(!o.overrun, "livelock", "no end after {} steps", o.steps);
            ensure!(o.panic.is_none(), "panic", "thread {:?} panicked; schedule {:?}", o.panic, o.schedule);
            let (t, log) = slot.lock().unwrap().take().unwrap();
            let mut calls: Vec<Call> = st2.iter().enumerate().map(|(k, op)| Call { op: *op, stamp: k + 1, got: vec![], from: 2 * k as u64, to: 2 * k as u64 + 1 }).collect();
            calls.extend(log.lock().unwrap().iter().cloned());
            seen ^= fp(&format!("{calls:?}"));
            let story = || format!("{} ; schedule {:?}", calls.iter().map(|c| format!("[{}..{}] {:?}#{} -> {:?}", c.from, c.to, c.op, c.stamp, c.got)).collect::<Vec<_>>().join(" ; "), o.schedule);
            let updates: Vec<&Call> = calls.iter().filter(|c| matches!(c.op, Op::Update(..))).collect();
            let of = |c: &Call| if let Op::Update(f, w) = c.op { (f, list(f, w, c.stamp)) } else { unreachable!() };
            // An update is certainly gone at time `a` when another one of the same file began after it ended and ended before `a`.
            let gone = |u: &Call, a: u64| updates.iter().any(|w| of(w).0 == of(u).0 && w.from > u.to && w.to < a);
            for c in &calls {
                // the updates whose symbols may be visible during the call
                let may: Vec<&&Call> = updates.iter().filter(|u| u.from < c.to && !gone(u, c.from)).collect();
                let name = |q: &str| -> Vec<Key> { may.iter().flat_map(|u| of(u).1).filter(|s| qual(s) == q).map(|s| key(&s)).collect() };
                // for each file: is the name defined whatever the order of overlapping updates was?
                let must = |q: &str| -> bool {
                    (0..2).any(|f| {
                        let m: Vec<_> = may.iter().filter(|u| of(u).0 == f).collect();
                        // before the first update a file defines nothing
                        let settled = m.iter().any(|u| u.to < c.from);
                        settled && m.iter().all(|u| of(u).1.iter().any(|s| qual(s) == q))
                    })
                };
                match c.op {
                    Op::Lookup(n) => {
                        let q = fqn(n);
                        match c.got.first() {
                            Some(k) => ensure!(name(&q).contains(k), "stale", "lookup({q}) finds a definition that is not current: {}", story()),
                            None => ensure!(!must(&q), "lost", "lookup({q}) finds nothing although the file defines it before and after: {}", story()),
                        }
                    }
                    Op::File(f) => {
                        let m: Vec<Vec<Key>> = may.iter().filter(|u| of(u).0 == f).map(|u| of(u).1.iter().map(key).collect()).collect();
                        let unset = c.got.is_empty() && !updates.iter().any(|u| of(u).0 == f && u.to < c.from);
                        ensure!(unset || m.contains(&c.got), "file", "query_file gives a list no update set: {}", story())
                    }
                    Op::Query => {
                        for k in &c.got {
                            let q = k.1.as_ref().map_or(k.0.clone(), |x| format!("{x}::{}", k.0));
                            ensure!(name(&q).contains(k), "stale", "query gives {k:?} which is not current: {}", story())
                        }
                        for n in 0..NAMES.len() {
                            let q = fqn(n);
                            ensure!(!must(&q) || c.got.iter().any(|k| k.1.as_ref().map_or(k.0.clone(), |x| format!("{x}::{}", k.0)) == q), "lost", "query misses {q}: {}", story())
                        }
                    }
                    Op::Update(..) => (),
                }
            }
            // In the end every file has the symbols of one update that nothing came after, and the names agree.
            let mut final_: [Vec<Vec<SymbolInformation>>; 2] = Default::default();
            for f in 0..2 {
                final_[f] = updates.iter().filter(|u| of(u).0 == f && !gone(u, u64::MAX)).map(|u| of(u).1).collect();
                if final_[f].is_empty() {
                    final_[f].push(vec![])
                }
            }
            let mut err = None;
            for a in &final_[0] {
                for b in &final_[1] {
                    match whole(&t, &[a.clone(), b.clone()], &mut Cx::default()) {
                        Ok(()) => return Ok(()),
                        Err(e) => err = Some(e),
                    }
                }
            }
            let e = err.unwrap();
            fail("final", format!("the table after all calls fits no order of the updates ({}): {}", e.detail, story()))
        },
    )?;
    cx.execs(r.0);
    cx.steps(r.1);
    cx.note("schedules", r.0);
    cx.state(&seen);
    cx.nontrivial(r.0 > 1);
    Ok(())
}

/// Many files with many symbols, updated over and over.
fn many(t: Tier) -> Box<dyn Space> {
    let ns = seq::sizes(12, t.pick(128, 512));
    let r = [ns.len() as u64, 5, 4];
    let n2 = ns.clone();
    space(
        "many files and symbols: every number up to 12 and around the powers of two",
        seq::prod(&r),
        move |i| {
            let d = seq::digits(&r, i);
            format!("{} files of {} symbols, story {}", n2[d[0] as usize], [0, 1, 3, 17, 130][d[1] as usize], d[2])
        },
        move |i, cx| {
            let d = seq::digits(&r, i);
            let (n, k) = (ns[d[0] as usize] as usize, [0, 1, 3, 17, 130][d[1] as usize]);
            if n * k > 20000 {
                return Ok(());
            }
            let t = GlobalSymbolTable::new();
            let uri = |f: usize| format!("file:///{f}");
            let make = |f: usize, gen_: usize| -> Vec<SymbolInformation> {
                // some names are unique, some shared by all files
                (0..k + gen_ % 2).map(|j| SymbolInformation { name: if j % 3 == 0 { format!("n{j}") } else { format!("n{f}_{j}") }, role: UniversalElementRole::Definition, uri: uri(f).into(), range: (gen_ * 70000 + j..gen_ * 70000 + j + 1).into(), container_name: (j % 2 == 1).then(|| format!("C{}", f % 4).into()) }).collect()
            };
            let mut files: Vec<Vec<SymbolInformation>> = vec![vec![]; n];
            let mut set = |files: &mut Vec<Vec<SymbolInformation>>, f: usize, v: Vec<SymbolInformation>| {
                t.update_file_symbols(uri(f), v.clone());
                files[f] = v
            };
            for f in 0..n {
                set(&mut files, f, make(f, 1))
            }
            match d[2] {
                0 => (),
                1 => (0..n).step_by(2).for_each(|f| set(&mut files, f, vec![])),
                2 => (0..n).rev().for_each(|f| (2..6).for_each(|g| set(&mut files, f, make(f, g)))),
                _ => (0..n).for_each(|f| {
                    set(&mut files, f, make((f + 1) % n, 3));
                    set(&mut files, n - 1 - f, make(f, 2))
                }),
            }
            let mut defs: std::collections::HashMap<String, Vec<Key>> = Default::default();
            for (f, v) in files.iter().enumerate() {
                cx.step();
                ensure!(t.query_file(&uri(f)).iter().map(key).eq(v.iter().map(key)), "file", "query_file of file {f}");
                v.iter().for_each(|s| defs.entry(qual(s)).or_default().push(key(s)))
            }
            for (q, v) in &defs {
                cx.step();
                let got = t.lookup(q).map(|s| key(&s));
                ensure!(got.as_ref().is_some_and(|g| v.contains(g)), "lookup", "lookup({q:?}) finds {got:?}, {} are defined", v.len());
            }
            for f in 0..n {
                for j in 0..k + 2 {
                    for q in [format!("n{f}_{j}"), format!("C{}::n{f}_{j}", f % 4)] {
                        ensure_eq!(t.lookup(&q).is_some(), defs.contains_key(&q), "lookup", "{q}");
                    }
                }
            }
            for q in ["", "n1", "C1::", "_7", "n0"] {
                let mut want: Vec<Key> = files.iter().flatten().filter(|s| qual(s).contains(q)).map(key).collect();
                want.sort();
                cx.step();
                ensure!(sorted(t.query(q)) == want, "query", "query({q:?}): {} of {}", t.query(q).len(), want.len());
            }
            cx.exec();
            cx.nontrivial(n > 1);
            cx.state(&i);
            Ok(())
        },
    )
}
pub fn p20(t: Tier) -> Vec<Box<dyn Space>> {
    let each = each_character("every character as a name, in a name, a container and a file", t, |c, cx| {
        let uris = [format!("file:///{c}"), c.to_string(), "file:///other".into()];
        let names = [c.to_string(), format!("{c}a{c}"), "qq".to_string()];
        let make = |k: usize, stamp: usize| SymbolInformation { name: names[k % 3].clone(), role: UniversalElementRole::Definition, uri: uris[stamp % 3].as_str().into(), range: (stamp..stamp + k).into(), container_name: (k > 2).then(|| names[k % 2].clone()) };
        let full = |s: &SymbolInformation| format!("{:?}", (&s.name, &s.container_name, s.uri.to_string(), s.range.start, s.range.end));
        let t = GlobalSymbolTable::new();
        let mut files: Vec<Vec<SymbolInformation>> = vec![vec![]; 3];
        for round in 0..4 {
            files[round % 3] = if round == 3 { vec![] } else { (0..6).filter(|k| (k + round) % 4 > 0).map(|k| make(k, round)).collect() };
            t.update_file_symbols(uris[round % 3].clone(), files[round % 3].clone());
            let all: Vec<&SymbolInformation> = files.iter().flatten().collect();
            for (u, v) in uris.iter().zip(&files) {
                ensure_eq!(t.query_file(u).iter().map(full).collect::<Vec<_>>(), v.iter().map(full).collect::<Vec<_>>(), "file", "query_file({u:?})");
            }
            for k in 0..6 {
                let q = qual(&make(k, 0));
                let defs: Vec<_> = all.iter().filter(|s| qual(s) == q).map(|s| full(s)).collect();
                match t.lookup(&q) {
                    None => ensure!(defs.is_empty(), "lookup", "lookup({q:?}) finds nothing, {defs:?} are defined"),
                    Some(s) => ensure!(defs.contains(&full(&s)), "lookup", "lookup({q:?}) finds {:?}, defined are {defs:?}", full(&s)),
                }
            }
            for q in [&names[0], &names[1], &names[2], &"".to_string(), &format!("::{c}"), &format!("{c}q")] {
                let mut want: Vec<_> = all.iter().filter(|s| qual(s).contains(q.as_str())).map(|s| full(s)).collect();
                let mut got: Vec<_> = t.query(q).iter().map(full).collect();
                want.sort();
                got.sort();
                ensure_eq!(got, want, "query", "query({q:?})");
            }
            cx.steps(15);
        }
        cx.state(&c);
        cx.nontrivial(!c.is_ascii());
        cx.exec();
        Ok(())
    });
    vec![histories(t.pick(5, 6)), names(), many(t), each]
}
pub fn p21(t: Tier) -> Vec<Box<dyn Space>> {
    const STARTS: [&[Op]; 3] = [&[], &[Op::Update(0, 3)], &[Op::Update(0, 1), Op::Update(1, 6)]];
    let mut ups: Vec<Vec<Op>> = Vec::new();
    for f in 0..2 {
        for w in [0, 1, 3, 4, 6] {
            ups.push(vec![Op::Update(f, w)])
        }
    }
    ups.push(vec![Op::Update(0, 2), Op::Update(0, 1)]);
    let reads: Vec<Vec<Op>> = vec![vec![Op::Lookup(0), Op::Lookup(1)], vec![Op::Lookup(2), Op::File(0), Op::Lookup(0)], vec![Op::Query, Op::File(1)], vec![Op::File(0), Op::Query]];
    let others: Vec<Vec<Op>> = ups.iter().chain(&reads).cloned().collect();
    let (nu, no, nr) = (ups.len() as u64, others.len() as u64, reads.len() as u64);
    let two = t.pick(6, 8);
    let (u1, o1, u2, o2) = (ups.clone(), others.clone(), ups.clone(), others.clone());
    let dec = move |i: u64| {
        let d = seq::digits(&[3, nu, no], i);
        (d[0] as usize, d[1] as usize, d[2] as usize)
    };
    let bound = t.pick(1, 3);
    let (u3, r3) = (ups.clone(), reads.clone());
    let dec3 = move |i: u64| {
        let d = seq::digits(&[2, nu, nu, nr], i);
        (d[0] as usize + 1, d[1] as usize, d[2] as usize, d[3] as usize)
    };
    vec![
        space(
            format!("two threads, at most {two} preemptions"),
            3 * nu * no,
            move |i| {
                let (s, a, b) = dec(i);
                format!("start {:?}; {:?} || {:?}", STARTS[s], u1[a], o1[b])
            },
            move |i, cx| {
                let (s, a, b) = dec(i);
                explore(STARTS[s], &[u2[a].clone(), o2[b].clone()], two, cx)
            },
        ),
        space(
            format!("three threads, at most {bound} preemptions"),
            2 * nu * nu * nr,
            move |i| {
                let (s, a, b, c) = dec3(i);
                format!("start {:?}; {:?} || {:?} || {:?}", STARTS[s], u3[a], u3[b], r3[c])
            },
            move |i, cx| {
                let (s, a, b, c) = dec3(i);
                if a > b {
                    return Ok(());
                }
                explore(STARTS[s], &[ups[a].clone(), ups[b].clone(), reads[c].clone()], bound, cx)
            },
        ),
    ]
}

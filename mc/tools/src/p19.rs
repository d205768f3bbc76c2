//! P19: concurrent use of an in-memory file system looks like some one-after-the-other order of the
//! calls, for every interleaving of small programs on up to three threads.
use mc_kit::*;
use oak_core::source::{Source, SourceId};
use oak_vfs::{MemoryVfs, Vfs};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering::SeqCst}};

const URIS: [&str; 2] = ["a", "b"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Write(usize, &'static str),
    Remove(usize),
    Source(usize),
    Id(usize),
    /// the name of the id the thread got last
    Uri,
    Exists(usize),
    Len(usize),
    List,
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Unit,
    Source(Option<(String, Option<SourceId>)>),
    Id(Option<SourceId>),
    /// asked id, answer
    Uri(Option<SourceId>, Option<String>),
    Bool(bool),
    Len(Option<u64>),
    List(Vec<String>),
}
#[derive(Clone, Debug)]
struct Call {
    thread: usize,
    op: Op,
    ans: Ans,
    from: u64,
    to: u64,
}

fn call(v: &MemoryVfs, op: Op, last: &mut Option<SourceId>) -> Ans {
    let ans = match op {
        Op::Write(u, t) => {
            v.write_file(URIS[u], t);
            Ans::Unit
        }
        Op::Remove(u) => {
            v.remove_file(URIS[u]);
            Ans::Unit
        }
        Op::Source(u) => Ans::Source(v.get_source(URIS[u]).map(|s| (s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string(), s.source_id()))),
        Op::Id(u) => Ans::Id(v.get_id(URIS[u])),
        Op::Uri => Ans::Uri(*last, last.and_then(|i| v.get_uri(i)).map(|u| u.to_string())),
        Op::Exists(u) => Ans::Bool(v.exists(URIS[u])),
        Op::Len(u) => Ans::Len(v.metadata(URIS[u]).map(|m| m.len)),
        Op::List => {
            let mut l: Vec<String> = v.read_dir("").unwrap_or_default().iter().map(|u| u.to_string()).collect();
            l.sort();
            Ans::List(l)
        }
    };
    if let Ans::Id(i) = &ans {
        *last = *i
    }
    ans
}

/// The sequential specification: files with a birth number; real ids are matched to births.
#[derive(Clone, Default)]
struct Spec {
    files: [Option<(&'static str, u32)>; 2],
    births: u32,
    ids: BTreeMap<SourceId, (usize, u32)>,
}
impl Spec {
    fn bind(&mut self, id: SourceId, u: usize, birth: u32) -> bool {
        if let Some(b) = self.ids.get(&id) {
            return *b == (u, birth);
        }
        if self.ids.values().any(|b| *b == (u, birth)) {
            return false;
        }
        self.ids.insert(id, (u, birth));
        true
    }
    /// Whether the call may give this answer now; performs it.
    fn step(&mut self, op: Op, ans: &Ans) -> bool {
        match (op, ans) {
            (Op::Write(u, t), _) => {
                let b = match self.files[u] {
                    Some((_, b)) => b,
                    None => {
                        self.births += 1;
                        self.births
                    }
                };
                self.files[u] = Some((t, b));
                true
            }
            (Op::Remove(u), _) => {
                self.files[u] = None;
                true
            }
            (Op::Source(u), Ans::Source(a)) => match (self.files[u], a) {
                (None, None) => true,
                (Some((t, b)), Some((got, Some(id)))) => got == t && self.bind(*id, u, b),
                _ => false,
            },
            (Op::Id(u), Ans::Id(a)) => match (self.files[u], a) {
                (None, None) => true,
                (Some((_, b)), Some(id)) => self.bind(*id, u, b),
                _ => false,
            },
            (Op::Uri, Ans::Uri(asked, a)) => {
                let Some(id) = asked else { return a.is_none() };
                // the id was obtained before, so it is bound already
                match self.ids.get(id) {
                    Some((u, b)) if self.files[*u].is_some_and(|f| f.1 == *b) => a.as_deref() == Some(URIS[*u]),
                    _ => a.is_none(),
                }
            }
            (Op::Exists(u), Ans::Bool(b)) => self.files[u].is_some() == *b,
            (Op::Len(u), Ans::Len(l)) => self.files[u].map(|f| f.0.len() as u64) == *l,
            (Op::List, Ans::List(l)) => *l == (0..2).filter(|u| self.files[*u].is_some()).map(|u| URIS[u].to_string()).collect::<Vec<_>>(),
            _ => false,
        }
    }
}
fn linearizable(calls: &[Call], done: u32, s: &Spec) -> bool {
    if done == (1 << calls.len()) - 1 {
        return true;
    }
    for (k, c) in calls.iter().enumerate() {
        if done >> k & 1 == 1 {
            continue;
        }
        // nobody else finished before this one began
        if calls.iter().enumerate().any(|(j, d)| j != k && done >> j & 1 == 0 && d.to < c.from) {
            continue;
        }
        let mut n = s.clone();
        if n.step(c.op, &c.ans) && linearizable(calls, done | 1 << k, &n) {
            return true;
        }
    }
    false
}

pub fn hooks() {
    let _ = oak_vfs::mc::HOOKS.set(oak_vfs::mc::Hooks { access: sched::yield_point, blocked: sched::block, released: sched::released });
}

fn explore(start: &[Op], programs: &[Vec<Op>], bound: usize, cx: &mut Cx) -> Res {
    hooks();
    let slot: Arc<Mutex<Option<(MemoryVfs, Arc<Mutex<Vec<Call>>>, Arc<AtomicU64>)>>> = Arc::default();
    let s2 = slot.clone();
    let programs = programs.to_vec();
    let start = start.to_vec();
    let mut spec0 = Spec::default();
    for op in &start {
        spec0.step(*op, &Ans::Unit);
    }
    let after = [Op::Source(0), Op::Id(0), Op::Uri, Op::Source(1), Op::Id(1), Op::Uri, Op::List];
    let mut seen = 0u64;
    let r = sched::explore(
        bound,
        || {
            let v = MemoryVfs::new();
            for op in &start {
                call(&v, *op, &mut None);
            }
            let log: Arc<Mutex<Vec<Call>>> = Arc::default();
            let clock = Arc::new(AtomicU64::new(0));
            *s2.lock().unwrap() = Some((v.clone(), log.clone(), clock.clone()));
            programs
                .iter()
                .enumerate()
                .map(|(t, p)| {
                    let (v, log, clock, p) = (v.clone(), log.clone(), clock.clone(), p.clone());
                    Box::new(move || {
                        let mut last = None;
                        for op in p {
                            let from = clock.fetch_add(1, SeqCst);
                            let ans = call(&v, op, &mut last);
                            let to = clock.fetch_add(1, SeqCst);
                            log.lock().unwrap().push(Call { thread: t, op, ans, from, to });
                        }
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect()
        },
        |o| {
            ensure!(!o.deadlock, "deadlock", "threads wait for each other forever; schedule {:?}", o.schedule);
            ensure!(!o.overrun, "livelock", "no end after {} steps", o.steps);
            ensure!(o.panic.is_none(), "panic", "thread {:?} panicked; schedule {:?}", o.panic, o.schedule);
            let (v, log, clock) = slot.lock().unwrap().take().unwrap();
            let mut calls = log.lock().unwrap().clone();
            // what is there in the end has to fit as well
            let mut last = None;
            for op in after {
                let from = clock.fetch_add(1, SeqCst);
                let ans = call(&v, op, &mut last);
                let to = clock.fetch_add(1, SeqCst);
                calls.push(Call { thread: 9, op, ans, from, to });
            }
            seen ^= fp(&format!("{:?}", calls.iter().map(|c| (c.thread, &c.ans)).collect::<Vec<_>>()));
            ensure!(
                linearizable(&calls, 0, &spec0),
                "order",
                "no order of the calls explains the answers: {} ; schedule {:?}",
                calls.iter().map(|c| format!("[{}..{}] thread {}: {:?} -> {:?}", c.from, c.to, c.thread, c.op, c.ans)).collect::<Vec<_>>().join(" ; "),
                o.schedule
            );
            Ok(())
        },
    )?;
    cx.execs(r.0);
    cx.steps(r.1);
    cx.note("schedules", r.0);
    cx.state(&seen);
    cx.nontrivial(r.0 > 1);
    Ok(())
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    const STARTS: [&[Op]; 3] = [&[], &[Op::Write(0, "old")], &[Op::Write(0, "old"), Op::Write(1, "")]];
    let w: Vec<Vec<Op>> = vec![
        vec![Op::Write(0, "new!")],
        vec![Op::Write(0, "x"), Op::Write(1, "y")],
        vec![Op::Write(1, "y")],
        vec![Op::Remove(0)],
        vec![Op::Remove(0), Op::Write(0, "again")],
        vec![Op::Write(0, "tmp"), Op::Remove(0)],
        vec![Op::Remove(0), Op::Remove(1)],
    ];
    let r: Vec<Vec<Op>> = vec![
        vec![Op::Source(0), Op::Id(0), Op::Uri],
        vec![Op::Id(0), Op::Uri, Op::Source(0)],
        vec![Op::Exists(0), Op::Len(0), Op::Source(0)],
        vec![Op::List, Op::Exists(1), Op::Exists(0)],
        vec![Op::Id(1), Op::Id(0), Op::Uri],
    ];
    let all: Vec<Vec<Op>> = w.iter().chain(&r).cloned().collect();
    let mut v: Vec<Box<dyn Space>> = Vec::new();
    // two threads: a writer against anything, all interleavings
    let (w1, a1) = (w.clone(), all.clone());
    let (nw, na) = (w.len() as u64, all.len() as u64);
    let (w2, a2) = (w.clone(), all.clone());
    let dec = move |i: u64| {
        let d = seq::digits(&[3, nw, na], i);
        (d[0] as usize, d[1] as usize, d[2] as usize)
    };
    v.push(space(
        "two threads",
        3 * nw * na,
        move |i| {
            let (s, a, b) = dec(i);
            format!("start {:?}; {:?} || {:?}", STARTS[s], w1[a], a1[b])
        },
        move |i, cx| {
            let (s, a, b) = dec(i);
            explore(STARTS[s], &[w2[a].clone(), a2[b].clone()], usize::MAX, cx)
        },
    ));
    // three threads, bounded preemptions
    let bound = t.pick(2, 4);
    let (w1, a1) = (w.clone(), r.clone());
    let nr = r.len() as u64;
    let dec3 = move |i: u64| {
        let d = seq::digits(&[3, nw, nw, nr], i);
        (d[0] as usize, d[1] as usize, d[2] as usize, d[3] as usize)
    };
    v.push(space(
        format!("three threads, at most {bound} preemptions"),
        3 * nw * nw * nr,
        move |i| {
            let (s, a, b, c) = dec3(i);
            format!("start {:?}; {:?} || {:?} || {:?}", STARTS[s], w1[a], w1[b], a1[c])
        },
        move |i, cx| {
            let (s, a, b, c) = dec3(i);
            if a > b {
                return Ok(());
            }
            explore(STARTS[s], &[w[a].clone(), w[b].clone(), r[c].clone()], bound, cx)
        },
    ));
    v
}

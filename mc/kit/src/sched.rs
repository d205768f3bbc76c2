//! A controlled scheduler for real threads: every interleaving of the yield points
//! that the code under test reaches is explored by depth-first replay.
//!
//! Exactly one thread runs at a time.  At each yield point the running thread hands
//! control back; the explorer picks the next one among the runnable threads.
//! A thread that cannot take a lock parks itself as blocked and is made runnable
//! again when any lock is released.
//!
//! A thread that really sleeps on a lock the hooks do not know about (the code under test may
//! use other locks than the hooked ones) is noticed by the supervising thread, which lets the
//! others go on; such a thread takes part again from its next yield point on.
use std::{
    cell::RefCell,
    sync::{Arc, Condvar, Mutex},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    /// asleep inside the code under test, on something the hooks do not report
    External,
    Done,
}
struct Inner {
    st: Vec<St>,
    running: Option<usize>,
    /// choices to replay, then choose first
    prefix: Vec<usize>,
    /// (chosen position, number of alternatives, was preemptive)
    trace: Vec<(usize, usize)>,
    last: Option<usize>,
    preemptions: usize,
    bound: usize,
    deadlock: bool,
    steps: usize,
    abort: bool,
    max_steps: usize,
    overrun: bool,
    tids: Vec<i32>,
    /// the thread has taken up its turn: it is inside the code under test
    inside: Vec<bool>,
}
pub struct Sched {
    m: Mutex<Inner>,
    cv: Condvar,
    /// wakes the supervising thread
    sup: Condvar,
}
thread_local! { static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) }; }

struct Abort;

impl Sched {
    /// Picks who runs next. Called with no thread running.
    fn dispatch(&self, g: &mut Inner) {
        let ready: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::Ready).collect();
        if ready.is_empty() {
            if g.st.iter().any(|s| *s == St::Blocked || *s == St::External) {
                g.deadlock = true;
                g.abort = true;
            }
            g.running = None;
            self.cv.notify_all();
            self.sup.notify_all();
            return;
        }
        if g.steps > g.max_steps {
            g.overrun = true;
            g.abort = true;
            g.running = None;
            self.cv.notify_all();
            self.sup.notify_all();
            return;
        }
        // order: last running thread first (no preemption), then the others
        let mut opts: Vec<usize> = Vec::new();
        let last_ready = g.last.filter(|l| g.st[*l] == St::Ready);
        if let Some(l) = last_ready {
            opts.push(l);
        }
        if last_ready.is_none() || g.preemptions < g.bound {
            opts.extend(ready.iter().copied().filter(|r| Some(*r) != last_ready));
        }
        let k = g.trace.len();
        let c = if k < g.prefix.len() { g.prefix[k] } else { 0 };
        let c = c.min(opts.len() - 1);
        g.trace.push((c, opts.len()));
        let pick = opts[c];
        if last_ready.is_some() && c > 0 {
            g.preemptions += 1;
        }
        g.last = Some(pick);
        g.steps += 1;
        g.running = Some(pick);
        self.cv.notify_all();
    }
    fn wait_turn(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.running != Some(me) && !g.abort {
            g = self.cv.wait(g).unwrap();
        }
        let ab = g.abort;
        g.inside[me] = true;
        drop(g);
        if ab && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Abort));
        }
    }
    fn give_up(&self, me: usize, st: St) {
        let mut g = self.m.lock().unwrap();
        if g.abort {
            return;
        }
        self.hand_back(&mut g, me, st);
    }
    /// `me` stops running; picks the next thread unless that has to wait.
    fn hand_back(&self, g: &mut Inner, me: usize, st: St) {
        g.st[me] = st;
        g.inside[me] = false;
        if g.running == Some(me) {
            g.running = None;
        }
        if g.st.iter().any(|s| *s == St::External) {
            // it may wake up now or not: the supervisor decides when that is settled
            self.sup.notify_all();
        }
        else if g.running.is_none() {
            self.dispatch(g);
        }
    }
}

fn cur() -> Option<(Arc<Sched>, usize)> {
    CUR.with(|c| c.borrow().clone())
}

/// A point where another thread may run.
pub fn yield_point() {
    if let Some((s, me)) = cur() {
        if std::thread::panicking() {
            return;
        }
        s.give_up(me, St::Ready);
        s.wait_turn(me);
    }
}
/// The calling thread cannot proceed until somebody releases something.
pub fn block() {
    if let Some((s, me)) = cur() {
        s.give_up(me, St::Blocked);
        s.wait_turn(me);
    }
    else {
        std::thread::yield_now();
    }
}
/// Something was released: blocked threads may try again.
pub fn released() {
    if let Some((s, _)) = cur() {
        let mut g = s.m.lock().unwrap();
        for x in g.st.iter_mut() {
            if *x == St::Blocked {
                *x = St::Ready;
            }
        }
    }
}
pub fn active() -> bool {
    CUR.with(|c| c.borrow().is_some())
}

pub struct Outcome {
    pub deadlock: bool,
    pub overrun: bool,
    pub panic: Option<usize>,
    pub schedule: Vec<usize>,
    pub steps: usize,
}

type Body = Box<dyn FnOnce() + Send>;

fn run_one(prefix: &[usize], bound: usize, bodies: Vec<Body>) -> (Outcome, Vec<(usize, usize)>) {
    let n = bodies.len();
    let s = Arc::new(Sched {
        m: Mutex::new(Inner { st: vec![St::Ready; n], running: None, prefix: prefix.to_vec(), trace: vec![], last: None, preemptions: 0, bound, deadlock: false, steps: 0, abort: false, max_steps: 5000, overrun: false, tids: vec![0; n], inside: vec![false; n] }),
        cv: Condvar::new(),
        sup: Condvar::new(),
    });
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let s = s.clone();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    CUR.with(|c| *c.borrow_mut() = Some((s.clone(), i)));
                    s.m.lock().unwrap().tids[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        s.wait_turn(i);
                        b()
                    }));
                    CUR.with(|c| *c.borrow_mut() = None);
                    let aborted = matches!(&r, Err(e) if e.is::<Abort>());
                    {
                        let mut g = s.m.lock().unwrap();
                        for x in g.st.iter_mut() {
                            if *x == St::Blocked {
                                *x = St::Ready;
                            }
                        }
                        g.st[i] = St::Done;
                        if !g.abort {
                            s.hand_back(&mut g, i, St::Done);
                        }
                        else {
                            s.cv.notify_all();
                            s.sup.notify_all();
                        }
                    }
                    r.is_err() && !aborted
                })
                .unwrap()
        })
        .collect();
    {
        let mut g = s.m.lock().unwrap();
        s.dispatch(&mut g);
    }
    let stuck = supervise(&s);
    let mut p = None;
    if stuck {
        // the threads sleep forever; nothing of this execution can be joined
        let g = s.m.lock().unwrap();
        return (Outcome { deadlock: true, overrun: false, panic: None, schedule: g.trace.iter().map(|t| t.0).collect(), steps: g.steps }, g.trace.clone());
    }
    for (i, h) in hs.into_iter().enumerate() {
        if h.join().unwrap_or(true) {
            p = Some(i);
        }
    }
    let g = s.m.lock().unwrap();
    (Outcome { deadlock: g.deadlock, overrun: g.overrun, panic: p, schedule: g.trace.iter().map(|t| t.0).collect(), steps: g.steps }, g.trace.clone())
}

/// Whether the thread sleeps in the kernel.
fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok().and_then(|t| t.rsplit(')').next().map(|r| r.trim_start().starts_with('S'))).unwrap_or(false)
}

/// Waits for the end of an execution. True: threads are asleep for good.
fn supervise(s: &Sched) -> bool {
    let mut seen = (usize::MAX, None);
    let mut calm = 0;
    let mut g = s.m.lock().unwrap();
    loop {
        if g.st.iter().all(|x| *x == St::Done) {
            return false;
        }
        let ext: Vec<usize> = (0..g.st.len()).filter(|i| g.st[*i] == St::External).collect();
        let wait = 200;
        if g.abort {
            if !ext.is_empty() {
                return true;
            }
            g = s.sup.wait_timeout(g, std::time::Duration::from_micros(wait)).unwrap().0;
            continue;
        }
        let now = (g.steps, g.running);
        if now != seen {
            seen = now;
            calm = 0;
        }
        else if let Some(r) = g.running {
            calm = if g.inside[r] && asleep(g.tids[r]) { calm + 1 } else { 0 };
            if calm >= 4 {
                g.st[r] = St::External;
                g.running = None;
                seen = (usize::MAX, None);
                continue;
            }
        }
        else if ext.iter().all(|e| asleep(g.tids[*e])) {
            calm += 1;
            let ready = g.st.iter().any(|x| *x == St::Ready);
            if calm >= if ready { 4 } else { 1500 } {
                s.dispatch(&mut g);
                continue;
            }
        }
        else {
            calm = 0;
        }
        g = s.sup.wait_timeout(g, std::time::Duration::from_micros(wait)).unwrap().0;
    }
}

/// Explores every schedule with at most `bound` preemptions. `make` builds a fresh
/// set of thread bodies; `judge` looks at the finished execution.
pub fn explore(bound: usize, mut make: impl FnMut() -> Vec<Body>, mut judge: impl FnMut(&Outcome) -> crate::Res) -> Result<(u64, u64), crate::Fail> {
    let mut prefix: Vec<usize> = Vec::new();
    let (mut n, mut steps) = (0u64, 0u64);
    loop {
        let (o, trace) = run_one(&prefix, bound, make());
        n += 1;
        steps += o.steps as u64;
        judge(&o)?;
        // next prefix
        let mut t = trace;
        loop {
            match t.pop() {
                None => return Ok((n, steps)),
                Some((c, k)) if c + 1 < k => {
                    prefix = t.iter().map(|x| x.0).collect();
                    prefix.push(c + 1);
                    break;
                }
                _ => {}
            }
        }
    }
}

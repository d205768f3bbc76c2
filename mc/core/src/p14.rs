//! P14: arena allocations are aligned, disjoint and keep their contents until their arena is
//! dropped, and dropped arenas give their memory back, for every short history of allocations
//! around the chunk size in several arenas, also when arenas move between threads.
use mc_kit::*;
use oak_core::memory::arena::SyntaxArena;
use oak_core::tree::TokenProvenance;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

// ---------------------------------------------------------------- allocator that keeps books
/// Blocks of at least this size are chunks of arenas.
const BIG: usize = 32 * 1024;
const MAX: usize = 4096;
pub struct Books;
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BAD: AtomicUsize = AtomicUsize::new(0);
static mut BLOCKS: [(usize, usize, usize); MAX] = [(0, 0, 0); MAX];
fn locked<R>(f: impl FnOnce(&mut [(usize, usize, usize); MAX]) -> R) -> R {
    while LOCK.swap(true, SeqCst) {
        std::hint::spin_loop()
    }
    let r = f(unsafe { &mut *(&raw mut BLOCKS) });
    LOCK.store(false, SeqCst);
    r
}
/// Bytes behind each chunk that nobody may write.
const ZONE: usize = 64;
const GUARD: u8 = 0xA7;
fn padded(l: Layout) -> Layout {
    if l.size() >= BIG { Layout::from_size_align(l.size() + ZONE, l.align()).unwrap() } else { l }
}
unsafe impl GlobalAlloc for Books {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc(padded(l));
            if l.size() >= BIG && !p.is_null() {
                p.add(l.size()).write_bytes(GUARD, ZONE)
            }
            if l.size() >= BIG && ON.load(SeqCst) && !p.is_null() {
                LIVE.fetch_add(l.size(), SeqCst);
                locked(|b| {
                    if let Some(e) = b.iter_mut().find(|e| e.0 == 0) {
                        *e = (p as usize, l.size(), l.align())
                    }
                });
                // memory that happens to be zero hides missing writes
                p.write_bytes(0xEE, l.size())
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if ON.load(SeqCst) {
                let was = locked(|b| {
                    let e = b.iter_mut().find(|e| e.0 == p as usize)?;
                    let was = *e;
                    *e = (0, 0, 0);
                    Some(was)
                });
                match was {
                    Some((_, size, align)) => {
                        LIVE.fetch_sub(size, SeqCst);
                        if std::slice::from_raw_parts(p.add(size), ZONE).iter().any(|b| *b != GUARD) {
                            BAD.fetch_add(1, SeqCst);
                        }
                        if (size, align) != (l.size(), l.align()) {
                            BAD.fetch_add(1, SeqCst);
                            return;
                        }
                        p.write_bytes(0xDD, l.size())
                    }
                    None if l.size() >= BIG => {
                        // freed twice, or never allocated
                        BAD.fetch_add(1, SeqCst);
                        return;
                    }
                    None => (),
                }
            }
            System.dealloc(p, padded(l))
        }
    }
}
// ---------------------------------------------------------------- histories
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bytes(usize),
    Words(usize),
    Fill(usize),
    One,
    Pair,
    Meta,
    /// drop the arena and start a new one
    Renew,
    /// drop it on a thread that ends
    RenewElsewhere,
    /// many short-lived arenas at the same time
    Crowd,
    /// exchange the two arenas
    Swap,
}
/// what an arena promised
enum Kept {
    Bytes(*const [u8], u8),
    Words(*const [u64], u64),
    One(*const u8, u8),
    Pair(*const (u64, u32), (u64, u32)),
}
impl Kept {
    fn place(&self) -> (usize, usize, usize) {
        unsafe {
            match self {
                Kept::Bytes(p, _) => (*p as *const u8 as usize, (*p).len(), 1),
                Kept::Words(p, _) => (*p as *const u64 as usize, 8 * (*p).len(), 8),
                Kept::One(p, _) => (*p as usize, 1, 1),
                Kept::Pair(p, _) => (*p as usize, 16, 8),
            }
        }
    }
    fn intact(&self) -> bool {
        unsafe {
            match self {
                Kept::Bytes(p, x) => (&**p).iter().all(|b| b == x),
                Kept::Words(p, x) => (&**p).iter().enumerate().all(|(i, b)| *b == x + i as u64),
                Kept::One(p, x) => **p == *x,
                Kept::Pair(p, x) => **p == *x,
            }
        }
    }
}
#[derive(Default)]
struct Side {
    arena: SyntaxArena,
    kept: Vec<Kept>,
    /// index, value, and address of the reference handed out
    meta: Vec<(std::num::NonZeroU32, TokenProvenance, usize)>,
}
struct Movable(Side);
unsafe impl Send for Movable {}
static CAP: usize = 64 * 64 * 1024;
fn run(p: &[Op], cx: &mut Cx) -> Res {
    // the pool of the thread stays: start from nothing on a thread of our own
    LIVE.store(0, SeqCst);
    BAD.store(0, SeqCst);
    locked(|b| b.iter_mut().for_each(|e| *e = (0, 0, 0)));
    ON.store(true, SeqCst);
    let p: &[Op] = p;
    let mut steps = 0;
    let r = std::thread::scope(|s| s.spawn(|| history(p, &mut steps)).join());
    cx.steps(steps);
    let left = LIVE.load(SeqCst);
    let bad = BAD.load(SeqCst);
    ON.store(false, SeqCst);
    match r {
        Err(_) => return fail("panic", format!("{p:?} panicked")),
        Ok(r) => r?,
    }
    ensure_eq!(bad, 0, "layout", "{p:?}: blocks freed twice, with another size than they were allocated with, or written behind their end");
    ensure_eq!(left, 0, "leak", "{p:?}: bytes still allocated after the arenas are dropped and their thread has ended");
    cx.exec();
    cx.nontrivial(p.len() > 1);
    cx.state(&format!("{p:?}"));
    Ok(())
}
fn history(p: &[Op], steps: &mut u64) -> Res {
    let mut sides = [Side::default(), Side::default()];
    let mut n = 0u8;
    for (i, o) in p.iter().enumerate() {
        *steps += 1;
        n = n.wrapping_add(17);
        let a = &mut sides[0];
        match *o {
            Op::Bytes(k) => {
                let s = a.arena.alloc_slice_copy(&vec![n; k]);
                ensure_eq!(s.len(), k, "len", "{p:?}: operation {i}");
                a.kept.push(Kept::Bytes(s, n))
            }
            Op::Words(k) => {
                let v: Vec<u64> = (0..k as u64).map(|x| x + n as u64).collect();
                let s = a.arena.alloc_slice_copy(&v);
                ensure_eq!(s.len(), k, "len", "{p:?}: operation {i}");
                a.kept.push(Kept::Words(s, n as u64))
            }
            Op::Fill(k) => {
                // what the iterator yields beyond the count is ignored
                let s = a.arena.alloc_slice_fill_iter(k, (0..k as u64 + 2).map(|x| x + n as u64));
                ensure_eq!(s.len(), k, "len", "{p:?}: operation {i}");
                a.kept.push(Kept::Words(s, n as u64))
            }
            Op::One => a.kept.push(Kept::One(a.arena.alloc(n), n)),
            Op::Pair => a.kept.push(Kept::Pair(a.arena.alloc((n as u64, n as u32)), (n as u64, n as u32))),
            Op::Meta => {
                let m = TokenProvenance::from_source(crate::util::range(n as usize, n as usize + 1));
                let k = a.arena.add_metadata(m.clone());
                let at = a.arena.get_metadata(k).map_or(0, |m| m as *const _ as usize);
                a.meta.push((k, m, at))
            }
            Op::Renew => *a = Side::default(),
            Op::RenewElsewhere => {
                let old = Movable(std::mem::take(a));
                // joining also waits for the thread-local destructors, leaving the scope does not
                std::thread::scope(|s| {
                    s.spawn(move || {
                        let old = old;
                        drop(old)
                    })
                    .join()
                    .ok();
                })
            }
            Op::Crowd => {
                let v: Vec<_> = (0..70)
                    .map(|k| {
                        let a = SyntaxArena::new(1);
                        a.alloc_slice_copy(&[k as u8; 100]);
                        a
                    })
                    .collect();
                let most = LIVE.load(SeqCst);
                drop(v);
                let now = LIVE.load(SeqCst);
                // the two arenas of the history hold at most one block per allocation
                let held: usize = sides.iter().flat_map(|s| &s.kept).map(|k| k.place().1.max(65536) + 65536).sum();
                ensure!(now <= CAP + held, "bounded", "{p:?}: {now} bytes remain of {most} after the arenas of operation {i} are gone, {held} of them in use");
            }
            Op::Swap => sides.swap(0, 1),
        }
        // long histories are looked over now and then
        if i > 40 && i + 2 < p.len() && !(i + 1).is_power_of_two() && !i.is_power_of_two() {
            continue;
        }
        let mut all: Vec<(usize, usize)> = vec![];
        for s in &sides {
            for k in &s.kept {
                let (at, len, align) = k.place();
                ensure!(at % align == 0, "align", "{p:?}: operation {i}: {at:#x} for alignment {align}");
                ensure!(k.intact(), "intact", "{p:?}: after operation {i} an allocation of {len} bytes changed");
                if len > 0 {
                    all.push((at, len))
                }
            }
            for (k, m, at) in &s.meta {
                let now = s.arena.get_metadata(*k);
                ensure!(now == Some(m), "metadata", "{p:?}: after operation {i} metadata {k}");
                ensure!(now.map(|m| m as *const _ as usize) == Some(*at), "metadata-moved", "{p:?}: operation {i} moved metadata {k}, of which a reference was handed out");
            }
        }
        all.sort();
        for w in all.windows(2) {
            ensure!(w[0].0 + w[0].1 <= w[1].0, "disjoint", "{p:?}: after operation {i} allocations overlap: {w:x?}");
        }
    }
    Ok(())
}
pub fn spaces(tier: Tier) -> Vec<Box<dyn Space>> {
    let small: &'static [Op] = &[Op::Bytes(0), Op::Bytes(3), Op::Words(2), Op::Fill(3), Op::One, Op::Pair, Op::Meta, Op::Renew, Op::RenewElsewhere, Op::Swap];
    let big: &'static [Op] = &[Op::Bytes(3), Op::Bytes(32768), Op::Bytes(65520), Op::Bytes(65528), Op::Bytes(65529), Op::Bytes(65536), Op::Bytes(65537), Op::Words(8191), Op::Fill(8192), Op::Pair, Op::Renew, Op::Swap];
    let crowd: &'static [Op] = &[Op::Bytes(40000), Op::Bytes(65528), Op::Bytes(70000), Op::Renew, Op::RenewElsewhere, Op::Crowd, Op::Swap];
    [("small allocations", small, tier.pick(5, 6)), ("allocations around the chunk size", big, tier.pick(4, 5)), ("many arenas", crowd, tier.pick(4, 5))]
        .into_iter()
        .map(|(name, ops, d)| {
            let n = ops.len() as u64;
            let get = move |i| seq::nth(n, d, i).iter().map(|k| ops[*k]).collect::<Vec<_>>();
            space(format!("every history of at most {d} operations, {name}"), seq::count_upto(n, d), move |i| format!("{:?}", get(i)), move |i, cx| run(&get(i), cx))
        })
        .chain([repeated(tier)])
        .collect()
}
fn repeated(tier: Tier) -> Box<dyn Space> {
    const ALL: [Op; 17] = [Op::Bytes(0), Op::Bytes(1), Op::Bytes(3), Op::Bytes(24), Op::Bytes(1000), Op::Bytes(32768), Op::Bytes(65528), Op::Bytes(65537), Op::Words(2), Op::Words(8191), Op::Fill(3), Op::Fill(0), Op::One, Op::Pair, Op::Meta, Op::Renew, Op::Swap];
    let ns = seq::sizes(12, tier.pick(256, 1024));
    let r = [ns.len() as u64, 17, 17];
    let get = move |i: u64| -> Vec<Op> {
        let g = seq::digits(&r, i);
        let n = ns[g[0] as usize] as usize;
        let mut p = vec![ALL[g[1] as usize]; n];
        p.push(ALL[g[2] as usize]);
        // and once more, in between each other
        p.extend([ALL[g[1] as usize], ALL[g[2] as usize]].repeat(n.min(64)));
        p
    };
    let g2 = get.clone();
    space(
        "one allocation many times, another one, and both in turn: every number up to 12 and around the powers of two",
        seq::prod(&r),
        move |i| {
            let p = g2(i);
            format!("{} operations: {:?} ... {:?}", p.len(), p.first(), p.last())
        },
        move |i, cx| run(&get(i), cx).map_err(|f| Fail { kind: f.kind, detail: f.detail.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect() }),
    )
}

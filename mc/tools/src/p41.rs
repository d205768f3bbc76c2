//! P41: whoever follows the events of a disk watcher knows the files it watches.
use mc_kit::*;
use oak_vfs::{DiskWatcher, VfsEvent, VfsWatcher};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::mpsc::{Receiver, channel};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// write a file
    W(&'static str),
    /// remove a file
    R(&'static str),
    /// rename a file
    Mv(&'static str, &'static str),
    Mkdir(&'static str),
    Rmdir(&'static str),
    Watch(&'static str),
    Unwatch(&'static str),
    UnwatchAll,
    /// write that many files at once, below each other if the flag is set
    Burst(usize, bool),
    /// remove the files of a burst
    Clear(usize, bool),
}
use Op::*;
fn burst(k: usize, deep: bool) -> String {
    if deep { format!("r/{}f{k}", "n/".repeat(k % 40)) } else { format!("r/m{k}") }
}
/// `r` is watched to begin with, `q` and `out` are not, `s` is the harness's own.
static FILES: &[Op] = &[W("r/a"), W("r/b"), W("r/d/a"), R("r/a"), R("r/d/a"), Mv("r/a", "r/b"), Mv("r/b", "r/a"), Mv("r/a", "r/d/a"), Mv("r/d/a", "r/a"), Mv("r/a", "out/x"), Mv("out/x", "r/a"), Mkdir("r/d"), Rmdir("r/d"), W("out/x")];
static CONTROL: &[Op] = &[W("r/a"), R("r/a"), W("q/c"), Mv("q/c", "r/a"), Mv("r/a", "q/c"), Rmdir("q"), Mkdir("q"), Watch("r"), Watch("q"), Unwatch("r"), Unwatch("q"), UnwatchAll];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Changed,
    Created,
    Removed,
}
type Ev = (K, PathBuf);
struct Rig {
    dir: PathBuf,
    w: DiskWatcher,
    rx: Receiver<Ev>,
    n: usize,
}
impl Rig {
    /// All events of what happened before; the watcher is idle afterwards.
    fn drain(&mut self) -> Result<Vec<Ev>, Fail> {
        self.n += 1;
        let mark = self.dir.join(format!("s/{}", self.n));
        std::fs::write(&mark, "").unwrap();
        let mut v = Vec::new();
        loop {
            match self.rx.recv_timeout(Duration::from_secs(60)) {
                Ok(e) if e.1 == mark => break,
                Ok(e) if e.1.starts_with(self.dir.join("s")) => {}
                Ok(e) => v.push(e),
                Err(_) => return fail("silent", "no event for a new file in a watched directory"),
            }
        }
        // a request is answered when the events at hand are done with
        self.w.watch(self.dir.join("s").to_str().unwrap()).map_err(|e| Fail { kind: "watch".into(), detail: e.to_string() })?;
        Ok(v)
    }
}
impl Drop for Rig {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn files(dir: &Path, below: &[&str]) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo: Vec<PathBuf> = below.iter().map(|b| dir.join(b)).collect();
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(p).into_iter().flatten() {
            let p = e.unwrap().path();
            if p.is_dir() { todo.push(p) } else { m.insert(p.clone(), std::fs::read(&p).unwrap()); }
        }
    }
    m
}
fn run(p: &[Op], tag: &str, cx: &mut Cx) -> Res {
    let dir = std::env::temp_dir().join(format!("mc-p41-{}-{tag}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    for d in ["r", "q", "out", "s"] {
        std::fs::create_dir_all(dir.join(d)).unwrap()
    }
    let (tx, rx) = channel();
    let make = || {
        let tx = tx.clone();
        DiskWatcher::new(move |e| {
            let _ = tx.send(match e {
                VfsEvent::Changed(u) => (K::Changed, PathBuf::from(u)),
                VfsEvent::Created(u) => (K::Created, PathBuf::from(u)),
                VfsEvent::Removed(u) => (K::Removed, PathBuf::from(u)),
            });
        })
    };
    // the system has few of them, and they are given back late
    let mut w = make();
    for _ in 0..600 {
        if w.is_ok() {
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
        w = make()
    }
    let w = w.map_err(|e| Fail { kind: "watch".into(), detail: format!("no watcher: {e}") })?;
    let mut rig = Rig { dir: dir.clone(), w, rx, n: 0 };
    let path = |x: &str| dir.join(x);
    let text = |x: &str| dir.join(x).to_str().unwrap().to_string();
    for d in ["r", "s"] {
        rig.w.watch(&text(d)).unwrap()
    }
    let mut on = vec!["r"];
    // what a client believes
    let mut mirror: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    for (i, o) in p.iter().enumerate() {
        cx.step();
        let h = || format!("after {:?}, {o:?}", &p[..i]);
        let seen = |x: &str| on.iter().any(|d| x.starts_with(d));
        // path, before, after
        let before = files(&dir, &["r", "q", "out"]);
        let mut restart = false;
        match *o {
            W(f) => drop(std::fs::write(path(f), format!("{i}"))),
            R(f) => drop(std::fs::remove_file(path(f))),
            Mv(a, b) => drop(std::fs::rename(path(a), path(b))),
            Mkdir(d) => drop(std::fs::create_dir(path(d))),
            Rmdir(d) => drop(std::fs::remove_dir_all(path(d))),
            Watch(d) => {
                rig.w.watch(&text(d)).map_err(|e| Fail { kind: "watch".into(), detail: format!("{}: {e}", h()) })?;
                if !on.contains(&d) {
                    on.push(d)
                }
                restart = true
            }
            Unwatch(d) => {
                let r = rig.w.unwatch(&text(d));
                // what became of the watch on a directory that is gone is not specified
                if !p[..i].contains(&Rmdir(d)) {
                    ensure_eq!(r.is_ok(), on.contains(&d), "unwatch", "{}", h());
                }
                on.retain(|x| *x != d);
            }
            Burst(n, deep) => {
                for k in 0..n {
                    std::fs::write(path(&burst(k, deep)), format!("{i}")).unwrap()
                }
            }
            Clear(n, deep) => {
                for k in 0..n {
                    std::fs::remove_file(path(&burst(k, deep))).unwrap()
                }
            }
            UnwatchAll => {
                rig.w.unwatch_all().map_err(|e| Fail { kind: "unwatch".into(), detail: format!("{}: {e}", h()) })?;
                rig.w.watch(&text("s")).unwrap();
                on.clear()
            }
        }
        let after = files(&dir, &["r", "q", "out"]);
        let gone = matches!(*o, Rmdir(d) if on.contains(&d));
        let evs = rig.drain()?;
        let seen = |x: &Path| on.iter().any(|d| x.starts_with(path(d)));
        let show = || evs.iter().map(|e| format!("{:?} {}", e.0, e.1.strip_prefix(&dir).unwrap_or(&e.1).display())).collect::<Vec<_>>().join(", ");
        // every change is told, as what it is
        for f in before.keys().chain(after.keys()) {
            let mine: Vec<K> = evs.iter().filter(|e| e.1 == *f).map(|e| e.0).collect();
            let (b, a) = (before.get(f), after.get(f));
            let name = f.strip_prefix(&dir).unwrap().display().to_string();
            if !seen(f) {
                ensure!(mine.is_empty(), "unwatched", "{}: {name} is not watched, but told: {}", h(), show());
                continue;
            }
            match (b, a) {
                (None, Some(_)) => ensure!(mine.contains(&K::Created) && !mine.contains(&K::Removed), "created", "{}: {name} is new, told: {}", h(), show()),
                (Some(_), None) => ensure!(mine.last() == Some(&K::Removed), "removed", "{}: {name} is gone, told: {}", h(), show()),
                (b, a) if b != a => ensure!(!mine.is_empty() && mine.last() != Some(&K::Removed), "changed", "{}: {name} changed, told: {}", h(), show()),
                _ => ensure!(mine.is_empty(), "nothing", "{}: nothing happened to {name}, told: {}", h(), show()),
            }
        }
        // nothing else is told of
        for e in &evs {
            let d = match *o {
                Mkdir(d) | Rmdir(d) => Some(path(d)),
                _ => None,
            };
            ensure!(before.contains_key(&e.1) || after.contains_key(&e.1) || d.as_ref() == Some(&e.1), "nothing", "{}: told: {}", h(), show());
        }
        // a client that only follows the events
        for (k, f) in &evs {
            match k {
                K::Removed => mirror.retain(|p, _| !p.starts_with(f)),
                _ => {
                    if let Ok(t) = std::fs::read(f) {
                        mirror.insert(f.clone(), t);
                    }
                }
            }
        }
        if restart {
            // a client reads a directory when it begins to watch it
            for (f, t) in &after {
                if seen(f) {
                    mirror.insert(f.clone(), t.clone());
                }
            }
            mirror.retain(|p, _| !seen(p) || after.contains_key(p))
        }
        let a: BTreeMap<_, _> = after.iter().filter(|(f, _)| seen(f)).collect();
        let m: BTreeMap<_, _> = mirror.iter().filter(|(f, _)| seen(f)).collect();
        ensure!(a == m, "mirror", "{}: the files are {:?}, known are {:?}", h(), a.keys(), m.keys());
        if let (Rmdir(d), true) = (*o, gone) {
            on.retain(|x| *x != d)
        }
        cx.state(&(format!("{:?}", after.iter().map(|(f, t)| (f.strip_prefix(&dir).unwrap(), t)).collect::<Vec<_>>()), on.clone(), o.tag()));
    }
    cx.exec();
    Ok(())
}
impl Op {
    fn tag(&self) -> String {
        format!("{self:?}")
    }
}
/// Operations that can happen: on files and directories that are there.
fn happens(p: &[Op]) -> bool {
    let mut fs: std::collections::BTreeSet<&str> = ["r", "q", "out"].into();
    let dir = |f: &str| f.rfind('/').map_or("", |k| &f[..k]).to_string();
    for o in p {
        let ok = match *o {
            W(f) => fs.contains(&*dir(f)) && (fs.insert(f) || true),
            R(f) => fs.remove(f),
            Mv(a, b) => fs.contains(&*dir(b)) && fs.remove(a) && (fs.insert(b) || true),
            Mkdir(d) => fs.insert(d),
            Rmdir(d) => fs.contains(d) && {
                fs.retain(|f| !f.starts_with(d));
                true
            },
            Watch(d) => fs.contains(d),
            Burst(..) | Clear(..) => false,
            _ => true,
        };
        if !ok {
            return false;
        }
    }
    true
}
fn histories(what: &str, ops: &'static [Op], d: u32, nth: u64) -> Box<dyn Space> {
    let n = ops.len() as u64;
    let get = move |i| seq::nth(n, d, i).iter().map(|k| ops[*k]).collect::<Vec<Op>>();
    space(format!("{what}: every history of at most {d} of {n} operations that can happen"), seq::count_upto(n, d), move |i| format!("{:?}", get(i)), move |i, cx| {
        let p = get(i);
        // prefixes are checked on the way, so only the longest histories are run
        if p.len() < d as usize || !happens(&p) {
            return Ok(());
        }
        cx.nontrivial(true);
        run(&p, &format!("{nth}-{i}"), cx)
    })
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let ns = seq::sizes(t.pick(8, 24), t.pick(256, 1024));
    let n2 = ns.clone();
    const SHAPES: [&str; 3] = ["files at once", "files at once in directories in each other", "files one after the other"];
    let many = space("many files", 3 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 3], SHAPES[i as usize % 3]), move |i, cx| {
        let n = ns[i as usize / 3] as usize;
        let mut p: Vec<Op> = Vec::new();
        match i % 3 {
            0 => p.extend([Burst(n, false), Burst(n / 2, false), Clear(n, false)]),
            1 => {
                // every directory is there, and watched, before a file comes
                for k in 1..n.min(40) {
                    p.push(Mkdir(format!("r/{}", "n/".repeat(k).trim_end_matches('/')).leak()))
                }
                p.extend([Burst(n, true), Clear(n, true)])
            }
            _ if n <= 70 => {
                for k in 0..n {
                    p.push(W(format!("r/w{k}").leak()))
                }
                for k in 0..n {
                    p.push(if k % 2 == 0 { R(format!("r/w{k}").leak()) } else { Mv(format!("r/w{k}").leak(), format!("r/v{k}").leak()) })
                }
            }
            _ => return Ok(()),
        }
        cx.nontrivial(n > 2);
        run(&p, &format!("many-{i}"), cx)
    });
    vec![many, histories("files", FILES, t.pick(4, 5), 0), histories("watching and not watching", CONTROL, t.pick(4, 5), 1)]
}

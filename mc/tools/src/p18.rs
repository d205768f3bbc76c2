//! P18: virtual file systems behave like a map from names to texts, for every history of writes and
//! removals through every handle.
use mc_kit::*;
use oak_core::source::{Source, SourceId};
use oak_vfs::{DiskVfs, FileType, LineMap, MemoryVfs, Vfs, WritableVfs};
use std::collections::{BTreeMap, BTreeSet};

const URIS: [&str; 3] = ["file:///a", "file:///b", ""];
const TEXTS: [&str; 3] = ["", "x\né", "yy"];

#[derive(Default)]
struct Ids {
    /// every id ever seen, with the file it was given to and the life of that file
    seen: BTreeMap<SourceId, (usize, u32)>,
    life: [u32; 3],
    now: [Option<SourceId>; 3],
}

/// A file written in this run says so, in seconds: clocks may differ by a day.
fn written(modified: Option<u64>, what: &str) -> Res {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    ensure!(modified.is_some_and(|m| m.abs_diff(now) < 86400), "metadata", "{what:?} was written at {modified:?}, it is {now}");
    Ok(())
}

fn observe(v: &MemoryVfs, files: &[Option<&str>; 3], ids: &mut Ids, cx: &mut Cx) -> Res {
    for (k, u) in URIS.iter().enumerate() {
        let s = v.get_source(u);
        let text = s.as_ref().map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
        ensure_eq!(text.as_deref(), files[k], "content", "get_source({u:?})");
        ensure_eq!(v.exists(u), files[k].is_some(), "exists", "exists({u:?})");
        ensure_eq!(v.is_file(u), files[k].is_some(), "exists", "is_file({u:?})");
        ensure!(!v.is_dir(u), "exists", "is_dir({u:?})");
        let md = v.metadata(u).map(|m| (m.file_type, m.len));
        ensure_eq!(md, files[k].map(|t| (FileType::File, t.len() as u64)), "metadata", "metadata({u:?})");
        if let Some(m) = v.metadata(u) {
            written(m.modified, u)?
        }
        let lines = v.line_map(u).map(|m| m.line_count());
        ensure_eq!(lines, files[k].map(|t| LineMap::from_source(t).line_count()), "line map", "line_map({u:?})");
        let id = v.get_id(u);
        ensure_eq!(id.is_some(), files[k].is_some(), "id", "get_id({u:?}) of a file that {}", if files[k].is_some() { "exists" } else { "does not exist" });
        if let Some(id) = id {
            ensure_eq!(s.as_ref().and_then(|s| s.source_id()), Some(id), "id", "the source of {u:?} against get_id");
            ensure_eq!(v.get_uri(id).map(|u| u.to_string()), Some(u.to_string()), "id", "get_uri({id})");
            if let Some(before) = ids.now[k] {
                ensure_eq!(id, before, "id", "id of {u:?} which was there all the time");
            }
            let e = ids.seen.entry(id).or_insert((k, ids.life[k]));
            ensure_eq!(e.0, k, "id", "id {id} now belongs to {u:?}, before to file");
        }
        ids.now[k] = id;
        cx.steps(8);
    }
    for (id, (k, _)) in &ids.seen {
        let want = ids.now[*k].filter(|n| n == id).map(|_| URIS[*k]);
        ensure_eq!(v.get_uri(*id).map(|u| u.to_string()), want.map(|u| u.to_string()), "id", "get_uri({id}) given to {:?}", URIS[*k]);
        cx.step();
    }
    let list: Option<BTreeSet<String>> = v.read_dir("file:///").map(|d| d.iter().map(|a| a.to_string()).collect());
    let want: BTreeSet<String> = (0..3).filter(|k| files[*k].is_some()).map(|k| URIS[k].to_string()).collect();
    ensure_eq!(list, Some(want), "list", "read_dir");
    ensure_eq!(v.read_dir("file:///").unwrap().len(), files.iter().flatten().count(), "list", "entries of read_dir");
    Ok(())
}

fn memory(d: u32) -> Box<dyn Space> {
    // (uri, action, handle): action 0..3 writes a text, 3 removes
    let n = 3 * 4;
    let dec = |o: usize| (o / 4, o % 4);
    let show = move |o: usize| {
        let (u, a) = dec(o);
        if a == 3 { format!("remove {:?}", URIS[u]) } else { format!("write {:?} {:?}", URIS[u], TEXTS[a]) }
    };
    space(
        "memory",
        seq::count_upto(n, d),
        move |i| seq::nth(n, d, i).into_iter().map(show).collect::<Vec<_>>().join("; "),
        move |i, cx| {
            let a = MemoryVfs::new();
            let b = a.clone();
            let other = MemoryVfs::new();
            let mut files: [Option<&str>; 3] = [None; 3];
            let mut ids = Ids::default();
            observe(&a, &files, &mut ids, cx)?;
            for (step, o) in seq::nth(n, d, i).into_iter().enumerate() {
                let (u, act) = dec(o);
                // odd steps work through a clone and through the trait
                match (act, step % 2) {
                    (3, 0) => a.remove_file(URIS[u]),
                    (3, _) => WritableVfs::remove_file(&b, URIS[u]),
                    (t, 0) => a.write_file(URIS[u], TEXTS[t]),
                    (t, _) => WritableVfs::write_file(&b, URIS[u], TEXTS[t].into()),
                }
                if act == 3 {
                    files[u] = None;
                    ids.now[u] = None
                }
                else {
                    if files[u].is_none() {
                        ids.life[u] += 1
                    }
                    files[u] = Some(TEXTS[act])
                }
                observe(&a, &files, &mut ids, cx)?;
                observe(&b, &files, &mut ids, cx)?;
                cx.state(&(files, ids.now));
            }
            ensure_eq!(other.read_dir("").map(|d| d.len()), Some(0), "shared", "entries of an unrelated file system");
            cx.exec();
            cx.nontrivial(ids.seen.len() > 1);
            Ok(())
        },
    )
}

struct Scratch(std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn scratch(name: &str) -> std::path::PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = std::env::temp_dir().join(format!("mc-{name}.{}.{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    std::fs::create_dir_all(&p).unwrap();
    p
}

const PATHS: [&str; 4] = ["a.x", "d/b.x", "d/e/c.x", "é d/f.x"];
fn disk(d: u32) -> Box<dyn Space> {
    let n = 4 * 3 + 1;
    let show = move |o: usize| match o {
        12 => "outside: bytes that are no text in a.x".into(),
        o if o % 3 == 2 => format!("remove {}", PATHS[o / 3]),
        o => format!("write {} {:?}", PATHS[o / 3], TEXTS[o % 3 + 1]),
    };
    space(
        "disk",
        seq::count_upto(n, d),
        move |i| seq::nth(n, d, i).into_iter().map(show).collect::<Vec<_>>().join("; "),
        move |i, cx| {
            let dir = Scratch(scratch("disk"));
            let v = DiskVfs::new(dir.0.clone());
            let mut files: BTreeMap<String, Option<&str>> = BTreeMap::new();
            let mut dirs: BTreeSet<String> = BTreeSet::from(["".to_string()]);
            for o in seq::nth(n, d, i) {
                if o == 12 {
                    std::fs::write(dir.0.join("a.x"), [0xff, 0xfe, b'a']).unwrap();
                    files.insert("a.x".into(), None);
                    continue;
                }
                let p = PATHS[o / 3];
                if o % 3 == 2 {
                    v.remove_file(p);
                    files.remove(p);
                }
                else {
                    // absolute names mean the same file
                    if o % 3 == 1 { v.write_file(&dir.0.join(p).to_string_lossy(), TEXTS[2].into()) } else { v.write_file(p, TEXTS[1].into()) }
                    files.insert(p.into(), Some(TEXTS[o % 3 + 1]));
                    let mut at = p;
                    while let Some((parent, _)) = at.rsplit_once('/') {
                        dirs.insert(parent.into());
                        at = parent;
                    }
                }
                cx.step();
            }
            for p in PATHS.iter().copied().chain(["d", "d/e", "é d", "", "nothing", "d/nothing"]) {
                for uri in [p.to_string(), dir.0.join(p).to_string_lossy().to_string()] {
                    let file = files.get(p);
                    let is_dir = dirs.contains(p);
                    let s = v.get_source(&uri);
                    let text = s.as_ref().map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
                    ensure_eq!(text.as_deref(), file.copied().flatten(), "content", "get_source({p:?})");
                    ensure_eq!(v.exists(&uri), file.is_some() || is_dir, "exists", "exists({p:?})");
                    ensure_eq!(v.is_file(&uri), file.is_some(), "exists", "is_file({p:?})");
                    ensure_eq!(v.is_dir(&uri), is_dir, "exists", "is_dir({p:?})");
                    if let Some(t) = file {
                        written(v.metadata(&uri).and_then(|m| m.modified), p)?;
                        ensure_eq!(v.metadata(&uri).map(|m| m.len), Some(t.map_or(3, |t| t.len() as u64)), "metadata", "length of {p:?}");
                    }
                    ensure_eq!(v.line_map(&uri).map(|m| m.line_count()), file.copied().flatten().map(|t| LineMap::from_source(t).line_count()), "line map", "line_map({p:?})");
                    let entries = v.read_dir(&uri);
                    ensure_eq!(entries.is_some(), is_dir, "list", "read_dir({p:?})");
                    if let Some(e) = entries {
                        let full = |k: &String| dir.0.join(k);
                        let want: BTreeSet<std::path::PathBuf> = files.keys().chain(&dirs).filter(|k| !k.is_empty() && k.rsplit_once('/').map_or("", |x| x.0) == p).map(full).collect();
                        ensure_eq!(e.len(), want.len(), "list", "number of entries of {p:?}");
                        // every entry can be used as a name again
                        for name in &e {
                            let path = if std::path::Path::new(&**name).is_absolute() { (&**name).into() } else { dir.0.join(&**name) };
                            ensure!(want.contains(&path), "list", "read_dir({p:?}) lists {name:?}");
                            ensure!(v.exists(name), "list", "entry {name:?} of {p:?} does not exist");
                        }
                    }
                    cx.steps(7);
                }
            }
            cx.state(&(&files, &dirs));
            cx.nontrivial(!files.is_empty());
            cx.exec();
            Ok(())
        },
    )
}

/// Many files, many versions: after each round everything is compared with the map.
fn many(t: Tier) -> Box<dyn Space> {
    let ns = seq::sizes_and_64k(20, t.pick(256, 1024));
    let n2 = ns.clone();
    const HOW: [&str; 6] = ["all written", "written twice", "every other one removed", "removed and written again", "one file with many versions", "written and removed in turn"];
    space(
        "many files and versions in memory: every number up to 20 and around the powers of two",
        6 * ns.len() as u64,
        move |i| format!("{}, {}", n2[i as usize / 6], HOW[i as usize % 6]),
        move |i, cx| {
            let n = ns[i as usize / 6] as usize;
            if n > 5000 && (i % 6 > 3 || n != 65537) {
                return Ok(());
            }
            let v = MemoryVfs::new();
            let name = |k: usize| format!("file:///d{}/f{k}", k % 3);
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            let mut ids: BTreeMap<SourceId, String> = BTreeMap::new();
            let write = |m: &mut BTreeMap<String, String>, k: usize, t: String| {
                v.write_file(&name(k), t.as_str());
                m.insert(name(k), t);
            };
            let remove = |m: &mut BTreeMap<String, String>, k: usize| {
                v.remove_file(&name(k));
                m.remove(&name(k));
            };
            let mut look = |m: &BTreeMap<String, String>, cx: &mut Cx| -> Res {
                let mut list: Vec<String> = v.read_dir("file:///").unwrap().iter().map(|a| a.to_string()).collect();
                list.sort();
                ensure!(list == m.keys().cloned().collect::<Vec<_>>(), "list", "{} entries of {}", list.len(), m.len());
                for k in 0..n {
                    cx.step();
                    let u = name(k);
                    let want = m.get(&u);
                    let s = v.get_source(&u);
                    let text = s.as_ref().map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
                    ensure_eq!(text.as_ref(), want, "content", "{u}");
                    ensure_eq!((v.exists(&u), v.metadata(&u).map(|m| m.len as usize), v.line_map(&u).map(|l| l.line_count())), (want.is_some(), want.map(|t| t.len()), want.map(|t| t.matches('\n').count() + 1)), "metadata", "{u}");
                    let id = v.get_id(&u);
                    ensure_eq!((id.is_some(), s.as_ref().and_then(|s| s.source_id())), (want.is_some(), id), "id", "{u}");
                    if let Some(id) = id {
                        ensure_eq!(v.get_uri(id).map(|x| x.to_string()), Some(u.clone()), "id", "{id}");
                        ensure_eq!(ids.entry(id).or_insert(u.clone()), &u, "id", "{id} was given to another file before");
                    }
                }
                for (id, u) in &ids {
                    let now = v.get_id(u) == Some(*id);
                    ensure_eq!(v.get_uri(*id).is_some(), now, "id", "{id} of {u}");
                }
                Ok(())
            };
            let text = |k: usize| "x\né".repeat(k % 7);
            match i % 6 {
                0..4 => {
                    (0..n).for_each(|k| write(&mut m, k, text(k)));
                    look(&m, cx)?;
                    if i % 6 == 1 {
                        (0..n).rev().for_each(|k| write(&mut m, k, text(k + 1)))
                    }
                    if i % 6 > 1 {
                        (0..n).step_by(2).for_each(|k| remove(&mut m, k));
                        look(&m, cx)?;
                    }
                    if i % 6 == 3 {
                        (0..n).for_each(|k| write(&mut m, k, text(k + 2)))
                    }
                }
                4 => {
                    for j in 0..n {
                        write(&mut m, 0, text(j));
                        if j % 16 == 0 {
                            look(&m, cx)?
                        }
                    }
                }
                _ => {
                    for j in 0..n {
                        write(&mut m, j % 5, text(j));
                        if j % 16 < 2 {
                            look(&m, cx)?
                        }
                        remove(&mut m, j % 5);
                        write(&mut m, (j + 1) % 5, text(j + 3))
                    }
                }
            }
            look(&m, cx)?;
            cx.exec();
            cx.nontrivial(n > 1);
            cx.state(&i);
            Ok(())
        },
    )
}
pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    vec![
        memory(t.pick(6, 7)),
        disk(t.pick(4, 5)),
        many(t),
        {
            // a name that is a link to another file: what is written through it is in that file, removing it leaves the file
            let d = t.pick(5, 6);
            let show = |o: usize| format!("{} the {}", ["write x to", "write yé to", "remove"][o / 2], ["file", "link"][o % 2]);
            space("links to files", seq::count_upto(6, d), move |i| format!("{:?}", seq::nth(6, d, i).into_iter().map(show).collect::<Vec<_>>()), move |i, cx| {
                let dir = Scratch(scratch("disk").canonicalize().unwrap());
                let v = DiskVfs::new(dir.0.clone());
                let u = [dir.0.join("file").to_string_lossy().to_string(), dir.0.join("link").to_string_lossy().to_string()];
                std::fs::write(&u[0], "old").unwrap();
                std::os::unix::fs::symlink("file", &u[1]).unwrap();
                let (mut file, mut own, mut linked): (Option<&str>, Option<&str>, bool) = (Some("old"), None, true);
                let ops = seq::nth(6, d, i);
                for (n, o) in ops.iter().enumerate() {
                    let t = ["x", "yé"].get(o / 2).copied();
                    match t {
                        Some(t) => v.write_file(&u[o % 2], t.into()),
                        None => v.remove_file(&u[o % 2]),
                    }
                    match (o % 2, t) {
                        (0, t) => file = t,
                        (_, Some(t)) if linked => file = Some(t),
                        (_, None) if linked => linked = false,
                        (_, t) => own = t,
                    }
                    if n + 1 < ops.len() {
                        continue;
                    }
                    for (u, want) in [(&u[0], file), (&u[1], if linked { file } else { own })] {
                        let got = v.get_source(u).map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
                        ensure_eq!(got.as_deref(), want, "link", "content of {u:?}");
                        ensure_eq!((v.exists(u), v.is_file(u), v.metadata(u).map(|m| m.len)), (want.is_some(), want.is_some(), want.map(|t| t.len() as u64)), "link", "of {u:?}: exists, is a file, length");
                        ensure_eq!(v.line_map(u).map(|m| m.line_count()), want.map(|_| 1), "link", "lines of {u:?}");
                        cx.step();
                    }
                    let mut list: Vec<String> = v.read_dir(dir.0.to_str().unwrap()).unwrap().iter().map(|x| x.to_string()).collect();
                    list.sort();
                    let want: Vec<String> = [(&u[0], file.is_some()), (&u[1], linked || own.is_some())].into_iter().filter(|x| x.1).map(|x| x.0.clone()).collect();
                    ensure_eq!(list, want, "link", "names in the folder");
                }
                cx.state(&(file, own, linked));
                cx.nontrivial(ops.len() > 1);
                cx.exec();
                Ok(())
            })
        },
        {
            // texts of characters that some readers and writers of files change
            const ODD: [&str; 8] = ["a", "\n", "\r", "\0", "\u{feff}", "\u{1a}", "\u{2028}", " "];
            let d = t.pick(4, 5);
            let text = move |i: u64| -> String { seq::nth(8, d, i).into_iter().map(|k| ODD[k]).collect() };
            space("odd texts, in memory and on disk", seq::count_upto(8, d), move |i| format!("{:?}", text(i)), move |i, cx| {
                let dir = Scratch(scratch("disk"));
                let u = dir.0.join("f").to_string_lossy().to_string();
                let (m, v) = (MemoryVfs::new(), DiskVfs::new(dir.0.clone()));
                let mut texts = [text(i), text(i / 2 + 1)];
                for round in 0..3 {
                    let t = texts[0].clone();
                    m.write_file(&u, t.as_str());
                    v.write_file(&u, t.as_str().into());
                    for (how, s) in [("in memory", m.get_source(&u)), ("on disk", v.get_source(&u))] {
                        let got = s.map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
                        ensure_eq!(got, Some(t.clone()), "content", "{how}, write {round}");
                        cx.step();
                    }
                    ensure_eq!((m.metadata(&u).map(|d| d.len), v.metadata(&u).map(|d| d.len)), (Some(t.len() as u64), Some(t.len() as u64)), "metadata", "lengths");
                    ensure_eq!(std::fs::read(&u).ok(), Some(t.into_bytes()), "content", "the file itself");
                    texts.swap(0, 1)
                }
                cx.state(&texts[0]);
                cx.nontrivial(i > 8);
                cx.exec();
                Ok(())
            })
        },
        each_character("every character as a name, in a name and as a text, in memory and on disk", t, |c, cx| {
            let (names, texts) = ([c.to_string(), format!("file:///d/a{c}.x"), "other".to_string()], [c.to_string(), format!("{c}\r\né{c}\n{c}")]);
            let v = MemoryVfs::new();
            let read = |v: &MemoryVfs, u: &str| v.get_source(u).map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
            for round in 0..3 {
                for (k, u) in names.iter().enumerate() {
                    if (round, k) == (2, 0) { v.remove_file(u) } else { v.write_file(u, texts[(k + round) % 2].as_str()) }
                }
                for (k, u) in names.iter().enumerate() {
                    let want = ((round, k) != (2, 0)).then(|| texts[(k + round) % 2].clone());
                    ensure_eq!(read(&v, u), want, "content", "get_source({u:?})");
                    ensure_eq!(v.exists(u), want.is_some(), "exists", "exists({u:?})");
                    ensure_eq!(v.metadata(u).map(|m| m.len), want.as_ref().map(|t| t.len() as u64), "metadata", "length of {u:?}");
                    ensure_eq!(v.line_map(u).map(|m| m.line_count()), want.map(|t| t.matches('\n').count() + 1), "line map", "line_map({u:?})");
                    ensure_eq!(v.get_id(u).and_then(|i| v.get_uri(i)).map(|x| x.to_string()), v.exists(u).then(|| u.clone()), "id", "get_uri of the id of {u:?}");
                }
                ensure_eq!(v.read_dir("file:///").map(|d| d.len()), Some(if round == 2 { 2 } else { 3 }), "list", "entries");
                cx.steps(4);
            }
            cx.state(&c);
            cx.nontrivial(!c.is_ascii());
            cx.exec();
            if c == '/' || c == '\0' || c == '.' {
                return Ok(());
            }
            let dir = Scratch(scratch("disk"));
            let v = DiskVfs::new(dir.0.clone());
            let f = |n: String| dir.0.join(n).to_string_lossy().to_string();
            let names = [f(c.to_string()), f(format!("d{c}/a{c}.x"))];
            for (u, t) in names.iter().zip(&texts) {
                v.write_file(u, t.as_str().into());
            }
            // a text of the same length, and the one before again
            for (u, t) in names.iter().zip(&texts) {
                let other: String = format!("{c}\n{}", "b".repeat(t.len().saturating_sub(c.len_utf8() + 1)));
                for t in [&other, t, &other, t] {
                    v.write_file(u, t.as_str().into());
                    ensure_eq!(std::fs::read_to_string(u).ok(), Some(t.clone()), "content", "of {u:?} on disk, written again");
                }
            }
            for (u, t) in names.iter().zip(&texts) {
                let got = v.get_source(u).map(|s| s.get_text_in(core::range::Range { start: 0, end: s.length() }).to_string());
                ensure_eq!(got, Some(t.clone()), "content", "get_source({u:?})");
                ensure!(v.exists(u) && v.is_file(u) && !v.is_dir(u), "exists", "{u:?}");
                ensure_eq!(std::fs::read_to_string(u).ok(), Some(t.clone()), "content", "of {u:?} on disk");
                let up = u.rsplit_once('/').unwrap().0;
                ensure!(v.read_dir(up).is_some_and(|e| e.iter().any(|e| **e == **u)), "list", "{u:?} below {up:?}");
                v.remove_file(u);
                ensure!(!v.exists(u), "exists", "{u:?} was removed");
                cx.steps(3);
            }
            Ok(())
        }),
    ]
}

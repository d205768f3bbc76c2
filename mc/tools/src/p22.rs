//! P22: workspace folders contain what is below them, and imports are searched in exactly the open
//! folders, for every history of opening and closing folders.
use crate::p18::scratch;
use mc_kit::*;
use oak_lsp::workspace::WorkspaceManager;
use oak_lsp::types::{InitializeParams, WorkspaceFolder};
use oak_resolver::{ModuleResolver, StandardResolver};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

struct World {
    root: PathBuf,
}
/// Folder names below the scratch directory; one name is a prefix of another.
const DIRS: [&str; 5] = ["w", "w/a", "wx", "w/a b", "w/é"];
const FILES: [&str; 6] = ["w/m.x", "w/a/m.x", "w/a/only.x", "wx/m.x", "wx/sub/deep.x", "w/a b/sp.x"];

impl World {
    fn new() -> World {
        let root = scratch("ws").canonicalize().unwrap();
        for d in DIRS {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for f in FILES {
            std::fs::create_dir_all(root.join(f).parent().unwrap()).unwrap();
            std::fs::write(root.join(f), "x").unwrap();
        }
        World { root }
    }
    fn uri(&self, rel: &str) -> String {
        url::Url::from_file_path(self.root.join(rel)).unwrap().to_string()
    }
    /// The names a client may use for a folder.
    fn folder(&self, k: usize) -> String {
        match k {
            0..=4 => self.uri(DIRS[k]),
            5 => format!("{}/", self.uri("w")),
            6 => "http://host/w".into(),
            // longer than the names of the folders in it
            7 => format!("file:///{}", self.root.join("w").to_str().unwrap()[1..].bytes().map(|b| if b == b'/' { "/".into() } else { format!("%{b:02X}") }).collect::<String>()),
            _ => "no uri".into(),
        }
    }
}
const FOLDERS: usize = 8;
fn path_of(uri: &str) -> Option<PathBuf> {
    url::Url::parse(uri).ok()?.to_file_path().ok()
}
/// `a` is `b` or lies below it, by path components.
fn below(a: &Path, b: &Path) -> bool {
    let parts = |p: &Path| p.to_string_lossy().split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>();
    parts(a).starts_with(&parts(b))
}
fn depth(p: &Path) -> usize {
    p.to_string_lossy().split('/').filter(|s| !s.is_empty()).count()
}

fn observe(w: &World, m: &WorkspaceManager, open: &BTreeMap<String, PathBuf>, cx: &mut Cx) -> Res {
    let mut l = m.list_folders();
    l.sort();
    ensure_eq!(l, open.iter().map(|(a, b)| (a.clone(), b.clone())).collect::<Vec<_>>(), "list", "list_folders");
    for rel in FILES.iter().chain(&DIRS).copied().chain(["", "w/a/nothing", "w/ab", "wxy/z", "w/é/ü.x", "x"]) {
        let uri = w.uri(rel);
        let p = path_of(&uri).unwrap();
        let inside: Vec<(&String, &PathBuf)> = open.iter().filter(|(_, f)| below(&p, f)).collect();
        let best = inside.iter().map(|(_, f)| depth(f)).max();
        match m.find_root(&uri) {
            None => ensure!(inside.is_empty(), "root", "find_root({rel:?}) is none, but it lies in {:?}", inside[0].0),
            Some(r) => ensure!(inside.iter().any(|(u, f)| **u == r && Some(depth(f)) == best), "root", "find_root({rel:?}) is {r:?}, open are {:?}", open.keys().collect::<Vec<_>>()),
        }
        ensure_eq!(m.is_within_workspace(&uri), !inside.is_empty(), "root", "is_within_workspace({rel:?})");
        ensure_eq!(m.get_path(&uri), Some(p.clone()), "path", "get_path({rel:?})");
        ensure_eq!(m.path_to_uri(p), Some(uri.clone()), "path", "path_to_uri of {rel:?}");
        cx.steps(4);
    }
    for bad in ["http://host/w/m.x", "nothing", "", "w/m.x"] {
        ensure!(m.find_root(bad).is_none() && m.get_path(bad).is_none() && !m.is_within_workspace(bad), "root", "{bad:?} is no file but has a place in the workspace");
    }
    let base_dirs = ["w", "w/a", "wx", ""];
    for b in base_dirs {
        let base = w.uri(&if b.is_empty() { "main.x".to_string() } else { format!("{b}/main.x") });
        for import in ["m.x", "only.x", "sub/deep.x", "a/only.x", "../wx/m.x", "sp.x", "none.x", "../w/./a/../m.x"] {
            let near = w.root.join(b).join(import);
            let want: Vec<String> = if near.exists() { vec![named(&near)] } else { open.values().map(|f| f.join(import)).filter(|p| p.exists()).map(|p| named(&p)).collect() };
            let got = m.resolver.resolve(&base, import);
            let ok = match &got {
                None => want.is_empty(),
                Some(u) => want.contains(u),
            };
            ensure!(ok, "import", "import {import:?} in {b:?}/main.x resolves to {got:?}, expected one of {want:?} (open: {:?})", open.keys().collect::<Vec<_>>());
            cx.step();
        }
    }
    Ok(())
}

/// The one URI clients use for a file: without `.` and `..` segments.
fn named(p: &Path) -> String {
    let mut q = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                q.pop();
            }
            std::path::Component::CurDir => (),
            c => q.push(c),
        }
    }
    url::Url::from_file_path(q).unwrap().to_string()
}

/// The start of a session: a root and folders sent by the client.
fn start(k: usize) -> (Option<usize>, Vec<usize>) {
    match k {
        0 => (None, vec![]),
        1 => (Some(0), vec![]),
        2 => (Some(0), vec![0, 2]),
        3 => (None, vec![1, 3, 6, 7]),
        _ => (Some(6), vec![8, 4]),
    }
}

pub fn spaces(t: Tier) -> Vec<Box<dyn Space>> {
    let d = t.pick(4, 5);
    let n = 2 * FOLDERS as u64;
    let per = seq::count_upto(n, d);
    let show = |o: usize| format!("{} {}", if o % 2 == 0 { "open" } else { "close" }, if o / 2 < 5 { DIRS[o / 2] } else { ["w/", "http://host/w", "w with all letters encoded"][o / 2 - 5] });
    static W: OnceLock<World> = OnceLock::new();
    // each worker builds its world once, in a directory which ends with the run
    vec![
        space(
            "folders",
            6 * per,
            move |i| {
                let s = (i / per) as usize;
                let pre = if s == 5 { "no initialize".into() } else { format!("initialize {:?}", start(s)) };
                format!("{pre}; {}", seq::nth(n, d, i % per).into_iter().map(show).collect::<Vec<_>>().join("; "))
            },
            move |i, cx| {
                let w = W.get_or_init(World::new);
                let m = WorkspaceManager::new();
                let mut open: BTreeMap<String, PathBuf> = BTreeMap::new();
                let s = (i / per) as usize;
                if s < 5 {
                    let (root, fs) = start(s);
                    let params = InitializeParams { root_uri: root.map(|k| w.folder(k)), workspace_folders: fs.iter().map(|k| WorkspaceFolder { uri: w.folder(*k), name: "n".into() }).collect() };
                    m.initialize(&params);
                    for k in root.iter().chain(&fs) {
                        if let Some(p) = path_of(&w.folder(*k)) {
                            open.insert(w.folder(*k), p);
                        }
                    }
                }
                let ops = seq::nth(n, d, i % per);
                if ops.is_empty() {
                    observe(w, &m, &open, cx)?;
                }
                for (k, o) in ops.iter().enumerate() {
                    let uri = w.folder(o / 2);
                    if o % 2 == 0 {
                        if let Some(p) = path_of(&uri) {
                            open.insert(uri.clone(), p);
                        }
                        m.add_folder(uri, "name".into());
                    }
                    else {
                        open.remove(&uri);
                        m.remove_folder(&uri);
                    }
                    if k + 1 == ops.len() {
                        observe(w, &m, &open, cx)?;
                    }
                }
                cx.state(&open.keys().map(|k| k.rsplit('/').next().unwrap().to_string()).collect::<Vec<_>>());
                cx.nontrivial(open.len() > 1);
                cx.exec();
                Ok(())
            },
        ),
        space("resolver", 128, |i| format!("roots {i:07b}"), |i, cx| {
            let w = W.get_or_init(World::new);
            // the first of the listed roots that has the file wins
            let roots: Vec<PathBuf> = (0..5).filter(|k| i >> k & 1 == 1).map(|k| w.root.join(DIRS[k as usize])).collect();
            // a relative root has no URI and does not hide the others
            let roots: Vec<PathBuf> = std::iter::once(PathBuf::from("src")).filter(|_| i >> 6 & 1 == 1).chain(roots).collect();
            let roots: Vec<PathBuf> = if i >> 5 & 1 == 1 { roots.into_iter().rev().collect() } else { roots };
            let r = StandardResolver::new(roots.clone());
            let late = StandardResolver::new(vec![w.root.join("wx")]);
            late.set_root_dirs(roots.clone());
            for base in [w.uri("w/é/main.x"), "file:///".to_string(), "untitled:x".to_string(), "".to_string(), "http://h/x".to_string()] {
                for import in ["m.x", "only.x", "sub/deep.x", "sp.x", "none.x", "./a/only.x", "../wx/sub/deep.x"] {
                    let want = roots.iter().map(|f| f.join(import)).find(|p| p.exists()).map(|p| named(&p));
                    ensure_eq!(r.resolve(&base, import), want, "import", "import {import:?} from {base:?}");
                    ensure_eq!(late.resolve(&base, import), want, "import", "import {import:?} from {base:?} after set_root_dirs");
                    cx.steps(2);
                }
            }
            cx.exec();
            Ok(())
        }),
        {
            let ns = seq::sizes(t.pick(20, 40), t.pick(128, 256));
            let n2 = ns.clone();
            space("many folders", 2 * ns.len() as u64, move |i| format!("{} {}", n2[i as usize / 2], ["folders side by side", "folders in each other"][i as usize % 2]), move |i, cx| {
                static B: OnceLock<PathBuf> = OnceLock::new();
                let (n, deep) = (ns[i as usize / 2] as usize, i % 2 == 1);
                let root = B.get_or_init(|| scratch("wsmany").canonicalize().unwrap());
                let dir = |k: usize| if deep { root.join("in").join("d/".repeat(k + 1).trim_end_matches('/')) } else { root.join(format!("side{k}")) };
                // every folder has a file of its own
                for k in 0..n {
                    std::fs::create_dir_all(dir(k)).unwrap();
                    std::fs::write(dir(k).join(format!("own{k}.x")), "x").unwrap();
                }
                let uri = |p: &Path| url::Url::from_file_path(p).unwrap().to_string();
                let m = WorkspaceManager::new();
                let all: Vec<WorkspaceFolder> = (0..n).map(|k| WorkspaceFolder { uri: uri(&dir(k)), name: format!("n{k}") }).collect();
                let mut open: std::collections::BTreeSet<usize> = (0..n / 2).collect();
                m.initialize(&InitializeParams { root_uri: None, workspace_folders: all[..n / 2].to_vec() });
                for round in 0..3 {
                    match round {
                        1 => {
                            for k in n / 2..n {
                                m.add_folder(all[k].uri.clone(), "late".into());
                                open.insert(k);
                            }
                        }
                        2 => {
                            for k in (0..n).filter(|k| k % 3 == 0) {
                                m.remove_folder(&all[k].uri);
                                open.remove(&k);
                            }
                        }
                        _ => (),
                    }
                    let mut l = m.list_folders();
                    l.sort();
                    let mut want: Vec<(String, PathBuf)> = open.iter().map(|k| (all[*k].uri.clone(), dir(*k))).collect();
                    want.sort();
                    ensure_eq!(l, want, "list", "list_folders in round {round}");
                    for k in seq::sizes(8, 256).into_iter().map(|k| k as usize).filter(|k| *k < n).chain(n.checked_sub(1)) {
                        let f = uri(&dir(k).join("some.x"));
                        let best = if deep { open.range(..=k).next_back().copied() } else { open.get(&k).copied() };
                        ensure_eq!(m.find_root(&f), best.map(|b| all[b].uri.clone()), "root", "root of a file in folder {k} in round {round}");
                        ensure_eq!(m.is_within_workspace(&f), best.is_some(), "root", "is_within_workspace for folder {k} in round {round}");
                        let own = format!("own{k}.x");
                        let base = uri(&root.join("main.x"));
                        ensure_eq!(m.resolver.resolve(&base, &own), open.get(&k).map(|k| uri(&dir(*k).join(&own))), "import", "import of {own} in round {round}");
                        cx.steps(3);
                    }
                    cx.state(&(n, deep, round));
                }
                for d in ["in"].iter().map(|d| root.join(d)).chain((0..if deep { 0 } else { n }).map(dir)) {
                    let _ = std::fs::remove_dir_all(d);
                }
                cx.nontrivial(n > 8);
                cx.exec();
                Ok(())
            })
        },
        each_character("every character in the name of a folder and of a file", t, |c, cx| {
            if c == '/' || c == '\0' {
                return Ok(());
            }
            static W: OnceLock<PathBuf> = OnceLock::new();
            let root = W.get_or_init(|| scratch("wschar").canonicalize().unwrap());
            let dir = root.join(format!("f{c}"));
            let file = format!("m{c}.x");
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join(&file), "x").unwrap();
            let uri = |p: &Path| url::Url::from_file_path(p).unwrap().to_string();
            let (folder, own) = (uri(&dir), uri(&dir.join(&file)));
            let m = WorkspaceManager::new();
            m.add_folder(folder.clone(), "n".into());
            ensure_eq!(m.list_folders(), vec![(folder.clone(), dir.clone())], "list", "list_folders");
            ensure_eq!(m.find_root(&own), Some(folder.clone()), "root", "of {own:?}");
            ensure!(m.is_within_workspace(&own), "root", "is_within_workspace({own:?})");
            let beside = uri(&root.join(format!("f{c}z")).join(&file));
            ensure_eq!(m.find_root(&beside), None, "root", "of {beside:?}");
            let base = uri(&root.join("main.x"));
            ensure_eq!(m.resolver.resolve(&base, &file), Some(own.clone()), "import", "of {file:?}");
            let r = StandardResolver::new(vec![]);
            let (here, sub) = (uri(&dir.join("main.x")), format!("./f{c}/{file}"));
            ensure_eq!(r.resolve(&base, &sub), Some(own.clone()), "import", "of {sub:?}");
            ensure_eq!(r.resolve(&here, &format!("./{file}")), Some(own.clone()), "import", "of ./{file:?} from its folder");
            ensure_eq!(r.resolve(&here, &format!("../f{c}/{file}")), Some(own), "import", "of {file:?} by its folder");
            m.remove_folder(&folder);
            ensure!(m.list_folders().is_empty(), "list", "after remove_folder");
            let _ = std::fs::remove_dir_all(&dir);
            cx.state(&c);
            cx.nontrivial(!c.is_ascii());
            cx.steps(8);
            cx.exec();
            Ok(())
        }),
    ]
}

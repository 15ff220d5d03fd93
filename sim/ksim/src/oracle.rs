//! What must hold: invariants checked after every mutating operation, and
//! checks over each run when it ends.
use crate::kernel::*;
use crate::layout::*;
use crate::plan::*;
use crate::source::*;
use crate::util::*;
use crate::vfs::*;
use crate::xml;
use std::collections::{BTreeMap, BTreeSet};

const S: i64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Pub {
    pub sha: [u8; 32],
    pub session: String,
    pub serial: u64,
    pub snap: [u8; 32],
    /// path -> hash of everything listed
    pub files: BTreeMap<String, [u8; 32]>,
    pub deltas: Vec<u64>,
    pub genuine: bool,
}

#[derive(Clone, Debug)]
pub struct Retired {
    pub hash: [u8; 32],
    pub wall: i64,
}

#[derive(Clone, Debug)]
pub struct RView {
    pub dir: String,
    pub name: String,
    pub base: String,
    pub cur: Option<Pub>,
    pub active: bool,
    pub retired: BTreeMap<String, Retired>,
    /// mono time of the last change of a path
    pub placed: BTreeMap<String, u64>,
    pub broken: bool,
    pub gone: bool,
    /// what may be there after a power loss; `None` as well unless something was committed
    pub since: Vec<Pub>,
    pub committed: bool,
}

#[derive(Clone, Debug)]
pub struct SPub {
    pub target: String,
    pub digest: u64,
    pub at: u64,
}

#[derive(Clone, Debug)]
pub struct SView {
    pub dir: String,
    pub cur: Option<SPub>,
    pub active: bool,
    pub retired: BTreeMap<String, (u64, i64)>,
    pub broken: bool,
    pub since: Vec<SPub>,
    pub committed: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Completed {
    pub session: String,
    pub serial: u64,
    pub deltas: BTreeSet<String>,
    pub dirs: Dirs,
    pub name: String,
    pub cfg: Cfg,
}

pub struct NodeO {
    pub dirs: Vec<Dirs>,
    pub rrdp: BTreeMap<String, RView>,
    pub rsync: BTreeMap<String, SView>,
    pub completed: Option<Completed>,
    /// (path -> wall time since when it is known to be superfluous)
    pub settled: BTreeMap<String, i64>,
    pub settled_dirs: Option<Dirs>,
    /// files that failed runs meant to place, and when
    pub tries: Vec<(u64, usize)>,
    /// settled paths that a run has put in place again, and which run
    pub replaced: BTreeMap<String, u32>,
    /// left in directories that were not configured any longer
    pub orphans: BTreeSet<String>,
    pub last_dirs: Option<Dirs>,
    pub disturbed: bool,
    pub crashed: bool,
    pub last_cfg: Option<Cfg>,
    pub cfg_changed: bool,
    pub updates: u32,
}

pub struct RunCtx {
    pub node: u8,
    pub dirs: Dirs,
    pub vkey: String,
    pub before: Option<Pub>,
    pub before_cur: Option<SPub>,
    pub start_wall: i64,
    pub aside: u64,
    pub start: u64,
    pub served: Option<usize>,
    pub tampered: bool,
    pub proceeded: bool,
    /// proceeded, and still holding on to it
    pub working: bool,
    pub overlapped: bool,
    pub scripts_started: Vec<usize>,
    pub scripts_ended: Vec<usize>,
    pub script_killed: bool,
    pub source_dirty: bool,
    pub source_changed: bool,
    pub published: bool,
    pub switched: bool,
    pub touched: bool,
    pub completed: Option<Completed>,
    pub removed_parents: BTreeSet<String>,
    pub held: u64,
    pub first_run: bool,
    pub cfg_changed: bool,
    pub disturbed: bool,
    pub crashed: bool,
    pub start_now: i64,
}

pub struct Oracle {
    pub nodes: BTreeMap<u8, NodeO>,
    pub runs: BTreeMap<u32, RunCtx>,
    /// (session, serial, is snapshot) -> (relative name, hash) over all mirrors
    pub global: BTreeMap<(String, u64, bool), (String, [u8; 32])>,
    pub no_mtime: BTreeSet<Ino>,
    /// power was lost earlier
    pub power: bool,
    /// an installation was made one of an earlier release
    pub upgraded: bool,
    pub damaged: bool,
    /// the run that is being judged at its end
    pub ending: Option<Circumstances>,
    /// tree -> (node, modification times of its objects), as first published
    pub trees: BTreeMap<u64, (u8, BTreeMap<String, (i64, u32)>)>,
}

/// What a run met, to tell which properties a broken view is a breach of.
#[derive(Clone, Copy, Debug, Default)]
pub struct Circumstances {
    pub heals: bool,
    pub changed: bool,
    pub bad_source: bool,
    pub delays: bool,
}

impl Oracle {
    pub fn new() -> Oracle {
        Oracle { nodes: BTreeMap::new(), runs: BTreeMap::new(), global: BTreeMap::new(), no_mtime: BTreeSet::new(), power: false, upgraded: false, damaged: false, ending: None, trees: BTreeMap::new() }
    }
}

pub fn under(path: &str, dir: &str) -> bool {
    path.len() > dir.len() && path.starts_with(dir) && path.as_bytes()[dir.len()] == b'/'
}
pub fn same_or_under(path: &str, dir: &str) -> bool {
    path == dir || under(path, dir)
}

fn dir_of(p: &str) -> &str {
    match p.rfind('/') {
        Some(0) | None => "/",
        Some(i) => &p[..i],
    }
}

impl World {
    fn node(&mut self, n: u8) -> &mut NodeO {
        self.oracle.nodes.entry(n).or_insert_with(|| NodeO {
            dirs: vec![],
            rrdp: BTreeMap::new(),
            rsync: BTreeMap::new(),
            completed: None,
            settled: BTreeMap::new(),
            settled_dirs: None,
            replaced: BTreeMap::new(),
            tries: vec![],
            orphans: BTreeSet::new(),
            last_dirs: None,
            disturbed: false,
            crashed: false,
            last_cfg: None,
            cfg_changed: false,
            updates: 0,
        })
    }

    pub fn oracle_last_dirs(&self, node: u8) -> Option<Dirs> {
        self.oracle.nodes.get(&node).and_then(|n| n.last_dirs.clone())
    }

    fn circumstances(&self, pid: u32, r: &RunCtx) -> Circumstances {
        let p = &self.procs[&pid];
        let bad = r.source_dirty || r.source_changed || p.net_fired > 0;
        Circumstances {
            heals: (r.disturbed || r.crashed) && !bad && p.local_fired == 0 && !r.overlapped,
            changed: r.cfg_changed,
            bad_source: bad && p.local_fired == 0,
            delays: p.cfg.delay > 0 && r.proceeded && !r.published,
        }
    }

    /// Further properties that a broken view is a breach of, given what the
    /// run that broke it was meant to do.
    pub fn also_broken(&self, class: &str) -> Vec<&'static str> {
        let instant = matches!(
            class,
            "notification-gone" | "listed-file-wrong" | "listed-file-missing" | "current-gone" | "current-dangling" | "current-modified" | "current-not-a-revision"
        ) || class.starts_with("notification-") && class != "notification-too-early";
        let exact = matches!(
            class,
            "wrong-revision" | "wrong-layout" | "nothing-published" | "wrong-revision-published" | "too-many-deltas" | "missing-deltas" | "rsync-not-updated" | "did-nothing" | "listed-outside"
        );
        let mut out = vec![];
        if !instant && !exact {
            return out;
        }
        let c = match self.oracle.ending {
            Some(c) => c,
            None => {
                let live: Vec<u32> = self.procs.values().filter(|p| p.state != PState::Done && self.oracle.runs.contains_key(&p.pid)).map(|p| p.pid).collect();
                match live[..] {
                    [pid] => self.circumstances(pid, &self.oracle.runs[&pid]),
                    _ => return out,
                }
            }
        };
        if c.heals {
            out.push("C08");
        }
        if c.changed {
            out.push("C20");
        }
        if c.bad_source && instant {
            out.push("C03");
        }
        if c.delays && instant {
            out.push("C11");
        }
        out
    }

    // --------------------------------------------------------------- run start

    pub fn oracle_run_start(&mut self, pid: u32) {
        let (node, cfg) = {
            let p = &self.procs[&pid];
            (p.node, p.cfg.clone())
        };
        let d = dirs(node, &cfg);
        if let Some(old) = self.node(node).last_dirs.replace(d.clone()) {
            if old != d {
                let mut left = vec![];
                for dir in [&old.rrdp, &old.rsync] {
                    if let Some(i) = self.vfs.lookup(dir) {
                        left.extend(self.vfs.walk(i).into_iter().map(|(p, _)| format!("{}/{}", dir, p)));
                    }
                }
                self.node(node).orphans.extend(left);
            }
        }
        let (base, name) = public(&self.plan.src, cfg.notif_alt);
        let vkey = format!("{}/{}", d.rrdp, name);
        let lc = self.node(node).last_cfg.clone();
        let changed = match &lc {
            None => false,
            Some(c) => {
                let mut a = c.clone();
                let mut b = cfg.clone();
                for x in [&mut a, &mut b] {
                    x.verbose = 0;
                    x.quiet = false;
                }
                a != b
            }
        };
        let first = lc.is_none();
        {
            let n = self.node(node);
            if !n.dirs.contains(&d) {
                n.dirs.push(d.clone());
            }
            if changed {
                n.cfg_changed = true;
            }
            n.last_cfg = Some(cfg.clone());
            for (k, v) in n.rrdp.iter_mut() {
                v.active = *k == vkey;
            }
            n.rrdp.entry(vkey.clone()).or_insert_with(|| RView {
                dir: d.rrdp.clone(),
                name: name.clone(),
                base: base.clone(),
                cur: None,
                active: true,
                retired: BTreeMap::new(),
                placed: BTreeMap::new(),
                broken: false,
                gone: false,
                since: vec![],
                committed: false,
            });
            for (k, v) in n.rsync.iter_mut() {
                v.active = *k == d.rsync;
                if !v.active {
                    // the retention time is that of the configured directory
                    v.retired.clear();
                }
            }
            n.rsync.entry(d.rsync.clone()).or_insert_with(|| SView {
                dir: d.rsync.clone(),
                cur: None,
                active: true,
                retired: BTreeMap::new(),
                broken: false,
                since: vec![],
                committed: false,
            });
        }
        let (wall, mono) = (self.wall_ns(), self.mono);
        let dirty = !self.source.healthy();
        let aside = self.source.aside;
        let n = self.node(node);
        let before = n.rrdp[&vkey].cur.clone();
        let ctx = RunCtx {
            node,
            before_cur: n.rsync[&d.rsync].cur.clone(),
            start_wall: wall,
            aside,
            start: mono,
            served: None,
            tampered: false,
            proceeded: false,
            working: false,
            overlapped: false,
            scripts_started: vec![],
            scripts_ended: vec![],
            script_killed: false,
            source_dirty: dirty,
            source_changed: false,
            published: false,
            switched: false,
            touched: false,
            completed: n
                .completed
                .clone()
                .filter(|c| c.dirs == d && c.name == name && c.cfg.max == cfg.max && c.cfg.rsync == cfg.rsync && c.cfg.host == cfg.host),
            removed_parents: BTreeSet::new(),
            held: before.as_ref().map_or(0, |p| p.deltas.last().copied().unwrap_or(0)),
            before,
            first_run: first,
            cfg_changed: n.cfg_changed,
            disturbed: n.disturbed,
            crashed: n.crashed,
            dirs: d,
            vkey,
            start_now: 0,
        };
        self.oracle.runs.insert(pid, ctx);
        // concurrent instances
        let live: Vec<u32> = self
            .procs
            .values()
            .filter(|p| p.pid != pid && p.node == node && p.state != PState::Done && self.oracle.runs.contains_key(&p.pid))
            .map(|p| p.pid)
            .collect();
        for q in live {
            for x in [q, pid] {
                if let Some(r) = self.oracle.runs.get_mut(&x) {
                    r.overlapped = true;
                }
            }
        }
    }

    pub fn oracle_source_changed(&mut self) {
        let dirty = !self.source.healthy();
        let live: Vec<u32> = self.procs.values().filter(|p| p.state != PState::Done).map(|p| p.pid).collect();
        for q in live {
            if let Some(r) = self.oracle.runs.get_mut(&q) {
                r.source_changed = true;
                r.source_dirty |= dirty;
            }
        }
    }

    pub fn oracle_notif_served(&mut self, pid: u32, idx: usize, tampered: bool) {
        if let Some(r) = self.oracle.runs.get_mut(&pid) {
            r.served = Some(idx);
            r.tampered = tampered;
        }
    }

    /// The run does something that only the holder of the lock may do.
    pub fn oracle_proceeds(&mut self, pid: u32, what: &str) {
        let node = match self.oracle.runs.get_mut(&pid) {
            Some(r) => {
                if r.working {
                    return;
                }
                let first = !r.proceeded;
                r.proceeded = true;
                r.working = true;
                if first && r.overlapped {
                    // what there was when this run got its turn
                    let n = &self.oracle.nodes[&r.node];
                    r.before = n.rrdp[&r.vkey].cur.clone();
                    r.before_cur = n.rsync[&r.dirs.rsync].cur.clone();
                }
                r.node
            }
            None => return,
        };
        let other = self
            .procs
            .values()
            .find(|p| {
                p.pid != pid
                    && p.node == node
                    && p.state != PState::Done
                    && self.oracle.runs.get(&p.pid).map_or(false, |r| r.working)
            })
            .map(|p| p.pid);
        if let Some(o) = other {
            self.violate(
                &["C09"],
                "two-runs-proceed",
                format!("[{}] goes ahead ({}) although [{}] is still working on the same installation", pid, what, o),
            );
        }
    }

    /// The lock is given up: from here on others may proceed, and this run must not do anything more.
    pub fn oracle_unlocked(&mut self, pid: u32, path: &str) {
        if let Some(r) = self.oracle.runs.get_mut(&pid) {
            if path == format!("{}/krill-sync.lock", r.dirs.state) {
                r.working = false;
            }
        }
    }

    // ------------------------------------------------------------- script hooks

    pub fn oracle_script_start(&mut self, pid: u32, idx: usize) {
        let (order_ok, vkey, node, served) = {
            let r = match self.oracle.runs.get_mut(&pid) {
                Some(r) => r,
                None => return,
            };
            let ok = idx == r.scripts_started.len() && r.scripts_ended.len() == r.scripts_started.len();
            r.scripts_started.push(idx);
            (ok, r.vkey.clone(), r.node, r.served)
        };
        if !order_ok {
            self.violate(&["C14"], "script-order", format!("script {} started out of order or before the one before it ended", idx));
        }
        if self.oracle.runs[&pid].touched {
            self.violate(&["C14"], "script-after-publication", format!("script {} starts after published data was already changed", idx));
        }
        // the complete staged revision must be on disk
        let st = staging(&self.oracle.runs[&pid].dirs);
        let Some(served) = served else { return };
        let rec = self.source.notifs[served].clone();
        if rec.bad.is_some() || self.oracle.runs[&pid].tampered {
            return;
        }
        let p = format!("{}/{}", st, rec.snap.rel);
        let ok = self.vfs.lookup(&p).map_or(false, |i| self.vfs.sha(i) == rec.snap.hash);
        if !ok {
            self.violate(&["C14"], "script-before-staging", format!("script {} started but the staged snapshot {} is not complete", idx, p));
        }
        let _ = (vkey, node);
        let max = self.procs[&pid].cfg.max;
        let before = self.oracle.runs[&pid].before.clone();
        for d in self.expected_new(&rec, max, before.as_ref()) {
            let p = format!("{}/{}", st, d.rel);
            let ok = self.vfs.lookup(&p).map_or(false, |i| self.vfs.sha(i) == d.hash);
            if !ok {
                // an interrupted earlier run may already have put it in place
                let dir = self.oracle.runs[&pid].dirs.rrdp.clone();
                let q = format!("{}/{}", dir, d.rel);
                let ok = self.vfs.lookup(&q).map_or(false, |i| self.vfs.sha(i) == d.hash);
                if !ok {
                    self.violate(&["C14"], "script-before-staging", format!("script {} started but the staged delta {} is not complete", idx, p));
                }
            }
        }
        let p = format!("{}/{}", st, self.oracle_name(pid));
        let ok = match self.vfs.lookup(&p) {
            Some(i) => xml::parse_notification(&self.vfs.get(i).data).map_or(false, |n| n.serial == rec.serial && n.session == rec.session),
            None => false,
        };
        if !ok {
            self.violate(&["C14"], "script-before-staging", format!("script {} started but the staged notification {} is not complete", idx, p));
        }
    }

    fn oracle_name(&self, pid: u32) -> String {
        public(&self.plan.src, self.procs[&pid].cfg.notif_alt).1
    }

    pub fn oracle_script_end(&mut self, parent: u32, idx: usize) {
        if let Some(r) = self.oracle.runs.get_mut(&parent) {
            r.scripts_ended.push(idx);
        }
    }

    pub fn oracle_script_killed(&mut self, pid: u32, idx: usize) {
        if let Some(r) = self.oracle.runs.get_mut(&pid) {
            r.script_killed = true;
        }
        self.violate(&["C14"], "script-killed", format!("script {} was killed before it could complete", idx));
    }

    fn oracle_delta_request(&mut self, pid: u32, rel: &str) {
        let held = match self.oracle.runs.get(&pid) {
            Some(r) => match (&r.completed, r.served) {
                (Some(c), Some(s)) => c.session == self.source.notifs[s].session && c.deltas.contains(rel),
                _ => false,
            },
            None => false,
        };
        if held {
            self.violate(&["C12"], "held-delta-requested", format!("delta {} is requested again although the mirror holds it", rel));
        }
    }

    pub fn oracle_request(&mut self, pid: u32, rel: Option<&str>, notif: bool, delta: bool) {
        if delta {
            if let Some(r) = rel {
                self.oracle_delta_request(pid, r);
            }
        }
        if !notif {
            let unchanged = match self.oracle.runs.get(&pid) {
                Some(r) => match (&r.completed, r.served) {
                    (Some(c), Some(s)) => {
                        let n = &self.source.notifs[s];
                        !r.tampered && c.session == n.session && c.serial == n.serial
                    }
                    _ => false,
                },
                None => false,
            };
            if unchanged {
                self.violate(&["C12"], "unchanged-but-requested", format!("the source is unchanged, but {:?} is requested", rel));
            }
        }
    }

    // ---------------------------------------------------------------- file reads

    pub fn note_read(&mut self, pid: u32, ino: Ino, path: &str) {
        let cfg = &self.procs[&pid].cfg;
        if cfg.src == SrcSel::Dir {
            if let Some(rel) = path.strip_prefix(SRCDIR) {
                let rel = rel.to_string();
                self.oracle_proceeds(pid, "reads the source");
                let k = self.source.kind_of(&rel);
                if k == FileKind::Notif {
                    let first = self.oracle.runs.get(&pid).map_or(false, |r| r.served.is_none());
                    if first {
                        // what is read may have been replaced since it was opened
                        let sha = self.vfs.sha(ino);
                        let i = self.source.notifs.iter().rposition(|n| n.hash == sha).unwrap_or(self.source.notif_idx);
                        self.oracle_notif_served(pid, i, false);
                    }
                } else {
                    self.oracle_request(pid, Some(&rel), false, k == FileKind::Delta);
                }
                return;
            }
        }
        if self.source.mirror && path.contains("evil") {
            let d = &self.oracle.runs[&pid].dirs;
            if !under(path, &d.state) && !under(path, &d.rrdp) && !under(path, &d.rsync) {
                self.violate(&["C15", "C10"], "foreign-read", format!("source content was read from {}, outside the configured source directory", path));
            }
        }
    }

    // ------------------------------------------------------------- mutations

    pub fn oracle_before_remove(&mut self, pid: u32, path: &str) {
        let _ = (pid, path);
    }

    pub fn oracle_removed(&mut self, pid: u32, path: &str, ino: Ino) {
        if self.vfs.get(ino).foreign {
            self.violate(&["C10"], "foreign-removed", format!("{} was not created by the program and is removed or replaced", path));
        }
        if self.vfs.get(ino).kind == Kind::File {
            if let Some(r) = self.oracle.runs.get_mut(&pid) {
                let mut d = dir_of(path);
                while d.len() > 1 {
                    r.removed_parents.insert(d.to_string());
                    d = dir_of(d);
                }
            }
        }
    }

    pub fn oracle_renamed(&mut self, pid: u32, a: &str, b: &str, ino: Ino) {
        if self.vfs.get(ino).foreign {
            self.violate(&["C10"], "foreign-moved", format!("{} was not created by the program and is moved to {}", a, b));
        }
        // moving a directory moves what lies below it
        if self.vfs.get(ino).kind == Kind::Dir {
            let n = self.oracle.runs.get(&pid).map(|r| r.node);
            if let Some(n) = n {
                let mono = self.mono;
                let below: Vec<String> = self.vfs.walk(ino).into_iter().map(|x| format!("{}/{}", b, x.0)).collect();
                for v in self.node(n).rrdp.values_mut() {
                    for x in &below {
                        if under(x, &v.dir) {
                            v.placed.insert(x.clone(), mono);
                        }
                    }
                }
            }
        }
    }

    pub fn oracle_mutation(&mut self, pid: u32, op: OpSel, path: &str, path2: Option<&str>) {
        if !self.oracle.runs.contains_key(&pid) {
            return;
        }
        let node = self.oracle.runs[&pid].node;
        self.check_containment(pid, node, op, path, path2);
        let d = self.oracle.runs[&pid].dirs.clone();
        let lock_or_dir = path.ends_with(".lock") || (op == OpSel::Mkdir && same_or_under(&d.state, path));
        if !lock_or_dir {
            self.oracle_proceeds(pid, path);
        }
        let paths: Vec<&str> = std::iter::once(path).chain(path2).collect();
        if matches!(op, OpSel::Rename | OpSel::Create | OpSel::Mkdir | OpSel::Link) {
            let target = path2.unwrap_or(path);
            let mut names = vec![target.to_string()];
            if under(target, &d.rsync) {
                names.push(format!("{}/{}", d.rsync, target[d.rsync.len() + 1..].split('/').next().unwrap()));
            }
            let n = self.node(node);
            for p in names {
                if n.settled.contains_key(&p) {
                    n.replaced.insert(p, pid);
                }
            }
        }
        let in_pub = paths.iter().any(|p| under(p, &d.rrdp) || under(p, &d.rsync));
        if in_pub {
            self.published_area_touched(pid, op, &paths);
        }
        let mono = self.mono;
        let keys: Vec<String> = self.node(node).rrdp.iter().filter(|x| x.1.active).map(|x| x.0.clone()).collect();
        for k in keys {
            let dir = self.node(node).rrdp[&k].dir.clone();
            let hit = paths.iter().any(|p| under(p, &dir) || same_or_under(&dir, p));
            if hit {
                let n = self.node(node);
                let v = n.rrdp.get_mut(&k).unwrap();
                if op != OpSel::Utimes {
                    let target = path2.unwrap_or(path);
                    v.placed.insert(target.to_string(), mono);
                }
                self.check_rrdp(pid, node, &k);
            }
        }
        let keys: Vec<String> = self.node(node).rsync.iter().filter(|x| x.1.active).map(|x| x.0.clone()).collect();
        for k in keys {
            if paths.iter().any(|p| under(p, &k) || same_or_under(&k, p)) {
                self.check_rsync(pid, node, &k, &paths, op);
            }
        }
    }

    /// The object URI with dot segments that leads out of the directory of its
    /// revision to this path, if any.
    fn redirected(&self, pid: u32, path: &str) -> Option<String> {
        let r = self.oracle.runs.get(&pid)?;
        let rev = &self.source.revs[self.source.notifs[r.served?].rev];
        if !rev.traversal || !self.procs[&pid].cfg.host {
            return None;
        }
        for u in rev.objs.keys() {
            let rest = u.strip_prefix("rsync://")?;
            if !rest.split('/').any(|s| s == "." || s == "..") {
                continue;
            }
            // relative to the directory of some revision, which `..` leaves
            let mut out: Vec<&str> = r.dirs.rsync.split('/').collect();
            let depth = out.len();
            out.push("revision");
            let mut left = false;
            for s in rest.split('/') {
                match s {
                    "." => {}
                    ".." => {
                        out.pop();
                        left |= out.len() <= depth;
                    }
                    s => out.push(s),
                }
            }
            let p = out.join("/");
            if left && same_or_under(&p, path) && under(path, &r.dirs.rsync) && p != r.dirs.rsync {
                return Some(u.clone());
            }
        }
        None
    }

    fn check_containment(&mut self, pid: u32, node: u8, op: OpSel, path: &str, path2: Option<&str>) {
        let ds = self.node(node).dirs.clone();
        for p in std::iter::once(path).chain(path2) {
            let inside = ds.iter().any(|d| under(p, &d.state) || under(p, &d.rrdp) || under(p, &d.rsync));
            if inside {
                continue;
            }
            let on_the_way = ds.iter().any(|d| same_or_under(&d.state, p) || same_or_under(&d.rrdp, p) || same_or_under(&d.rsync, p));
            let ok = on_the_way && matches!(op, OpSel::Mkdir | OpSel::Remove);
            if !ok && !(p.starts_with("/dev/")) {
                self.violate(&["C10"], "outside", format!("{:?} on {} which is outside the configured directories", op, p));
            }
        }
        if matches!(op, OpSel::Create | OpSel::Mkdir) {
            if let Some(u) = self.redirected(pid, path) {
                self.violate(&["C10"], "redirected", format!("{} is written because of the dot segments in {}", path, u));
            }
        }
        if let Some(i) = self.vfs.lookup_nofollow(path) {
            let n = self.vfs.get(i);
            if n.foreign && n.kind != Kind::Dir && op != OpSel::Remove {
                self.violate(&["C10"], "foreign-written", format!("{:?} on {} which the program did not create", op, path));
            }
        }
        let _ = pid;
    }

    /// Any change below the RRDP or rsync directory.
    fn published_area_touched(&mut self, pid: u32, op: OpSel, paths: &[&str]) {
        let cfg = self.procs[&pid].cfg.clone();
        self.oracle.runs.get_mut(&pid).unwrap().touched = true;
        let r = &self.oracle.runs[&pid];
        let (started, ended) = (r.scripts_started.len(), r.scripts_ended.len());
        let n = cfg.scripts.len();
        let what = format!("{:?} {}", op, paths.join(" -> "));
        if n > 0 {
            let mut done = r.scripts_ended.clone();
            done.sort();
            done.dedup();
            if done.len() < n || ended < started {
                self.violate(
                    &["C14"],
                    "published-before-scripts",
                    format!("{} although only {} of {} scripts have completed", what, done.len(), n),
                );
            } else if cfg.reject && cfg.scripts.iter().any(|s| s.exit != 0) {
                self.violate(&["C14"], "published-despite-rejection", format!("{} although a script rejected the revision", what));
            }
        }
        let r = &self.oracle.runs[&pid];
        if let (Some(c), Some(s)) = (&r.completed, r.served) {
            let rec = &self.source.notifs[s];
            if !r.tampered && c.session == rec.session && c.serial == rec.serial {
                self.violate(&["C12"], "unchanged-but-touched", format!("the source is unchanged, but: {}", what));
            } else if c.session == rec.session {
                let p = paths[paths.len() - 1];
                if let Some(rel) = p.strip_prefix(&format!("{}/", c.dirs.rrdp)) {
                    if c.deltas.contains(rel) && op != OpSel::Remove {
                        self.violate(&["C12"], "held-delta-rewritten", format!("delta is held already, but: {}", what));
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------- RRDP

    fn check_rrdp(&mut self, pid: u32, node: u8, key: &str) {
        let mut v = self.node(node).rrdp[key].clone();
        if v.broken {
            return;
        }
        let wall = self.eff_ns();
        match self.vfs.lookup(key) {
            None => {
                if v.cur.is_some() && !v.gone {
                    v.gone = true;
                    self.violate(&["C01"], "notification-gone", format!("the published notification {} is gone", key));
                }
            }
            Some(i) => {
                let sha = self.vfs.sha(i);
                if v.cur.as_ref().map_or(true, |c| c.sha != sha) {
                    let data = self.vfs.get(i).data.clone();
                    match xml::parse_notification(&data) {
                        None => {
                            let bad = if v.cur.is_none() && data.is_empty() { "notification-partial" } else { "notification-broken" };
                            self.violate(&["C01"], bad, format!("{} is not a complete notification ({} bytes)", key, data.len()));
                            v.broken = true;
                        }
                        Some(n) => self.new_publication(pid, node, key, &mut v, n, sha, wall),
                    }
                }
            }
        }
        if !v.broken {
            if let Some(c) = v.cur.clone() {
                for (p, h) in &c.files {
                    let ok = self.vfs.lookup(p).map_or(false, |i| self.vfs.get(i).kind == Kind::File && self.vfs.sha(i) == *h);
                    if !ok {
                        let there = self.vfs.lookup(p).is_some();
                        self.violate(
                            &["C01", "C06"],
                            if there { "listed-file-wrong" } else { "listed-file-missing" },
                            format!("{} lists {} which {}", key, p, if there { "has other content" } else { "does not exist" }),
                        );
                        v.broken = true;
                        break;
                    }
                }
            }
            let cleanup = self.procs[&pid].cfg.cleanup as i64;
            let mut drop = vec![];
            for (p, r) in &v.retired {
                let expired = wall - r.wall >= cleanup * S - S;
                let ok = self.vfs.lookup(p).map_or(false, |i| self.vfs.sha(i) == r.hash);
                if !ok {
                    if !expired {
                        let there = self.vfs.lookup(p).is_some();
                        self.violate(
                            &["C06"],
                            if there { "retired-file-changed" } else { "retired-file-removed" },
                            format!("{} was listed until {} s ago, retention is {} s", p, (wall - r.wall) / S, cleanup),
                        );
                    }
                    drop.push(p.clone());
                }
            }
            for p in drop {
                v.retired.remove(&p);
            }
        }
        self.node(node).rrdp.insert(key.to_string(), v);
    }

    #[allow(clippy::too_many_arguments)]
    fn new_publication(&mut self, pid: u32, node: u8, key: &str, v: &mut RView, n: xml::Notif, sha: [u8; 32], wall: i64) {
        let cfg = self.procs[&pid].cfg.clone();
        let first = v.cur.is_none();
        self.stats.add("published.notifications", 1);
        self.sig(pid, 0x9b11);
        self.log(|| format!("[{}] PUBLISHED {} session {} serial {} with {} deltas", pid, key, &n.session[..8.min(n.session.len())], n.serial, n.deltas.len()));
        if let Some(r) = self.oracle.runs.get_mut(&pid) {
            r.published = true;
        }
        // listed files
        let mut files = BTreeMap::new();
        let mut outside = None;
        let mut rels = vec![];
        for l in std::iter::once(&n.snap).chain(n.deltas.iter()) {
            match l.uri.strip_prefix(&v.base) {
                Some(rel) => {
                    files.insert(clean_path(&format!("{}/{}", v.dir, rel)), l.hash);
                    rels.push(rel.to_string());
                }
                None => outside = Some(l.uri.clone()),
            }
        }
        if let Some(u) = outside {
            self.violate(&["C01"], "listed-outside", format!("{} lists {} which is not below {}", key, u, v.base));
            v.broken = true;
            return;
        }
        let mut ds: Vec<u64> = n.deltas.iter().map(|d| d.serial).collect();
        ds.sort();
        let mut sem: Option<(&'static str, String)> = None;
        for w in ds.windows(2) {
            if w[0] + 1 != w[1] {
                sem = Some(("delta-gap", format!("lists deltas {:?}", ds)));
            }
        }
        if let Some(l) = ds.last() {
            if *l != n.serial {
                sem = Some(("delta-end", format!("has serial {} but its deltas end at {}", n.serial, l)));
            }
        }
        let mut genuine = true;
        match self.source.rev_of(&n.session, n.serial) {
            None => {
                genuine = false;
                sem = Some(("not-genuine", format!("session {} serial {} was never published by the source", n.session, n.serial)));
            }
            Some(r) => {
                let rev = &self.source.revs[r];
                let want = format!("{}{}", v.base, rev.snap.rel);
                if rev.snap.hash != n.snap.hash || want != n.snap.uri {
                    genuine = false;
                    sem = Some(("wrong-snapshot", format!("lists snapshot {} which is not that of serial {}", n.snap.uri, n.serial)));
                }
                for d in &n.deltas {
                    let ok = rev.deltas.iter().any(|x| x.serial == d.serial && x.hash == d.hash && format!("{}{}", v.base, x.rel) == d.uri);
                    if !ok {
                        genuine = false;
                        sem = Some(("wrong-delta", format!("lists delta {} serial {} which is not one of this session", d.uri, d.serial)));
                    }
                }
            }
        }
        if let Some((c, m)) = sem {
            let rec = self.oracle.runs.get(&pid).and_then(|r| r.served).map(|s| self.source.notifs[s].clone());
            let bad = rec.as_ref().and_then(|n| n.bad);
            let changed = self.oracle.runs.get(&pid).map_or(false, |r| r.source_changed);
            let must = rec.as_ref().map_or(false, |n| self.must_fail(n, &cfg, v.cur.as_ref(), changed));
            if bad.is_some() && !must && c.starts_with("wrong-") {
                // odd, but nothing that is forbidden with these settings
            } else if bad.is_some() {
                self.violate(&["C03", "C01"], "bad-source-published", format!("{}: {} (source problem {:?})", key, m, bad));
            } else {
                self.violate(&["C01", "C02"], c, format!("{} {}", key, m));
            }
        }
        // order of serials
        if let Some(c) = &v.cur {
            if c.session == n.session && n.serial < c.serial {
                self.violate(&["C04"], "serial-backwards", format!("{} went from serial {} back to {} in session {}", key, c.serial, n.serial, n.session));
            }
            if c.session == n.session && n.serial == c.serial && n.snap.hash != c.snap {
                self.violate(&["C04"], "serial-reused", format!("{}: serial {} now stands for another snapshot", key, n.serial));
            }
        }
        // mirrors agree
        for (l, s) in std::iter::once((&n.snap, true)).chain(n.deltas.iter().map(|d| (d, false))) {
            let k = (n.session.clone(), l.serial, s);
            let rel = l.uri.strip_prefix(&v.base).unwrap_or("").to_string();
            match self.oracle.global.get(&k) {
                None => {
                    self.oracle.global.insert(k, (rel, l.hash));
                }
                Some((r0, h0)) => {
                    if *r0 != rel || *h0 != l.hash {
                        let m = format!("session {} serial {}: {} here, {} elsewhere or earlier", n.session, l.serial, rel, r0);
                        self.violate(&["C17"], "mirrors-conflict", m);
                    }
                }
            }
        }
        // the delay
        let d = cfg.delay as u64 * 1_000_000_000;
        let mono = self.mono;
        for p in files.keys() {
            let at = v.placed.get(p).copied().unwrap_or(0);
            if at + d > mono {
                self.violate(
                    &["C11"],
                    "notification-too-early",
                    format!("{} became visible {} ms after {} was put in place, delay is {} s", key, (mono - at) / 1_000_000, p, cfg.delay),
                );
                break;
            }
        }
        if cfg.delay == 0 {
            let slept = self.procs[&pid].slept;
            if slept > 2_000_000_000 {
                self.violate(&["C11"], "needless-wait", format!("waited {} ms before publication without a delay configured", slept / 1_000_000));
            }
        }
        let rsync_dir = dirs(node, &cfg).rsync;
        if cfg.rsync {
            let rev = self.source.rev_of(&n.session, n.serial);
            let sv = self.node(node).rsync.get(&rsync_dir).and_then(|s| s.cur.clone());
            if let Some(r) = rev {
                let want = self.source.revs[r].digest[cfg.host as usize];
                let exempt = self.source.revs[r].traversal;
                match sv {
                    Some(c) if c.digest == want || exempt => {
                        if c.at + d > mono {
                            self.violate(
                                &["C11"],
                                "notification-too-early",
                                format!("{} became visible {} ms after the rsync tree, delay is {} s", key, (mono - c.at) / 1_000_000, cfg.delay),
                            );
                        }
                    }
                    _ => {
                        if !exempt {
                            self.violate(&["C11", "C02"], "notification-before-rsync", format!("{} shows serial {} but the rsync tree is not at that revision", key, n.serial));
                        }
                    }
                }
            }
        }
        let new = Pub {
            sha,
            session: n.session.clone(),
            serial: n.serial,
            snap: n.snap.hash,
            files,
            deltas: ds,
            genuine,
        };
        // what is no longer listed
        if let Some(old) = &v.cur {
            for (p, h) in &old.files {
                if !new.files.contains_key(p) {
                    v.retired.insert(p.clone(), Retired { hash: *h, wall });
                }
            }
        }
        for p in new.files.keys() {
            v.retired.remove(p);
            self.node(node).settled.remove(p);
            self.node(node).orphans.remove(p);
        }
        let _ = (first, rels);
        if let Some(m) = self.rrdp_modes(key, &v.dir, &new.files) {
            self.violate(&["C21"], "not-readable", m);
        }
        // two mirrors with the same deltas must publish the same notification
        let me = (new.session.clone(), new.serial, new.deltas.clone());
        let mut diff = None;
        for (n2, o) in &self.oracle.nodes {
            if *n2 == node {
                continue;
            }
            for (k2, v2) in &o.rrdp {
                if let Some(c2) = &v2.cur {
                    if v2.base == v.base && (c2.session.clone(), c2.serial, c2.deltas.clone()) == me && c2.sha != new.sha {
                        diff = Some(k2.clone());
                    }
                }
            }
        }
        if let Some(k2) = diff {
            self.violate(&["C17"], "notifications-differ", format!("{} and {} announce the same revision and deltas with different bytes", key, k2));
        }
        v.since.push(new.clone());
        v.cur = Some(new);
        v.gone = false;
    }

    // ------------------------------------------------------------------ rsync

    /// Digest of the tree at a directory (paths and content).
    fn tree_at(&mut self, ino: Ino) -> u64 {
        let w = self.vfs.walk(ino);
        let mut v = Vec::with_capacity(w.len());
        for (p, i) in w {
            match self.vfs.get(i).kind {
                Kind::Dir => {}
                Kind::File => v.push((p, self.vfs.sha(i))),
                _ => v.push((p, [1; 32])),
            }
        }
        Source::tree_digest(v.into_iter())
    }

    fn check_rsync(&mut self, pid: u32, node: u8, key: &str, paths: &[&str], op: OpSel) {
        let mut v = self.node(node).rsync[key].clone();
        let link = format!("{}/current", key);
        let wall = self.eff_ns();
        let mono = self.mono;
        let cfg = self.procs[&pid].cfg.clone();
        let about_current = v.cur.as_ref().map_or(true, |c| paths.iter().any(|p| same_or_under(p, &c.target) || same_or_under(&c.target, p)))
            || paths.iter().any(|p| same_or_under(p, &link) || same_or_under(&link, p));
        if about_current && !v.broken {
            match self.vfs.lookup(&link) {
                None => {
                    let dangling = self.vfs.lookup_nofollow(&link).is_some();
                    if v.cur.is_some() || dangling {
                        self.violate(
                            &["C05"],
                            if dangling { "current-dangling" } else { "current-gone" },
                            format!("{} {}", link, if dangling { "points to nothing" } else { "is gone" }),
                        );
                        v.broken = true;
                    }
                }
                Some(i) => {
                    let target = self.vfs.canon(i);
                    let dg = self.tree_at(i);
                    let moved = v.cur.as_ref().map_or(true, |c| c.target != target);
                    let changed = v.cur.as_ref().map_or(true, |c| c.digest != dg);
                    if moved || changed {
                        self.rsync_switched(pid, node, &mut v, &link, target, dg, moved, wall, mono, &cfg);
                    } else if op == OpSel::Utimes {
                        // touching published objects without need would make clients fetch them again
                        if self.mtime_problem(i, cfg.host).is_some() {
                            let m = self.mtime_problem(i, cfg.host).unwrap();
                            self.violate(&["C18"], "mtime-changed", m);
                        }
                    }
                }
            }
        }
        let mut drop = vec![];
        for (p, (dg, w)) in &v.retired {
            if !paths.iter().any(|x| same_or_under(x, p) || same_or_under(p, x)) {
                continue;
            }
            let cleanup = cfg.cleanup as i64;
            let expired = wall - w >= cleanup * S - S;
            let now = match self.vfs.lookup_nofollow(p) {
                None => None,
                Some(i) => Some(self.tree_at(i)),
            };
            if now != Some(*dg) {
                if !expired {
                    self.violate(
                        &["C06", "C05"],
                        if now.is_none() { "retired-tree-removed" } else { "retired-tree-changed" },
                        format!("{} was current until {} s ago, retention is {} s", p, (wall - w) / S, cleanup),
                    );
                }
                drop.push(p.clone());
            }
        }
        for p in drop {
            v.retired.remove(&p);
        }
        self.node(node).rsync.insert(key.to_string(), v);
    }

    #[allow(clippy::too_many_arguments)]
    fn rsync_switched(&mut self, pid: u32, node: u8, v: &mut SView, link: &str, target: String, dg: u64, moved: bool, wall: i64, mono: u64, cfg: &Cfg) {
        let served = self.oracle.runs.get(&pid).and_then(|r| r.served);
        let matching: Vec<usize> = (0..self.source.revs.len()).filter(|r| self.source.revs[*r].digest.contains(&dg)).collect();
        let exempt = served.map_or(false, |s| self.source.revs[self.source.notifs[s].rev].traversal);
        if matching.is_empty() && !exempt {
            let what = if moved { "switched to" } else { "changed in place to" };
            self.violate(
                &["C05"],
                if moved { "current-not-a-revision" } else { "current-modified" },
                format!("{} {} a tree ({}) that is no revision of the source", link, what, target),
            );
            v.broken = true;
            return;
        }
        if !moved && !exempt {
            // another revision's tree appeared in place
            self.violate(&["C05"], "current-modified", format!("{} changed in place", link));
        }
        if let Some(r) = self.oracle.runs.get_mut(&pid) {
            r.switched = true;
        }
        self.stats.add("published.rsync", 1);
        self.log(|| format!("[{}] SWITCHED {} to {}", pid, link, target));
        if let Some(s) = served {
            let rec = self.source.notifs[s].clone();
            let want = self.source.revs[rec.rev].digest[cfg.host as usize];
            let before = self.oracle.runs.get(&pid).and_then(|r| r.before.clone());
            let genuine_here = rec.bad.is_none() || !self.must_fail(&rec, cfg, before.as_ref(), self.oracle.runs.get(&pid).map_or(false, |r| r.source_changed));
            if dg != want && !exempt {
                let other = self.source.revs[rec.rev].digest[1 - cfg.host as usize] == dg;
                if other {
                    self.violate(&["C20", "C02"], "wrong-layout", format!("{} does not follow the configured layout", link));
                } else {
                    self.violate(&["C05", "C02"], "wrong-revision", format!("{} shows another revision than the one being published", link));
                }
            }
            if !genuine_here && !exempt {
                self.violate(&["C03"], "bad-source-published", format!("{} switched although the source is broken ({:?})", link, rec.bad));
            }
        }
        self.compare_trees(node, dg, link, &target);
        if let Some(m) = self.tree_modes(&v.dir, &target) {
            self.violate(&["C21"], "not-readable", m);
        }
        if moved {
            if let Some(c) = &v.cur {
                if c.target != target {
                    v.retired.insert(c.target.clone(), (c.digest, wall));
                }
            }
            v.retired.remove(&target);
            self.node(node).settled.remove(&target);
            self.node(node).orphans.remove(&target);
        }
        let new = SPub { target: target.clone(), digest: dg, at: mono };
        v.since.push(new.clone());
        v.cur = Some(new);
        if let Some(i) = self.vfs.lookup(&target) {
            if let Some(m) = self.mtime_problem(i, cfg.host) {
                self.violate(&["C18"], "mtime-wrong", m);
            }
        }
        let _ = node;
    }

    /// First object below the tree whose modification time is not the one its content demands.
    /// The trees of one revision are the same on all mirrors.
    fn compare_trees(&mut self, node: u8, dg: u64, link: &str, target: &str) {
        let Some(ino) = self.vfs.lookup(target) else { return };
        let mut times = BTreeMap::new();
        for (p, i) in self.vfs.walk(ino) {
            if self.vfs.get(i).kind == Kind::File && !self.oracle.no_mtime.contains(&i) {
                let sha = self.vfs.sha(i);
                if self.source.blobs.iter().any(|b| b.sha == sha && b.mtime.is_some()) {
                    times.insert(p, self.vfs.get(i).mtime);
                }
            }
        }
        match self.oracle.trees.get(&dg) {
            None => {
                self.oracle.trees.insert(dg, (node, times));
            }
            Some((n, old)) if *n != node => {
                let diff = times.iter().find(|(p, t)| old.get(*p).map_or(false, |o| o != *t)).map(|(p, t)| format!("{} has modification time {} at {} and {} at another mirror", p, t.0, link, old[p].0));
                if let Some(m) = diff {
                    self.violate(&["C17"], "trees-differ", m);
                }
            }
            _ => {}
        }
    }

    /// Whether those who serve what is published can read it.
    fn mode_problem(&self, path: &str, ino: Ino) -> Option<String> {
        let n = self.vfs.get(ino);
        let all = match n.kind {
            Kind::File => 0o444,
            Kind::Dir => 0o555,
            _ => return None,
        };
        if n.foreign {
            return None;
        }
        let um = self.plan.world.umask as u32;
        if n.mode & all & !um != all & !um {
            return Some(format!("{} has mode {:03o}, so not everybody whom the umask {:03o} allows can read it", path, n.mode, um));
        }
        if n.mode & um & 0o022 != 0 {
            return Some(format!("{} has mode {:03o}, which lets others write to it despite the umask {:03o}", path, n.mode, um));
        }
        None
    }

    /// Everything from the RRDP directory down to the files that are listed.
    fn rrdp_modes(&self, key: &str, dir: &str, files: &BTreeMap<String, [u8; 32]>) -> Option<String> {
        let mut seen = BTreeSet::new();
        for f in files.keys().map(|f| f.as_str()).chain([key]) {
            let mut p = f;
            while same_or_under(p, dir) && seen.insert(p.to_string()) {
                if let Some(m) = self.vfs.lookup(p).and_then(|i| self.mode_problem(p, i)) {
                    return Some(m);
                }
                p = dir_of(p);
            }
        }
        None
    }

    fn tree_modes(&self, dir: &str, target: &str) -> Option<String> {
        for p in [dir, target] {
            if let Some(m) = self.vfs.lookup(p).and_then(|i| self.mode_problem(p, i)) {
                return Some(m);
            }
        }
        let i = self.vfs.lookup(target)?;
        self.vfs.walk(i).into_iter().find_map(|(p, i)| self.mode_problem(&format!("{}/{}", target, p), i))
    }

    fn mtime_problem(&mut self, ino: Ino, _host: bool) -> Option<String> {
        let w = self.vfs.walk(ino);
        for (p, i) in w {
            if self.vfs.get(i).kind != Kind::File || self.oracle.no_mtime.contains(&i) {
                continue;
            }
            let sha = self.vfs.sha(i);
            let want = self.source.blobs.iter().find(|b| b.sha == sha).and_then(|b| b.mtime);
            if let Some(m) = want {
                // the object's name decides how it is read
                let got = self.vfs.get(i).mtime;
                if got != (m, 0) {
                    return Some(format!("{} has modification time {}.{:09}, its content says {}", p, got.0, got.1, m));
                }
            }
        }
        None
    }

    // ----------------------------------------------------------------- run end

    /// Deltas the run has to add (newer than what was published before).
    fn expected_new(&self, rec: &NotifRec, max: Option<u32>, before: Option<&Pub>) -> Vec<FileRef> {
        let mut ds = rec.deltas.clone();
        ds.sort_by_key(|d| d.serial);
        let m = max.map_or(usize::MAX, |m| m as usize);
        let skip = ds.len().saturating_sub(m);
        ds.drain(..skip);
        if let Some(b) = before {
            if b.session == rec.session {
                ds.retain(|d| d.serial > b.serial);
            }
        }
        ds
    }

    fn must_fail(&self, rec: &NotifRec, cfg: &Cfg, before: Option<&Pub>, changed: bool) -> bool {
        let max = cfg.max.map_or(u64::MAX, |m| m as u64);
        if rec.stale {
            return before.map_or(false, |b| b.session == rec.session && b.serial > rec.serial);
        }
        use Bad::*;
        // accepted earlier, with a maximum of no deltas at all
        let held = before.map_or(false, |b| b.session == rec.session && b.serial == rec.serial);
        match rec.bad {
            None => false,
            Some(NotifGap | NotifNoLast | NotifBeyond) if held => false,
            Some(DeltaHash | DeltaXml | DeltaB64 | DeltaSession | DeltaSerial | DeltaMissing | DeltaOutside | DeltaTraversal) if held => false,
            Some(b) => match b {
                NotifXml | NotifEmpty | NotifHtml => true,
                NotifGap => max >= 2,
                NotifNoLast | NotifBeyond => max >= 1,
                NotifDup | Rewritten => false,
                ObjTraversalHost | ObjTraversalModule => false,
                // only rsync needs files and directories for objects
                ObjConflict | ObjSlash => cfg.rsync && !held,
                // the source may have been repaired in the meantime
                SnapHash | SnapMissing if changed => false,
                DeltaHash | DeltaMissing if changed => false,
                SnapHash | SnapXml | SnapB64 | SnapSession | SnapSerial | SnapEmpty | SnapMissing | SnapIsDelta | SnapOutside
                | SnapTraversal => true,
                SnapIsNotif => cfg.notif_alt == 0,
                SnapAbsolute => false,
                DeltaHash | DeltaXml | DeltaB64 | DeltaSession | DeltaSerial | DeltaMissing | DeltaOutside | DeltaTraversal => max > rec.depth as u64,
                DeltaAbsolute | DeltaIsNotifTmp => false,
            },
        }
    }

    /// Some(true): certainly valid, Some(false): certainly not
    fn validity(&self, rec: &NotifRec, cfg: &Cfg, from: i64, to: i64, third_from: u64) -> Option<bool> {
        if cfg.tal == 0 || !self.plan.src.signed {
            return None;
        }
        let r = &self.source.revs[rec.rev];
        if self.plan.src.tree == 1 {
            let t = &fixtures().trees.trees;
            let tas = crate::layout::tals(cfg.tal);
            let mut own = false;
            let mut unsure = false;
            let both = tas.iter().any(|x| x.1 == 0) && tas.iter().any(|x| x.1 == 1);
            for (_, k) in tas {
                // is there a certificate to start from?
                match self.source.ta_mode[*k] {
                    0 | 1 => {}
                    3 => {
                        let end = fixtures().trees.tas[*k].short;
                        if from > (end + 60) * S {
                            return Some(false);
                        }
                        unsure |= to > (end - 60) * S;
                    }
                    _ => return Some(false),
                }
            }
            let good = (true, EPOCH - 6 * 3600, EPOCH + 30 * 86_400);
            let (a, b, g4) = match r.variant {
                V_DAMAGED => ((false, 0, 0), good, 0),
                v => {
                    let x = &t[v as usize];
                    (x.a, x.b, x.g4)
                }
            };
            for (_, k) in tas {
                let v = match *k {
                    0 => a,
                    1 => b,
                    _ => continue,
                };
                own = true;
                if !v.0 || to < (v.1 - 60) * S || from > (v.2 + 60) * S {
                    return Some(false);
                }
                unsure |= from < (v.1 + 60) * S || to > (v.2 - 60) * S;
                // parts of the repository that are reached only through the other publisher
                if *k == 0 && g4 == 2 && self.source.third.listed_ever {
                    // what is there is looked at once an hour
                    let late = |t: u64| !cfg.offline && third_from > t + 75 * 60 * 1_000_000_000;
                    match (self.source.third.lists, self.source.third.plain_since) {
                        (Some(t), _) if late(t) => return Some(false),
                        (None, Some(t)) if late(t) => {}
                        _ => unsure = true,
                    }
                }
            }
            if !own {
                // nothing leads to this repository
                return Some(false);
            }
            if !both && (!a.0 || !b.0) {
                // parts of it are broken, but nothing leads there
                unsure = true;
            }
            return if unsure { None } else { Some(true) };
        }
        if cfg.tal != 1 {
            return None;
        }
        if r.variant != 0 {
            return Some(false);
        }
        const LO: i64 = 1_676_296_470; // youngest thisUpdate
        const HI: i64 = 1_676_382_540; // oldest nextUpdate
        if from >= (LO + 60) * S && to <= (HI - 60) * S {
            Some(true)
        } else if to < (LO - 7200) * S || from > (HI + 7200) * S {
            Some(false)
        } else {
            None
        }
    }

    pub fn oracle_run_end(&mut self, pid: u32, e: &Exit) {
        let Some(r) = self.oracle.runs.remove(&pid) else { return };
        self.oracle.ending = Some(self.circumstances(pid, &r));
        self.judge_run(pid, e, r);
        self.oracle.ending = None;
    }

    fn judge_run(&mut self, pid: u32, e: &Exit, r: RunCtx) {
        let cfg = self.procs[&pid].cfg.clone();
        let node = r.node;
        let wall = self.wall_ns();
        let (local, netf, ended, started) = {
            let p = &self.procs[&pid];
            (p.local_fired, p.net_fired, self.mono, r.start)
        };
        let unsupported = !self.procs[&pid].unsupported.is_empty();
        let v = self.node(node).rrdp[&r.vkey].clone();
        let after = v.cur.clone();
        let sv = self.node(node).rsync[&r.dirs.rsync].clone();
        let rec = r.served.map(|s| self.source.notifs[s].clone());
        let ok = *e == Exit::Code(0);
        self.check_staged(&r, &cfg);
        if let (false, Some(n)) = (ok, &rec) {
            let k = n.deltas.len() + 1;
            let at = self.mono;
            self.node(node).tries.push((at, k));
        }
        let killed = matches!(e, Exit::Crash | Exit::Power | Exit::Hang(_));
        let tal_reject = cfg.tal > 0 && cfg.reject;
        let script_spawn_fails = cfg.scripts.iter().any(|s| s.spawn != 0);
        let script_fails = cfg.scripts.iter().any(|s| s.exit != 0);
        let third_ok = !self.net.reqs.iter().any(|q| q.pid == pid && q.kind == NetSel::Third && q.fault);
        let aside = self.source.aside != r.aside;
        let valid = if aside { None } else { rec.as_ref().and_then(|n| self.validity(n, &cfg, r.start_wall, wall, if third_ok { r.start } else { 0 })) };
        let ta_fault = aside
            || self.net.reqs.iter().any(|q| q.pid == pid && q.kind == NetSel::Ta && q.fault)
            || crate::layout::tals(cfg.tal).iter().any(|x| self.source.ta_mode[x.1] > 1);
        let unchanged = match (&r.before, &rec) {
            (Some(b), Some(n)) => b.session == n.session && b.serial == n.serial,
            _ => false,
        };
        let published_same = r.before.as_ref().map(|b| (b.sha, b.files.clone())) == after.as_ref().map(|b| (b.sha, b.files.clone()))
            && r.before_cur.as_ref().map(|c| (c.target.clone(), c.digest)) == sv.cur.as_ref().map(|c| (c.target.clone(), c.digest));

        // bounded time
        if !matches!(e, Exit::Hang(_)) {
            let files = rec.as_ref().map_or(0, |n| n.deltas.len() + 1) as u64;
            let scripts: u64 = cfg.scripts.iter().map(|s| s.ms as u64).sum();
            let slow: u64 = self.procs[&pid].faults.iter().map(|a| if let FaultKind::Delay(ms) = a.f.kind { ms as u64 * (a.fired as u64) } else { 0 }).sum();
            let disk = self.procs[&pid].muts as u64 * 41 + self.procs[&pid].ops as u64 / 10;
            let files = files + if cfg.tal > 0 { 8 } else { 0 };
            let bound = (files + 3) * 125_000 + cfg.delay as u64 * 1000 + scripts + slow + disk + 60_000 + self.other_time(pid);
            if (ended - started) / 1_000_000 > bound {
                self.violate(&["C16"], "run-too-long", format!("the run took {} s, the bound is {} s", (ended - started) / 1_000_000_000, bound / 1000));
            }
        }

        if ok {
            if !r.proceeded && r.overlapped {
                self.violate(&["C09"], "loser-exits-0", "a run that found the installation busy exited with status 0".into());
            }
            match (&rec, r.proceeded) {
                (None, true) => {
                    self.violate(&["C03", "C02"], "no-notification-but-ok", "exit status 0 although no notification was received".into());
                }
                (None, false) => {
                    if !r.overlapped {
                        self.violate(&["C02", "C08"], "did-nothing", "exit status 0 without any work".into());
                    }
                }
                (Some(n), _) => {
                    let n = n.clone();
                    self.check_success(pid, &r, &cfg, &n, after.as_ref(), &sv, unchanged, published_same);
                    if !r.tampered && self.must_fail(&n, &cfg, r.before.as_ref(), r.source_changed) {
                        self.violate(&["C03"], "bad-source-accepted", format!("exit status 0 although the source is broken: {:?} stale {}", n.bad, n.stale));
                        if n.stale {
                            self.violate(&["C04"], "stale-accepted", "exit status 0 although the serial went backwards".into());
                        }
                    }
                    let gated = !unchanged || r.published || r.switched;
                    if gated && !r.tampered {
                        if tal_reject && valid == Some(false) {
                            self.violate(&["C13"], "invalid-accepted", format!("a revision that does not validate (variant {}) was accepted", self.source.revs[n.rev].variant));
                        }
                        if !cfg.scripts.is_empty() {
                            if cfg.reject && script_fails {
                                self.violate(&["C14"], "rejection-ignored", "exit status 0 although a script rejected the revision".into());
                            }
                            if script_spawn_fails {
                                self.violate(&["C14"], "spawn-failure-ignored", "exit status 0 although a script could not be started".into());
                            }
                            if r.scripts_ended.len() != cfg.scripts.len() || r.script_killed {
                                self.violate(&["C14"], "scripts-not-run", format!("exit status 0 but {} of {} scripts completed", r.scripts_ended.len(), cfg.scripts.len()));
                            }
                        }
                    }
                }
            }
        } else if !killed {
            // a run that must fail, or failed because of its source, leaves everything alone
            let source_reason = rec.as_ref().map_or(false, |n| !r.tampered && self.must_fail(n, &cfg, r.before.as_ref(), r.source_changed));
            if !published_same {
                if source_reason {
                    self.violate(&["C03"], "changed-by-failed-run", "the run failed because of its source, but published data changed".into());
                }
                if rec.is_none() && r.proceeded {
                    self.violate(&["C03"], "changed-without-notification", "published data changed although no notification was received".into());
                }
                if netf > 0 && local == 0 && !r.published && !r.switched {
                    self.violate(&["C03"], "changed-by-failed-run", "network failure, but published data changed".into());
                }
                if tal_reject && valid == Some(false) {
                    self.violate(&["C13"], "invalid-published", "an invalid revision was published by a failing run".into());
                }
            }
            // a failing script does not keep the others from being run
            if local == 0
                && !script_spawn_fails
                && !r.script_killed
                && !r.scripts_started.is_empty()
                && r.scripts_started.len() < cfg.scripts.len()
            {
                let msg = format!("{} of {} scripts were run", r.scripts_started.len(), cfg.scripts.len());
                self.violate(&["C14"], "scripts-skipped", msg);
            }
            if netf > 0 && local == 0 && (r.published || r.switched) {
                self.violate(&["C03"], "changed-by-failed-run", "a run that failed on the network changed published data".into());
            }
            if !r.proceeded && r.touched {
                self.violate(&["C09"], "loser-changes", "a run that did not get to work changed published data".into());
            }
            // healthy conditions: it must not fail
            let gate_ok = (valid != Some(false) || !tal_reject) && !(valid.is_none() && tal_reject) && !(cfg.reject && script_fails) && !script_spawn_fails;
            let traversal = rec.as_ref().map_or(false, |n| self.source.revs[n.rev].traversal);
            let source_ok = !r.source_dirty && !r.source_changed && !traversal;
            let healthy = source_ok && local == 0 && netf == 0 && !r.overlapped && gate_ok && !ta_fault && !unsupported;
            if healthy {
                let mut props: Vec<&str> = vec![];
                if r.disturbed || r.crashed {
                    props.push("C08");
                }
                if r.crashed && !r.proceeded {
                    props.push("C09");
                }
                if r.cfg_changed || cfg.max == Some(0) {
                    props.push("C20");
                }
                if cfg.tal > 0 && r.proceeded {
                    props.push("C13");
                }
                if !cfg.scripts.is_empty() && r.scripts_started.len() > 0 {
                    props.push("C14");
                }
                if unchanged {
                    props.push("C12");
                }
                if cfg.insecure {
                    props.push("C15");
                }
                props.push("C02");
                if !r.disturbed && !r.crashed {
                    props.push("C08");
                }
                let msg = {
                    let p = &self.procs[&pid];
                    let t = String::from_utf8_lossy(&p.stderr);
                    let t: String = t.trim().chars().take(300).collect();
                    format!("a run with a healthy source and healthy storage ended with {:?}: {}", e, t)
                };
                self.violate(&props, "healthy-run-fails", msg);
            }
            if *e == Exit::Code(101) || matches!(e, Exit::Signal(_)) {
                self.stats.add("runs.panic", 1);
            }
        }

        // ---- what is published can be read
        if r.touched && !killed {
            let m = after.as_ref().and_then(|a| self.rrdp_modes(&r.vkey, &v.dir, &a.files));
            let m = m.or_else(|| sv.cur.as_ref().and_then(|c| self.tree_modes(&sv.dir, &c.target)));
            if let Some(m) = m {
                self.violate(&["C21"], "not-readable", m);
            }
        }

        let update = ok && (r.published || r.switched);
        // ---- what is reported
        if !killed {
            let (out, err) = {
                let p = &self.procs[&pid];
                (String::from_utf8_lossy(&p.stdout).to_string(), String::from_utf8_lossy(&p.stderr).to_string())
            };
            let head: String = err.trim().chars().take(300).collect();
            match e {
                Exit::Code(0) => {
                    let failed = r.scripts_ended.iter().any(|i| cfg.scripts[*i].exit != 0);
                    if !err.trim().is_empty() && self.plan.world.out == 0 {
                        self.violate(&["C22"], "noise", format!("exit status 0, but on standard error: {}", head));
                    } else if cfg.quiet && self.plan.world.out == 0 && local == 0 && !failed && !out.trim().is_empty() {
                        let t: String = out.trim().chars().take(300).collect();
                        self.violate(&["C22"], "noise", format!("a quiet run without a failure prints: {}", t));
                    }
                }
                Exit::Code(101) | Exit::Signal(_) => {
                    self.violate(&["C22"], "panic", format!("the run ended with {:?}: {}", e, head));
                }
                _ => {
                    if err.trim().is_empty() {
                        self.violate(&["C22"], "silent-failure", format!("the run ended with {:?} without a message on standard error", e));
                    }
                }
            }
            let unremoved = self.procs[&pid].unremoved.clone();
            let kept = unremoved.into_iter().find(|p| {
                (under(p, &r.dirs.rrdp) || under(p, &r.dirs.rsync)) && self.vfs.lookup_nofollow(p).is_some()
            });
            if let (true, Some(p), true) = (ok, kept, out.trim().is_empty() && self.plan.world.out == 0) {
                self.violate(&["C22", "C07"], "removal-failure-hidden", format!("{} could not be removed, but the run ended with status 0 and says nothing", p));
            }
            if ok && update && !cfg.quiet && cfg.verbose > 0 && local == 0 && self.plan.world.out == 0 && out.trim().is_empty() {
                self.violate(&["C22"], "not-verbose", "asked to be verbose, but an update prints nothing".into());
            }
            if local == 0 && self.plan.world.out == 0 {
                for i in &r.scripts_ended {
                    let name = format!("check-{}", i);
                    if cfg.scripts[*i].exit != 0 && cfg.verbose == 0 && !out.contains(&name) && !err.contains(&name) {
                        self.violate(&["C22", "C14"], "script-failure-unreported", format!("script {} ended with {}, but nothing is said about it", name, cfg.scripts[*i].exit));
                    }
                }
                let gated = !unchanged || r.published || r.switched;
                if ok && gated && !cfg.quiet && cfg.tal > 0 && valid == Some(false) && out.trim().is_empty() {
                    self.violate(&["C22", "C13"], "issues-unreported", "the revision does not validate, but nothing is said about it".into());
                }
            }
        }

        // ---- bookkeeping
        if ok && r.proceeded {
            let n = self.node(node);
            let v = n.rrdp.get_mut(&r.vkey).unwrap();
            v.since = v.cur.iter().cloned().collect();
            v.committed |= v.cur.is_some();
            if cfg.rsync {
                let v = n.rsync.get_mut(&r.dirs.rsync).unwrap();
                v.since = v.cur.iter().cloned().collect();
                v.committed |= v.cur.is_some();
            }
        }
        let mut completed = self.node(node).completed.clone();
        if ok && rec.is_some() && !r.tampered {
            if let Some(a) = &after {
                let n = rec.as_ref().unwrap();
                if a.session == n.session && a.serial == n.serial && a.genuine {
                    let base = v.base.clone();
                    let rev = self.source.rev_of(&a.session, a.serial).unwrap();
                    let ds = self.source.revs[rev].deltas.iter().filter(|d| a.deltas.contains(&d.serial)).map(|d| d.rel.clone()).collect();
                    let _ = base;
                    completed = Some(Completed {
                        session: a.session.clone(),
                        serial: a.serial,
                        deltas: ds,
                        dirs: r.dirs.clone(),
                        name: v.name.clone(),
                        cfg: cfg.clone(),
                    });
                } else {
                    completed = None;
                }
            }
        } else if r.touched {
            completed = None;
        }
        let n = self.node(node);
        n.completed = completed;
        if killed {
            n.crashed = true;
        } else if !ok {
            n.disturbed = true;
        }
        if ok && r.proceeded {
            n.disturbed = false;
            n.crashed = false;
        }
        if update {
            n.cfg_changed = false;
            n.updates += 1;
        }
        if update {
            self.settle(node, &r, &cfg);
        }
        let what = match e {
            Exit::Code(0) => {
                if update {
                    "runs.updated"
                } else {
                    "runs.unchanged"
                }
            }
            Exit::Code(101) => "runs.panicked",
            Exit::Code(_) => "runs.failed",
            Exit::Signal(_) => "runs.signal",
            Exit::Crash => "runs.crashed",
            Exit::Power => "runs.powerloss",
            Exit::Hang(_) => "runs.hung",
        };
        self.stats.add(what, 1);
        // distinct histories of one run
        let h = {
            let p = &self.procs[&pid];
            fnv(p.sig, format!("{:?}{}{}", e, r.published, r.switched).as_bytes())
        };
        self.states.push(h);
    }

    /// Time taken by other instances that ran in between.
    fn other_time(&self, pid: u32) -> u64 {
        if self.procs.len() > 1 {
            let _ = pid;
            3_600_000
        } else {
            0
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn check_success(&mut self, pid: u32, r: &RunCtx, cfg: &Cfg, n: &NotifRec, after: Option<&Pub>, sv: &SView, unchanged: bool, published_same: bool) {
        let key = &r.vkey;
        if unchanged && !r.published && !r.switched {
            // nothing to do; was it really nothing?
            if !published_same {
                self.violate(&["C12"], "unchanged-but-different", "the source is unchanged, but published data differs".into());
            }
            return;
        }
        let a = match after {
            Some(a) => a,
            None => {
                let c = r.cfg_changed;
                if !(c && self.node(r.node).updates > 0) {
                    self.violate(&["C02"], "nothing-published", format!("exit status 0 but {} does not exist", key));
                } else if !r.source_dirty && !self.same_as_any_view(r.node, n) {
                    self.violate(&["C20", "C02"], "nothing-published", format!("exit status 0 after an update but {} does not exist", key));
                }
                return;
            }
        };
        if r.tampered && published_same {
            return;
        }
        if a.session != n.session || a.serial != n.serial {
            let props: &[&str] = if r.cfg_changed { &["C20", "C02"] } else { &["C02"] };
            if n.bad.is_none() || !self.must_fail(n, cfg, r.before.as_ref(), r.source_changed) {
                self.violate(
                    props,
                    "wrong-revision-published",
                    format!("exit status 0, the source served serial {} of session {}, published is serial {} of session {}", n.serial, n.session, a.serial, a.session),
                );
            }
            return;
        }
        if unchanged && !r.published {
            return;
        }
        if n.bad.is_some() {
            return;
        }
        // deltas
        let mut listed = n.deltas.clone();
        listed.sort_by_key(|d| d.serial);
        let max = cfg.max.map_or(usize::MAX, |m| m as usize);
        let skip = listed.len().saturating_sub(max);
        let allowed: Vec<u64> = listed[skip..].iter().map(|d| d.serial).collect();
        let extra: Vec<u64> = a.deltas.iter().copied().filter(|d| !allowed.contains(d)).collect();
        if !extra.is_empty() {
            let props: &[&str] = if r.cfg_changed { &["C02", "C20"] } else { &["C02"] };
            self.violate(props, "too-many-deltas", format!("{} lists deltas {:?} but the source and the maximum only allow {:?}", key, a.deltas, allowed));
        }
        let mut need: Vec<u64> = self.expected_new(n, cfg.max, r.before.as_ref()).iter().map(|d| d.serial).collect();
        if let Some(b) = &r.before {
            if b.session == n.session {
                need.extend(b.deltas.iter().copied().filter(|d| allowed.contains(d)));
            }
        }
        let missing: Vec<u64> = need.iter().copied().filter(|d| !a.deltas.contains(d)).collect();
        if !missing.is_empty() {
            let props: &[&str] = if r.cfg_changed { &["C02", "C20"] } else { &["C02"] };
            self.violate(props, "missing-deltas", format!("{} lists deltas {:?}, missing {:?}", key, a.deltas, missing));
        }
        if cfg.rsync {
            let want = self.source.revs[n.rev].digest[cfg.host as usize];
            let good = sv.cur.as_ref().map_or(false, |c| c.digest == want) && !sv.broken;
            if !good && !self.source.revs[n.rev].traversal {
                let props: &[&str] = if r.cfg_changed { &["C02", "C20", "C05"] } else { &["C02", "C05"] };
                self.violate(props, "rsync-not-updated", format!("exit status 0 but the rsync tree is not at serial {}", n.serial));
            }
            if let Some(c) = &sv.cur {
                let i = self.vfs.lookup(&c.target);
                if let Some(i) = i {
                    if let Some(m) = self.mtime_problem(i, cfg.host) {
                        self.violate(&["C18"], "mtime-wrong", m);
                    }
                }
            }
        }
        // nothing stays in the staging directory
        if self.staging_known() {
            let mut st = self.staged_files(&r.dirs, cfg);
            st.retain(|p| *p != n.snap.rel && n.deltas.iter().all(|d| *p != d.rel));
            if let Some(f) = st.iter().next() {
                self.violate(&["C07"], "staged-kept", format!("{} ({} in all) is still staged after a successful update", f, st.len()));
            }
        }
        // superseded content
        let cleanup = cfg.cleanup as i64;
        if self.node(r.node).settled_dirs.as_ref() != Some(&r.dirs) {
            self.node(r.node).settled.clear();
        }
        // leftovers of runs in between that had a use for the same name
        for (p, q) in std::mem::take(&mut self.node(r.node).replaced) {
            if q != pid {
                self.node(r.node).settled.remove(&p);
            }
        }
        let settled: Vec<(String, i64)> = self.node(r.node).settled.iter().map(|(k, v)| (k.clone(), *v)).collect();
        for (p, w) in settled {
            if !(under(&p, &r.dirs.rrdp) || cfg.rsync && under(&p, &r.dirs.rsync)) {
                continue;
            }
            if w + cleanup * S + S < r.start_wall && r.start_wall > w {
                if let Some(i) = self.vfs.lookup_nofollow(&p) {
                    let listed = a.files.contains_key(&p);
                    let current = sv.cur.as_ref().map_or(false, |c| c.target == p);
                    if !listed && !current && !self.has_foreign(i) {
                        let was_pub = self.node(r.node).rrdp[&r.vkey].retired.contains_key(&p)
                            || self.node(r.node).rsync[&r.dirs.rsync].retired.contains_key(&p);
                        self.violate(
                            &["C07"],
                            if was_pub { "superseded-kept" } else { "leftover-kept" },
                            format!("{} is superfluous since {} s, retention is {} s", p, (r.start_wall - w) / S, cleanup),
                        );
                    }
                }
            }
        }
        for d in r.removed_parents.iter() {
            if under(d, &r.dirs.rrdp) {
                if let Some(i) = self.vfs.lookup_nofollow(d) {
                    let x = self.vfs.get(i);
                    if x.kind == Kind::Dir && x.entries.is_empty() && !x.foreign {
                        self.violate(&["C07"], "empty-dir", format!("{} is left empty", d));
                    }
                }
            }
        }
        let _ = pid;
    }

    /// whether it is known what may be in the staging directory
    fn staging_known(&self) -> bool {
        !self.oracle.power && !self.oracle.damaged && !self.plan.steps.iter().any(|s| matches!(s, Step::Run { cfg, .. } if cfg.notif_alt > 0))
    }

    /// what the program has put in the staging directory and not moved on
    fn staged_files(&self, dirs: &Dirs, cfg: &Cfg) -> BTreeSet<String> {
        let name = public(&self.plan.src, cfg.notif_alt).1;
        let tmp = format!("{}.tmp", name);
        let Some(i) = self.vfs.lookup(&staging(dirs)) else { return BTreeSet::new() };
        let files = self.vfs.walk(i);
        files.into_iter().filter(|(p, f)| self.vfs.get(*f).kind == Kind::File && !self.vfs.get(*f).foreign && *p != name && *p != tmp).map(|x| x.0).collect()
    }

    /// What is staged and not published does not pile up.
    fn check_staged(&mut self, r: &RunCtx, cfg: &Cfg) {
        if !self.staging_known() || r.tampered {
            return;
        }
        let st = self.staged_files(&r.dirs, cfg);
        if st.is_empty() {
            return;
        }
        let fits = |n: &NotifRec| st.iter().all(|p| *p == n.snap.rel || n.deltas.iter().any(|d| *p == d.rel));
        if !self.source.notifs.iter().any(fits) {
            let l: Vec<&String> = st.iter().collect();
            self.violate(&["C07"], "staged-pile-up", format!("{:?} are staged, which belong to several revisions", l));
        }
    }

    fn same_as_any_view(&self, node: u8, n: &NotifRec) -> bool {
        self.oracle.nodes[&node].rrdp.values().any(|v| v.cur.as_ref().map_or(false, |c| c.session == n.session && c.serial == n.serial))
    }

    fn has_foreign(&self, i: Ino) -> bool {
        let x = self.vfs.get(i);
        x.foreign || (x.kind == Kind::Dir && self.vfs.walk(i).iter().any(|f| self.vfs.get(f.1).foreign))
    }

    /// After a successful update: remember what is superfluous from now on.
    fn settle(&mut self, node: u8, r: &RunCtx, cfg: &Cfg) {
        let wall = self.wall_ns();
        let mut found: BTreeSet<String> = BTreeSet::new();
        let names: Vec<String> = self.node(node).rrdp.keys().cloned().collect();
        let listed = self.node(node).rrdp[&r.vkey].cur.as_ref().map(|c| c.files.clone()).unwrap_or_default();
        if let Some(i) = self.vfs.lookup(&r.dirs.rrdp) {
            for (p, f) in self.vfs.walk(i) {
                let x = self.vfs.get(f);
                let full = format!("{}/{}", r.dirs.rrdp, p);
                if x.kind == Kind::Dir || x.foreign || names.contains(&full) || listed.contains_key(&full) {
                    continue;
                }
                found.insert(full);
            }
        }
        if cfg.rsync {
            let cur = self.node(node).rsync[&r.dirs.rsync].cur.clone();
            if let Some(i) = self.vfs.lookup(&r.dirs.rsync) {
                let es: Vec<(String, Ino)> =
                    self.vfs.get(i).entries.iter().map(|(k, v)| (String::from_utf8_lossy(k).to_string(), *v)).collect();
                for (k, e) in es {
                    let full = format!("{}/{}", r.dirs.rsync, k);
                    if k == "current" || self.has_foreign(e) || cur.as_ref().map_or(false, |c| c.target == full) {
                        continue;
                    }
                    found.insert(full);
                }
            }
        }
        // what is remembered does not outgrow what there is
        if let (Some(i), 1) = (self.vfs.lookup(&r.dirs.state), self.node(node).dirs.len()) {
            let files: Vec<Ino> = self.vfs.get(i).entries.values().copied().collect();
            let bytes: usize = files.iter().map(|f| self.vfs.get(*f)).filter(|x| x.kind == Kind::File && !x.foreign).map(|x| x.data.len()).sum();
            // a file may be remembered before it exists
            let steady = !self.plan.steps.iter().any(|s| matches!(s, Step::ClockJump { .. }));
            let since = self.mono.saturating_sub((cfg.cleanup as u64 + 60) * 1_000_000_000);
            let tries: usize = self.node(node).tries.iter().filter(|t| !steady || t.0 >= since).map(|t| t.1).sum();
            let n = listed.len() + found.len() + tries;
            self.log(|| format!("GROW {} {} {}", bytes, n, bytes / (n + 1)));
            let plain = self.plan.steps.iter().all(|s| if let Step::Run { cfg, .. } = s { cfg.tal == 0 } else { true });
            if plain && bytes > 3000 + 400 * n {
                self.violate(&["C07"], "state-grows", format!("{} bytes are kept about {} files", bytes, n));
            }
        }
        let (rd, sd) = (r.dirs.rrdp.clone(), r.dirs.rsync.clone());
        let hi = self.wall_hi;
        let n = self.node(node);
        if n.settled_dirs.as_ref() != Some(&r.dirs) {
            // only the directories that stay configured are kept clean
            n.settled.clear();
            n.settled_dirs = Some(r.dirs.clone());
        }
        n.settled.retain(|k, _| found.contains(k) || !(under(k, &rd) || (cfg.rsync && under(k, &sd))));
        for f in found {
            if n.orphans.contains(&f) {
                continue;
            }
            // what is dated in the future after the clock was set back stays until then
            n.settled.entry(f).or_insert(wall.max(hi));
        }
    }

    // -------------------------------------------------------------- power loss

    /// What is on the disks after power was lost. `back`: what reappeared.
    pub fn oracle_power(&mut self, back: Vec<String>) {
        self.oracle.power = true;
        let nodes: Vec<u8> = self.oracle.nodes.keys().copied().collect();
        for node in nodes {
            let n = self.node(node);
            n.completed = None;
            n.crashed = true;
            n.rrdp.retain(|_, v| v.active);
            n.rsync.retain(|_, v| v.active);
            for p in &back {
                n.settled.remove(p);
                n.orphans.insert(p.clone());
                for d in n.rsync.keys() {
                    if under(p, d) {
                        let top = format!("{}/{}", d, p[d.len() + 1..].split('/').next().unwrap());
                        n.settled.remove(&top);
                        n.orphans.insert(top);
                    }
                }
            }
            let keys: Vec<String> = self.node(node).rrdp.keys().cloned().collect();
            for k in keys {
                let mut v = self.node(node).rrdp[&k].clone();
                if !v.broken && !v.gone {
                    self.power_rrdp(&k, &mut v);
                }
                self.node(node).rrdp.insert(k, v);
            }
            let keys: Vec<String> = self.node(node).rsync.keys().cloned().collect();
            for k in keys {
                let mut v = self.node(node).rsync[&k].clone();
                if !v.broken {
                    self.power_rsync(&k, &mut v);
                }
                self.node(node).rsync.insert(k, v);
            }
        }
    }

    fn power_rrdp(&mut self, key: &str, v: &mut RView) {
        let Some(i) = self.vfs.lookup(key) else {
            if v.committed {
                self.violate(&["C19"], "committed-notification-lost", format!("{} was published by a run that exited 0 and is gone", key));
                v.broken = true;
            }
            v.cur = None;
            v.since.clear();
            v.retired.clear();
            return;
        };
        let sha = self.vfs.sha(i);
        let Some(found) = v.since.iter().find(|c| c.sha == sha).cloned() else {
            let len = self.vfs.get(i).data.len();
            let class = if xml::parse_notification(&self.vfs.get(i).data).is_some() { "committed-update-lost" } else { "notification-damaged" };
            self.violate(&["C19"], class, format!("{} ({} bytes) is neither the last committed notification nor a later one", key, len));
            v.broken = true;
            return;
        };
        for (p, h) in &found.files {
            let there = self.vfs.lookup(p);
            if !there.map_or(false, |i| self.vfs.get(i).kind == Kind::File && self.vfs.sha(i) == *h) {
                let class = if there.is_some() { "listed-file-damaged" } else { "listed-file-lost" };
                let len = there.map_or(0, |i| self.vfs.get(i).data.len());
                self.violate(&["C19"], class, format!("{} lists {} which is lost or damaged ({} bytes)", key, p, len));
                v.broken = true;
                return;
            }
            v.retired.remove(p);
        }
        let retired: Vec<(String, [u8; 32])> = v.retired.iter().map(|(p, r)| (p.clone(), r.hash)).collect();
        for (p, h) in retired {
            if !self.vfs.lookup(&p).map_or(false, |i| self.vfs.sha(i) == h) {
                self.violate(&["C19"], "retired-file-damaged", format!("{} was published before and is lost or damaged", p));
                v.retired.remove(&p);
            }
        }
        v.since = vec![found.clone()];
        v.cur = Some(found);
    }

    fn power_rsync(&mut self, key: &str, v: &mut SView) {
        let link = format!("{}/current", key);
        let Some(i) = self.vfs.lookup(&link) else {
            if v.committed || self.vfs.lookup_nofollow(&link).is_some() {
                self.violate(&["C19"], "current-lost", format!("{} is gone or points to nothing", link));
                v.broken = true;
            }
            v.cur = None;
            v.since.clear();
            v.retired.clear();
            return;
        };
        let (target, dg) = (self.vfs.canon(i), self.tree_at(i));
        let Some(found) = v.since.iter().find(|c| c.target == target).cloned() else {
            self.violate(&["C19"], "committed-update-lost", format!("{} points to {}, neither the last committed revision nor a later one", link, target));
            v.broken = true;
            return;
        };
        if found.digest != dg {
            self.violate(&["C19"], "current-damaged", format!("{} points to {}, where files are lost or damaged", link, target));
            v.broken = true;
            return;
        }
        if let Some(m) = self.mtime_problem(i, false) {
            self.violate(&["C19", "C18"], "mtime-lost", m);
            v.broken = true;
            return;
        }
        v.retired.remove(&target);
        let retired: Vec<(String, u64)> = v.retired.iter().map(|(p, r)| (p.clone(), r.0)).collect();
        for (p, d) in retired {
            let ok = match self.vfs.lookup_nofollow(&p) {
                Some(i) => self.tree_at(i) == d,
                None => false,
            };
            if !ok {
                self.violate(&["C19"], "retired-tree-damaged", format!("{} was current before and is lost or damaged", p));
                v.retired.remove(&p);
            }
        }
        v.since = vec![found.clone()];
        v.cur = Some(found);
    }

    pub fn known_finding(&self, props: &[String], class: &str) -> Option<String> {
        crate::known::matches(self, props, class)
    }
}

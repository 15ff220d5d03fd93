//! An installation as release 0.3.1 left it: the state files of that release,
//! written from the model, in place of whatever the program keeps now.
use crate::kernel::*;
use crate::rng::Rng;
use crate::util::hex;
use crate::vfs::*;
use std::collections::BTreeMap;

const S: i64 = 1_000_000_000;

/// Session and serial of a revision directory, and whether it carries the
/// suffix which that release did not know.
fn revision(name: &str) -> Option<(String, u64, bool)> {
    let (session, serial) = name.strip_prefix("session_")?.split_once("_serial_")?;
    let (serial, host) = match serial.strip_suffix("_host") {
        Some(s) => (s, true),
        None => (serial, false),
    };
    Some((session.to_string(), serial.parse().ok()?, host))
}

impl World {
    /// Returns false, and changes nothing, if the installation could not be
    /// one of that release.
    pub fn legacy(&mut self, node: u8, seed: u64) -> bool {
        let mut rnd = Rng::sub(seed, 51);
        let Some(n) = self.oracle.nodes.get(&node) else { return false };
        let (Some(done), Some(cfg)) = (n.completed.clone(), n.last_cfg.clone()) else { return false };
        if n.disturbed || n.crashed || n.cfg_changed || n.last_dirs.as_ref() != Some(&done.dirs) || done.cfg != cfg || self.plan.world.spell != 0 {
            return false;
        }
        let d = done.dirs.clone();
        let Some(view) = n.rrdp.get(&format!("{}/{}", d.rrdp, done.name)).cloned() else { return false };
        let Some(cur) = view.cur.clone() else { return false };
        let rview = n.rsync.get(&d.rsync).cloned();
        let settled = n.settled.clone();
        // the state is about one set of directories only
        if n.dirs.len() != 1 || n.rrdp.len() != 1 || view.broken || !n.orphans.is_empty() {
            return false;
        }
        // that release did not keep the layout of the rsync directories
        let same_layout = self.plan.steps.iter().all(|s| match s {
            crate::plan::Step::Run { cfg: c, others, .. } => c.host == cfg.host && others.iter().all(|o| o.cfg.host == cfg.host),
            _ => true,
        });
        let gone = |p: &String| self.vfs.lookup_nofollow(p).is_none();
        let retired = view.retired.keys().chain(rview.iter().flat_map(|v| v.retired.keys()));
        if !same_layout || !retired.into_iter().all(|p| settled.contains_key(p) || gone(p)) {
            return false;
        }
        let Some(rev) = self.source.rev_of(&cur.session, cur.serial) else { return false };
        let (snap, all) = (self.source.revs[rev].snap.clone(), self.source.revs[rev].deltas.clone());
        let now = self.now();
        let wall = self.wall_ns();

        // ---- rsync directories
        let mut rename: BTreeMap<String, String> = BTreeMap::new();
        let mut rsync = None;
        if !cfg.rsync && rview.as_ref().is_some_and(|v| v.cur.is_some() || !v.retired.is_empty()) {
            return false;
        }
        if cfg.rsync {
            let Some(rv) = rview else { return false };
            let Some(c) = rv.cur.clone() else { return false };
            let mut old = vec![];
            let mut names = vec![];
            for (p, since) in std::iter::once((&c.target, None)).chain(settled.iter().filter(|x| x.0.starts_with(&format!("{}/", d.rsync))).map(|x| (x.0, Some(*x.1)))) {
                let Some(name) = p.strip_prefix(&format!("{}/", d.rsync)) else { return false };
                let Some((session, serial, host)) = revision(name) else { return false };
                let plain = format!("session_{}_serial_{}", session, serial);
                if names.contains(&plain) {
                    return false;
                }
                names.push(plain.clone());
                if host {
                    rename.insert(name.to_string(), plain);
                }
                if let Some(s) = since {
                    old.push(format!(r#"{{"since":{},"revision":{{"session_id":"{}","serial":{}}}}}"#, s / S, session, serial));
                } else {
                    rsync = Some(format!(r#"{{"current":{{"session_id":"{}","serial":{}}}"#, session, serial));
                }
            }
            rsync = rsync.map(|c| format!(r#"{},"old":[{}]}}"#, c, old.join(",")));
        }
        if rename.values().any(|p| self.vfs.lookup_nofollow(&format!("{}/{}", d.rsync, p)).is_some()) {
            return false;
        }

        // ---- RRDP
        let since = wall / S - rnd.below(3600) as i64;
        let file = |serial: u64, hash: &[u8; 32], rel: &str| format!(r#""serial":{},"hash":"{}","rel_path":"{}","since":{}"#, serial, hex(hash), rel, since);
        let mut deltas: Vec<String> = vec![];
        for s in cur.deltas.iter().rev() {
            let Some(x) = all.iter().find(|x| x.serial == *s) else { return false };
            deltas.push(format!("{{{}}}", file(*s, &x.hash, &x.rel)));
        }
        let old: Vec<String> = settled
            .iter()
            .filter(|x| x.0.starts_with(&format!("{}/", d.rrdp)) && self.vfs.lookup_nofollow(x.0).is_some())
            .map(|(p, w)| format!(r#"{{"since":{},"path":"{}"}}"#, w / S, p))
            .collect();
        // that release never stored an ETag
        let rrdp = format!(
            r#"{{"notification_source":{{"uri":"{b}{n}","name":"{n}","etag":null}},"mappings":{{"base_uri":"{b}","rrdp_dir":"{dir}"}},"snapshot":{{"session_id":"{s}",{snap}}},"deltas":[{deltas}],"deprecated_files":[{old}]}}"#,
            b = view.base,
            n = done.name,
            dir = d.rrdp,
            s = cur.session,
            snap = file(cur.serial, &snap.hash, &snap.rel),
            deltas = deltas.join(","),
            old = old.join(","),
        );

        // ---- in place of what is there
        if let Some(i) = self.vfs.lookup(&d.state) {
            for (p, f) in self.vfs.walk(i) {
                let full = format!("{}/{}", d.state, p);
                let n = self.vfs.get(f);
                let published = [&d.rrdp, &d.rsync].iter().any(|x| full.starts_with(&format!("{}/", x)));
                if n.kind == Kind::File && !n.foreign && !published && !full.ends_with("/krill-sync.lock") {
                    self.vfs.env_remove(&full, now);
                }
            }
        }
        for (name, text) in [("rrdp-state.json", Some(rrdp)), ("rsync-state.json", rsync)] {
            if let Some(t) = text {
                let i = self.vfs.env_write(&format!("{}/{}", d.state, name), t.as_bytes(), now);
                self.vfs.get_mut(i).foreign = false;
                self.log(|| format!("LEGACY {} {}", name, t));
            }
        }
        if let Some(i) = self.vfs.lookup(&d.rsync) {
            for (from, to) in &rename {
                if let Some(x) = self.vfs.get(i).entries.get(from.as_bytes()).copied() {
                    self.vfs.unlink_from(i, from.as_bytes(), now);
                    self.vfs.link_in(i, to.as_bytes(), x, now);
                }
            }
            let link = self.vfs.get(i).entries.get(&b"current"[..]).copied();
            if let Some(l) = link.filter(|l| self.vfs.get(*l).kind == Kind::Symlink) {
                let t = String::from_utf8_lossy(&self.vfs.get(l).data).to_string();
                let (dir, name) = match t.rsplit_once('/') {
                    Some((a, b)) => (format!("{}/", a), b.to_string()),
                    None => (String::new(), t),
                };
                if let Some(to) = rename.get(&name) {
                    self.vfs.get_mut(l).data = format!("{}{}", dir, to).into_bytes();
                    self.vfs.touch(l);
                }
            }
        }
        let moved = |p: &String| -> String {
            match p.strip_prefix(&format!("{}/", d.rsync)).and_then(|x| rename.get(x)) {
                Some(to) => format!("{}/{}", d.rsync, to),
                None => p.clone(),
            }
        };
        let n = self.oracle.nodes.get_mut(&node).unwrap();
        n.settled = n.settled.iter().map(|(p, w)| (moved(p), *w)).collect();
        if let Some(v) = n.rsync.get_mut(&d.rsync) {
            v.retired = v.retired.iter().map(|(p, w)| (moved(p), *w)).collect();
            if let Some(c) = v.cur.as_mut() {
                c.target = moved(&c.target);
            }
            for c in v.since.iter_mut() {
                c.target = moved(&c.target);
            }
        }
        self.oracle.upgraded = true;
        self.power_sync_all();
        true
    }
}

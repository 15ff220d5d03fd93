//! Power loss: what was not flushed to stable storage may be lost.
//!
//! Two kinds of file system are modelled, the seed of a loss decides which one
//! it is. *Ordered*: a journal per device, what is left after a loss is a prefix
//! of the changes of directories and attributes in the order in which they were
//! made. *Unordered*: only the changes within one directory keep their order;
//! different directories lose what they lose independently of each other, as
//! far as the result is a tree. File content is written back independently of
//! all that, in any amount. `fsync` of a file flushes its content and
//! attributes, not its directory entry; `fsync` of a directory flushes all
//! changes made in it, and its own existence. Whatever is older than a minute
//! has been written back.
use crate::kernel::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::vfs::*;
use std::collections::{BTreeMap, BTreeSet};

const WRITEBACK: u64 = 60_000_000_000;

enum Meta {
    Link(Ino, Vec<u8>, Ino),
    Unlink(Ino, Vec<u8>, Ino),
    Rename { a: (Ino, Vec<u8>), b: (Ino, Vec<u8>), src: Ino, replaced: Option<Ino> },
    Times(Ino, (i64, u32)),
}

struct Entry {
    at: u64,
    op: Meta,
    /// what has to be there for this change to be there, and keeps its order
    keys: Vec<Ino>,
    /// flushed, without regard to others
    flushed: bool,
}

#[derive(Default)]
struct Log {
    entries: Vec<Entry>,
    /// flushed up to here, where order is kept
    prefix: usize,
}

struct Dirty {
    old: Vec<u8>,
    since: u64,
}

#[derive(Default)]
pub struct Power {
    logs: BTreeMap<u32, Log>,
    dirty: BTreeMap<Ino, Dirty>,
    pending: Option<u64>,
}

/// Only plans with a power loss pay for keeping track.
pub fn needed(p: &Plan) -> bool {
    let loses = |f: &Vec<Fault>| f.iter().any(|f| matches!(f.kind, FaultKind::PowerBefore(_)));
    p.steps.iter().any(|s| match s {
        Step::Power { .. } => true,
        Step::Run { faults, others, .. } => loses(faults) || others.iter().any(|o| loses(&o.faults)),
        _ => false,
    })
}

impl World {
    fn power_log(&mut self, dir: Ino, op: Meta) {
        let (at, dev) = (self.mono, self.vfs.get(dir).dev);
        let is_dir = |i: &Ino| self.vfs.get(*i).kind == Kind::Dir;
        let mut keys = vec![];
        match &op {
            Meta::Link(d, _, i) | Meta::Unlink(d, _, i) => {
                keys.push(*d);
                keys.extend(Some(*i).filter(is_dir));
            }
            Meta::Rename { a, b, src, replaced } => {
                keys.extend([a.0, b.0]);
                keys.extend(Some(*src).filter(is_dir));
                keys.extend(replaced.filter(is_dir));
            }
            Meta::Times(i, _) => keys.push(*i),
        }
        if let Some(p) = &mut self.power {
            p.logs.entry(dev).or_default().entries.push(Entry { at, op, keys, flushed: false });
        }
    }

    /// Before the content of a file is changed.
    pub fn power_data(&mut self, i: Ino) {
        let since = self.mono;
        if let Some(p) = &mut self.power {
            if !p.dirty.contains_key(&i) {
                let old = self.vfs.get(i).data.clone();
                p.dirty.insert(i, Dirty { old, since });
            }
        }
    }

    pub fn power_link(&mut self, dir: Ino, name: &[u8], i: Ino) {
        if self.power.is_some() {
            self.power_log(dir, Meta::Link(dir, name.to_vec(), i));
        }
    }

    /// The removed inode is kept until its removal is durable.
    pub fn power_unlink(&mut self, dir: Ino, name: &[u8], i: Ino) {
        if self.power.is_some() {
            self.vfs.get_mut(i).opens += 1;
            self.power_log(dir, Meta::Unlink(dir, name.to_vec(), i));
        }
    }

    pub fn power_rename(&mut self, a: &Res, b: &Res, src: Ino, replaced: Option<Ino>) {
        if self.power.is_some() && (a.parent, &a.name) != (b.parent, &b.name) {
            if let Some(r) = replaced {
                self.vfs.get_mut(r).opens += 1;
            }
            self.power_log(a.parent, Meta::Rename { a: (a.parent, a.name.clone()), b: (b.parent, b.name.clone()), src, replaced });
        }
    }

    /// Before attributes are changed.
    pub fn power_times(&mut self, i: Ino) {
        if self.power.is_some() {
            let old = self.vfs.get(i).mtime;
            self.power_log(i, Meta::Times(i, old));
        }
    }

    fn power_unpin(&mut self, op: &Meta) {
        let i = match op {
            Meta::Unlink(_, _, i) => *i,
            Meta::Rename { replaced: Some(i), .. } => *i,
            _ => return,
        };
        self.vfs.get_mut(i).opens -= 1;
        self.vfs.maybe_free(i);
    }

    pub fn power_fsync(&mut self, i: Ino) {
        let Some(p) = &mut self.power else { return };
        let n = self.vfs.get(i);
        let log = p.logs.entry(n.dev).or_default();
        if n.kind == Kind::Dir {
            let last = log.entries.iter().rposition(|e| e.keys.contains(&i));
            log.prefix = log.prefix.max(last.map_or(0, |k| k + 1));
            let mut keys: BTreeSet<Ino> = [i].into_iter().collect();
            for e in log.entries.iter_mut().rev() {
                if e.keys.iter().any(|k| keys.contains(k)) {
                    e.flushed = true;
                    keys.extend(e.keys.iter().copied());
                }
            }
        } else {
            p.dirty.remove(&i);
            for e in log.entries.iter_mut() {
                if matches!(e.op, Meta::Times(x, _) if x == i) {
                    e.flushed = true;
                }
            }
        }
    }

    pub fn power_sync_all(&mut self) {
        if let Some(p) = self.power.take() {
            let pending = p.pending;
            for (_, log) in p.logs {
                for e in log.entries {
                    self.power_unpin(&e.op);
                }
            }
            self.power = Some(Power { pending, ..Power::default() });
        }
    }

    /// Power fails during a run; it takes effect when the processes are gone.
    pub fn power_pending(&mut self, seed: u64) {
        if let Some(p) = &mut self.power {
            p.pending = Some(seed);
        }
    }

    pub fn power_wanted(&mut self) -> Option<u64> {
        self.power.as_mut().and_then(|p| p.pending.take())
    }

    /// The state of the disks after the loss.
    pub fn power_apply(&mut self, seed: u64) {
        let Some(p) = self.power.take() else { return };
        let mut r = Rng::sub(seed, 19);
        let now = self.mono;
        let time = self.now();
        let mut back = vec![];
        let (mut lost, mut kept) = (0u64, 0u64);
        let ordered = r.pct(50);
        let often = r.pick(&[30u64, 100, 300, 700]);
        for (_, log) in p.logs {
            let old = log.entries.iter().position(|e| e.at + WRITEBACK > now).unwrap_or(log.entries.len());
            let len = log.entries.len();
            let first = old.max(log.prefix);
            let n = len - first;
            let cut = first
                + match r.below(10) {
                    0..=2 => 0,
                    3 | 4 => n,
                    5..=7 => n - (r.skew(n as u64) as usize).min(n),
                    _ => r.below(n as u64 + 1) as usize,
                };
            let mut gone: BTreeSet<Ino> = BTreeSet::new();
            let mut undo = vec![];
            for (k, e) in log.entries.into_iter().enumerate() {
                let open = k >= old && !e.flushed;
                let lose = if ordered {
                    k >= cut && !(e.flushed && matches!(e.op, Meta::Times(..)))
                } else {
                    open && (e.keys.iter().any(|x| gone.contains(x)) || r.permille(often))
                };
                if lose {
                    gone.extend(e.keys.iter().copied());
                    undo.push(e.op);
                } else {
                    kept += open as u64;
                    self.power_unpin(&e.op);
                }
            }
            lost += undo.len() as u64;
            for op in undo.into_iter().rev() {
                self.power_undo(op, time, &mut back);
            }
        }
        let mut damaged = 0;
        for (i, d) in p.dirty {
            if d.since + WRITEBACK <= now || !self.vfs.inodes.contains_key(&i) {
                continue;
            }
            let cur = self.vfs.get(i).data.clone();
            let new = match r.below(8) {
                0 | 1 => d.old,
                2 => vec![],
                3 => cur[..r.below(cur.len() as u64 + 1) as usize].to_vec(),
                4 => {
                    let keep = (r.below(cur.len() as u64 + 1) as usize) & !511;
                    let mut x = cur.clone();
                    x[keep..].fill(0);
                    x
                }
                _ => continue,
            };
            if new != cur {
                damaged += 1;
                let path = self.vfs.canon(i);
                self.log(|| format!("LOST content of {}: {} of {} bytes left", path, new.len(), cur.len()));
                self.vfs.get_mut(i).data = new;
                self.vfs.touch(i);
            }
        }
        self.stats.add("power.changes_lost", lost);
        self.stats.add("power.unflushed_changes_kept", kept);
        self.stats.add("power.files_damaged", damaged);
        self.note(lost << 32 | damaged);
        self.power = Some(Power::default());
        self.oracle_power(back);
    }

    fn entry_is(&self, d: Ino, name: &[u8], i: Option<Ino>) -> bool {
        self.vfs.inodes.get(&d).map_or(false, |n| n.entries.get(name).copied() == i)
    }

    fn power_undo(&mut self, op: Meta, now: (i64, u32), back: &mut Vec<String>) {
        match op {
            Meta::Times(i, t) => {
                if let Some(n) = self.vfs.inodes.get_mut(&i) {
                    n.mtime = t;
                }
            }
            Meta::Link(d, name, i) => {
                if !self.entry_is(d, &name, Some(i)) {
                    self.stats.add("unmodelled.power_undo", 1);
                    return;
                }
                self.log_lost("creation", d, &name);
                self.vfs.unlink_from(d, &name, now);
                self.vfs.maybe_free(i);
            }
            Meta::Unlink(d, name, i) => {
                self.vfs.get_mut(i).opens -= 1;
                if !self.entry_is(d, &name, None) {
                    self.stats.add("unmodelled.power_undo", 1);
                    return;
                }
                self.log_lost("removal", d, &name);
                self.vfs.link_in(d, &name, i, now);
                back.push(self.vfs.canon(i));
            }
            Meta::Rename { a, b, src, replaced } => {
                if let Some(x) = replaced {
                    self.vfs.get_mut(x).opens -= 1;
                }
                if !self.entry_is(b.0, &b.1, Some(src)) || !self.entry_is(a.0, &a.1, None) {
                    self.stats.add("unmodelled.power_undo", 1);
                    return;
                }
                self.log_lost("renaming", b.0, &b.1);
                self.vfs.unlink_from(b.0, &b.1, now);
                self.vfs.link_in(a.0, &a.1, src, now);
                back.push(self.vfs.canon(src));
                if let Some(x) = replaced {
                    self.vfs.link_in(b.0, &b.1, x, now);
                }
            }
        }
    }

    fn log_lost(&mut self, what: &str, d: Ino, name: &[u8]) {
        if self.trace_on {
            let p = self.vfs.canon_res(&Res { parent: d, name: name.to_vec(), ino: None, trailing: false });
            self.log(|| format!("LOST {} of {}", what, p));
        }
    }
}

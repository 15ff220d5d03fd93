//! The simulated machine: processes, scheduler, virtual clock, fault gate.
use crate::alloc;
use crate::net::NetState;
use crate::oracle::Oracle;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::source::Source;
use crate::util::fnv;
use crate::vfs::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub const EPOCH: i64 = 1_676_303_880; // 2023-02-13T15:58:00Z
pub const OP_CAP: u32 = 400_000;

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// injected kill at an operation
    Crash,
    /// injected power loss
    Power,
    /// stopped by the simulator: never ends
    Hang(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum PState {
    Ready,
    Sleeping(u64),
    Blocked(Block),
    Done,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Block {
    Lock(Ino),
    Flock(Ino),
    /// any of these pipes becomes readable
    Pipe(Vec<u64>),
    /// any of these pipes becomes readable, or the time comes
    Poll(Vec<u64>, u64),
    Child(u32),
}

pub struct Armed {
    pub f: Fault,
    pub seen: u32,
    pub fired: u32,
}
pub struct ArmedNet {
    pub f: NetFault,
    pub seen: u32,
    pub fired: u32,
}

pub struct Proc {
    pub pid: u32,
    pub real: i32,
    pub node: u8,
    pub cfg: Cfg,
    pub state: PState,
    pub exit: Option<Exit>,
    pub fds: BTreeMap<i32, u64>,
    pub cwd: Ino,
    pub ops: u32,
    pub muts: u32,
    pub reqs: u32,
    pub faults: Vec<Armed>,
    pub net_faults: Vec<ArmedNet>,
    pub during: Vec<(At, SrcOp)>,
    pub during_fired: u32,
    pub local_fired: u32,
    /// removals that were made to fail
    pub unremoved: Vec<String>,
    pub net_fired: u32,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub started_at: u64,
    pub ended_at: u64,
    pub slept: u64,
    /// found a lock taken
    pub contended: bool,
    pub argv: Vec<String>,
    pub sig: u64,
    pub run_no: u32,
    pub usage: bool,
    pub umask: u32,
    pub rnd: Rng,
    pub unsupported: Vec<String>,
    /// first operation that touched the lock etc. (for the mutual-exclusion oracle)
    pub mutated_published: bool,
    pub locked: bool,
}

#[derive(Clone, Debug)]
pub enum OKind {
    Node,
    Std(i32),
    PipeR(u64),
    PipeW(u64),
}
pub struct Ofd {
    pub kind: OKind,
    pub ino: Ino,
    pub pos: u64,
    pub flags: i32,
    pub refs: u32,
    pub path: String,
}

pub struct Pipe {
    pub buf: Vec<u8>,
    pub readers: u32,
    pub writers: u32,
    /// producer script still has to write this many bytes
    pub script: Option<u32>,
}

pub struct ScriptProc {
    pub pid: u32,
    pub parent: u32,
    pub cfg: Script,
    pub idx: usize,
    pub out_pipe: Option<u64>,
    pub err_pipe: Option<u64>,
    pub out_left: u32,
    pub err_left: u32,
    pub end_at: u64,
    pub done: bool,
    pub reaped: bool,
    pub killed: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<String>,
    /// stable name of the violated rule
    pub class: String,
    pub msg: String,
    pub step: usize,
    pub t: u64,
    /// matches a listed known finding
    pub known: Option<String>,
}

pub struct World {
    pub plan: Plan,
    pub mono: u64,
    pub wall_off: i64,
    /// highest wall clock before it was set back
    pub wall_hi: i64,
    /// total of the forward jumps of the clock
    pub wall_fwd: i64,
    /// time that passed within injected delays
    pub jumped: u64,
    pub vfs: Vfs,
    pub procs: BTreeMap<u32, Proc>,
    pub next_pid: u32,
    pub ofds: BTreeMap<u64, Ofd>,
    pub next_ofd: u64,
    pub pipes: BTreeMap<u64, Pipe>,
    pub scripts: BTreeMap<u32, ScriptProc>,
    pub locks: Vec<(Ino, u32)>,
    pub flocks: Vec<(Ino, u64)>,
    pub turn: AtomicU32,
    pub step: usize,
    pub run_no: u32,
    pub srng: Rng,
    pub net: NetState,
    pub source: Source,
    pub oracle: Oracle,
    pub stats: Stats,
    pub trace_hash: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub viol: Vec<Violation>,
    pub interest: String,
    pub stop: bool,
    pub power: Option<crate::power::Power>,
    pub states: Vec<u64>,
}

static mut WORLD: *mut World = std::ptr::null_mut();
static mut MYPID: u32 = 0;
static mut SIM: bool = false;

pub fn set_world(w: *mut World) {
    unsafe { WORLD = w }
}
pub fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}
pub fn simulating() -> bool {
    unsafe { SIM }
}
pub fn set_sim(pid: u32) {
    unsafe {
        MYPID = pid;
        SIM = true;
    }
}
pub fn my_pid() -> u32 {
    unsafe { MYPID }
}

/// Enter the simulator on behalf of the running process.
pub fn kcall<R>(f: impl FnOnce(&mut World, u32) -> R) -> R {
    alloc::enter();
    let bomb = Bomb;
    let w = world();
    let pid = my_pid();
    w.sched_point(pid);
    let r = f(w, pid);
    std::mem::forget(bomb);
    alloc::leave();
    r
}

/// A panic inside the simulator is never taken for one of the program.
struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        crate::raw::die("panic inside the simulator");
    }
}

pub struct Gate {
    pub short: Option<usize>,
    pub torn: Option<u16>,
    pub crash_after: bool,
}

impl World {
    pub fn p(&mut self, pid: u32) -> &mut Proc {
        self.procs.get_mut(&pid).unwrap()
    }

    pub fn wall_ns(&self) -> i64 {
        self.mono as i64 + self.wall_off
    }
    /// The time that passed without the delays that were injected.
    pub fn own_time(&self) -> u64 {
        self.mono - self.jumped
    }
    /// No program that looks at the clock can have seen more time pass than this.
    pub fn eff_ns(&self) -> i64 {
        self.mono as i64 + self.wall_fwd
    }
    pub fn now(&self) -> (i64, u32) {
        let w = self.wall_ns();
        (w.div_euclid(1_000_000_000), w.rem_euclid(1_000_000_000) as u32)
    }

    pub fn log(&mut self, s: impl FnOnce() -> String) {
        if self.trace_on {
            let t = self.mono;
            let l = format!("{:>14.6} {}", t as f64 / 1e9, s());
            self.trace.push(l);
        }
    }

    pub fn note(&mut self, h: u64) {
        self.trace_hash = mix(self.trace_hash ^ h);
    }

    // ---------------------------------------------------------------- faults

    fn op_matches(sel: OpSel, op: OpSel, mutating: bool) -> bool {
        match sel {
            OpSel::Any => true,
            OpSel::Mut => mutating,
            s => s == op,
        }
    }

    pub fn path_sel(&self, pid: u32, path: &str) -> PathSel {
        let p = &self.procs[&pid];
        let d = crate::layout::dirs(p.node, &p.cfg);
        if path.ends_with(".lock") && path.starts_with(&d.state) {
            PathSel::Lock
        } else if path.starts_with(&d.rrdp) {
            PathSel::Rrdp
        } else if path.starts_with(&d.rsync) {
            PathSel::Rsync
        } else if path.starts_with(&d.state) {
            if path.contains("staging") {
                PathSel::Staging
            } else {
                PathSel::State
            }
        } else {
            PathSel::Any
        }
    }

    /// Called at the start of every operation: applies scheduled faults.
    pub fn gate(&mut self, pid: u32, op: OpSel, mutating: bool, path: &str) -> KR<Gate> {
        let sel = self.path_sel(pid, path);
        let lat = self.plan.world.latency;
        {
            let p = self.p(pid);
            p.ops += 1;
            if mutating {
                p.muts += 1;
            }
        }
        let ops = self.procs[&pid].ops;
        if ops > OP_CAP {
            self.violate(&["C16"], "runaway", format!("run performed more than {} operations", OP_CAP));
            self.end_proc(pid, Exit::Hang("operation limit".into()));
        }
        // time passes
        let h = mix(self.plan.seed ^ mix((pid as u64) << 32 | ops as u64));
        let dt = 2_000 + h % 20_000 + if lat > 0 && mutating { (h >> 20) % 40_000_000 } else { 0 };
        self.mono += dt;
        let mut g = Gate { short: None, torn: None, crash_after: false };
        let mut act: Vec<FaultKind> = vec![];
        {
            let p = self.p(pid);
            for a in p.faults.iter_mut() {
                if !Self::op_matches(a.f.op, op, mutating) {
                    continue;
                }
                if a.f.path != PathSel::Any && a.f.path != sel {
                    continue;
                }
                let k = a.seen;
                a.seen += 1;
                if k >= a.f.nth && k - a.f.nth <= a.f.more {
                    a.fired += 1;
                    act.push(a.f.kind);
                }
            }
        }
        for k in act {
            match k {
                FaultKind::Err(e) => {
                    let e = plausible(op, e);
                    if e == 0 {
                        continue;
                    }
                    // interrupted calls are simply repeated by the standard library
                    let dir = self.vfs.lookup(path).map_or(false, |i| self.vfs.get(i).kind == Kind::Dir);
                    let benign = e == libc::EINTR && matches!(op, OpSel::Read | OpSel::Write | OpSel::Open | OpSel::Create) && !path.ends_with(".lock") && !dir;
                    if !benign {
                        self.p(pid).local_fired += 1;
                    }
                    if op == OpSel::Remove {
                        self.p(pid).unremoved.push(path.to_string());
                    }
                    if op == OpSel::Utimes {
                        if let Some(i) = self.vfs.lookup(path) {
                            self.oracle.no_mtime.insert(i);
                        }
                    }
                    self.stats.add(&format!("fault.err.{:?}.{}", op, errname(e)), 1);
                    self.log(|| format!("[{}] FAULT {:?} {} -> {}", pid, op, path, errname(e)));
                    self.sig(pid, fnv(0xE44, format!("{:?}{:?}{}", op, sel, e).as_bytes()));
                    self.note(e as u64 ^ 0xE0E0);
                    return Err(e);
                }
                FaultKind::Short(n) => {
                    if matches!(op, OpSel::Read | OpSel::Write) {
                        self.stats.add("fault.short", 1);
                        g.short = Some(n.max(1) as usize);
                    }
                }
                FaultKind::CrashBefore => {
                    self.stats.add(&format!("fault.crash_before.{:?}", op), 1);
                    self.log(|| format!("[{}] CRASH before {:?} {}", pid, op, path));
                    self.sig(pid, fnv(0xC4A, format!("{:?}{:?}", op, sel).as_bytes()));
                    self.end_proc(pid, Exit::Crash);
                }
                FaultKind::CrashAfter => {
                    g.crash_after = true;
                }
                FaultKind::Torn(x) => {
                    if op == OpSel::Write || op == OpSel::Copy {
                        g.torn = Some(x);
                    } else {
                        g.crash_after = true;
                    }
                }
                FaultKind::Delay(ms) => {
                    self.stats.add("fault.delay", 1);
                    self.mono += ms as u64 * 1_000_000;
                    self.jumped += ms as u64 * 1_000_000;
                }
                FaultKind::DiskFull(n) => {
                    let dev = self.dev_of(path);
                    if !self.vfs.quota.contains_key(&dev) {
                        self.stats.add("fault.diskfull", 1);
                        let u = *self.vfs.used.get(&dev).unwrap_or(&0);
                        self.vfs.quota.insert(dev, u + n as u64);
                        self.log(|| format!("[{}] FAULT disk {} has {} bytes left", pid, dev, n));
                        self.p(pid).local_fired += 1;
                    }
                }
                FaultKind::PowerBefore(seed) => {
                    self.stats.add("fault.power_loss", 1);
                    self.log(|| format!("POWER LOSS before {:?} {}", op, path));
                    self.power_pending(seed);
                    self.end_proc(pid, Exit::Power);
                }
            }
        }
        Ok(g)
    }

    fn dev_of(&self, path: &str) -> u32 {
        let mut p = path.to_string();
        loop {
            if let Some(i) = self.vfs.lookup_nofollow(&p) {
                return self.vfs.get(i).dev;
            }
            match p.rfind('/') {
                Some(k) if k > 0 => p.truncate(k),
                _ => return 1,
            }
        }
    }

    pub fn sig(&mut self, pid: u32, h: u64) {
        let p = self.p(pid);
        p.sig = mix(p.sig ^ h);
    }

    /// Called after a completed operation.
    pub fn done(&mut self, pid: u32, op: OpSel, mutating: bool, path: &str, path2: Option<&str>, ret: i64, crash_after: bool) {
        let h = fnv(fnv(0xcbf29ce484222325, path.as_bytes()), &[op as u8, mutating as u8]);
        self.note(h ^ (ret as u64).wrapping_mul(0x9E37) ^ self.mono);
        if self.trace_on {
            let two = path2.map(|p| format!(" -> {}", p)).unwrap_or_default();
            self.log(|| format!("[{}] {:?}{} {}{} = {}", pid, op, if mutating { "*" } else { "" }, path, two, ret));
        }
        if mutating {
            let s1 = self.path_sel(pid, path);
            self.sig(pid, (op as u64) << 8 | s1 as u64);
            self.oracle_mutation(pid, op, path, path2);
        }
        if crash_after {
            self.stats.add(&format!("fault.crash_after.{:?}", op), 1);
            self.log(|| format!("[{}] CRASH after {:?} {}", pid, op, path));
            let s1 = self.path_sel(pid, path);
            self.sig(pid, fnv(0xC4B, format!("{:?}{:?}", op, s1).as_bytes()));
            self.end_proc(pid, Exit::Crash);
        }
    }

    // ------------------------------------------------------------- scheduling

    pub fn sched_point(&mut self, pid: u32) {
        if self.stop {
            self.end_proc(pid, Exit::Power);
        }
        // upstream activity scheduled at this operation
        let mut fire = vec![];
        {
            let p = self.p(pid);
            let mut i = 0;
            while i < p.during.len() {
                if let At::Op(n) = p.during[i].0 {
                    if p.ops >= n {
                        fire.push(p.during.remove(i).1);
                        p.during_fired += 1;
                        continue;
                    }
                }
                i += 1;
            }
        }
        for o in fire {
            self.source_op(&o);
        }
        // wake sleepers whose time has come
        let mono = self.mono;
        let mut others = 0;
        for p in self.procs.values_mut() {
            if let PState::Sleeping(t) = p.state {
                if t <= mono {
                    p.state = PState::Ready;
                }
            }
            if p.pid != pid && p.state == PState::Ready {
                others += 1;
            }
        }
        if others > 0 && self.srng.permille(self.plan.world.switch as u64) {
            let k = self.srng.below(others);
            let next = self
                .procs
                .values()
                .filter(|p| p.pid != pid && p.state == PState::Ready)
                .nth(k as usize)
                .unwrap()
                .pid;
            self.stats.add("sched.switch", 1);
            self.note(next as u64 ^ 0x5C4ED);
            self.switch_to(pid, next);
        }
    }

    pub fn give_turn(&mut self, next: u32) {
        self.turn.store(next, Ordering::SeqCst);
        crate::raw::futex_wake(&self.turn);
    }

    pub fn await_turn(&self, pid: u32) {
        loop {
            let t = self.turn.load(Ordering::SeqCst);
            if t == pid {
                return;
            }
            crate::raw::futex_wait(&self.turn, t);
        }
    }

    fn switch_to(&mut self, me: u32, next: u32) {
        if me == next {
            return;
        }
        self.give_turn(next);
        self.await_turn(me);
        if self.stop {
            self.end_proc(me, Exit::Power);
        }
    }

    /// The current process cannot continue (its state says why): run others or
    /// advance the clock. Returns when it is ready again.
    pub fn block(&mut self, pid: u32) {
        loop {
            self.refresh_blocked();
            if self.procs[&pid].state == PState::Ready {
                return;
            }
            if let Some(next) = self.pick_ready() {
                self.switch_to(pid, next);
                continue;
            }
            // nobody ready: advance time to the next event
            let t = self.next_event();
            match t {
                Some(t) => {
                    if t > self.mono {
                        self.mono = t;
                    }
                    self.script_progress();
                }
                None => {
                    let st = format!("{:?}", self.procs[&pid].state);
                    self.violate(&["C16"], "deadlock", format!("run blocks forever: {}", st));
                    self.end_proc(pid, Exit::Hang(st));
                }
            }
        }
    }

    fn next_event(&self) -> Option<u64> {
        let a = self
            .procs
            .values()
            .filter_map(|p| match &p.state {
                PState::Sleeping(t) => Some(*t),
                PState::Blocked(Block::Poll(_, t)) => Some(*t),
                _ => None,
            })
            .min();
        let b = self.scripts.values().filter(|s| !s.done && s.end_at > self.mono).map(|s| s.end_at).min();
        match (a, b) {
            (Some(x), Some(y)) => Some(x.min(y)),
            (x, y) => x.or(y),
        }
    }

    pub fn refresh_blocked(&mut self) {
        self.script_progress();
        let mono = self.mono;
        let pids: Vec<u32> = self.procs.keys().copied().collect();
        for q in pids {
            let st = self.procs[&q].state.clone();
            let ready = match st {
                PState::Sleeping(t) => t <= mono,
                PState::Blocked(Block::Lock(i)) => !self.locks.iter().any(|l| l.0 == i && l.1 != q),
                PState::Blocked(Block::Flock(i)) => !self.flocks.iter().any(|l| l.0 == i),
                PState::Blocked(Block::Pipe(ps)) => self.pipe_ready(&ps),
                PState::Blocked(Block::Poll(ps, t)) => t <= mono || self.pipe_ready(&ps),
                PState::Blocked(Block::Child(c)) => self.scripts.get(&c).map_or(true, |s| s.done),
                _ => continue,
            };
            if ready {
                self.p(q).state = PState::Ready;
            }
        }
    }

    fn pick_ready(&mut self) -> Option<u32> {
        let ready: Vec<u32> = self.procs.values().filter(|p| p.state == PState::Ready).map(|p| p.pid).collect();
        if ready.is_empty() {
            None
        } else {
            Some(ready[self.srng.below(ready.len() as u64) as usize])
        }
    }

    pub fn sleep_until(&mut self, pid: u32, t: u64) {
        if t > self.mono {
            let d = t - self.mono;
            if self.p(pid).contended && self.oracle.runs.get(&pid).map_or(false, |r| !r.touched) {
                self.waits_for_lock(pid, "the lock");
            }
            self.p(pid).slept += d;
            self.p(pid).state = PState::Sleeping(t);
            self.block(pid);
        }
    }

    // ------------------------------------------------------------------ exit

    pub fn release_proc(&mut self, pid: u32) {
        let fds: Vec<i32> = self.procs[&pid].fds.keys().copied().collect();
        for fd in fds {
            self.close_fd(pid, fd);
        }
        self.locks.retain(|l| l.1 != pid);
        self.scripts.retain(|_, s| s.parent != pid);
    }

    pub fn finish_proc(&mut self, pid: u32, e: Exit) {
        self.release_proc(pid);
        self.vfs.quota.clear();
        let mono = self.mono;
        let p = self.p(pid);
        p.state = PState::Done;
        p.ended_at = mono;
        p.exit = Some(e.clone());
        self.note(fnv(7, format!("{:?}", e).as_bytes()));
        self.log(|| format!("[{}] END {:?}", pid, e));
        self.oracle_run_end(pid, &e);
        if e == Exit::Power {
            self.stop = true;
        }
    }

    pub fn pass_on(&mut self) {
        loop {
            self.refresh_blocked();
            if let Some(n) = self.pick_ready() {
                self.give_turn(n);
                return;
            }
            if self.procs.values().all(|p| p.state == PState::Done) {
                self.give_turn(0);
                return;
            }
            match self.next_event() {
                Some(t) => {
                    if t > self.mono {
                        self.mono = t
                    }
                    self.script_progress();
                }
                None => {
                    // the rest is blocked for ever
                    let q = self.procs.values().find(|p| p.state != PState::Done).unwrap().pid;
                    let st = format!("{:?}", self.procs[&q].state);
                    self.violate(&["C16"], "deadlock", format!("run blocks forever: {}", st));
                    self.p(q).state = PState::Ready;
                    self.stop = true;
                }
            }
        }
    }

    /// Process end from within the process itself.
    pub fn end_proc(&mut self, pid: u32, e: Exit) -> ! {
        self.finish_proc(pid, e);
        self.pass_on();
        crate::raw::exit_group(0)
    }

    // ------------------------------------------------------------- violations

    pub fn violate(&mut self, props: &[&str], class: &str, msg: String) {
        if self.oracle.damaged && !["panic", "silent-failure", "noise", "not-readable"].contains(&class) {
            // all bets are off, but the run still ends in an orderly way
            return;
        }
        if self.plan.world.spell == crate::layout::VARYING
            && ["superseded-kept", "leftover-kept", "retired-tree-changed", "retired-tree-removed", "held-delta-requested", "held-delta-rewritten", "unchanged-but-requested", "unchanged-but-touched"].contains(&class)
        {
            // a directory given by another name counts as another directory
            return;
        }
        let mut props: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        if self.oracle.power && !props.iter().any(|p| p == "C19") {
            // nothing else may come of a power loss
            props.push("C19".into());
        }
        if self.oracle.upgraded && !props.iter().any(|p| p == "C23") {
            props.push("C23".into());
        }
        for p in self.also_broken(class) {
            if !props.iter().any(|x| x == p) {
                props.push(p.into());
            }
        }
        let known = self.known_finding(&props, class);
        if self.viol.len() > 40 {
            return;
        }
        if self.viol.iter().any(|v| v.class == class && v.props == props && v.step == self.step) {
            return;
        }
        props.dedup();
        self.log(|| format!("VIOLATION {:?} {}: {}", props, class, msg));
        let v = Violation { props, class: class.to_string(), msg, step: self.step, t: self.mono, known };
        self.viol.push(v);
    }
}

/// Errors that an operation can really return; others are replaced.
fn plausible(op: OpSel, e: i32) -> i32 {
    use libc::*;
    let set: &[i32] = match op {
        OpSel::Open => &[EACCES, EIO, EMFILE, ENFILE, EINTR],
        OpSel::Create => &[EACCES, EIO, ENOSPC, EROFS, EMFILE, EDQUOT, EINTR],
        OpSel::Read => &[EIO, EINTR],
        OpSel::Write | OpSel::Copy => &[EIO, ENOSPC, EDQUOT, EINTR],
        OpSel::Rename => &[EIO, EACCES, ENOSPC, EBUSY, EROFS],
        OpSel::Remove => &[EIO, EACCES, EBUSY, EROFS],
        OpSel::Mkdir => &[EIO, EACCES, ENOSPC, EROFS, EDQUOT],
        OpSel::Link => &[EIO, EACCES, ENOSPC, EROFS],
        OpSel::Utimes => &[EIO, EACCES, EPERM, EROFS],
        OpSel::Stat => &[EIO, EACCES],
        OpSel::Readdir => &[EIO, EACCES],
        OpSel::Lock => &[EINTR, EIO],
        OpSel::Sync => &[EIO],
        OpSel::Spawn => &[EAGAIN, ENOMEM],
        _ => &[],
    };
    if set.is_empty() {
        return 0;
    }
    if set.contains(&e) {
        e
    } else {
        set[(e as usize) % set.len()]
    }
}

pub fn errname(e: i32) -> String {
    use libc::*;
    match e {
        EIO => "EIO".into(),
        ENOSPC => "ENOSPC".into(),
        EACCES => "EACCES".into(),
        EROFS => "EROFS".into(),
        EMFILE => "EMFILE".into(),
        ENFILE => "ENFILE".into(),
        EINTR => "EINTR".into(),
        EDQUOT => "EDQUOT".into(),
        EBUSY => "EBUSY".into(),
        EXDEV => "EXDEV".into(),
        EPERM => "EPERM".into(),
        EAGAIN => "EAGAIN".into(),
        ENOMEM => "ENOMEM".into(),
        x => format!("E{}", x),
    }
}

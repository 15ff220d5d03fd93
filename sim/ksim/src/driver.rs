//! Runs plans: forks the simulated processes, collects results, minimises,
//! replays, reports.
use crate::alloc;
use crate::gen;
use crate::kernel::*;
use crate::layout;
use crate::net::NetState;
use crate::oracle::{same_or_under, under, Oracle};
use crate::plan::*;
use crate::raw;
use crate::rng::{mix, Rng};
use crate::util::fnv;
use crate::source::*;
use crate::vfs::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

extern "C" {
    fn main(argc: i32, argv: *const *const u8) -> i32;
    static mut environ: *mut *mut u8;
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(i32, *const *const u8, *const *const u8) = init;

extern "C" fn init(argc: i32, argv: *const *const u8, envp: *const *const u8) {
    let mut a = vec![];
    let mut e = BTreeMap::new();
    unsafe {
        for i in 0..argc as usize {
            a.push(cstr(*argv.add(i)));
        }
        let mut i = 0;
        while !(*envp.add(i)).is_null() {
            let s = cstr(*envp.add(i));
            if let Some((k, v)) = s.split_once('=') {
                e.insert(k.to_string(), v.to_string());
            }
            i += 1;
        }
    }
    let code = command(&a[1..], &e);
    raw::exit_group(code);
}

unsafe fn cstr(p: *const u8) -> String {
    let n = crate::sys::cstrlen(p as *const _);
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
}

// ------------------------------------------------------------------ one plan

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Viol {
    pub props: Vec<String>,
    pub class: String,
    pub msg: String,
    pub step: usize,
    pub known: Option<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub viol: Vec<Viol>,
    pub hash: u64,
    pub stats: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub sim_ns: u64,
    pub trace: Vec<String>,
    pub harness: Vec<String>,
    pub runs: u32,
}

fn build_world(plan: &Plan, trace: bool) -> World {
    let mut vfs = Vfs::new();
    vfs.order_seed = plan.world.order;
    let now = (EPOCH, 0);
    let mirror = plan.steps.iter().any(|s| match s {
        Step::Run { cfg, .. } => cfg.src == SrcSel::Dir,
        _ => false,
    });
    for d in ["/tmp", "/dev", "/etc/krill-sync/tals", "/usr/local/bin", "/data/source", "/proc", "/root", "/etc/ssl/certs"] {
        vfs.env_mkdirs(d, now);
    }
    let dev = vfs.env_mkdirs("/dev", now);
    for (n, k) in [("null", Kind::Null), ("urandom", Kind::Random), ("random", Kind::Random)] {
        let i = vfs.new_inode(k, 0o666, 1, now);
        vfs.link_in(dev, n.as_bytes(), i, now);
    }
    for i in 0..4 {
        vfs.env_write(&format!("/usr/local/bin/check-{}", i), b"#!/bin/sh\n", now);
    }
    vfs.env_write(&format!("{}/main.tal", layout::TALS), &fixtures().signed.tal, now);
    vfs.env_write("/etc/passwd", b"root:x:0:0::/root:/bin/sh\n", now);
    for n in 0..plan.nodes {
        let base = format!("/srv/n{}", n);
        vfs.env_mkdirs(&base, now);
        let mut next = 10 + n as u32 * 10;
        let mut mount = |vfs: &mut Vfs, p: &str| {
            let i = vfs.env_mkdirs(p, now);
            vfs.get_mut(i).dev = next;
            next += 1;
        };
        if plan.world.devs >= 1 {
            mount(&mut vfs, &format!("{}/state", base));
        }
        if plan.world.devs >= 2 {
            mount(&mut vfs, &format!("{}/www", base));
            mount(&mut vfs, &format!("{}/mod", base));
        }
        vfs.env_mkdirs(&format!("{}/www", base), now);
        vfs.env_mkdirs(&format!("{}/mod", base), now);
        let cfg = plan.steps.iter().find_map(|s| match s {
            Step::Run { node, cfg, .. } if *node == n => Some(cfg.clone()),
            _ => None,
        });
        if plan.world.spell == 7 {
            vfs.env_mkdirs(&layout::cwd(n, 7), now);
        }
        let all: Vec<layout::Dirs> = plan
            .steps
            .iter()
            .flat_map(|s| match s {
                Step::Run { node, cfg, others, .. } if *node == n => {
                    std::iter::once(layout::dirs(n, cfg)).chain(others.iter().map(|o| layout::dirs(n, &o.cfg))).collect()
                }
                _ => vec![],
            })
            .collect();
        for (p, target) in layout::links(n, plan.world.spell, &all) {
            if plan.world.spell == 8 {
                vfs.env_mkdirs(&target, now);
            }
            vfs.env_symlink(&p, &target, now);
        }
        if let Some(cfg) = cfg {
            let d = layout::dirs(n, &cfg);
            if plan.world.dirs_exist || plan.world.foreign {
                for p in [&d.state, &d.rrdp, &d.rsync] {
                    vfs.env_mkdirs(p, now);
                }
            }
            if plan.world.foreign {
                for p in [
                    format!("{}/index.html", d.rrdp),
                    format!("{}/.well-known/keep/site.txt", d.rrdp),
                    format!("{}/README", d.rsync),
                    format!("{}/session_keep/old.roa", d.rsync),
                    format!("{}/operator-notes.txt", d.state),
                    format!("{}/www/outside.txt", base),
                    format!("{}/evil.xml", base),
                ] {
                    vfs.env_write(&p, b"not from krill-sync\n", now);
                }
            }
        }
    }
    World {
        source: Source::new(&plan.src, plan.seed, mirror),
        plan: plan.clone(),
        mono: 0,
        wall_off: EPOCH * 1_000_000_000,
        wall_hi: 0,
        wall_fwd: 0,
        jumped: 0,
        vfs,
        procs: BTreeMap::new(),
        next_pid: 100,
        ofds: BTreeMap::new(),
        next_ofd: 1,
        pipes: BTreeMap::new(),
        scripts: BTreeMap::new(),
        locks: vec![],
        flocks: vec![],
        turn: AtomicU32::new(0),
        step: 0,
        run_no: 0,
        srng: Rng::new(plan.seed),
        net: NetState::default(),
        oracle: Oracle::new(),
        stats: Stats::default(),
        trace_hash: 0,
        trace_on: trace,
        trace: vec![],
        viol: vec![],
        interest: String::new(),
        stop: false,
        power: if crate::power::needed(plan) { Some(Default::default()) } else { None },
        states: vec![],
    }
}

fn new_proc(w: &mut World, node: u8, cfg: &Cfg, seed: u64) -> u32 {
    let pid = w.next_pid;
    w.next_pid += 1;
    let spell = layout::spell_of(w.plan.world.spell, w.plan.seed, w.run_no);
    let cwd = w.vfs.lookup(&layout::cwd(node, spell)).unwrap_or(w.vfs.root);
    let mut fds = BTreeMap::new();
    for i in 0..3 {
        let o = w.next_ofd;
        w.next_ofd += 1;
        w.ofds.insert(o, Ofd { kind: OKind::Std(i), ino: 0, pos: 0, flags: 2, refs: 1, path: format!("std{}", i) });
        fds.insert(i, o);
    }
    let p = Proc {
        pid,
        real: 0,
        node,
        argv: layout::argv(node, cfg, &w.plan.src, spell),
        cfg: cfg.clone(),
        state: PState::Ready,
        exit: None,
        fds,
        cwd,
        ops: 0,
        muts: 0,
        reqs: 0,
        faults: vec![],
        net_faults: vec![],
        during: vec![],
        during_fired: 0,
        local_fired: 0,
        unremoved: vec![],
        net_fired: 0,
        stdout: vec![],
        stderr: vec![],
        started_at: w.mono,
        ended_at: 0,
        slept: 0,
            contended: false,
        sig: 0,
        run_no: w.run_no,
        usage: false,
        umask: w.plan.world.umask as u32,
        rnd: Rng::sub(seed, pid as u64),
        unsupported: vec![],
        mutated_published: false,
        locked: false,
    };
    w.procs.insert(pid, p);
    pid
}

/// The simulated process. Never returns.
fn child(pid: u32) -> ! {
    // in kernel mode until the program starts
    let w = world();
    w.await_turn(pid);
    if w.stop {
        w.end_proc(pid, Exit::Power);
    }
    w.p(pid).state = PState::Ready;
    w.p(pid).started_at = w.mono;
    let argv: Vec<String> = w.p(pid).argv.clone();
    w.log(|| format!("[{}] START {}", pid, argv.join(" ")));
    if !w.p(pid).usage {
        w.oracle_run_start(pid);
    }
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20, rlim_max: 22 };
        raw::sc6(libc::SYS_prlimit64, 0, libc::RLIMIT_CPU as usize, &lim as *const _ as usize, 0, 0, 0);
        raw::sc3(libc::SYS_alarm, 120, 0, 0);
        crate::sys::lock_down();
    }
    alloc::set_mode(0);
    set_sim(pid);
    unsafe {
        let mut env: Vec<*mut u8> = crate::layout::env(w.plan.world.env, w.p(pid).node, w.p(pid).run_no)
            .into_iter()
            .map(|mut v| {
                v.push('\0');
                v.leak().as_mut_ptr()
            })
            .collect();
        env.push(std::ptr::null_mut());
        environ = env.leak().as_mut_ptr();
        let mut store: Vec<Vec<u8>> = argv
            .iter()
            .map(|a| {
                let mut v = a.as_bytes().to_vec();
                v.push(0);
                v
            })
            .collect();
        let mut ptrs: Vec<*const u8> = store.iter_mut().map(|v| v.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        crate::sys::set_args(argv.len() as i32, ptrs.as_ptr());
        let code = main(argv.len() as i32, ptrs.as_ptr());
        std::mem::forget(ptrs);
        std::mem::forget(store);
        kcall(|w, pid| w.end_proc(pid, Exit::Code(code & 0xff)))
    }
}

/// Files of others appear next to those of krill-sync, wherever a web server, an editor, a
/// network file system or an operator might leave them.
fn drop_files(w: &mut World, node: u8, seed: u64) {
    let Some(d) = w.oracle_last_dirs(node) else { return };
    let mut r = Rng::sub(seed, 23);
    let now = (w.wall_ns() / 1_000_000_000, 0);
    const ANY: &[&str] = &[
        ".nfs", ".nfs0000000004a3b1c500000001", ".htaccess", ".gitkeep", "index.html", ".DS_Store", "README", "lost+found/x", ".keep", "robots.txt", "a.tmp",
        "snapshot.xml.gz", "delta.xml.gz", "snapshot.xml.orig", ".snapshot.xml.swp", "backup.bak", "old", "tmp", "0", "x.old", "core", "data.json", "file.lock",
    ];
    const TOP: &[&str] = &[
        "notification.xml.gz", "notification.xml.bak", "notification.xml.old", "notification.xml~", "notification.html", "notification.xml.1", "notification", "new-notification.xml",
        "tmp/x", "00000000-0000-4000-8000-000000000000/1/snapshot.xml", "rsync", "current", "session",
    ];
    const RSYNC: &[&str] = &[
        "current.bak", "current.old", "current-1", "session_keep/x.roa", "rsyncd.conf", ".rsync-filter", "motd", "previous/ta.cer", "session_a_serial_1/x.cer", "session_", "repo/x.cer",
        "session_00000000-0000-4000-8000-000000000000_serial_/x", "tmp.current", "CURRENT", "old/x",
    ];
    const STATE: &[&str] = &[
        "rrdp-state.json.bak", "rrdp-state.json.old", "state.json", "krill-sync.log", "krill-sync.pid", "krill-sync.lock.bak", "rsync-state.json~", "validation.json", "staging/x",
        "pre-validate", "pre-validate-staging.old/x", "notification.xml", "rrdp-state", "cache/x",
    ];
    for _ in 0..1 + r.below(4) {
        let (dir, names): (String, &[&str]) = match r.below(10) {
            0 | 1 => (d.rsync.clone(), if r.pct(60) { RSYNC } else { ANY }),
            2 | 3 => (d.state.clone(), if r.pct(70) { STATE } else { ANY }),
            4 => (d.rrdp.clone(), if r.pct(60) { TOP } else { ANY }),
            _ => {
                let mut dirs: Vec<String> = vec![];
                if let Some(i) = w.vfs.lookup(&d.rrdp) {
                    dirs = w.vfs.walk(i).into_iter().filter(|x| w.vfs.get(x.1).kind == Kind::Dir && !x.0.starts_with('.')).map(|x| format!("{}/{}", d.rrdp, x.0)).collect();
                }
                if dirs.is_empty() {
                    continue;
                }
                (r.pick(&dirs), ANY)
            }
        };
        let p = format!("{}/{}", dir, r.pick(names));
        // never in place of something that is there
        let free = w.vfs.lookup_nofollow(&p).is_none() && w.vfs.lookup_nofollow(p.rsplit_once('/').unwrap().0).map_or(true, |i| w.vfs.get(i).kind == Kind::Dir);
        if free && w.vfs.lookup(&dir).is_some() {
            w.vfs.env_write(&p, format!("not from krill-sync {}\n", seed).as_bytes(), now);
            w.stats.add("env.foreign_files", 1);
            w.log(|| format!("DROP {}", p));
        }
    }
    w.power_sync_all();
}

/// Damages what the program keeps between runs. From here on only how runs
/// end is judged.
fn damage(w: &mut World, node: u8, seed: u64) {
    let Some(d) = w.oracle_last_dirs(node) else { return };
    let mut r = Rng::sub(seed, 29);
    let mut files: Vec<String> = vec![];
    for (dir, ext) in [(&d.state, ".json"), (&d.rrdp, ".xml")] {
        let Some(i) = w.vfs.lookup(dir) else { continue };
        for (k, e) in &w.vfs.get(i).entries {
            let n = w.vfs.get(*e);
            let k = String::from_utf8_lossy(k).to_string();
            if n.kind == Kind::File && !n.foreign && k.ends_with(ext) {
                files.push(format!("{}/{}", dir, k));
            }
        }
    }
    if files.is_empty() {
        return;
    }
    let p = r.pick(&files);
    let i = w.vfs.lookup(&p).unwrap();
    let mut data = w.vfs.get(i).data.clone();
    let at = r.below(data.len() as u64 + 1) as usize;
    match r.below(7) {
        0 => data.clear(),
        1 => data.truncate(at),
        2 => data[at..].fill(0),
        3 => data = (0..r.below(600)).map(|_| r.next() as u8).collect(),
        4 => data = r.pick(&["null", "{}", "[]", "0", "\"\"", "{\"snapshot\":null}", "<notification/>", "<html></html>", "\u{feff}{}"]).as_bytes().to_vec(),
        5 => {
            let n = 1 + r.below(4);
            for _ in 0..n {
                if !data.is_empty() {
                    let x = r.below(data.len() as u64) as usize;
                    data[x] = r.next() as u8;
                }
            }
        }
        _ => {
            let copy = data[..at].to_vec();
            data.extend_from_slice(&copy);
        }
    }
    let now = w.now();
    w.log(|| format!("DAMAGE {}", p));
    let i = w.vfs.env_write(&p, &data, now);
    w.vfs.get_mut(i).foreign = false;
    w.stats.add("env.damaged_files", 1);
    w.oracle.damaged = true;
    w.power_sync_all();
}

fn run_step(w: &mut World, st: &Step, harness: &mut Vec<String>) {
    match st {
        Step::Src(op) => w.source_op(op),
        Step::Advance { ms } => {
            w.mono += ms * 1_000_000;
            let t = w.mono;
            w.note(t);
        }
        Step::ClockJump { secs } => {
            if w.wall_ns() + secs * 1_000_000_000 < 0 {
                return;
            }
            w.wall_hi = w.wall_hi.max(w.wall_ns());
            w.wall_off += secs * 1_000_000_000;
            w.wall_fwd += (*secs).max(0) * 1_000_000_000;
            w.stats.add(if *secs < 0 { "fault.clock_back" } else { "fault.clock_forward" }, 1);
            w.note(*secs as u64);
        }
        Step::Power { seed } => {
            w.stats.add("fault.power_loss", 1);
            w.power_apply(*seed);
        }
        Step::Drop { node, seed } => drop_files(w, *node, *seed),
        Step::Damage { node, seed } => damage(w, *node, *seed),
        Step::Usage { node, seed, cfg } => usage(w, *node, *seed, cfg, harness),
        Step::Legacy { node, seed } => {
            if w.legacy(*node, *seed) {
                w.stats.add("env.legacy_state", 1);
            } else {
                w.stats.add("env.legacy_not_possible", 1);
            }
        }
        Step::Run { node, seed, cfg, faults, net, during, others } => {
            prepare(w, cfg, *seed);
            let mut pids = vec![];
            let first = new_proc(w, *node, cfg, *seed);
            {
                let p = w.p(first);
                p.faults = faults.iter().map(|f| Armed { f: *f, seen: 0, fired: 0 }).collect();
                p.net_faults = net.iter().map(|f| ArmedNet { f: *f, seen: 0, fired: 0 }).collect();
                p.during = during.clone();
            }
            pids.push(first);
            for o in others {
                let q = new_proc(w, o.node, &o.cfg, *seed);
                let t = w.mono + o.after_ms as u64 * 1_000_000;
                let p = w.p(q);
                p.faults = o.faults.iter().map(|f| Armed { f: *f, seen: 0, fired: 0 }).collect();
                p.state = PState::Sleeping(t);
                pids.push(q);
            }
            w.stats.add("runs", pids.len() as u64);
            let first = pids[0];
            run_procs(w, &pids, first, harness);
            if let Some(s) = w.power_wanted() {
                w.power_apply(s);
            }
        }
    }
}

/// A new run begins.
fn prepare(w: &mut World, cfg: &Cfg, seed: u64) {
    w.run_no += 1;
    w.srng = Rng::sub(seed, 11);
    w.procs.clear();
    w.ofds.clear();
    w.pipes.clear();
    w.scripts.clear();
    w.locks.clear();
    w.flocks.clear();
    w.stop = false;
    w.net.bodies.clear();
    w.net.reqs.clear();
    if w.plan.src.signed && w.plan.src.tree == 1 {
        let now = (w.wall_ns() / 1_000_000_000, 0);
        for (n, k) in layout::tals(cfg.tal) {
            w.vfs.env_write(&format!("{}/{}.tal", layout::TALS, n), &fixtures().trees.tas[*k].tal, now);
        }
    }
}

/// Let all these processes run to their ends.
fn run_procs(w: &mut World, pids: &[u32], first: u32, harness: &mut Vec<String>) {
    w.turn.store(0, Ordering::SeqCst);
    let mut real: BTreeMap<i32, u32> = BTreeMap::new();
    for q in pids {
        let f = raw::fork();
        if f == 0 {
            child(*q);
        }
        if f < 0 {
            raw::die("fork failed");
        }
        w.p(*q).real = f;
        real.insert(f, *q);
    }
    w.give_turn(first);
    while !real.is_empty() {
        let (rp, status) = raw::wait(-1, 0);
        if rp <= 0 {
            raw::die("wait failed");
        }
        let Some(q) = real.remove(&rp) else { continue };
        if w.procs[&q].state == PState::Done {
            continue;
        }
        // died without a word
        let e = if libc::WIFSIGNALED(status) {
            match libc::WTERMSIG(status) {
                libc::SIGXCPU | libc::SIGKILL | libc::SIGALRM => {
                    w.violate(&["C16"], "cpu-loop", "the run computes without end or blocks outside the simulated system".into());
                    Exit::Hang("cpu".into())
                }
                s => Exit::Signal(s),
            }
        } else {
            let code = libc::WEXITSTATUS(status);
            harness.push(format!("simulated process ended abnormally with {}", code));
            Exit::Hang("harness".into())
        };
        w.finish_proc(q, e);
        w.pass_on();
    }
}

/// All that is published, and all else that is not the program's own.
fn outside(w: &World, d: &layout::Dirs) -> BTreeMap<String, (Ino, u64, i64)> {
    let mut m = BTreeMap::new();
    for (p, i) in w.vfs.walk(w.vfs.root) {
        let p = format!("/{}", p.trim_start_matches('/'));
        let x = w.vfs.get(i);
        let own = same_or_under(&p, &d.state) && !under(&p, &d.rrdp) && !under(&p, &d.rsync);
        if own || x.kind == Kind::Dir {
            continue;
        }
        m.insert(p, (i, fnv(x.mode as u64, &x.data), x.mtime.0));
    }
    m
}

/// Somebody starts the program with a command line that asks for something else than a
/// run, or for something impossible.
fn usage(w: &mut World, node: u8, seed: u64, cfg: &Cfg, harness: &mut Vec<String>) {
    prepare(w, cfg, seed);
    let now = (w.wall_ns() / 1_000_000_000, 0);
    for (p, data) in layout::ODD_FILES {
        if w.vfs.lookup(p).is_none() {
            w.vfs.env_write(p, data, now);
        }
    }
    let d = layout::dirs(node, cfg);
    let before = outside(w, &d);
    let (argv, expect) = layout::usage(node, cfg, &w.plan.src, seed);
    let pid = new_proc(w, node, cfg, seed);
    w.p(pid).argv = argv.clone();
    w.p(pid).usage = true;
    w.stats.add("runs", 1);
    w.stats.add("env.odd_command_line", 1);
    run_procs(w, &[pid], pid, harness);
    let p = &w.procs[&pid];
    let exit = p.exit.clone();
    let (out, err) = (String::from_utf8_lossy(&p.stdout).to_string(), String::from_utf8_lossy(&p.stderr).to_string());
    let head: String = err.trim().chars().take(300).collect();
    let line = argv.join(" ");
    let heard = w.plan.world.out == 0;
    match (&exit, expect) {
        (Some(Exit::Code(101)) | Some(Exit::Signal(_)), _) => w.violate(&["C22"], "panic", format!("{}: ended with {:?}: {}", line, exit, head)),
        (Some(Exit::Code(0)), layout::Expect::Failure) => w.violate(&["C22"], "nonsense-accepted", format!("{}: exit status 0", line)),
        (Some(Exit::Code(0)), layout::Expect::Answer) if out.trim().is_empty() && heard => {
            w.violate(&["C22"], "no-answer", format!("{}: exit status 0, but nothing is printed", line))
        }
        (Some(Exit::Code(0)), _) => {}
        (e, layout::Expect::Answer) if heard => w.violate(&["C22"], "no-answer", format!("{}: ended with {:?}", line, e)),
        (_, _) if err.trim().is_empty() && heard => w.violate(&["C22"], "silent-failure", format!("{}: failed without a message on standard error", line)),
        _ => {}
    }
    let after = outside(w, &d);
    if before != after {
        let p = before.iter().find(|x| after.get(x.0) != Some(x.1)).or_else(|| after.iter().find(|x| !before.contains_key(x.0))).unwrap();
        w.violate(&["C10"], "changed-by-nonsense", format!("{}: changes {}", line, p.0));
    }
}

/// Execute a plan. Everything the world needs lives in the arena.
pub fn execute(plan: &Plan, trace: bool) -> Outcome {
    alloc::enter();
    alloc::reset();
    let mut harness = vec![];
    let w: &'static mut World = Box::leak(Box::new(build_world(plan, trace)));
    set_world(w);
    w.mirror_source();
    let steps = w.plan.steps.clone();
    for (i, s) in steps.iter().enumerate() {
        w.step = i;
        if trace {
            let t = match s {
                Step::Run { node, faults, net, during, others, .. } => {
                    format!("run on node {} faults {:?} net {:?} during {:?} others {}", node, faults, net, during, others.len())
                }
                s => format!("{:?}", s),
            };
            w.log(|| format!("STEP {} {}", i, t));
        }
        run_step(w, s, &mut harness);
        if !harness.is_empty() {
            break;
        }
    }
    alloc::set_mode(0);
    let out = Outcome {
        viol: w
            .viol
            .iter()
            .map(|v| Viol { props: v.props.clone(), class: v.class.clone(), msg: v.msg.clone(), step: v.step, known: v.known.clone() })
            .collect(),
        hash: w.trace_hash,
        stats: w.stats.counters.clone(),
        states: w.states.clone(),
        sim_ns: w.mono,
        trace: w.trace.clone(),
        harness: harness.clone(),
        runs: w.run_no,
    };
    out
}

pub fn setup_process() {
    let usual = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if alloc::mode() > 0 {
            raw::err(&format!("ksim: panic in the simulator: {}\n", i));
        } else {
            usual(i)
        }
    }));
    // fixtures are shared, read-only
    alloc::init_arena(3 << 30);
    let f = Box::leak(Box::new(load_fixtures()));
    set_fixtures(f);
    alloc::mark();
}

pub fn hits<'a>(o: &'a Outcome, prop: &str) -> Option<&'a Viol> {
    o.viol.iter().find(|v| v.known.is_none() && (prop == "any" || v.props.iter().any(|p| p == prop)))
}

// ------------------------------------------------------------------ searching

#[repr(C)]
struct Shared {
    min: AtomicU64,
    cur: [AtomicU64; 64],
    done: AtomicU64,
}

#[derive(Default, Serialize, Deserialize)]
struct Part {
    plans: u64,
    runs: u64,
    sim_s: u64,
    stats: BTreeMap<String, u64>,
    profiles: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    others: BTreeMap<String, (u64, u64)>,
    harness: u64,
    harness_sample: Vec<String>,
    nondet: Vec<u64>,
    twice: u64,
    nontrivial: u64,
    faulted: u64,
}

struct Opts {
    prop: String,
    tier: String,
    seed: u64,
    plans: u64,
    secs: u64,
    workers: u64,
    out: String,
    evidence: String,
    verbose: bool,
}

fn worker(o: &Opts, sh: &Shared, me: u64, fd: i32, deadline: u64) -> ! {
    setup_process();
    let mut part = Part::default();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut i = sh.cur[me as usize].load(Ordering::SeqCst);
    while i < o.plans && i < sh.min.load(Ordering::SeqCst) {
        if raw::real_now_ns() > deadline {
            break;
        }
        let plan = gen::plan_for(&o.prop, o.seed, i);
        let r = execute(&plan, false);
        part.plans += 1;
        part.runs += r.runs as u64;
        part.sim_s += r.sim_ns / 1_000_000_000;
        *part.profiles.entry(plan.profile.clone()).or_default() += 1;
        let mut faulted = false;
        for (k, v) in &r.stats {
            *part.stats.entry(k.clone()).or_default() += v;
            faulted |= k.starts_with("fault.");
        }
        part.faulted += faulted as u64;
        let mut new = false;
        for s in &r.states {
            if states.len() < 2_000_000 {
                new |= states.insert(*s);
            }
        }
        let upd = r.stats.get("published.notifications").copied().unwrap_or(0) > 0;
        part.nontrivial += (new && upd) as u64;
        if !r.harness.is_empty() {
            part.harness += 1;
            if part.harness_sample.len() < 5 {
                part.harness_sample.push(format!("{} index {}: {}", plan.profile, i, r.harness[0]));
            }
        } else if i % 64 < o.workers && i / 64 % 4 == 0 {
            part.twice += 1;
            let r2 = execute(&plan, false);
            if r2.hash != r.hash || r2.viol.len() != r.viol.len() {
                part.nondet.push(i);
            }
        }
        for v in &r.viol {
            match &v.known {
                Some(k) => {
                    if v.props.contains(&o.prop) {
                        *part.known.entry(k.clone()).or_default() += 1;
                    }
                }
                None => {
                    let e = part.others.entry(format!("{}:{}", v.props.join("+"), v.class)).or_insert((0, i));
                    e.0 += 1;
                }
            }
        }
        if r.harness.is_empty() && o.prop != "any" && hits(&r, &o.prop).is_some() {
            sh.min.fetch_min(i, Ordering::SeqCst);
        }
        sh.done.fetch_add(1, Ordering::SeqCst);
        i += o.workers;
        sh.cur[me as usize].store(i, Ordering::SeqCst);
    }
    let js = serde_json::to_vec(&part).unwrap();
    raw::write_fd(fd, &(js.len() as u64).to_le_bytes());
    raw::write_fd(fd, &js);
    let mut b = Vec::with_capacity(states.len() * 8);
    for s in &states {
        b.extend_from_slice(&s.to_le_bytes());
    }
    raw::write_fd(fd, &b);
    raw::exit_group(0)
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            65536,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(p as *const Shared)
    }
}

fn search(o: &Opts, env: &BTreeMap<String, String>) -> i32 {
    let t0 = raw::real_now_ns();
    let deadline = t0 + o.secs * 1_000_000_000;
    let sh = shared();
    sh.min.store(u64::MAX, Ordering::SeqCst);
    let spawn = |k: u64| -> (i32, i32) {
        let (r, wfd) = raw::pipe();
        let p = raw::fork();
        if p == 0 {
            raw::close(r);
            worker(o, sh, k, wfd, deadline);
        }
        raw::close(wfd);
        (p, r)
    };
    let mut ws: Vec<(i32, i32)> = vec![];
    for k in 0..o.workers {
        sh.cur[k as usize].store(k, Ordering::SeqCst);
        ws.push(spawn(k));
    }
    let mut parts: Vec<Part> = vec![];
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut dead = 0;
    for k in 0..o.workers as usize {
        loop {
            let (p, fd) = ws[k];
            let mut data: Vec<u8> = vec![];
            let mut buf = vec![0u8; 1 << 16];
            loop {
                let n = raw::read_some(fd, &mut buf);
                if n <= 0 {
                    break;
                }
                data.extend_from_slice(&buf[..n as usize]);
            }
            raw::close(fd);
            raw::wait(p, 0);
            if data.len() >= 8 {
                let n = u64::from_le_bytes(data[..8].try_into().unwrap()) as usize;
                if data.len() >= 8 + n {
                    if let Ok(p) = serde_json::from_slice::<Part>(&data[8..8 + n]) {
                        parts.push(p);
                        for c in data[8 + n..].chunks_exact(8) {
                            states.insert(u64::from_le_bytes(c.try_into().unwrap()));
                        }
                        break;
                    }
                }
            }
            // the worker died: skip the plan it was at
            dead += 1;
            let at = sh.cur[k].load(Ordering::SeqCst);
            raw::err(&format!("ksim: worker {} died at plan {}\n", k, at));
            sh.cur[k].store(at + o.workers, Ordering::SeqCst);
            if dead > 20 {
                break;
            }
            ws[k] = spawn(k as u64);
        }
    }
    let mut t = Part::default();
    for p in parts {
        t.plans += p.plans;
        t.runs += p.runs;
        t.sim_s += p.sim_s;
        t.harness += p.harness;
        t.twice += p.twice;
        t.nontrivial += p.nontrivial;
        t.faulted += p.faulted;
        t.nondet.extend(p.nondet);
        t.harness_sample.extend(p.harness_sample);
        for (k, v) in p.stats {
            *t.stats.entry(k).or_default() += v;
        }
        for (k, v) in p.profiles {
            *t.profiles.entry(k).or_default() += v;
        }
        for (k, v) in p.known {
            *t.known.entry(k).or_default() += v;
        }
        for (k, v) in p.others {
            let e = t.others.entry(k).or_insert((0, u64::MAX));
            e.0 += v.0;
            e.1 = e.1.min(v.1);
        }
    }
    let wall_search = (raw::real_now_ns() - t0) as f64 / 1e9;
    if o.verbose {
        raw::out(&format!(
            "{}: {} plans, {} runs, {} h simulated, {} distinct run histories, {:.1} s\n",
            o.prop,
            t.plans,
            t.runs,
            t.sim_s / 3600,
            states.len(),
            wall_search
        ));
        for (k, v) in &t.others {
            raw::out(&format!("  {} x{} first at {}\n", k, v.0, v.1));
        }
        for (k, v) in &t.stats {
            raw::out(&format!("    {} {}\n", k, v));
        }
    }
    if !t.nondet.is_empty() {
        raw::err(&format!("ksim: WARNING: not repeatable: {:?}\n", &t.nondet[..t.nondet.len().min(10)]));
    }
    if t.harness > 0 || dead > 0 {
        raw::err(&format!("ksim: WARNING: {} plans could not be simulated, {} workers died: {:?}\n", t.harness, dead, t.harness_sample));
    }
    let min = sh.min.load(Ordering::SeqCst);
    let mut code = 0;
    let mut nviol = 0;
    let mut viol_line = String::new();
    if min != u64::MAX {
        // report in a process of its own
        let (r, wfd) = raw::pipe();
        let p = raw::fork();
        if p == 0 {
            raw::close(r);
            let line = report(o, min);
            raw::write_fd(wfd, line.as_bytes());
            raw::exit_group(0);
        }
        raw::close(wfd);
        let mut buf = vec![0u8; 65536];
        let mut data = vec![];
        loop {
            let n = raw::read_some(r, &mut buf);
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        raw::wait(p, 0);
        viol_line = String::from_utf8_lossy(&data).to_string();
        if viol_line.is_empty() {
            // could not be written out: report the unminimised plan
            let plan = gen::plan_for(&o.prop, o.seed, min);
            let path = format!("{}/{}-{}.json", o.out, o.prop, min);
            raw::mkdir_p(&o.out);
            raw::write_file(&path, &serde_json::to_vec_pretty(&Replay { plan, property: o.prop.clone(), class: String::new(), message: String::new(), hash: String::new(), trace: vec![] }).unwrap());
            viol_line = format!("VIOLATION property={} replay={}\n", o.prop, path);
        }
        code = 1;
        nviol = 1;
    }
    for e in crate::known::list() {
        if e.property == o.prop {
            raw::out(&format!("KNOWN-FINDING: property={} {}\n", o.prop, e.what));
        }
    }
    raw::out(&viol_line);
    let wall = (raw::real_now_ns() - t0) as f64 / 1e9;
    evidence(o, env, &t, states.len(), wall, wall_search, nviol, dead);
    if code == 0 && t.plans == t.harness {
        raw::err("ksim: nothing could be simulated\n");
        return 2;
    }
    code
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub hash: String,
    pub plan: Plan,
    pub trace: Vec<String>,
}

fn report(o: &Opts, index: u64) -> String {
    setup_process();
    let plan = gen::plan_for(&o.prop, o.seed, index);
    let r = execute(&plan, false);
    let v = match hits(&r, &o.prop) {
        Some(v) => v.clone(),
        None => return String::new(),
    };
    let small = minimise(&plan, &o.prop, &v.class, if o.tier == "quick" { 25 } else { 60 });
    let r = execute(&small, true);
    let v = r.viol.iter().find(|x| x.class == v.class && x.known.is_none() && x.props.contains(&o.prop)).cloned().unwrap_or(v);
    let path = format!("{}/{}-{}-{}.json", o.out, o.prop, v.class, index);
    raw::mkdir_p(&o.out);
    let mut trace = r.trace.clone();
    if trace.len() > 3000 {
        let n = trace.len() - 3000;
        trace.drain(..n);
    }
    let rep = Replay { property: o.prop.clone(), class: v.class.clone(), message: v.msg.clone(), hash: format!("{:016x}", r.hash), plan: small, trace };
    raw::write_file(&path, &serde_json::to_vec_pretty(&rep).unwrap());
    format!("{}: {} (plan {}, seed {})\nVIOLATION property={} replay={}\n", v.class, v.msg, index, o.seed, o.prop, path)
}

// ---------------------------------------------------------------- minimising

fn still(p: &Plan, prop: &str, class: &str, n: &mut u32) -> bool {
    *n += 1;
    let r = execute(p, false);
    r.harness.is_empty() && r.viol.iter().any(|v| v.known.is_none() && v.class == class && v.props.iter().any(|x| x == prop))
}

pub fn minimise(plan: &Plan, prop: &str, class: &str, secs: u64) -> Plan {
    let end = raw::real_now_ns() + secs * 1_000_000_000;
    let mut best = plan.clone();
    let mut n = 0;
    let mut again = true;
    while again && raw::real_now_ns() < end && n < 1500 {
        again = false;
        // steps, large pieces first
        let mut size = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                if raw::real_now_ns() > end {
                    return best;
                }
                let mut c = best.clone();
                let j = (i + size).min(c.steps.len());
                c.steps.drain(i..j);
                if still(&c, prop, class, &mut n) {
                    best = c;
                    again = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for cand in variants(&best) {
            if raw::real_now_ns() > end {
                return best;
            }
            // variants are built against `best` at the start of this pass
            if let Some(c) = cand(&best) {
                if c != best && still(&c, prop, class, &mut n) {
                    best = c;
                    again = true;
                }
            }
        }
    }
    best
}

type Edit = Box<dyn Fn(&Plan) -> Option<Plan>>;

fn edit_run(i: usize, f: impl Fn(&mut u8, &mut Cfg, &mut Vec<Fault>, &mut Vec<NetFault>, &mut Vec<(At, SrcOp)>, &mut Vec<Other>) -> bool + 'static) -> Edit {
    Box::new(move |p: &Plan| {
        let mut c = p.clone();
        match c.steps.get_mut(i) {
            Some(Step::Run { node, cfg, faults, net, during, others, .. }) => {
                if f(node, cfg, faults, net, during, others) {
                    Some(c)
                } else {
                    None
                }
            }
            _ => None,
        }
    })
}

fn all_cfg(f: impl Fn(&mut Cfg) + 'static) -> Edit {
    Box::new(move |p: &Plan| {
        let mut c = p.clone();
        for s in c.steps.iter_mut() {
            if let Step::Run { cfg, others, .. } = s {
                f(cfg);
                for o in others {
                    f(&mut o.cfg);
                }
            }
        }
        Some(c)
    })
}

fn variants(p: &Plan) -> Vec<Edit> {
    let mut v: Vec<Edit> = vec![];
    for i in 0..p.steps.len() {
        match &p.steps[i] {
            Step::Run { faults, net, during, others, .. } => {
                for k in (0..others.len()).rev() {
                    v.push(edit_run(i, move |_, _, _, _, _, o| k < o.len() && { o.remove(k); true }));
                }
                for k in (0..during.len()).rev() {
                    v.push(edit_run(i, move |_, _, _, _, d, _| k < d.len() && { d.remove(k); true }));
                }
                for k in (0..net.len()).rev() {
                    v.push(edit_run(i, move |_, _, _, n, _, _| k < n.len() && { n.remove(k); true }));
                }
                for k in (0..faults.len()).rev() {
                    v.push(edit_run(i, move |_, _, f, _, _, _| k < f.len() && { f.remove(k); true }));
                }
                for k in 0..faults.len() {
                    v.push(edit_run(i, move |_, _, f, _, _, _| k < f.len() && f[k].more > 0 && { f[k].more = 0; true }));
                    v.push(edit_run(i, move |_, _, f, _, _, _| k < f.len() && matches!(f[k].kind, FaultKind::Torn(_)) && { f[k].kind = FaultKind::CrashBefore; true }));
                }
            }
            Step::Src(SrcOp::Publish { n, .. }) if *n > 0 => {
                v.push(Box::new(move |p: &Plan| {
                    let mut c = p.clone();
                    if let Some(Step::Src(SrcOp::Publish { n, .. })) = c.steps.get_mut(i) {
                        *n = 0;
                        return Some(c);
                    }
                    None
                }));
            }
            _ => {}
        }
    }
    v.push(all_cfg(|c| c.scripts.clear()));
    v.push(all_cfg(|c| c.rsync = false));
    v.push(all_cfg(|c| c.host = false));
    v.push(all_cfg(|c| c.max = None));
    v.push(all_cfg(|c| c.delay = 0));
    v.push(all_cfg(|c| c.derived = false));
    v.push(all_cfg(|c| c.insecure = false));
    v.push(all_cfg(|c| c.src = SrcSel::Public));
    v.push(all_cfg(|c| c.verbose = 0));
    v.push(all_cfg(|c| c.quiet = false));
    v.push(all_cfg(|c| c.offline = false));
    v.push(all_cfg(|c| c.reject = false));
    v.push(all_cfg(|c| c.cleanup = 3600));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.world.foreign = false;
        Some(c)
    }));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.world.env = 0;
        Some(c)
    }));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.world.devs = 0;
        Some(c)
    }));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.world.spell = 0;
        Some(c)
    }));
    v.push(all_cfg(|c| c.dflt = false));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.world.latency = 0;
        Some(c)
    }));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.src.objects = 1;
        Some(c)
    }));
    v.push(Box::new(|p: &Plan| {
        let mut c = p.clone();
        c.src.xml_style = 0;
        c.src.path_style = 0;
        c.src.modules = 0;
        c.src.base = 0;
        c.src.notif_name = 0;
        Some(c)
    }));
    v
}

// ------------------------------------------------------------------- commands

fn find(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn command(a: &[String], env: &BTreeMap<String, String>) -> i32 {
    let num = |k: &str, d: u64| find(a, k).and_then(|s| s.parse().ok()).unwrap_or(d);
    if let Some(p) = find(a, "--known").or_else(|| env.get("KSIM_KNOWN").cloned()) {
        if let Some(b) = raw::read_file(&p) {
            match serde_json::from_slice::<crate::known::List>(&b) {
                Ok(l) => crate::known::set(Box::leak(Box::new(l))),
                Err(e) => {
                    raw::err(&format!("ksim: {}: {}\n", p, e));
                    return 2;
                }
            }
        }
    }
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let o = Opts {
                prop: find(a, "--prop").unwrap_or_else(|| "any".into()),
                tier: find(a, "--tier").unwrap_or_else(|| "quick".into()),
                seed: num("--seed", 1),
                plans: num("--plans", 2000),
                secs: num("--secs", 60),
                workers: num("--workers", 8).clamp(1, 64),
                out: find(a, "--out").unwrap_or_else(|| "/verif/out".into()),
                evidence: find(a, "--evidence").unwrap_or_default(),
                verbose: a.iter().any(|x| x == "-v"),
            };
            search(&o, env)
        }
        Some("plan") => {
            let prop = find(a, "--prop").unwrap_or_else(|| "any".into());
            let p = gen::plan_for(&prop, num("--seed", 1), num("--index", 0));
            raw::out(&serde_json::to_string_pretty(&p).unwrap());
            raw::out("\n");
            0
        }
        Some("run") => {
            // one generated plan, with its trace
            let prop = find(a, "--prop").unwrap_or_else(|| "any".into());
            let mut p = gen::plan_for(&prop, num("--seed", 1), num("--index", 0));
            setup_process();
            if let Some(c) = find(a, "--min") {
                let pr = find(a, "--for").unwrap_or(prop);
                p = minimise(&p, &pr, &c, num("--secs", 30));
                if let Some(f) = find(a, "--save") {
                    let rep = Replay { property: pr, class: c, message: String::new(), hash: String::new(), plan: p.clone(), trace: vec![] };
                    raw::write_file(&f, &serde_json::to_vec_pretty(&rep).unwrap());
                }
            }
            let r = execute(&p, true);
            show(&r);
            0
        }
        Some("replay") => {
            let f = a.get(1).cloned().unwrap_or_default();
            let Some(b) = raw::read_file(&f) else {
                raw::err("cannot read the replay file\n");
                return 2;
            };
            let rep: Replay = match serde_json::from_slice(&b) {
                Ok(r) => r,
                Err(e) => {
                    raw::err(&format!("{}: {}\n", f, e));
                    return 2;
                }
            };
            setup_process();
            let r = execute(&rep.plan, true);
            if !a.iter().any(|x| x == "-q") {
                show(&r);
            }
            let hit = r.viol.iter().any(|v| v.known.is_none() && (rep.class.is_empty() || v.class == rep.class) && v.props.contains(&rep.property));
            if !rep.hash.is_empty() {
                let same = format!("{:016x}", r.hash) == rep.hash;
                raw::out(if same { "execution identical to the recorded one\n" } else { "execution differs from the recorded one (the code changed)\n" });
            }
            if hit {
                raw::out(&format!("VIOLATION property={} replay={}\n", rep.property, f));
                1
            } else {
                0
            }
        }
        _ => {
            raw::err("usage: ksync-sim check --prop P --seed S --plans N | run --prop P --index I | replay FILE | plan\n");
            2
        }
    }
}

fn show(r: &Outcome) {
    for l in &r.trace {
        raw::out(l);
        raw::out("\n");
    }
    for v in &r.viol {
        raw::out(&format!("** step {} {:?} {} {}: {}\n", v.step, v.props, v.class, v.known.clone().unwrap_or_default(), v.msg));
    }
    for h in &r.harness {
        raw::out(&format!("harness: {}\n", h));
    }
    raw::out(&format!("hash {:016x}, {} runs, {} s simulated\n", r.hash, r.runs, r.sim_ns / 1_000_000_000));
}

// ------------------------------------------------------------------- evidence

#[allow(clippy::too_many_arguments)]
fn evidence(o: &Opts, _env: &BTreeMap<String, String>, t: &Part, states: usize, wall: f64, wall_search: f64, nviol: u64, dead: u64) {
    if o.evidence.is_empty() {
        return;
    }
    let faults: BTreeMap<&String, &u64> = t.stats.iter().filter(|(k, _)| k.starts_with("fault.")).collect();
    let runs: BTreeMap<&String, &u64> = t.stats.iter().filter(|(k, _)| k.starts_with("runs") || k.starts_with("env.") || k.starts_with("published") || k.starts_with("power.") || k.starts_with("source.") || k.starts_with("scripts") || k.starts_with("net.") || k.starts_with("sched")).collect();
    let unmodelled: BTreeMap<&String, &u64> = t.stats.iter().filter(|(k, _)| k.starts_with("unmodelled")).collect();
    let sample = |i: u64| -> serde_json::Value {
        let p = gen::plan_for(&o.prop, o.seed, i);
        serde_json::json!({ "index": i, "plan": p })
    };
    let per_hour = |n: u64| if wall_search > 0.0 { (n as f64 / wall_search * 3600.0) as u64 } else { 0 };
    let v = serde_json::json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": nviol,
        "coverage": {
            "evaluations": t.plans,
            "distinct_nontrivial": t.nontrivial,
            "rule": "One evaluation is one simulated history: a plan generated from the seed (source activity, program invocations with settings, injected faults, time) executed deterministically with the real main() of krill-sync. Non-trivial: the program published at least one notification in it, and at least one of its invocations had a sequence of (mutating operation, area, fault, outcome) not seen before by that worker.",
            "invocations_of_the_program": t.runs,
            "distinct_run_histories": states,
            "state_measure": "hash over the sequence of mutating file-system operations with the area they hit, the injected faults, and the outcome of one invocation",
            "simulated_hours": t.sim_s / 3600,
            "histories_per_hour": per_hour(t.plans),
            "invocations_per_hour": per_hour(t.runs),
            "histories_with_injected_faults": t.faulted,
            "faults_injected": faults,
            "activity": runs,
            "profiles": t.profiles,
            "executed_twice_and_compared": t.twice,
            "not_repeatable": t.nondet.len(),
            "could_not_be_simulated": t.harness + dead,
            "unmodelled_calls": unmodelled,
            "other_rules_violated": t.others.keys().collect::<Vec<_>>(),
            "known_findings_seen": t.known,
            "seeds": format!("VERIF_SEED={} indices 0..{}", o.seed, o.plans),
            "real_code": ["krill-sync main.rs, config, process, rrdp, rsync, fetch, file_ops, validation/ (from /repo)", "rpki-rs parsing and validation", "fslock, filetime, serde_json, structopt, std"],
            "stubs": ["reqwest transport (same API, simulated network and TLS verdicts)", "libc file, time, lock, process and random calls (simulated machine)", "pre-validation script processes", "upstream publication server (model)"],
            "samples": [sample(0), sample(o.workers)]
        },
        "assumptions": [
            "the simulated file system, network and upstream server behave like the real ones in what the program can observe",
            "a crash stops the process between two system calls or within one write"
        ]
    });
    if let Some(d) = o.evidence.rsplit_once('/') {
        raw::mkdir_p(d.0);
    }
    raw::write_file(&o.evidence, &serde_json::to_vec_pretty(&v).unwrap());
}

pub fn _unused() -> u64 {
    mix(0)
}

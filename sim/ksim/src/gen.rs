//! Plans from seeds. A profile says which ingredients matter for a property.
use crate::plan::*;
use crate::rng::*;
use crate::source::{fixtures, V_DAMAGED};

/// Weights and probabilities (percent) of one profile.
#[derive(Clone)]
pub struct K {
    pub rounds: (u64, u64),
    pub nodes: u8,
    pub publish: u64,
    pub session: u64,
    pub session_back: u64,
    pub stale: u64,
    pub bad: u64,
    pub rewrite: u64,
    pub bads: Vec<Bad>,
    pub during: u64,
    pub net: u64,
    pub crash: u64,
    pub err: u64,
    pub full: u64,
    pub short: u64,
    pub others: u64,
    pub clock: u64,
    pub power: u64,
    pub settings: u64,
    pub long: u64,
    pub noop: u64,
    pub rsync: u64,
    pub host: u64,
    pub max: u64,
    pub delay: u64,
    pub short_cleanup: u64,
    pub insecure: u64,
    pub hidden: u64,
    pub dir: u64,
    pub tal: u64,
    pub reject: u64,
    pub scripts: u64,
    pub script_fail: u64,
    pub devs: u64,
    pub foreign: u64,
    pub modules: u64,
    pub derived: u64,
    pub spell: u64,
    pub drop: u64,
    pub objects: u64,
    pub switch: u64,
    pub tail: u64,
    pub umask: u64,
    pub legacy: u64,
    pub damage: u64,
    pub usage: u64,
    pub years: u64,
    pub paths: Vec<PathSel>,
    pub ops: Vec<OpSel>,
    pub nets: Vec<u8>,
}

impl K {
    fn base() -> K {
        K {
            rounds: (2, 7),
            nodes: 1,
            publish: 75,
            session: 12,
            session_back: 30,
            stale: 5,
            bad: 8,
            rewrite: 2,
            bads: ALL_BAD.to_vec(),
            during: 10,
            net: 10,
            crash: 20,
            err: 12,
            full: 4,
            short: 8,
            others: 0,
            clock: 3,
            power: 0,
            settings: 4,
            long: 25,
            noop: 15,
            rsync: 75,
            host: 30,
            max: 30,
            delay: 15,
            short_cleanup: 50,
            insecure: 8,
            hidden: 15,
            dir: 12,
            tal: 0,
            reject: 0,
            scripts: 5,
            script_fail: 20,
            devs: 15,
            foreign: 40,
            modules: 25,
            derived: 15,
            spell: 20,
            drop: 4,
            objects: 14,
            switch: 0,
            tail: 60,
            umask: 10,
            legacy: 0,
            damage: 0,
            usage: 2,
            years: 0,
            paths: vec![PathSel::Any, PathSel::Any, PathSel::Any, PathSel::State, PathSel::Staging, PathSel::Rrdp, PathSel::Rsync],
            ops: vec![OpSel::Mut, OpSel::Mut, OpSel::Mut, OpSel::Any],
            nets: vec![],
        }
    }
}

pub const PROFILES: &[&str] = &[
    "rrdp", "mirror", "badsrc", "serial", "rsync", "retain", "cleanup", "heal", "lock", "contain", "delay", "same", "tal", "script",
    "origin", "time", "mirrors", "mtime", "power", "settings", "perms", "report", "upgrade", "mixed",
];

pub fn profile(name: &str) -> K {
    use Bad::*;
    let mut k = K::base();
    match name {
        "rrdp" => {
            k.crash = 45;
            k.err = 15;
            k.rsync = 35;
            k.session = 15;
            k.max = 45;
            k.settings = 0;
            k.paths = vec![PathSel::Any, PathSel::Rrdp, PathSel::Rrdp, PathSel::State, PathSel::Staging];
        }
        "mirror" => {
            k.crash = 4;
            k.err = 40;
            k.full = 10;
            k.short = 20;
            k.during = 20;
            k.ops = vec![OpSel::Any, OpSel::Mut, OpSel::Write, OpSel::Rename, OpSel::Read, OpSel::Open, OpSel::Create, OpSel::Stat, OpSel::Mkdir, OpSel::Link, OpSel::Remove, OpSel::Readdir, OpSel::Utimes, OpSel::Copy];
        }
        "badsrc" => {
            k.bad = 55;
            k.net = 35;
            k.stale = 10;
            k.crash = 5;
            k.err = 3;
            k.full = 0;
            k.during = 20;
            k.bads = ALL_BAD.iter().copied().filter(|b| !matches!(b, ObjTraversalHost | ObjTraversalModule)).collect();
        }
        "serial" => {
            k.rewrite = 35;
            k.stale = 35;
            k.session = 20;
            k.session_back = 50;
            k.crash = 30;
            k.rsync = 35;
            k.bad = 4;
            k.rounds = (3, 8);
        }
        "rsync" => {
            k.rewrite = 8;
            k.rsync = 100;
            k.crash = 45;
            k.err = 12;
            k.host = 40;
            k.settings = 0;
            k.session = 18;
            k.paths = vec![PathSel::Any, PathSel::Rsync, PathSel::Rsync, PathSel::State];
        }
        "retain" => {
            k.rewrite = 5;
            k.crash = 30;
            k.short_cleanup = 60;
            k.session = 22;
            k.session_back = 60;
            k.noop = 25;
            k.rounds = (3, 8);
            k.long = 40;
            k.delay = 25;
            k.tail = 30;
            k.bad = 12;
        }
        "cleanup" => {
            k.years = 2;
            k.drop = 15;
            k.crash = 12;
            k.err = 15;
            k.short_cleanup = 70;
            k.rounds = (3, 8);
            k.long = 60;
            k.tail = 90;
            k.session = 15;
            k.settings = 0;
            k.ops = vec![OpSel::Mut, OpSel::Any, OpSel::Remove, OpSel::Stat, OpSel::Readdir];
        }
        "heal" => {
            k.rewrite = 6;
            k.crash = 40;
            k.err = 20;
            k.net = 20;
            k.full = 12;
            k.bad = 12;
            k.tail = 100;
            k.settings = 0;
            k.others = 5;
        }
        "lock" => {
            k.others = 75;
            k.crash = 30;
            k.switch = 70;
            k.err = 10;
            k.ops = vec![OpSel::Any, OpSel::Mut, OpSel::Lock, OpSel::Open, OpSel::Create];
            k.paths = vec![PathSel::Any, PathSel::Lock, PathSel::State];
            k.delay = 30;
            k.scripts = 15;
            k.settings = 0;
            k.objects = 5;
            k.rounds = (1, 4);
        }
        "contain" => {
            k.bad = 60;
            k.bads = vec![SnapOutside, SnapTraversal, SnapAbsolute, DeltaOutside, DeltaTraversal, DeltaAbsolute, ObjTraversalHost, ObjTraversalModule, ObjConflict, ObjSlash, SnapIsNotif, DeltaIsNotifTmp];
            k.foreign = 90;
            k.drop = 45;
            k.spell = 35;
            k.host = 50;
            k.crash = 15;
            k.dir = 25;
        }
        "delay" => {
            k.delay = 70;
            k.during = 15;
            k.crash = 20;
            k.err = 8;
            k.clock = 10;
            k.noop = 20;
        }
        "same" => {
            k.rewrite = 12;
            k.noop = 55;
            k.crash = 6;
            k.err = 4;
            k.net = 5;
            k.bad = 3;
            k.session = 8;
            k.settings = 5;
            k.delay = 10;
            k.max = 40;
        }
        "talset" => {
            k.tal = 100;
            k.reject = 80;
            k.settings = 60;
            k.crash = 5;
            k.err = 2;
            k.session = 8;
        }
        "tal" => {
            k.tal = 100;
            k.reject = 75;
            k.crash = 10;
            k.err = 4;
            k.net = 10;
            k.bad = 4;
            k.session = 8;
            k.publish = 80;
            k.long = 30;
            k.max = 20;
            k.settings = 10;
            k.stale = 3;
            k.scripts = 10;
            k.rsync = 50;
            k.rounds = (2, 5);
            k.noop = 20;
        }
        "script" => {
            k.scripts = 95;
            k.script_fail = 45;
            k.reject = 50;
            k.crash = 12;
            k.noop = 15;
        }
        "origin" => {
            k.hidden = 45;
            k.dir = 30;
            k.insecure = 30;
            k.bad = 35;
            k.bads = vec![SnapOutside, DeltaOutside, SnapTraversal, DeltaTraversal, SnapAbsolute, DeltaAbsolute, SnapHash];
            k.net = 40;
            k.nets = vec![0, 0, 0, 1, 2];
            k.crash = 5;
            k.settings = 15;
        }
        "time" => {
            k.net = 60;
            k.nets = vec![3, 3, 3, 3, 4, 5];
            k.others = 15;
            k.switch = 40;
            k.crash = 4;
            k.err = 8;
            k.ops = vec![OpSel::Lock, OpSel::Any, OpSel::Mut];
            k.scripts = 25;
            k.delay = 25;
            k.bad = 12;
        }
        "mirrors" => {
            k.rewrite = 6;
            k.nodes = 2;
            k.rounds = (4, 10);
            k.crash = 20;
            k.noop = 10;
            k.session = 15;
            k.settings = 0;
            k.during = 20;
            k.objects = 8;
        }
        "mtime" => {
            k.rsync = 100;
            k.modules = 40;
            k.crash = 25;
            k.err = 10;
            k.full = 2;
            k.clock = 12;
            k.objects = 24;
            k.bad = 2;
            k.nodes = 1;
        }
        "power" => {
            k.drop = 0;
            k.power = 70;
            k.crash = 10;
            k.err = 5;
            k.net = 4;
            k.bad = 3;
            k.tail = 100;
            k.settings = 0;
        }
        "settings" => {
            k.drop = 6;
            k.settings = 60;
            k.crash = 8;
            k.err = 4;
            k.net = 4;
            k.bad = 3;
            k.stale = 2;
            k.rounds = (3, 8);
            k.tail = 80;
            k.clock = 0;
        }
        "perms" => {
            k.umask = 75;
            k.devs = 50;
            k.crash = 35;
            k.err = 15;
            k.host = 40;
            k.foreign = 50;
            k.drop = 10;
            k.spell = 30;
            k.settings = 12;
        }
        "upgrade" => {
            k.legacy = 65;
            k.spell = 0;
            k.settings = 15;
            k.crash = 12;
            k.err = 6;
            k.short_cleanup = 65;
            k.host = 40;
            k.long = 35;
            k.session = 15;
            k.session_back = 45;
            k.tail = 85;
            k.clock = 0;
            k.rounds = (2, 7);
            k.bad = 5;
        }
        "report" => {
            k.damage = 20;
            k.usage = 25;
            k.net = 30;
            k.err = 45;
            k.full = 10;
            k.short = 12;
            k.bad = 35;
            k.stale = 10;
            k.crash = 8;
            k.scripts = 25;
            k.script_fail = 40;
            k.reject = 40;
            k.clock = 15;
            k.settings = 15;
            k.others = 8;
            k.during = 15;
            k.drop = 8;
            k.ops = vec![OpSel::Any, OpSel::Mut, OpSel::Write, OpSel::Rename, OpSel::Read, OpSel::Open, OpSel::Create, OpSel::Stat, OpSel::Mkdir, OpSel::Link, OpSel::Remove, OpSel::Readdir, OpSel::Utimes, OpSel::Lock, OpSel::Sync];
        }
        _ => {
            k.others = 6;
            k.switch = 20;
        }
    }
    k
}

/// Profiles used for a property, with weights.
pub fn profiles_of(prop: &str) -> &'static [(&'static str, u64)] {
    match prop {
        "C01" => &[("rrdp", 60), ("retain", 12), ("badsrc", 8), ("mixed", 10), ("delay", 5), ("cleanup", 5)],
        "C02" => &[("mirror", 60), ("mixed", 20), ("same", 8), ("heal", 12)],
        "C03" => &[("badsrc", 80), ("mixed", 10), ("contain", 10)],
        "C04" => &[("serial", 75), ("mixed", 10), ("retain", 15)],
        "C05" => &[("rsync", 75), ("mixed", 10), ("retain", 15)],
        "C06" => &[("retain", 80), ("mixed", 8), ("delay", 12)],
        "C07" => &[("cleanup", 85), ("mixed", 5), ("retain", 10)],
        "C08" => &[("heal", 85), ("mixed", 15)],
        "C09" => &[("lock", 90), ("mixed", 10)],
        "C10" => &[("contain", 80), ("mixed", 10), ("retain", 10)],
        "C11" => &[("delay", 90), ("mixed", 10)],
        "C12" => &[("same", 85), ("mixed", 15)],
        "C13" => &[("tal", 100)],
        "C14" => &[("script", 95), ("tal", 5)],
        "C15" => &[("origin", 90), ("contain", 10)],
        "C16" => &[("time", 90), ("lock", 10)],
        "C17" => &[("mirrors", 95), ("mixed", 5)],
        "C18" => &[("mtime", 85), ("rsync", 15)],
        "C19" => &[("power", 100)],
        "C20" => &[("settings", 80), ("talset", 17), ("mixed", 3)],
        "C21" => &[("perms", 90), ("mixed", 10)],
        "C22" => &[("report", 75), ("mixed", 5), ("script", 8), ("tal", 7), ("contain", 5)],
        "C23" => &[("upgrade", 100)],
        "any" => &[("badsrc", 5), ("cleanup", 5), ("contain", 5), ("delay", 5), ("heal", 5), ("lock", 5), ("mirror", 5), ("mirrors", 5), ("mixed", 5), ("mtime", 5), ("origin", 5), ("perms", 5), ("power", 5), ("report", 5), ("retain", 5), ("rrdp", 5), ("rsync", 5), ("same", 5), ("script", 5), ("serial", 5), ("settings", 5), ("time", 5), ("upgrade", 5)],
        _ => &[("mixed", 100)],
    }
}

pub fn plan_for(prop: &str, base_seed: u64, index: u64) -> Plan {
    let tag = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let seed = mix(base_seed.wrapping_mul(0x9E37_79B9) ^ mix(tag) ^ index.wrapping_mul(0xD134_2543_DE82_EF95));
    let ps = profiles_of(prop);
    let mut r = Rng::sub(seed, 1);
    let w: Vec<u64> = ps.iter().map(|p| p.1).collect();
    let name = ps[r.weighted(&w)].0;
    make(name, seed)
}

struct G {
    r: Rng,
    k: K,
    signed: bool,
    tal: bool,
    tree: bool,
    outage: bool,
    /// healthy so far: nothing to heal
    dirty: bool,
    cleanup: u64,
}

fn script(r: &mut Rng, fail: u64) -> Script {
    let exit = if r.pct(fail) {
        match r.below(5) {
            0 => -9,
            1 => -11,
            2 => 255,
            3 => -15,
            _ => 1,
        }
    } else {
        0
    };
    let big = r.pct(15);
    Script {
        exit,
        ms: r.skew(20_000) as u32,
        out: if big { 200_000 } else { r.skew(3000) as u32 },
        err: if r.pct(10) { 150_000 } else { r.skew(500) as u32 },
        spawn: if r.pct(6) { r.pick(&[2, 13, 8]) } else { 0 },
    }
}

impl G {
    fn cfg(&mut self) -> Cfg {
        let k = self.k.clone();
        let r = &mut self.r;
        let src = {
            let x = r.below(100);
            if x < k.hidden {
                SrcSel::Hidden
            } else if x < k.hidden + k.dir {
                SrcSel::Dir
            } else {
                SrcSel::Public
            }
        };
        let mut scripts = vec![];
        if r.pct(k.scripts) {
            for _ in 0..1 + r.skew(2) {
                scripts.push(script(r, k.script_fail));
            }
        }
        let tal = match (self.tal, self.tree) {
            (false, _) => 0,
            (true, false) => 1,
            _ => r.pick(&[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 3, 4, 5, 7]),
        };
        let offline = tal > 0 && r.pct(20);
        Cfg {
            rsync: r.pct(k.rsync),
            host: r.pct(k.host),
            max: if r.pct(k.max) { Some(r.pick(&[0, 1, 1, 2, 2, 3, 4, 100])) } else { None },
            delay: if r.pct(k.delay) { r.pick(&[1, 5, 30, 60, 120, 900]) } else { 0 },
            cleanup: if r.pct(k.short_cleanup) { r.pick(&[0, 1, 5, 60, 300, 600, 1200, 1200]) } else { 3600 },
            insecure: r.pct(k.insecure),
            src,
            tal,
            reject: r.pct(k.reject),
            offline,
            scripts,
            verbose: r.pick(&[0, 0, 1, 2]),
            quiet: r.pct(15),
            rrdp_alt: 0,
            rsync_alt: 0,
            derived: r.pct(k.derived),
            dflt: false,
            notif_alt: 0,
        }
    }

    fn change_cfg(&mut self, c: &mut Cfg) {
        let n = 1 + self.r.skew(2);
        for _ in 0..n {
            let fresh = self.cfg();
            let scen = self.r.below(14);
            let r = &mut self.r;
            match scen {
                0 => c.rsync = !c.rsync,
                1 => c.host = !c.host,
                2 | 3 => c.max = if r.pct(30) { None } else { Some(r.pick(&[0, 1, 2, 3, 5])) },
                4 => c.delay = r.pick(&[0, 0, 30, 120]),
                5 => c.cleanup = r.pick(&[0, 1, 60, 600, 3600, 7200, 4_000_000_000]),
                6 => c.insecure = !c.insecure,
                7 => c.src = fresh.src,
                8 => c.rrdp_alt += 1,
                9 => c.rsync_alt += 1,
                10 => {
                    if !c.derived && c.rrdp_alt == 0 && c.rsync_alt == 0 {
                        c.derived = true;
                    } else {
                        c.rrdp_alt += 1;
                        c.derived = false;
                    }
                }
                11 => {
                    if !self.signed {
                        c.notif_alt = 1;
                    }
                }
                12 => {
                    if self.tal {
                        if r.pct(50) {
                            c.reject = !c.reject;
                        } else {
                            c.tal = if self.tree { r.below(8) as u8 } else { 1 - c.tal };
                        }
                    } else {
                        c.verbose = r.pick(&[0, 1, 2, 3]);
                    }
                }
                _ => {
                    c.scripts = fresh.scripts;
                    c.reject = fresh.reject;
                }
            }
        }
        // a derived layout that was left is not returned to
        if c.derived && (c.rrdp_alt > 0 || c.rsync_alt > 0) {
            c.derived = false;
        }
    }

    fn bad(&mut self) -> SrcOp {
        let kind = { let b = self.k.bads.clone(); self.r.pick(&b) };
        SrcOp::Bad { kind, seed: self.r.next() }
    }

    fn publish(&mut self) -> SrcOp {
        if self.tree && self.r.pct(75) {
            let v = match self.r.below(20) {
                0..=4 => 0,
                5 | 6 => V_DAMAGED,
                7 | 8 => self.r.below(29) as u8,
                _ => self.r.below(fixtures().trees.trees.len() as u64) as u8,
            };
            return SrcOp::Signed { v, seed: self.r.next() };
        }
        if self.signed && !self.tree && self.r.pct(45) {
            let v = if self.r.pct(45) { 0 } else { 1 + self.r.below(7) as u8 };
            return SrcOp::Signed { v, seed: self.r.next() };
        }
        let win = if self.r.pct(25) { Some(self.r.skew(8) as u8) } else { None };
        SrcOp::Publish { seed: self.r.next(), n: self.r.skew(6) as u16, win }
    }

    /// something changes around the repository
    fn aside(&mut self) -> SrcOp {
        if self.r.pct(70) {
            SrcOp::Third { t: self.r.below(5) as u8, reset: self.r.pct(20) }
        } else {
            SrcOp::Ta { ta: self.r.skew(2) as u8, mode: self.r.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 6, 7]) }
        }
    }

    fn session(&mut self) -> SrcOp {
        let to = if self.r.pct(self.k.session_back) { Some(self.r.below(4) as u8) } else { None };
        SrcOp::Session { to, seed: self.r.next() }
    }

    fn nth(&mut self) -> u32 {
        match self.r.below(4) {
            0 => self.r.below(12) as u32,
            1 => self.r.below(40) as u32,
            2 => self.r.below(120) as u32,
            _ => self.r.skew(250) as u32,
        }
    }

    fn local_faults(&mut self, v: &mut Vec<Fault>) {
        let k = self.k.clone();
        if self.r.pct(k.crash) {
            let path = self.r.pick(&k.paths);
            let op = if self.r.pct(80) { OpSel::Mut } else { self.r.pick(&[OpSel::Rename, OpSel::Link, OpSel::Remove, OpSel::Create, OpSel::Write, OpSel::Any]) };
            let nth = match (op, path) {
                (OpSel::Mut, PathSel::State) => self.r.below(10) as u32,
                (OpSel::Mut, _) => self.nth(),
                (OpSel::Any, _) => self.nth() * 3,
                _ => self.r.skew(12) as u32,
            };
            let kind = match self.r.below(10) {
                0..=3 => FaultKind::CrashBefore,
                4..=6 => FaultKind::CrashAfter,
                _ => FaultKind::Torn(self.r.below(1000) as u16),
            };
            v.push(Fault { op, path, nth, kind, more: 0 });
        }
        if self.r.pct(k.err) {
            let path = self.r.pick(&k.paths);
            let op = self.r.pick(&k.ops);
            let e = self.r.pick(&[libc::EIO, libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EMFILE, libc::EINTR, libc::EBUSY, libc::EDQUOT]);
            let nth = match op {
                OpSel::Mut => self.nth(),
                OpSel::Any => self.nth() * 3,
                _ => self.r.skew(40) as u32,
            };
            let more = if self.r.pct(60) { 0 } else { self.r.pick(&[1, 3, 1000]) };
            v.push(Fault { op, path, nth, kind: FaultKind::Err(e), more });
        }
        if self.r.pct(k.full) {
            let path = self.r.pick(&k.paths);
            let nth = self.nth();
            v.push(Fault { op: OpSel::Mut, path, nth, kind: FaultKind::DiskFull(self.r.skew(20_000) as u32), more: 0 });
        }
        if self.r.pct(k.short) {
            let op = self.r.pick(&[OpSel::Read, OpSel::Write]);
            v.push(Fault { op, path: PathSel::Any, nth: self.nth(), kind: FaultKind::Short(1 + self.r.skew(4000) as u32), more: self.r.skew(20) as u32 });
        }
        if self.r.pct(3) {
            v.push(Fault { op: OpSel::Any, path: PathSel::Any, nth: self.nth(), kind: FaultKind::Delay(self.r.skew(100_000) as u32), more: 0 });
        }
        if self.r.pct(3) {
            v.push(Fault { op: self.r.pick(&[OpSel::Read, OpSel::Write, OpSel::Open, OpSel::Lock]), path: PathSel::Any, nth: self.r.skew(40) as u32, kind: FaultKind::Err(libc::EINTR), more: 0 });
        }
        if self.r.pct(k.power) && self.r.pct(60) {
            v.push(Fault { op: OpSel::Mut, path: PathSel::Any, nth: self.nth(), kind: FaultKind::PowerBefore(self.r.next()), more: 0 });
        }
    }

    fn net_fault(&mut self) -> NetFault {
        let sel = {
            let mut s = vec![NetSel::Any, NetSel::Notif, NetSel::Snap, NetSel::Delta, NetSel::Delta];
            if self.tal {
                s.push(NetSel::Ta);
                if self.tree {
                    s.push(NetSel::Third);
                }
            }
            self.r.pick(&s)
        };
        let r = &mut self.r;
        let slow = |r: &mut Rng| NetKind::Slow(if r.pct(40) { r.range(1, 20) as u32 } else { r.pick(&[70, 90, 300, 4000, 100_000]) });
        let kind = match if self.k.nets.is_empty() { 9 } else { r.pick(&self.k.nets.clone()) } {
            0 => NetKind::BadCert(r.pct(50)),
            1 => r.pick(&[NetKind::RedirectOk, NetKind::Status(404)]),
            2 => NetKind::Dns,
            3 => r.pick(&[NetKind::Stall, NetKind::StallBody(0), NetKind::StallBody(500), NetKind::StallBody(999)]),
            4 => slow(r),
            5 => NetKind::RedirectLoop,
            _ => match r.below(18) {
                0 => NetKind::Refuse,
                1 => NetKind::Dns,
                2 => NetKind::Reset,
                3 => NetKind::Stall,
                4 => NetKind::StallBody(r.below(1000) as u16),
                5 => slow(r),
                6 | 7 => NetKind::Status(r.pick(&[404, 403, 500, 503, 410, 429, 204, 206, 302])),
                8 | 9 => NetKind::CutErr(r.below(1000) as u16),
                10 | 11 => NetKind::CutSilent(r.below(1000) as u16),
                12 => NetKind::Flip(r.next() as u32),
                13 => NetKind::Empty,
                14 => NetKind::Html,
                15 => NetKind::BadCert(r.pct(50)),
                16 => NetKind::NotModified,
                _ => r.pick(&[NetKind::RedirectLoop, NetKind::RedirectOk, NetKind::NotModified]),
            },
        };
        NetFault { sel, nth: r.skew(3) as u32, kind, more: if r.pct(75) { 0 } else { r.pick(&[1, 1000]) } }
    }

    fn run(&mut self, node: u8, cfg: &Cfg, clean: bool) -> Step {
        let mut faults = vec![];
        let mut net = vec![];
        let mut during = vec![];
        let mut others = vec![];
        if !clean {
            self.local_faults(&mut faults);
            if self.outage || self.r.pct(self.k.net) {
                for _ in 0..1 + self.r.skew(1) {
                    let f = self.net_fault();
                    net.push(f);
                }
            }
            if self.r.pct(self.k.during) {
                for _ in 0..1 + self.r.skew(2) {
                    let at = if self.r.pct(60) { At::Request(self.r.skew(6) as u32) } else { At::Op(self.r.skew(300) as u32) };
                    let op = match if self.tree && self.r.pct(20) { 10 } else { self.r.below(10) } {
                        10 => self.aside(),
                        0 => self.session(),
                        1 => {
                            self.dirty = true;
                            SrcOp::Stale { back: self.r.skew(2) as u8 }
                        }
                        2 => {
                            self.dirty = true;
                            self.bad()
                        }
                        3 => SrcOp::Heal,
                        _ => self.publish(),
                    };
                    during.push((at, op));
                }
            }
            if self.r.pct(self.k.others) {
                for _ in 0..1 + self.r.skew(2) {
                    let mut f = vec![];
                    if self.r.pct(40) {
                        self.local_faults(&mut f);
                    }
                    let mut c = cfg.clone();
                    c.verbose = 0;
                    let long = self.r.pct(30);
                    others.push(Other {
                        after_ms: if long { self.r.skew(120_000) as u32 } else { self.r.skew(300) as u32 },
                        node,
                        cfg: c,
                        faults: f,
                    });
                }
            }
        }
        Step::Run { node, seed: self.r.next(), cfg: cfg.clone(), faults, net, during, others }
    }

    fn advance(&mut self) -> Step {
        let c = self.cleanup * 1000;
        let r = &mut self.r;
        let ms = match r.below(8) {
            0 => r.skew(60_000),
            1 | 2 => r.range(30_000, 600_000),
            3 => c.saturating_sub(r.range(2_000, 200_000)),
            4 => c + r.range(2_000, 200_000),
            5 => c / 2,
            6 => r.range(600_000, 1_500_000),
            _ => r.range(0, 3 * 3_600_000),
        };
        Step::Advance { ms }
    }
}

pub fn make(name: &str, seed: u64) -> Plan {
    let k = profile(name);
    let mut r = Rng::sub(seed, 2);
    let signed = k.tal > 0;
    let src = SrcCfg {
        path_style: r.below(4) as u8,
        xml_style: r.below(4) as u8,
        window: r.pick(&[0, 1, 2, 3, 4, 5, 6, 8]),
        retain: r.pick(&[0, 1, 2, 20]),
        etag: r.pct(55),
        etag_style: r.weighted(&[66, 12, 8, 5, 9]) as u8,
        notif_name: r.weighted(&[70, 20, 10]) as u8,
        base: r.weighted(&[60, 20, 20]) as u8,
        modules: r.pct(k.modules) as u8,
        objects: 1 + r.skew(k.objects) as u16,
        signed,
        tree: 0,
    };
    let mut src = src;
    if signed && r.pct(92) {
        src.tree = 1;
    }
    // many small revisions between two runs
    let mut b = Rng::sub(seed, 37);
    let burst = if !signed && b.pct(3) { b.range(12, 70) } else { 0 };
    if burst > 0 {
        src.window = b.pick(&[20, 40, 100]);
    }
    let world = WorldCfg {
        devs: if r.pct(k.devs) { 1 + r.below(2) as u8 } else { 0 },
        foreign: r.pct(k.foreign),
        latency: r.pct(20) as u8,
        switch: if r.pct(k.switch) { r.pick(&[20, 100, 300, 600]) } else { 10 },
        order: r.next(),
        dirs_exist: r.pct(60),
        spell: if r.pct(k.spell) { 1 + r.below(10) as u8 } else { 0 },
        env: {
            let mut e = Rng::sub(seed, 31);
            if e.pct(60) { 1 + (e.next() >> 1) } else { 0 }
        },
        umask: {
            let mut e = Rng::sub(seed, 41);
            if e.pct(k.umask) { e.pick(&[0, 0o002, 0o002, 0o007, 0o027, 0o027, 0o077]) } else { 0o022 }
        },
        out: {
            let mut e = Rng::sub(seed, 43);
            if e.pct(if name == "report" { 10 } else { 2 }) { e.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EBADF]) as u8 } else { 0 }
        },
    };
    let mut g = G { r: Rng::sub(seed, 3), k: k.clone(), signed, tal: k.tal > 0, tree: src.tree == 1, outage: false, dirty: false, cleanup: 3600 };
    let mut cfgs: Vec<Cfg> = vec![];
    let mut first = g.cfg();
    if k.nodes == 1 && first.derived && g.r.pct(40) {
        first.dflt = true;
    }
    for n in 0..k.nodes {
        let mut c = if g.r.pct(60) { first.clone() } else { g.cfg() };
        if n > 0 {
            c.tal = first.tal;
        }
        cfgs.push(c);
    }
    let mut steps = vec![];
    let rounds = g.r.range(k.rounds.0, k.rounds.1);
    // usually a clean first run
    let p_clean_start = 55;
    if g.r.pct(p_clean_start) {
        for n in 0..k.nodes {
            let c = cfgs[n as usize].clone();
            steps.push(g.run(n, &c, true));
        }
    }
    let mut booted = false;
    let burst_at = b.below(rounds.max(1) as u64);
    for round in 0..rounds {
        if burst > 0 && round as u64 == burst_at {
            for _ in 0..burst {
                steps.push(Step::Src(SrcOp::Publish { seed: b.next(), n: b.below(2) as u16, win: None }));
            }
        }
        let node = g.r.below(k.nodes as u64) as usize;
        g.cleanup = cfgs[node].cleanup.min(7200) as u64;
        if g.r.pct(70) {
            let a = g.advance();
            steps.push(a);
        }
        if g.r.pct(k.long) {
            let a = cfgs[node].cleanup.min(7200) as u64 * 1000 + g.r.range(2_000, 60_000);
            steps.push(Step::Advance { ms: a });
        }
        if g.r.pct(k.clock) {
            let s = g.r.pick(&[-86_400i64, -7200, -3600, -60, -1, 1, 60, 3600, 86_400 * 3]);
            let s = if signed { s.clamp(-60, 60) } else { s };
            if !signed && !booted && b.pct(15) {
                // a machine that starts without knowing the time
                booted = true;
                let back = crate::kernel::EPOCH - b.below(3600) as i64 - 1;
                steps.push(Step::ClockJump { secs: -back });
                let c = cfgs[node].clone();
                steps.push(g.run(node as u8, &c, true));
                steps.push(Step::ClockJump { secs: back });
            } else {
                steps.push(Step::ClockJump { secs: s });
            }
        }
        if !g.r.pct(k.noop) {
            // something happens at the source
            if g.dirty && g.r.pct(60) {
                steps.push(Step::Src(SrcOp::Heal));
                g.dirty = false;
            }
            if g.r.pct(k.session) {
                let s = g.session();
                steps.push(Step::Src(s));
            }
            if g.r.pct(k.publish) {
                for _ in 0..1 + g.r.skew(3) {
                    let p = g.publish();
                    steps.push(Step::Src(p));
                }
            }
            if g.tree && g.r.pct(30) {
                let a = g.aside();
                steps.push(Step::Src(a));
            }
            if g.r.pct(k.stale) {
                steps.push(Step::Src(SrcOp::Stale { back: g.r.skew(3) as u8 }));
                g.dirty = true;
            }
            if g.r.pct(k.bad) {
                let b = g.bad();
                steps.push(Step::Src(b));
                g.dirty = true;
            }
        }
        if g.r.pct(k.settings) {
            let mut c = cfgs[node].clone();
            g.change_cfg(&mut c);
            cfgs[node] = c;
        }
        if k.drop > 0 && g.r.pct(k.drop) {
            steps.push(Step::Drop { node: node as u8, seed: g.r.next() });
        }
        if k.legacy > 0 && b.pct(k.legacy) {
            // only possible after a successful run
            if b.pct(40) {
                let c = cfgs[node].clone();
                steps.push(g.run(node as u8, &c, true));
            }
            steps.push(Step::Legacy { node: node as u8, seed: b.next() });
            if b.pct(50) {
                steps.push(Step::Src(SrcOp::Publish { seed: b.next(), n: b.below(3) as u16, win: None }));
            }
        }
        let times = 1 + g.r.below(2);
        for _ in 0..times {
            let c = cfgs[node].clone();
            let clean = g.r.pct(25);
            steps.push(g.run(node as u8, &c, clean));
            if !signed && g.r.pct(k.rewrite) {
                steps.push(Step::Src(SrcOp::Bad { kind: Bad::Rewritten, seed: g.r.next() }));
                let clean = g.r.pct(60);
                steps.push(g.run(node as u8, &c, clean));
                g.dirty = true;
            }
            if g.r.pct(k.power) && g.r.pct(50) {
                steps.push(Step::Power { seed: g.r.next() });
            }
        }
    }
    if g.r.pct(k.tail) {
        // afterwards everything is healthy
        if g.tree && g.r.pct(80) {
            for ta in 0..3 {
                steps.push(Step::Src(SrcOp::Ta { ta, mode: 0 }));
            }
            if g.r.pct(60) {
                steps.push(Step::Src(SrcOp::Signed { v: 0, seed: g.r.next() }));
            }
        }
        if g.r.pct(80) {
            steps.push(Step::Src(SrcOp::Heal));
        }
        for n in 0..k.nodes {
            let c = cfgs[n as usize].clone();
            steps.push(g.run(n, &c, true));
        }
        if g.r.pct(70) {
            for n in 0..k.nodes as usize {
                let c = cfgs[n].clone();
                steps.push(Step::Advance { ms: c.cleanup.min(7200) as u64 * 1000 + 5_000 + g.r.below(100_000) });
                let p = SrcOp::Publish { seed: g.r.next(), n: 2, win: None };
                steps.push(Step::Src(p));
                steps.push(g.run(n as u8, &c, true));
                if g.r.pct(60) {
                    steps.push(Step::Advance { ms: c.cleanup.min(7200) as u64 * 1000 + 5_000 });
                    let p = SrcOp::Publish { seed: g.r.next(), n: 1, win: None };
                    steps.push(Step::Src(p));
                    steps.push(g.run(n as u8, &c, true));
                }
            }
        }
    }
    if k.years > 0 && !signed && b.pct(k.years) {
        // a long life
        steps.push(Step::Src(SrcOp::Heal));
        let c = cfgs[0].clone();
        for _ in 0..40 + b.below(30) {
            steps.push(Step::Advance { ms: c.cleanup.min(7200) as u64 * 1000 + b.below(9000) });
            if b.pct(5) {
                let s = g.session();
                steps.push(Step::Src(s));
            }
            steps.push(Step::Src(SrcOp::Publish { seed: b.next(), n: b.below(3) as u16, win: Some(b.below(3) as u8) }));
            steps.push(g.run(0, &c, true));
        }
    }
    if g.tree && b.pct(if name == "tal" { 15 } else { 3 }) {
        // what the repository delegates to elsewhere comes and goes there
        let mut c = cfgs[0].clone();
        c.tal = 1;
        c.offline = false;
        c.reject = true;
        c.scripts.clear();
        c.src = SrcSel::Public;
        steps.push(Step::Src(SrcOp::Heal));
        for ta in 0..3 {
            steps.push(Step::Src(SrcOp::Ta { ta, mode: 0 }));
        }
        for _ in 0..3 + b.below(5) {
            if b.pct(80) {
                steps.push(Step::Src(SrcOp::Third { t: b.below(5) as u8, reset: b.pct(10) }));
            }
            let ms = if b.pct(60) { 4_530_000 + b.below(2_000_000) } else { b.below(4_500_000) };
            steps.push(Step::Advance { ms });
            steps.push(Step::Src(SrcOp::Signed { v: b.pick(&[0, 11, 12, 12, 12, 13, 13]), seed: b.next() }));
            steps.push(g.run(0, &c, true));
        }
    }
    let mut h = Rng::sub(seed, 37);
    if g.tree && h.pct(if name == "talset" { 35 } else { 3 }) {
        // trust anchors are changed, and the content with them, with nothing else going on
        let mut c = cfgs[0].clone();
        c.reject = true;
        c.offline = h.pct(30);
        c.scripts.clear();
        c.src = SrcSel::Public;
        c.tal = h.pick(&[1, 2, 3, 6, 7]);
        steps.push(Step::Src(SrcOp::Heal));
        for ta in 0..3 {
            steps.push(Step::Src(SrcOp::Ta { ta, mode: 0 }));
        }
        for i in 0..3 + h.below(4) {
            if i > 0 && h.pct(75) {
                c.tal = h.pick(&[1, 2, 3, 4, 5, 6, 7]);
            }
            if h.pct(60) {
                steps.push(Step::Advance { ms: h.pick(&[1, 30, 300, 3000]) * 1000 + h.below(900) });
            }
            if h.pct(85) {
                steps.push(Step::Src(SrcOp::Signed { v: h.below(14) as u8, seed: h.next() }));
            }
            steps.push(g.run(0, &c, true));
        }
    }
    let mut u = Rng::sub(seed, 31);
    if u.pct(k.usage) {
        for _ in 0..1 + u.below(3) {
            let node = u.below(k.nodes as u64) as u8;
            let at = u.below(steps.len() as u64 + 1) as usize;
            let cfg = steps[..at].iter().rev().find_map(|s| match s {
                Step::Run { node: n, cfg, .. } if *n == node => Some(cfg.clone()),
                _ => None,
            });
            let cfg = cfg.unwrap_or_else(|| cfgs[node as usize].clone());
            steps.insert(at, Step::Usage { node, seed: u.next(), cfg });
        }
    }
    if k.damage > 0 && b.pct(k.damage) {
        for _ in 0..1 + b.below(3) {
            let node = b.below(k.nodes as u64) as u8;
            steps.push(Step::Damage { node, seed: b.next() });
            if b.pct(70) {
                steps.push(Step::Src(SrcOp::Publish { seed: b.next(), n: b.below(3) as u16, win: None }));
            }
            let c = cfgs[node as usize].clone();
            steps.push(g.run(node, &c, b.pct(80)));
        }
    }
    // with another notification name these are ordinary paths
    let alt = steps.iter().any(|s| matches!(s, Step::Run { cfg, .. } if cfg.notif_alt > 0));
    if alt {
        for s in steps.iter_mut() {
            let ops: Vec<&mut SrcOp> = match s {
                Step::Src(op) => vec![op],
                Step::Run { during, .. } => during.iter_mut().map(|d| &mut d.1).collect(),
                _ => vec![],
            };
            for op in ops {
                if let SrcOp::Bad { kind, .. } = op {
                    match kind {
                        Bad::SnapIsNotif => *kind = Bad::SnapOutside,
                        Bad::DeltaIsNotifTmp => *kind = Bad::DeltaOutside,
                        _ => {}
                    }
                }
            }
        }
    }
    Plan { seed, profile: name.to_string(), nodes: k.nodes, src, world, steps }
}

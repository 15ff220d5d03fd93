//! A plan is the complete, explicit description of one simulated execution.
//! It is a pure function of a seed; executing it is a pure function of the plan
//! and the code under test. Replay files are plans.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub profile: String,
    pub nodes: u8,
    pub src: SrcCfg,
    pub world: WorldCfg,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SrcCfg {
    pub path_style: u8,
    pub xml_style: u8,
    /// deltas listed by default
    pub window: u8,
    /// how many superseded revisions' files stay on the server
    pub retain: u8,
    pub etag: bool,
    /// 0 strong, 1 weak, 2 another one for each answer, 3 not only ASCII, 4 not quoted
    #[serde(default)]
    pub etag_style: u8,
    pub notif_name: u8,
    pub base: u8,
    /// 0: generic objects in one module, 1: several modules and hosts
    pub modules: u8,
    pub objects: u16,
    /// use a signed repository tree (needed with trust anchors)
    pub signed: bool,
    /// 0: the tree of a real krill, 1: the generated trees
    #[serde(default)]
    pub tree: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct WorldCfg {
    /// 0: one device; 1: state on its own device; 2: all on separate devices
    pub devs: u8,
    pub foreign: bool,
    /// 0 fast, 1 slow disk
    pub latency: u8,
    /// permille chance to switch between live processes at a system call
    pub switch: u16,
    pub order: u64,
    pub dirs_exist: bool,
    /// how the directories are spelled on the command line (see layout.rs)
    #[serde(default)]
    pub spell: u8,
    /// which environment variables the processes see (0: none, see layout.rs)
    #[serde(default)]
    pub env: u64,
    /// the file mode creation mask of all processes
    #[serde(default = "usual_umask")]
    pub umask: u16,
    /// errno of writes to standard output
    #[serde(default)]
    pub out: u8,
}

fn usual_umask() -> u16 {
    0o022
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrcOp {
    /// Publish a new revision with `n` changes; `win` overrides how many deltas are listed.
    Publish { seed: u64, n: u16, win: Option<u8> },
    /// New session (to = None) or return to an earlier one.
    Session { to: Option<u8>, seed: u64 },
    /// Serve an older revision (k back) of the current session until healed.
    Stale { back: u8 },
    /// Serve something broken until healed.
    Bad { kind: Bad, seed: u64 },
    /// Serve the newest revision, correctly.
    Heal,
    /// (signed repositories) switch to variant `v` of the tree, see rpki fixtures.
    Signed { v: u8, seed: u64 },
    /// the other publisher's repository: new content, possibly in a new session
    Third { t: u8, reset: bool },
    /// the trust anchor certificate that is served
    Ta { ta: u8, mode: u8 },
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bad {
    NotifGap,
    NotifNoLast,
    NotifBeyond,
    NotifDup,
    NotifXml,
    NotifEmpty,
    NotifHtml,
    SnapHash,
    SnapXml,
    SnapB64,
    SnapSession,
    SnapSerial,
    SnapEmpty,
    SnapMissing,
    SnapIsDelta,
    SnapOutside,
    SnapTraversal,
    SnapAbsolute,
    DeltaHash,
    DeltaXml,
    DeltaB64,
    DeltaSession,
    DeltaSerial,
    DeltaMissing,
    DeltaOutside,
    DeltaTraversal,
    DeltaAbsolute,
    ObjTraversalHost,
    ObjTraversalModule,
    /// an object below another object: no file system can hold both
    ObjConflict,
    /// an object whose URI ends in a slash
    ObjSlash,
    SnapIsNotif,
    DeltaIsNotifTmp,
    /// the current serial now stands for other content; only shown to mirrors that have it already
    Rewritten,
}

pub const ALL_BAD: &[Bad] = &[
    Bad::NotifGap,
    Bad::NotifNoLast,
    Bad::NotifBeyond,
    Bad::NotifDup,
    Bad::NotifXml,
    Bad::NotifEmpty,
    Bad::NotifHtml,
    Bad::SnapHash,
    Bad::SnapXml,
    Bad::SnapB64,
    Bad::SnapSession,
    Bad::SnapSerial,
    Bad::SnapEmpty,
    Bad::SnapMissing,
    Bad::SnapIsDelta,
    Bad::SnapOutside,
    Bad::SnapTraversal,
    Bad::SnapAbsolute,
    Bad::DeltaHash,
    Bad::DeltaXml,
    Bad::DeltaB64,
    Bad::DeltaSession,
    Bad::DeltaSerial,
    Bad::DeltaMissing,
    Bad::DeltaOutside,
    Bad::DeltaTraversal,
    Bad::DeltaAbsolute,
    Bad::ObjTraversalHost,
    Bad::ObjTraversalModule,
    Bad::ObjConflict,
    Bad::ObjSlash,
    Bad::SnapIsNotif,
    Bad::DeltaIsNotifTmp,
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum SrcSel {
    Public,
    Hidden,
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    /// >= 0 exit code, < 0 killed by signal -exit
    pub exit: i32,
    pub ms: u32,
    pub out: u32,
    pub err: u32,
    /// errno of a failing spawn, 0 = starts
    pub spawn: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub rsync: bool,
    pub host: bool,
    pub max: Option<u32>,
    pub delay: u32,
    pub cleanup: u32,
    pub insecure: bool,
    pub src: SrcSel,
    pub tal: u8,
    pub reject: bool,
    pub offline: bool,
    pub scripts: Vec<Script>,
    pub verbose: u8,
    pub quiet: bool,
    /// alternative directory sets (0 = the usual ones)
    pub rrdp_alt: u8,
    pub rsync_alt: u8,
    /// use the --state-dir derived defaults instead of explicit --rrdp-dir/--rsync-dir
    pub derived: bool,
    /// no --state-dir either
    #[serde(default)]
    pub dflt: bool,
    /// alternative public notification URI of the same source
    pub notif_alt: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum OpSel {
    /// any operation that changes the file system
    Mut,
    Any,
    Open,
    Create,
    Read,
    Write,
    Rename,
    Remove,
    Mkdir,
    Link,
    Utimes,
    Stat,
    Readdir,
    Lock,
    Sync,
    Spawn,
    Sleep,
    Net,
    Copy,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum PathSel {
    Any,
    State,
    Staging,
    Rrdp,
    Rsync,
    Lock,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum FaultKind {
    Err(i32),
    /// short read / write
    Short(u32),
    /// killed before the operation
    CrashBefore,
    /// killed right after it
    CrashAfter,
    /// killed in the middle of a write: permille of the data gets through
    Torn(u16),
    /// operation takes this long (ms)
    Delay(u32),
    /// device has only this many bytes left from now on (until the run ends)
    DiskFull(u32),
    /// power loss before / after the operation
    PowerBefore(u64),
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: OpSel,
    pub path: PathSel,
    /// 0-based index among matching operations of this run
    pub nth: u32,
    pub kind: FaultKind,
    /// how many further matching operations fail as well
    pub more: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum NetSel {
    Any,
    Notif,
    Snap,
    Delta,
    Ta,
    Third,
    Other,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum NetKind {
    Refuse,
    Dns,
    Reset,
    /// never answers
    Stall,
    /// body stalls after permille
    StallBody(u16),
    /// whole transfer takes this many seconds
    Slow(u32),
    Status(u16),
    /// body cut after permille, connection error reported
    CutErr(u16),
    /// body cut after permille, looks complete (no content-length)
    CutSilent(u16),
    /// one byte changed
    Flip(u32),
    Empty,
    /// captive portal page with status 200
    Html,
    RedirectLoop,
    RedirectOk,
    /// invalid certificate: self-signed, or (true) for another name
    BadCert(bool),
    /// unsolicited 304
    NotModified,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetFault {
    pub sel: NetSel,
    pub nth: u32,
    pub kind: NetKind,
    pub more: u32,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum At {
    /// just before the n-th network request of the run is answered
    Request(u32),
    /// at the n-th file system operation of the run
    Op(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Other {
    /// start delay in simulated milliseconds after the first instance
    pub after_ms: u32,
    pub node: u8,
    pub cfg: Cfg,
    pub faults: Vec<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Src(SrcOp),
    Advance { ms: u64 },
    ClockJump { secs: i64 },
    Run {
        node: u8,
        seed: u64,
        cfg: Cfg,
        faults: Vec<Fault>,
        net: Vec<NetFault>,
        during: Vec<(At, SrcOp)>,
        others: Vec<Other>,
    },
    Power { seed: u64 },
    /// Somebody puts files next to those of krill-sync.
    Drop { node: u8, seed: u64 },
    /// The installation is one that release 0.3.1 left.
    Legacy { node: u8, seed: u64 },
    /// A command line that asks for something else, or makes no sense.
    Usage { node: u8, seed: u64, cfg: Cfg },
    /// A file that the program keeps for itself is damaged.
    Damage { node: u8, seed: u64 },
}

//! Where an installation keeps its things, and its command line.
use crate::plan::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dirs {
    pub state: String,
    pub rrdp: String,
    pub rsync: String,
}

pub fn dirs(node: u8, cfg: &Cfg) -> Dirs {
    let state = if cfg.dflt { DEFAULT.to_string() } else { format!("/srv/n{}/state", node) };
    if cfg.derived {
        return Dirs { rrdp: format!("{}/rrdp", state), rsync: format!("{}/rsync", state), state };
    }
    let rrdp = match cfg.rrdp_alt {
        0 => format!("/srv/n{}/www/rrdp", node),
        k => format!("/srv/n{}/www/rrdp-alt{}", node, k),
    };
    let rsync = match cfg.rsync_alt {
        0 => format!("/srv/n{}/mod/rsync", node),
        k => format!("/srv/n{}/mod/rsync-alt{}", node, k),
    };
    Dirs { state, rrdp, rsync }
}

pub fn staging(d: &Dirs) -> String {
    format!("{}/pre-validate-staging", d.state)
}

/// Public base URI (ends with a slash) and notification file name.
pub fn public(src: &SrcCfg, alt: u8) -> (String, String) {
    if src.signed {
        return match alt {
            0 => ("https://localhost:3000/rrdp/".into(), "notification.xml".into()),
            _ => ("https://localhost:3000/".into(), "notification-alt.xml".into()),
        };
    }
    let base = match src.base {
        0 => "https://rrdp.example.org/rrdp/",
        1 => "https://rrdp.example.org/",
        _ => "https://rrdp.example.org:8443/a/b.c/",
    };
    let name = match src.notif_name {
        0 => "notification.xml",
        1 => "notify.xml",
        _ => "updates",
    };
    match alt {
        0 => (base.into(), name.into()),
        // the same source is also reachable under a second public name in the same space
        _ => (base.into(), format!("alt-{}", name)),
    }
}

pub const HIDDEN: &str = "https://hidden.example.net:9443/pub/";
pub const SRCDIR: &str = "/data/source/";
pub const TALS: &str = "/etc/krill-sync/tals";

pub const DEFAULT: &str = "/var/lib/krill-sync";

/// Working directory of the processes of a node.
pub fn cwd(node: u8, spell: u8) -> String {
    match spell {
        1 | 2 => format!("/srv/n{}", node),
        7 => format!("/srv/n{}/state", node),
        _ => "/".into(),
    }
}

/// One of a node's directories as given on the command line.
fn spelled(node: u8, spell: u8, p: &str) -> String {
    let base = format!("/srv/n{}", node);
    let Some(rel) = p.strip_prefix(&format!("{}/", base)) else { return p.to_string() };
    match spell {
        1 => rel.to_string(),
        2 => format!("./{}", rel),
        3 => format!("{}/", p),
        // a link to the common parent
        4 => format!("/srv/link{}/{}", node, rel),
        5 => format!("{}/www/..//{}", base, rel),
        6 => format!("/srv/.//n{}/{}", node, rel),
        7 => match rel.strip_prefix("state") {
            Some("") => ".".to_string(),
            Some(r) => r.trim_start_matches('/').to_string(),
            None => format!("../{}", rel),
        },
        // a name that needs care
        9 => format!("/srv/Größe & \"Co\" {{{}}}/{}", node, rel),
        // a link for each
        8 => format!("/srv/links{}/{}", node, rel.replace('/', "-")),
        _ => p.to_string(),
    }
}

/// Spelled in another way by each run.
pub const VARYING: u8 = 10;

/// How the run with this number spells its directories.
pub fn spell_of(spell: u8, seed: u64, run: u32) -> u8 {
    match spell {
        VARYING => Rng::sub(seed, 4000 + run as u64).pick(&[0, 0, 0, 3, 4, 5, 6]),
        s => s,
    }
}

pub fn links(node: u8, spell: u8, all: &[Dirs]) -> Vec<(String, String)> {
    match spell {
        4 => vec![(format!("/srv/link{}", node), format!("n{}", node))],
        9 => vec![(format!("/srv/Größe & \"Co\" {{{}}}", node), format!("n{}", node))],
        VARYING => links(node, 4, all),
        8 => {
            let mut v: Vec<(String, String)> =
                all.iter().flat_map(|d| [&d.state, &d.rrdp, &d.rsync]).map(|p| (spelled(node, 8, p), p.clone())).filter(|(a, b)| a != b).collect();
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}

pub fn argv(node: u8, cfg: &Cfg, src: &SrcCfg, spell: u8) -> Vec<String> {
    let mut d = dirs(node, cfg);
    for p in [&mut d.state, &mut d.rrdp, &mut d.rsync] {
        *p = spelled(node, spell, p);
    }
    let mut a: Vec<String> = vec!["krill-sync".into()];
    if !cfg.dflt {
        a.push("--state-dir".into());
        a.push(d.state.clone());
    }
    if !cfg.derived {
        a.push("--rrdp-dir".into());
        a.push(d.rrdp.clone());
        a.push("--rsync-dir".into());
        a.push(d.rsync.clone());
    }
    if cfg.delay > 0 {
        a.push("--rrdp-notify-delay".into());
        a.push(cfg.delay.to_string());
    }
    if let Some(m) = cfg.max {
        a.push("--rrdp-max-deltas".into());
        a.push(m.to_string());
    }
    if !cfg.rsync {
        a.push("--rsync-disable".into());
    }
    if cfg.host {
        a.push("--rsync-include-host".into());
    }
    if cfg.cleanup != 3600 {
        a.push("--cleanup-after".into());
        a.push(cfg.cleanup.to_string());
    }
    if cfg.insecure {
        a.push("--insecure".into());
    }
    match cfg.src {
        SrcSel::Public => {}
        SrcSel::Hidden => {
            a.push("--source-uri-base".into());
            a.push(HIDDEN.into());
        }
        SrcSel::Dir => {
            a.push("--source-uri-base".into());
            a.push(SRCDIR.into());
        }
    }
    for (n, _) in tals(cfg.tal) {
        a.push("--tal".into());
        a.push(format!("{}/{}.tal", TALS, n));
    }
    for i in 0..cfg.scripts.len() {
        a.push("--pre-validate".into());
        a.push(format!("/usr/local/bin/check-{}", i));
    }
    if cfg.reject {
        a.push("--tal-reject-invalid".into());
    }
    if cfg.offline {
        a.push("--offline-validation".into());
    }
    if cfg.quiet {
        a.push("-q".into());
    } else {
        for _ in 0..cfg.verbose {
            a.push("-v".into());
        }
    }
    let (b, n) = public(src, cfg.notif_alt);
    a.push("--".into());
    a.push(format!("{}{}", b, n));
    a
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Expect {
    /// it cannot be done
    Failure,
    /// information is asked for
    Answer,
    /// this only fails if there is something to do
    Either,
}

/// A command line that asks for something else than a run, or makes no sense, and what
/// should come of it.
pub fn usage(node: u8, cfg: &Cfg, src: &SrcCfg, seed: u64) -> (Vec<String>, Expect) {
    use Expect::*;
    let mut r = Rng::sub(seed, 41);
    let mut a = argv(node, cfg, src, 0);
    let uri = a.pop().unwrap();
    a.pop(); // --
    let end = |a: &mut Vec<String>, u: &str| {
        a.push("--".into());
        a.push(u.into());
    };
    match r.below(8) {
        0 => {
            let x = r.pick(&["--help", "-h", "--version", "-V"]);
            if r.pct(50) {
                a.truncate(1);
            }
            a.push(x.into());
            if r.pct(50) {
                end(&mut a, &uri);
            }
            (a, Answer)
        }
        1 => {
            if r.pct(50) {
                a.truncate(1);
            }
            (a, Failure)
        }
        2 => {
            let x = r.pick(&[
                "http://rrdp.example.org/rrdp/notification.xml",
                "rsync://rpki.example.org/repo/notification.xml",
                "https://",
                "https:///notification.xml",
                "https://rrdp.example.org",
                "https://rrdp example.org/notification.xml",
                "https://rrdp.example.org/größe.xml",
                "https://rrdp.example.org/../notification.xml",
                "notification.xml",
                "/srv/rrdp/notification.xml",
                "",
                " ",
                "https://unknown.example.com/rrdp/",
                "https://unknown.example.com/",
                "https:/",
                "-",
            ]);
            end(&mut a, x);
            (a, Failure)
        }
        3 => {
            let (o, v) = r.pick(&[
                ("--cleanup-after", "1h"),
                ("--cleanup-after", "3600.5"),
                ("--cleanup-after", "99999999999999999999"),
                ("--rrdp-max-deltas", "-1"),
                ("--rrdp-max-deltas", "all"),
                ("--rrdp-max-deltas", ""),
                ("--rrdp-notify-delay", "-5"),
                ("--rrdp-notify-delay", "5s"),
                ("--rrdp-notify-delay", "18446744073709551616"),
                ("--frobnicate", "1"),
                ("--state-dir", "/srv/second"),
                ("--quiet", "-v"),
                ("-vv", "-q"),
            ]);
            // possibly given twice, which is not possible either
            a.push(o.into());
            a.push(v.into());
            if o == "--state-dir" && cfg.dflt {
                a.push(o.into());
                a.push(v.into());
            }
            end(&mut a, &uri);
            (a, Failure)
        }
        4 => {
            if let Some(i) = a.iter().position(|x| x == "--source-uri-base") {
                a.drain(i..i + 2);
            }
            let x = r.pick(&[
                "/nonexistent/",
                "/nonexistent",
                "/etc/motd",
                "relative/nowhere/",
                "https://hidden.example.net:9443/pub",
                "http://hidden.example.net/pub/",
                "rsync://hidden.example.net/pub/",
                "https://unknown.example.com/",
                "",
                "file:///data/source/",
            ]);
            a.push("--source-uri-base".into());
            a.push(x.into());
            end(&mut a, &uri);
            (a, Failure)
        }
        5 => {
            let x = r.pick(&["/etc/motd", "/etc/motd/state", "/dev/null/x"]);
            if let Some(i) = a.iter().position(|x| x == "--state-dir") {
                a.drain(i..i + 2);
            }
            a.push("--state-dir".into());
            a.push(x.into());
            end(&mut a, &uri);
            (a, Failure)
        }
        _ => {
            let x = r.pick(&["/nonexistent.tal", "/etc/motd", "/etc/broken-1.tal", "/etc/broken-2.tal", "/etc/broken-3.tal", "/etc/broken-4.tal", "/etc/broken-5.tal", "/etc"]);
            a.push("--tal".into());
            a.push(x.into());
            end(&mut a, &uri);
            (a, Either)
        }
    }
}

/// What those command lines refer to.
pub const ODD_FILES: &[(&str, &[u8])] = &[
    ("/etc/motd", b"Welcome to the machine.\n"),
    ("/etc/broken-1.tal", b""),
    ("/etc/broken-2.tal", b"https://unknown.example.com/ta.cer\n\nMIIB!!!!\n"),
    ("/etc/broken-3.tal", b"\xff\xfe\x00h\x00t\x00t\x00p\x00s\n\n"),
    ("/etc/broken-4.tal", b"https://unknown.example.com/ta.cer\nrsync://unknown.example.com/x/ta.cer"),
    ("/etc/broken-5.tal", b"# comment\r\nftp://unknown.example.com/ta.cer\r\n\r\nAAAA\r\n"),
];

/// Configured TAL files: name, and which trust anchor they are for (0: A, 1: B, 2: X).
pub fn tals(t: u8) -> &'static [(&'static str, usize)] {
    match t {
        0 => &[],
        1 => &[("main", 0)],
        2 => &[("main", 1)],
        3 => &[("main", 0), ("other", 1)],
        4 => &[("third", 2)],
        5 => &[("main", 2)],
        6 => &[("other", 0)],
        _ => &[("third", 2), ("main", 0)],
    }
}
pub const THIRD: &str = "https://third.example.net/rrdp/";
pub const TA_NAMES: [&str; 3] = ["A", "B", "X"];

/// What the environment of a process is, besides its command line: mainly the time zone,
/// which may well go through a change of its offset while the plan is executed.
pub fn env(seed: u64, node: u8, run: u32) -> Vec<String> {
    if seed == 0 {
        return vec![];
    }
    let mut r = Rng::sub(seed, node as u64);
    // an operator's shell may differ from what cron provides
    if r.pct(15) {
        r = Rng::sub(seed, 1000 + (run & 1) as u64);
    }
    let mut v = vec![];
    let min = r.below(60);
    let tz = match r.below(12) {
        0 => "UTC".to_string(),
        1 => "CET-1CEST,M3.5.0,M10.5.0/3".to_string(),
        2 => "EST5EDT,M3.2.0,M11.1.0".to_string(),
        3 => "NZST-12NZDT,M9.5.0,M4.1.0/3".to_string(),
        4 => "<+14>-14".to_string(),
        5 => "<-12>12".to_string(),
        6 => "<+0545>-5:45".to_string(),
        // the offset changes during the plan: forwards …
        7 => format!("STD0DST,J44/16:{:02},J300", min),
        8 => format!("STD-5DST,J44/{}:{:02},J300", 21 + r.below(2), min),
        // … and backwards
        9 => format!("STD0DST,J100,J44/17:{:02}", min),
        10 => format!("STD8DST,J100,J44/{}:{:02}", 9 + r.below(2), min),
        _ => r.pick(&["", "Nowhere/Atall", ":", "garbage,,"]).to_string(),
    };
    v.push(format!("TZ={}", tz));
    if r.pct(50) {
        v.push(r.pick(&["LANG=C", "LANG=de_DE.UTF-8", "LC_ALL=tr_TR.UTF-8"]).to_string());
    }
    if r.pct(30) {
        v.push(r.pick(&["RUST_LOG=trace", "HOME=/root", "HOME=", "TMPDIR=/nonexistent", "PATH=/usr/bin:/bin"]).to_string());
    }
    v
}

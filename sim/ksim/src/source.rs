//! The upstream publication server: a model of its history and of what it serves.
use crate::kernel::World;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::util::*;
use serde::Deserialize;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Deserialize)]
struct FObj {
    ext: String,
    mtime: i64,
    b64: String,
}
#[derive(Deserialize)]
struct SObj {
    uri: String,
    mtime: i64,
    b64: String,
}
#[derive(Deserialize)]
struct Signed {
    ta: String,
    tal: String,
    objs: Vec<SObj>,
}

pub struct RealObj {
    pub ext: String,
    pub mtime: i64,
    pub data: Vec<u8>,
}
pub struct SignedTree {
    pub ta: Vec<u8>,
    pub tal: Vec<u8>,
    pub objs: Vec<(String, i64, Vec<u8>)>,
}
#[derive(Deserialize)]
struct GBlob {
    b64: String,
    mtime: Option<i64>,
}
#[derive(Deserialize)]
pub struct GTree {
    pub name: String,
    /// ok, from, until
    pub a: (bool, i64, i64),
    pub b: (bool, i64, i64),
    /// 0: nobody below the other publisher's CA could be here, 1: what could be here is valid, 2: it is not
    pub g4: u8,
    pub objs: Vec<(usize, usize)>,
}
#[derive(Deserialize)]
pub struct GThird {
    pub name: String,
    pub g4: bool,
    pub objs: Vec<(usize, usize)>,
}
#[derive(Deserialize)]
struct GTa {
    tal: String,
    certs: Vec<String>,
    short: i64,
}
#[derive(Deserialize)]
struct GAll {
    uris: Vec<String>,
    blobs: Vec<GBlob>,
    trees: Vec<GTree>,
    thirds: Vec<GThird>,
    tas: Vec<GTa>,
}
pub struct Ta {
    pub tal: Vec<u8>,
    /// good, another good one, expired, expires at `short`
    pub certs: Vec<Vec<u8>>,
    pub short: i64,
}
pub struct Trees {
    pub uris: Vec<String>,
    pub blobs: Vec<(Vec<u8>, Option<i64>)>,
    pub trees: Vec<GTree>,
    pub thirds: Vec<GThird>,
    pub tas: Vec<Ta>,
}
/// Variants from here on: one listed object of the valid tree is damaged.
pub const V_DAMAGED: u8 = 240;

/// Read-only material shared by all runs of a worker.
pub struct Fixtures {
    pub objs: Vec<RealObj>,
    pub signed: SignedTree,
    pub trees: Trees,
}

pub fn load_fixtures() -> Fixtures {
    let o: Vec<FObj> = serde_json::from_str(include_str!("../../fixtures/objs.json")).unwrap();
    let s: Signed = serde_json::from_str(include_str!("../../fixtures/signed.json")).unwrap();
    let g: GAll = serde_json::from_str(include_str!("../../fixtures/tree.json")).unwrap();
    let mut objs: Vec<RealObj> = o.into_iter().map(|f| RealObj { ext: f.ext, mtime: f.mtime, data: unb64(&f.b64).unwrap() }).collect();
    // the generated objects are used on their own, too
    let mut exts: BTreeMap<usize, &str> = BTreeMap::new();
    for (u, k) in g.trees.iter().flat_map(|t| &t.objs) {
        exts.insert(*k, g.uris[*u].rsplit('.').next().unwrap());
    }
    for (k, ext) in exts {
        if let Some(m) = g.blobs[k].mtime {
            objs.push(RealObj { ext: ext.to_string(), mtime: m, data: unb64(&g.blobs[k].b64).unwrap() });
        }
    }
    Fixtures {
        trees: Trees {
            uris: g.uris,
            blobs: g.blobs.into_iter().map(|b| (unb64(&b.b64).unwrap(), b.mtime)).collect(),
            trees: g.trees,
            thirds: g.thirds,
            tas: g
                .tas
                .into_iter()
                .map(|t| Ta { tal: t.tal.into_bytes(), certs: t.certs.iter().map(|c| unb64(c).unwrap()).collect(), short: t.short })
                .collect(),
        },
        objs,
        signed: SignedTree {
            ta: unb64(&s.ta).unwrap(),
            tal: s.tal.into_bytes(),
            objs: s.objs.into_iter().map(|o| (o.uri, o.mtime, unb64(&o.b64).unwrap())).collect(),
        },
    }
}

static mut FIX: *const Fixtures = std::ptr::null();
pub fn set_fixtures(f: &'static Fixtures) {
    unsafe { FIX = f }
}
pub fn fixtures() -> &'static Fixtures {
    unsafe {
        if FIX.is_null() {
            // outside a worker
            FIX = Box::leak(Box::new(load_fixtures()));
        }
        &*FIX
    }
}

pub struct Blob {
    pub data: Vec<u8>,
    pub sha: [u8; 32],
    /// modification time its content demands; None: cannot be parsed
    pub mtime: Option<i64>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FileRef {
    pub serial: u64,
    pub rel: String,
    pub hash: [u8; 32],
}

pub struct Rev {
    pub session: String,
    pub serial: u64,
    pub objs: BTreeMap<String, usize>,
    pub snap: FileRef,
    /// all deltas of the session up to this revision, oldest first
    pub deltas: Vec<FileRef>,
    /// how many of them are announced
    pub win: usize,
    /// contains an object whose URI leaves its place
    pub traversal: bool,
    /// tree of paths below `current`, without / with host and module
    pub tree: [BTreeMap<String, usize>; 2],
    pub digest: [u64; 2],
    pub at: u64,
    /// variant of the signed tree: 0 is valid
    pub variant: u8,
}

/// What a served notification said.
#[derive(Clone, Debug)]
pub struct NotifRec {
    pub session: String,
    pub serial: u64,
    pub snap: FileRef,
    pub deltas: Vec<FileRef>,
    pub rev: usize,
    pub bad: Option<Bad>,
    /// how many deltas are newer than the bad one
    pub depth: usize,
    pub stale: bool,
    pub hash: [u8; 32],
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FileKind {
    Notif,
    Snap,
    Delta,
    Other,
}

pub struct Source {
    pub cfg: SrcCfg,
    pub blobs: Vec<Blob>,
    pub revs: Vec<Rev>,
    pub sessions: Vec<(String, usize)>,
    /// genuine newest revision
    pub cur: usize,
    pub files: BTreeMap<String, Vec<u8>>,
    pub keep: Vec<Vec<String>>,
    pub kinds: BTreeMap<String, FileKind>,
    /// overriding content at relative names; None = missing
    pub overlay: BTreeMap<String, Option<Vec<u8>>>,
    /// content served for absolute URLs outside the base
    pub elsewhere: BTreeMap<String, Vec<u8>>,
    pub notif: Vec<u8>,
    pub notif_idx: usize,
    pub notifs: Vec<NotifRec>,
    pub bad: Option<Bad>,
    pub stale: bool,
    pub mirror: bool,
    pub mirrored: BTreeSet<String>,
    pub snap_is_notif: Option<Vec<u8>>,
    pub next_obj: u32,
    pub changes: u64,
    pub base: String,
    pub name: String,
    /// paths of the signed tree in use (for variants)
    pub signed_blobs: Vec<usize>,
    pub third: Third,
    pub ta_mode: [u8; 3],
    /// counts changes of the trust anchors and the other repository
    pub aside: u64,
}

/// The repository of the other publisher. It never misbehaves by itself.
#[derive(Default)]
pub struct Third {
    pub session: String,
    pub serial: u64,
    pub objs: BTreeMap<String, usize>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub deltas: Vec<FileRef>,
    pub seed: u64,
    /// the content delegates to a CA that publishes here, since
    pub lists: Option<u64>,
    pub listed_ever: bool,
    pub plain_since: Option<u64>,
}

const EVIL: &str = "evil";
const CONFLICT: &str = "(below another object)";

fn uuid(r: &mut Rng) -> String {
    let a = r.next();
    let b = r.next();
    format!(
        "{:08x}-{:04x}-4{:03x}-{:04x}-{:012x}",
        a >> 32,
        (a >> 16) & 0xffff,
        a & 0xfff,
        0x8000 | ((b >> 48) & 0x3fff),
        b & 0xffff_ffff_ffff
    )
}

/// Split an rsync URI: (authority, module, path)
pub fn split_rsync(u: &str) -> (String, String, String) {
    let r = u.strip_prefix("rsync://").unwrap_or(u);
    let mut it = r.splitn(3, '/');
    (it.next().unwrap_or("").into(), it.next().unwrap_or("").into(), it.next().unwrap_or("").into())
}

/// Add an object, and withdraw those that could not exist next to it in any layout.
fn put(objs: &mut BTreeMap<String, usize>, u: String, b: usize) {
    let path = |u: &str| format!("{}/", split_rsync(u).2);
    let p = path(&u);
    objs.retain(|o, _| {
        let q = path(o);
        *o == u || !(q.starts_with(&p) || p.starts_with(&q))
    });
    objs.insert(u, b);
}

impl Source {
    pub fn new(cfg: &SrcCfg, seed: u64, mirror: bool) -> Source {
        let (base, name) = crate::layout::public(cfg, 0);
        let mut s = Source {
            cfg: cfg.clone(),
            blobs: vec![],
            revs: vec![],
            sessions: vec![],
            cur: 0,
            files: BTreeMap::new(),
            keep: vec![],
            kinds: BTreeMap::new(),
            overlay: BTreeMap::new(),
            elsewhere: BTreeMap::new(),
            notif: vec![],
            notif_idx: 0,
            notifs: vec![],
            bad: None,
            stale: false,
            mirror,
            mirrored: BTreeSet::new(),
            snap_is_notif: None,
            next_obj: 0,
            changes: 0,
            base,
            name,
            signed_blobs: vec![],
            third: Third::default(),
            ta_mode: [0; 3],
            aside: 0,
        };
        let mut r = Rng::sub(seed, 77);
        let session = uuid(&mut r);
        let serial = match r.below(4) {
            0 => 1,
            1 => 2657,
            // strictly not allowed, but seen
            2 => r.below(8) * r.below(6),
            _ => match r.below(4) {
                0 => u64::MAX - 100_000 - r.below(1 << 20),
                _ => r.below(1 << 40) + 1,
            },
        };
        let mut objs = BTreeMap::new();
        if cfg.signed && cfg.tree == 1 {
            let t = &fixtures().trees;
            for (d, m) in &t.blobs {
                let b = s.add_blob(d.clone(), *m);
                s.signed_blobs.push(b);
            }
            for (u, b) in &t.trees[0].objs {
                objs.insert(t.uris[*u].clone(), s.signed_blobs[*b]);
            }
            s.third.seed = mix(seed ^ 0x71d);
            s.third_op(0, true, 0);
        } else if cfg.signed {
            for (u, m, d) in &fixtures().signed.objs {
                let b = s.add_blob(d.clone(), Some(*m));
                s.signed_blobs.push(b);
                objs.insert(u.clone(), b);
            }
        } else {
            for _ in 0..cfg.objects {
                let (u, b) = s.new_object(&mut r);
                objs.insert(u, b);
            }
        }
        s.sessions.push((session.clone(), 0));
        let rnd = r.next();
        s.add_rev(session, serial, objs, vec![], rnd, None, false, 0, 0);
        s.serve_rev(0, false);
        s
    }

    fn add_blob(&mut self, data: Vec<u8>, mtime: Option<i64>) -> usize {
        let sha = sha256(&data);
        self.blobs.push(Blob { data, sha, mtime });
        self.blobs.len() - 1
    }

    fn new_blob(&mut self, r: &mut Rng, ext: Option<&str>) -> (usize, String) {
        let fx = fixtures();
        if r.pct(55) {
            for _ in 0..20 {
                let o = &fx.objs[r.below(fx.objs.len() as u64) as usize];
                if ext.map_or(true, |e| e == o.ext) {
                    return (self.add_blob(o.data.clone(), Some(o.mtime)), o.ext.clone());
                }
            }
        }
        let e = match ext {
            Some(e) => e.to_string(),
            None => r.pick(&["roa", "cer", "crl", "mft", "gbr", "asa", "bin", "txt"]).to_string(),
        };
        let mut n = r.skew(600) as usize;
        // seldom a file that does not fit into anybody's buffer
        match r.below(1000) {
            0 => n = 2_000_000 + r.below(2_000_000) as usize,
            1..=11 => n = 30_000 + r.below(300_000) as usize,
            _ => {}
        }
        let mut d = Vec::with_capacity(n + 8);
        // unique, never a valid object
        d.extend_from_slice(format!("junk-{}-", self.blobs.len()).as_bytes());
        for _ in 0..n {
            d.push(r.next() as u8);
        }
        if r.pct(3) {
            d.clear();
        }
        (self.add_blob(d, None), e)
    }

    fn new_object(&mut self, r: &mut Rng) -> (String, usize) {
        let (b, ext) = self.new_blob(r, None);
        let k = self.next_obj;
        self.next_obj += 1;
        let root = if self.cfg.signed {
            "rsync://localhost/repo/extra/".to_string()
        } else if self.cfg.modules == 0 {
            "rsync://rpki.example.org/repo/".to_string()
        } else {
            r.pick(&[
                "rsync://rpki.example.org/repo/",
                "rsync://rpki.example.org/other/",
                "rsync://second.example.net:8873/mod/",
            ])
            .to_string()
        };
        let name = match r.below(5) {
            0 => format!("ca{}/{}/obj-{}.{}", r.below(4), r.below(3), k, ext),
            1 => format!("ca{}/obj-{}.{}", r.below(4), k, ext),
            2 if r.pct(25) => match r.below(4) {
                // other types' endings within the path
                0 => format!("ta.{}/obj-{}.{}", r.pick(&["cer", "crl"]), k, ext),
                1 => format!("obj-{}.{}.{}", k, r.pick(&["cer", "crl", "roa", "tmp"]), ext),
                2 => format!("a.cer/b.crl/c.mft/{}.{}", k, ext),
                _ => format!("{}.crl/{}cer.{}", k, k, ext),
            },
            2 => format!("obj-{}.{}", k, ext),
            3 => format!("deep/a{}/b/c/d/{:040X}{}.{}", r.below(3), r.next() as u128 * 7, k, ext),
            _ => format!("ca{}/AS{}_%41+~{}.{}", r.below(4), r.below(65000), k, ext),
        };
        (format!("{}{}", root, name), b)
    }

    fn tree_of(&self, objs: &BTreeMap<String, usize>) -> [BTreeMap<String, usize>; 2] {
        let mut a = BTreeMap::new();
        let mut b = BTreeMap::new();
        for (u, i) in objs {
            let (h, m, p) = split_rsync(u);
            a.insert(p.clone(), *i);
            b.insert(format!("{}/{}/{}", h, m, p), *i);
        }
        [a, b]
    }

    pub fn tree_digest(t: impl Iterator<Item = (String, [u8; 32])>) -> u64 {
        let mut h = 0x1234_5678_9abc_def0;
        for (p, s) in t {
            h = fnv(h, p.as_bytes());
            h = fnv(h, &[0]);
            h = fnv(h, &s[..]);
        }
        h
    }

    #[allow(clippy::too_many_arguments)]
    fn add_rev(
        &mut self,
        session: String,
        serial: u64,
        objs: BTreeMap<String, usize>,
        prev_deltas: Vec<FileRef>,
        rnd: u64,
        delta: Option<Vec<u8>>,
        traversal: bool,
        variant: u8,
        at: u64,
    ) -> usize {
        let snap_bytes = self.snapshot_xml(&session, serial, &objs);
        let rel = self.rel_name(&session, serial, rnd, true);
        let snap = FileRef { serial, rel: rel.clone(), hash: sha256(&snap_bytes) };
        self.kinds.insert(rel.clone(), FileKind::Snap);
        self.files.insert(rel, snap_bytes);
        let mut deltas = prev_deltas;
        if let Some(d) = delta {
            let rel = self.rel_name(&session, serial, rnd, false);
            deltas.push(FileRef { serial, rel: rel.clone(), hash: sha256(&d) });
            self.kinds.insert(rel.clone(), FileKind::Delta);
            self.files.insert(rel, d);
        }
        let tree = self.tree_of(&objs);
        let mut digest = [0; 2];
        for k in 0..2 {
            digest[k] = Self::tree_digest(tree[k].iter().map(|(p, b)| (p.clone(), self.blobs[*b].sha)));
        }
        self.revs.push(Rev {
            session,
            serial,
            objs,
            snap,
            deltas,
            win: self.cfg.window as usize,
            traversal,
            tree,
            digest,
            at,
            variant,
        });
        self.revs.len() - 1
    }

    fn rel_name(&self, session: &str, serial: u64, rnd: u64, snap: bool) -> String {
        let k = if snap { "snapshot" } else { "delta" };
        let rnd = crate::rng::mix(rnd ^ snap as u64);
        match self.cfg.path_style {
            0 => format!("{}/{}/{}.xml", session, serial, k),
            1 => format!("{}/{}/{:016x}/{}.xml", session, serial, rnd, k),
            2 => format!("{}-{}-{}.xml", k, &session[..8], serial),
            3 => format!("{}/{}/{}.xml", k, session, serial),
            _ => format!("{}/{}/a+b~c,d=e/{}%20;v=1", &session[..13], serial, k),
        }
    }

    // ------------------------------------------------------------ documents

    fn b64_text(&self, d: &[u8]) -> String {
        let s = b64(d);
        if self.cfg.xml_style == 1 || self.cfg.xml_style == 3 {
            let mut o = String::new();
            for (i, c) in s.as_bytes().chunks(64).enumerate() {
                if i > 0 {
                    o.push_str("\n      ");
                }
                o.push_str(std::str::from_utf8(c).unwrap());
            }
            o
        } else {
            s
        }
    }

    pub fn snapshot_xml(&self, session: &str, serial: u64, objs: &BTreeMap<String, usize>) -> Vec<u8> {
        let mut s = String::new();
        let (nl, ind) = if self.cfg.xml_style == 0 { ("", "") } else { ("\n", "  ") };
        if self.cfg.xml_style == 2 {
            s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        s.push_str(&format!(
            "<snapshot xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{}\" serial=\"{}\">{}",
            session, serial, nl
        ));
        for (u, b) in objs {
            s.push_str(&format!("{}<publish uri=\"{}\">{}</publish>{}", ind, u, self.b64_text(&self.blobs[*b].data), nl));
        }
        s.push_str("</snapshot>");
        s.push_str(nl);
        s.into_bytes()
    }

    pub fn delta_xml(&self, session: &str, serial: u64, old: &BTreeMap<String, usize>, new: &BTreeMap<String, usize>) -> Vec<u8> {
        let mut s = String::new();
        let nl = if self.cfg.xml_style == 0 { "" } else { "\n" };
        s.push_str(&format!(
            "<delta xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{}\" serial=\"{}\">{}",
            session, serial, nl
        ));
        for (u, b) in new {
            match old.get(u) {
                Some(o) if o == b => {}
                Some(o) => s.push_str(&format!(
                    "<publish uri=\"{}\" hash=\"{}\">{}</publish>{}",
                    u,
                    hex(&self.blobs[*o].sha),
                    self.b64_text(&self.blobs[*b].data),
                    nl
                )),
                None => s.push_str(&format!("<publish uri=\"{}\">{}</publish>{}", u, self.b64_text(&self.blobs[*b].data), nl)),
            }
        }
        for (u, o) in old {
            if !new.contains_key(u) {
                s.push_str(&format!("<withdraw uri=\"{}\" hash=\"{}\"/>{}", u, hex(&self.blobs[*o].sha), nl));
            }
        }
        s.push_str("</delta>");
        s.into_bytes()
    }

    fn abs(&self, rel: &str) -> String {
        if rel.starts_with("https://") {
            rel.to_string()
        } else {
            format!("{}{}", self.base, rel)
        }
    }

    fn notif_xml(&self, session: &str, serial: u64, snap: &FileRef, deltas: &[FileRef]) -> Vec<u8> {
        let st = self.cfg.xml_style;
        let nl = if st == 0 { "" } else { "\n" };
        let hx = |h: &[u8; 32]| if st == 3 { hex(h).to_uppercase() } else { hex(h) };
        let mut s = String::new();
        if st == 2 {
            s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
        }
        s.push_str(&format!(
            "<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{}\" serial=\"{}\">{}",
            session, serial, nl
        ));
        s.push_str(&format!("<snapshot uri=\"{}\" hash=\"{}\"/>{}", self.abs(&snap.rel), hx(&snap.hash), nl));
        let mut ds: Vec<&FileRef> = deltas.iter().collect();
        if st != 3 {
            ds.reverse();
        }
        if st == 2 && ds.len() > 2 {
            ds.rotate_left(1);
        }
        for d in ds {
            s.push_str(&format!(
                "<delta serial=\"{}\" uri=\"{}\" hash=\"{}\"/>{}",
                d.serial,
                self.abs(&d.rel),
                hx(&d.hash),
                nl
            ));
        }
        s.push_str("</notification>");
        s.push_str(nl);
        s.into_bytes()
    }

    pub fn announced(&self, rev: usize) -> Vec<FileRef> {
        let r = &self.revs[rev];
        let n = r.deltas.len().min(r.win);
        r.deltas[r.deltas.len() - n..].to_vec()
    }

    // -------------------------------------------------------------- serving

    fn set_notif(&mut self, bytes: Vec<u8>, rec: NotifRec) {
        let mut rec = rec;
        rec.hash = sha256(&bytes);
        self.notif = bytes;
        self.notifs.push(rec);
        self.notif_idx = self.notifs.len() - 1;
        self.changes += 1;
    }

    /// Serve a genuine revision correctly.
    fn serve_rev(&mut self, rev: usize, stale: bool) {
        self.overlay.clear();
        self.elsewhere.clear();
        self.snap_is_notif = None;
        self.bad = None;
        self.stale = stale;
        let deltas = self.announced(rev);
        // the files it needs are on the server
        let (session, serial, snap) = {
            let r = &self.revs[rev];
            (r.session.clone(), r.serial, r.snap.clone())
        };
        self.ensure_files(rev);
        let bytes = self.notif_xml(&session, serial, &snap, &deltas);
        let mut names: Vec<String> = vec![snap.rel.clone()];
        names.extend(deltas.iter().map(|d| d.rel.clone()));
        self.keep.push(names);
        let keep_n = 1 + self.cfg.retain as usize;
        if self.keep.len() > keep_n {
            let d = self.keep.len() - keep_n;
            self.keep.drain(..d);
        }
        let all: BTreeSet<String> = self.keep.iter().flatten().cloned().collect();
        self.files.retain(|k, _| all.contains(k));
        self.set_notif(bytes, NotifRec { session, serial, snap, deltas, rev, bad: None, depth: 0, stale, hash: [0; 32] });
    }

    /// Regenerate files of a revision that were dropped from the server.
    fn ensure_files(&mut self, rev: usize) {
        let snap = self.revs[rev].snap.clone();
        if !self.files.contains_key(&snap.rel) {
            let b = {
                let r = &self.revs[rev];
                self.snapshot_xml(&r.session, r.serial, &r.objs)
            };
            self.files.insert(snap.rel, b);
        }
        for d in self.announced(rev) {
            if !self.files.contains_key(&d.rel) {
                // find the revision that carries it and the one before
                let n = self
                    .revs
                    .iter()
                    .position(|r| r.deltas.last().map_or(false, |x| x.rel == d.rel))
                    .unwrap();
                let (ses, ser) = (self.revs[n].session.clone(), self.revs[n].serial);
                let p = self.revs.iter().position(|r| r.session == ses && r.serial + 1 == ser).unwrap();
                let b = self.delta_xml(&ses, ser, &self.revs[p].objs, &self.revs[n].objs);
                self.files.insert(d.rel.clone(), b);
            }
        }
    }

    fn mutate_objs(&mut self, r: &mut Rng, n: u16) -> BTreeMap<String, usize> {
        let mut objs = self.revs[self.cur].objs.clone();
        if self.cfg.signed {
            // only touch unlisted extras
            let extras: Vec<String> = objs.keys().filter(|u| u.contains("/extra/")).cloned().collect();
            for _ in 0..n.max(1) {
                if !extras.is_empty() && r.pct(40) {
                    objs.remove(&r.pick(&extras));
                } else {
                    let (u, b) = self.new_object(r);
                    objs.insert(u, b);
                }
            }
            return objs;
        }
        if n == u16::MAX {
            return BTreeMap::new();
        }
        for _ in 0..n {
            let names: Vec<String> = objs.keys().cloned().collect();
            match r.below(3) {
                0 if !names.is_empty() => {
                    objs.remove(&r.pick(&names));
                }
                1 if !names.is_empty() => {
                    let u = r.pick(&names);
                    let ext = u.rsplit('.').next().unwrap_or("bin").to_string();
                    let (b, _) = self.new_blob(r, Some(&ext));
                    objs.insert(u, b);
                }
                _ if r.pct(20) => {
                    // a name that was in use before, or one that turns a file into a
                    // directory, or a directory into a file
                    let k = r.below(self.revs.len() as u64) as usize;
                    let old: Vec<String> = self.revs[k].objs.keys().filter(|u| !u.contains(EVIL)).cloned().collect();
                    if old.is_empty() {
                        continue;
                    }
                    let mut u = r.pick(&old);
                    let mut ext = u.rsplit('.').next().unwrap_or("bin").to_string();
                    match r.below(3) {
                        0 => {
                            u = format!("{}/{}.{}", u, r.pick(&["x", "sub/y"]), ext);
                        }
                        1 if u.split('/').count() > 5 => {
                            u.truncate(u.rfind('/').unwrap());
                            ext = "bin".into();
                        }
                        _ => {}
                    }
                    if u.len() > 400 {
                        continue;
                    }
                    let b = if r.pct(40) && self.revs[k].objs.contains_key(&u) {
                        self.revs[k].objs[&u]
                    } else {
                        self.new_blob(r, Some(&ext)).0
                    };
                    put(&mut objs, u, b);
                }
                _ => {
                    let (u, b) = self.new_object(r);
                    put(&mut objs, u, b);
                }
            }
        }
        objs
    }

    fn publish(&mut self, seed: u64, n: u16, win: Option<u8>, extra: Option<&str>, variant: Option<u8>, at: u64) -> usize {
        if self.revs[self.cur].traversal {
            // its deltas are not acceptable either, so only a new session helps
            self.apply(&SrcOp::Session { to: None, seed: seed ^ 0x5e5 }, at);
        }
        let mut r = Rng::sub(seed, 5);
        let mut variant = variant;
        let mut objs = match variant {
            Some(v) if self.cfg.tree == 1 => {
                let (o, v) = self.tree_variant(v, &mut r);
                variant = Some(v);
                o
            }
            Some(v) => self.signed_variant(v, &mut r),
            None => self.mutate_objs(&mut r, n),
        };
        // evil objects of earlier revisions do not stay
        objs.retain(|u, _| !u.contains(EVIL));
        let mut traversal = false;
        if let Some(u) = extra {
            let (b, _) = self.new_blob(&mut r, Some("roa"));
            if u == CONFLICT {
                let names: Vec<String> = objs.keys().cloned().collect();
                let u = if names.is_empty() { "rsync://rpki.example.org/repo/evil".to_string() } else { r.pick(&names) };
                objs.entry(u.clone()).or_insert(b);
                objs.insert(format!("{}/{}", u, r.pick(&["evil.roa", "evil/x.roa"])), b);
            } else {
                objs.insert(u.to_string(), b);
            }
            traversal = true;
        }
        let (session, serial, deltas) = {
            let c = &self.revs[self.cur];
            (c.session.clone(), c.serial + 1, c.deltas.clone())
        };
        let d = self.delta_xml(&session, serial, &self.revs[self.cur].objs, &objs);
        let rnd = r.next();
        let v = variant.unwrap_or(self.revs[self.cur].variant);
        let k = self.add_rev(session, serial, objs, deltas, rnd, Some(d), traversal, v, at);
        if let Some(w) = win {
            self.revs[k].win = w as usize;
        }
        self.cur = k;
        let ses = self.revs[k].session.clone();
        if let Some(s) = self.sessions.iter_mut().find(|s| s.0 == ses) {
            s.1 = k;
        }
        k
    }

    fn third_op(&mut self, t: u8, reset: bool, at: u64) {
        let fx = &fixtures().trees;
        let t = &fx.thirds[t as usize % fx.thirds.len()];
        let objs: BTreeMap<String, usize> = t.objs.iter().map(|(u, b)| (fx.uris[*u].clone(), self.signed_blobs[*b])).collect();
        let mut r = Rng::sub(self.third.seed, self.third.serial + 13);
        if reset {
            self.third.session = uuid(&mut r);
            self.third.serial = 1 + r.below(500);
            self.third.deltas.clear();
        } else {
            self.third.serial += 1;
            let d = self.delta_xml(&self.third.session.clone(), self.third.serial, &self.third.objs.clone(), &objs);
            let rel = format!("{}/{}/delta-{:x}.xml", self.third.session, self.third.serial, r.next());
            self.third.deltas.push(FileRef { serial: self.third.serial, rel: rel.clone(), hash: sha256(&d) });
            match r.below(12) {
                // deltas that cannot be used, there is still the snapshot
                0 => {}
                1 => {
                    self.third.files.insert(rel, d[..d.len() / 2].to_vec());
                }
                _ => {
                    self.third.files.insert(rel, d);
                }
            }
            let window = r.pick(&[0, 1, 1, 2, 3, 3, 3]);
            while self.third.deltas.len() > window {
                self.third.deltas.remove(0);
            }
        }
        self.third.objs = objs;
        let snap = self.snapshot_xml(&self.third.session.clone(), self.third.serial, &self.third.objs.clone());
        let rel = format!("{}/{}/snapshot-{:x}.xml", self.third.session, self.third.serial, r.next());
        let mut x = format!(
            "<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{}\" serial=\"{}\">\n<snapshot uri=\"{}{}\" hash=\"{}\"/>\n",
            self.third.session,
            self.third.serial,
            crate::layout::THIRD,
            rel,
            hex(&sha256(&snap))
        );
        for d in &self.third.deltas {
            x.push_str(&format!("<delta serial=\"{}\" uri=\"{}{}\" hash=\"{}\"/>\n", d.serial, crate::layout::THIRD, d.rel, hex(&d.hash)));
        }
        x.push_str("</notification>\n");
        self.third.files.insert(rel, snap);
        self.third.files.insert("notification.xml".into(), x.into_bytes());
        self.third.lists = match (t.g4, self.third.lists) {
            (false, _) => None,
            (true, None) => Some(at),
            (true, x) => x,
        };
        if t.g4 {
            self.third.plain_since = None;
        } else if self.third.plain_since.is_none() {
            self.third.plain_since = Some(at);
        }
        self.third.listed_ever |= t.g4;
        self.aside += 1;
    }

    pub fn ta_cert(&self, ta: usize) -> Option<Vec<u8>> {
        let t = &fixtures().trees.tas;
        match self.ta_mode[ta] {
            m @ 0..=3 => Some(t[ta].certs[m as usize].clone()),
            4 => Some(t[(ta + 1) % 3].certs[0].clone()),
            5 => Some(b"not a certificate".to_vec()),
            6 => Some(vec![]),
            _ => None,
        }
    }

    /// Variant of the generated trees.
    fn tree_variant(&mut self, v: u8, r: &mut Rng) -> (BTreeMap<String, usize>, u8) {
        let mut objs: BTreeMap<String, usize> =
            self.revs[self.cur].objs.iter().filter(|(u, _)| u.contains("/extra/")).map(|(u, b)| (u.clone(), *b)).collect();
        let t = &fixtures().trees;
        let damaged = v >= V_DAMAGED;
        let v = if damaged { 0 } else { v as usize % t.trees.len() };
        for (u, b) in &t.trees[v].objs {
            objs.insert(t.uris[*u].clone(), self.signed_blobs[*b]);
        }
        if damaged {
            let l: Vec<String> = objs.keys().filter(|u| !u.contains("/extra/") && !u.contains("/B/") && !u.contains("/D1/")).cloned().collect();
            let u = r.pick(&l);
            let mut d = self.blobs[objs[&u]].data.clone();
            // a manifest's own signature, any part of everything else
            let from = if u.ends_with(".mft") { d.len() - 200 } else { 0 };
            if r.pct(25) {
                d.truncate(d.len() - 1 - r.below(20) as usize);
            } else {
                let k = from + r.below((d.len() - from) as u64) as usize;
                d[k] ^= 1 << r.below(8);
            }
            let b = self.add_blob(d, None);
            objs.insert(u, b);
        }
        (objs, if damaged { V_DAMAGED } else { v as u8 })
    }

    /// Variant of the signed tree. 0: everything; odd numbers break it.
    fn signed_variant(&mut self, v: u8, r: &mut Rng) -> BTreeMap<String, usize> {
        let mut objs: BTreeMap<String, usize> =
            self.revs[self.cur].objs.iter().filter(|(u, _)| u.contains("/extra/")).map(|(u, b)| (u.clone(), *b)).collect();
        let all: Vec<(String, usize)> =
            fixtures().signed.objs.iter().zip(self.signed_blobs.iter()).map(|(o, b)| (o.0.clone(), *b)).collect();
        for (u, b) in &all {
            objs.insert(u.clone(), *b);
        }
        let pick_ext = |r: &mut Rng, e: &str| -> String {
            let v: Vec<&String> = all.iter().map(|x| &x.0).filter(|u| u.ends_with(e)).collect();
            v[r.below(v.len() as u64) as usize].clone()
        };
        match v {
            0 => {}
            1 => {
                // a listed object is missing
                let u = pick_ext(r, r#".roa"#);
                objs.remove(&u);
            }
            2 => {
                // a listed object is corrupted
                let u = pick_ext(r, ".roa");
                let mut d = self.blobs[objs[&u]].data.clone();
                let k = r.below(d.len() as u64) as usize;
                d[k] ^= 1 << r.below(8);
                let b = self.add_blob(d, None);
                objs.insert(u, b);
            }
            3 => {
                // a manifest is missing
                let u = pick_ext(r, ".mft");
                objs.remove(&u);
            }
            4 => {
                // a CRL is missing
                let u = pick_ext(r, ".crl");
                objs.remove(&u);
            }
            _ => {
                // a listed object was replaced by another valid one
                let u = pick_ext(r, ".roa");
                let w = pick_ext(r, ".roa");
                if u == w {
                    objs.remove(&u);
                } else {
                    let b = objs[&w];
                    objs.insert(u, b);
                }
            }
        }
        objs
    }

    pub fn apply(&mut self, op: &SrcOp, at: u64) -> &'static str {
        match op {
            SrcOp::Publish { seed, n, win } => {
                let k = self.publish(*seed, *n, *win, None, None, at);
                self.serve_rev(k, false);
                "publish"
            }
            SrcOp::Signed { v, seed } => {
                if !self.cfg.signed {
                    return "none";
                }
                let k = self.publish(*seed, 0, None, None, Some(*v), at);
                self.serve_rev(k, false);
                if *v == 0 || (self.cfg.tree == 1 && *v < V_DAMAGED && fixtures().trees.trees[*v as usize % fixtures().trees.trees.len()].a.0) {
                    "signed.valid"
                } else {
                    "signed.invalid"
                }
            }
            SrcOp::Session { to, seed } => {
                let cur_ses = self.revs[self.cur].session.clone();
                let back = to.and_then(|k| {
                    let s = &self.sessions[k as usize % self.sessions.len()];
                    if s.0 != cur_ses && !self.revs[s.1].traversal {
                        Some(s.1)
                    } else {
                        None
                    }
                });
                match back {
                    Some(rev) => {
                        self.cur = rev;
                        self.serve_rev(rev, false);
                        "session.return"
                    }
                    None => {
                        let mut r = Rng::sub(*seed, 6);
                        let mut session = uuid(&mut r);
                        while self.revs.iter().any(|r| r.session == session) {
                            session = uuid(&mut r);
                        }
                        let serial = 1 + r.skew(100);
                        let mut objs = self.revs[self.cur].objs.clone();
                        objs.retain(|u, _| !u.contains(EVIL));
                        let rnd = r.next();
                        let v = self.revs[self.cur].variant;
                        let k = self.add_rev(session.clone(), serial, objs, vec![], rnd, None, false, v, at);
                        self.sessions.push((session, k));
                        self.cur = k;
                        self.serve_rev(k, false);
                        "session.new"
                    }
                }
            }
            SrcOp::Stale { back } => {
                let ses = self.revs[self.cur].session.clone();
                let ser = self.revs[self.cur].serial;
                let want = ser.saturating_sub(*back as u64 + 1);
                match self.revs.iter().position(|r| r.session == ses && r.serial == want && !r.traversal) {
                    Some(k) => {
                        self.serve_rev(k, true);
                        "stale"
                    }
                    None => "none",
                }
            }
            SrcOp::Heal => {
                let was = self.bad.is_some() || self.stale;
                if self.revs[self.cur].traversal {
                    let k = self.publish(at ^ 0x4ea1 ^ ((self.revs.len() as u64) << 40), 1, None, None, None, at);
                    self.serve_rev(k, false);
                } else {
                    let k = self.cur;
                    if was {
                        self.serve_rev(k, false);
                    }
                }
                "heal"
            }
            SrcOp::Third { t, reset } => {
                if !self.cfg.signed || self.cfg.tree != 1 {
                    return "none";
                }
                self.third_op(*t, *reset, at);
                "third"
            }
            SrcOp::Ta { ta, mode } => {
                let k = *ta as usize % 3;
                if self.ta_mode[k] != *mode {
                    self.ta_mode[k] = *mode;
                    self.aside += 1;
                }
                "ta"
            }
            SrcOp::Bad { kind, seed } => {
                self.make_bad(*kind, *seed, at);
                "bad"
            }
        }
    }

    /// The newest revision is served with other content under the same serial.
    fn rewrite(&mut self, seed: u64) {
        let mut r = Rng::sub(seed, 19);
        let k = self.cur;
        let (session, serial, mut objs) = {
            let v = &self.revs[k];
            (v.session.clone(), v.serial, v.objs.clone())
        };
        let mut deltas = self.announced(k);
        for _ in 0..1 + r.below(3) {
            let (u, b) = self.new_object(&mut r);
            objs.insert(u, b);
        }
        let bytes = self.snapshot_xml(&session, serial, &objs);
        let mut snap = self.revs[k].snap.clone();
        snap.rel = format!("{}/{}/{:x}/snapshot.xml", session, serial, r.next());
        snap.hash = sha256(&bytes);
        self.overlay.insert(snap.rel.clone(), Some(bytes));
        if r.pct(50) {
            if let Some(d) = deltas.last_mut() {
                let s = String::from_utf8_lossy(&self.files[&d.rel]).to_string();
                let b = s.replacen("\n</delta>", "\n\n</delta>", 1).replacen("</delta>", "<!-- -->\n</delta>", 1).into_bytes();
                d.rel = format!("{}/{}/{:x}/delta.xml", session, serial, r.next());
                d.hash = sha256(&b);
                self.overlay.insert(d.rel.clone(), Some(b));
            }
        }
        let bytes = self.notif_xml(&session, serial, &snap, &deltas);
        self.bad = Some(Bad::Rewritten);
        self.set_notif(bytes, NotifRec { session, serial, snap, deltas, rev: k, bad: Some(Bad::Rewritten), stale: false, depth: 0, hash: [0; 32] });
    }

    fn make_bad(&mut self, kind: Bad, seed: u64, at: u64) {
        if kind == Bad::Rewritten {
            if !self.mirror && self.healthy() && !self.cfg.signed && !self.revs[self.cur].traversal {
                self.rewrite(seed);
            }
            return;
        }
        let mut r = Rng::sub(seed, 9);
        if self.revs[self.cur].traversal {
            let k = self.publish(seed ^ 1, 1, None, None, None, at);
            self.serve_rev(k, false);
        }
        let extra = match kind {
            Bad::ObjTraversalHost => Some(r.pick(&["rsync://../repo/evil/x.roa", "rsync://..:80/../evil2.roa", "rsync://./../evil/y.roa", "rsync://../../evil3.roa", "rsync://../elsewhere/evil/z.roa"]).to_string()),
            Bad::ObjTraversalModule => Some(r.pick(&["rsync://rpki.example.org/../../evil/x.roa", "rsync://rpki.example.org/../evil.roa", "rsync://rpki.example.org/.././evil.roa"]).to_string()),
            Bad::ObjConflict => Some(CONFLICT.to_string()),
            Bad::ObjSlash => Some(r.pick(&["rsync://rpki.example.org/repo/evil/x/", "rsync://rpki.example.org/repo/evil/", "rsync://rpki.example.org/repo/ca1/evil.roa/"]).to_string()),
            _ => None,
        };
        // several new deltas, of which any may be the bad one
        let more = if format!("{:?}", kind).starts_with("Delta") { r.weighted(&[60, 25, 15]) as u64 } else { 0 };
        for i in 0..more {
            self.publish(seed ^ (77 + i), 1 + r.below(2) as u16, None, None, None, at);
        }
        let n = 1 + r.below(3) as u16;
        let k = self.publish(seed, n, None, extra.as_deref(), None, at);
        self.serve_rev(k, false);
        if extra.is_some() {
            self.bad = Some(kind);
            self.notifs.last_mut().unwrap().bad = Some(kind);
            return;
        }
        let (session, serial, objs) = {
            let v = &self.revs[k];
            (v.session.clone(), v.serial, v.objs.clone())
        };
        let mut snap = self.revs[k].snap.clone();
        let mut deltas = self.announced(k);
        let mut kind = kind;
        let need = match kind {
            Bad::NotifGap => 3,
            Bad::NotifNoLast => 2,
            Bad::DeltaHash
            | Bad::DeltaXml
            | Bad::DeltaB64
            | Bad::DeltaSession
            | Bad::DeltaSerial
            | Bad::DeltaMissing
            | Bad::DeltaOutside
            | Bad::DeltaTraversal
            | Bad::DeltaAbsolute
            | Bad::DeltaIsNotifTmp
            | Bad::NotifDup
            | Bad::NotifBeyond => 1,
            _ => 0,
        };
        if deltas.len() < need {
            kind = Bad::SnapHash;
        }
        let depth = r.below(1 + more.min(deltas.len().saturating_sub(1) as u64)) as usize;
        let at = deltas.len().saturating_sub(1 + depth);
        let mut raw: Option<Vec<u8>> = None;
        let snap_bytes = self.files[&snap.rel].clone();
        let corrupt = |r: &mut Rng, b: &[u8]| -> Vec<u8> {
            let mut v = b.to_vec();
            let i = r.below(v.len() as u64) as usize;
            match r.below(3) {
                0 => v[i] ^= 1,
                1 => v.truncate(i),
                _ => v.extend_from_slice(b"\n"),
            }
            v
        };
        let bad_xml = |r: &mut Rng, b: &[u8]| -> Vec<u8> {
            let v = b.to_vec();
            match r.below(3) {
                0 => {
                    let n = v.len() * (30 + r.below(60) as usize) / 100;
                    v[..n].to_vec()
                }
                1 => {
                    let s = String::from_utf8_lossy(&v).replacen("version=\"1\"", "version=\"7\"", 1);
                    s.into_bytes()
                }
                _ => {
                    let s = String::from_utf8_lossy(&v).replace("</snapshot>", "</snapsho>").replace("</delta>", "</delt>");
                    s.into_bytes()
                }
            }
        };
        match kind {
            Bad::NotifGap => {
                let i = deltas.len() - 2;
                deltas.remove(i);
            }
            Bad::NotifNoLast => {
                deltas.pop();
            }
            Bad::NotifBeyond => {
                let mut d = deltas.last().unwrap().clone();
                d.serial += 1;
                d.rel = format!("{}-next", d.rel);
                self.overlay.insert(d.rel.clone(), Some(self.files[&deltas.last().unwrap().rel].clone()));
                deltas.push(d);
            }
            Bad::NotifDup => {
                let d = deltas.last().unwrap().clone();
                deltas.push(d);
            }
            Bad::NotifXml => {
                let b = self.notif_xml(&session, serial, &snap, &deltas);
                raw = Some(match r.below(3) {
                    0 => b[..b.len() * (20 + r.below(75) as usize) / 100].to_vec(),
                    1 => String::from_utf8_lossy(&b).replacen("serial=", "serail=", 1).into_bytes(),
                    _ => String::from_utf8_lossy(&b).replacen(&hex(&snap.hash)[..10], "zz", 1).replacen(&hex(&snap.hash).to_uppercase()[..10], "zz", 1).into_bytes(),
                });
            }
            Bad::NotifEmpty => raw = Some(vec![]),
            Bad::NotifHtml => raw = Some(b"<html><head><title>Maintenance</title></head><body>back soon</body></html>".to_vec()),
            Bad::SnapHash => {
                let b = corrupt(&mut r, &snap_bytes);
                self.overlay.insert(snap.rel.clone(), Some(b));
            }
            Bad::SnapMissing => {
                self.overlay.insert(snap.rel.clone(), None);
            }
            Bad::SnapXml | Bad::SnapB64 | Bad::SnapSession | Bad::SnapSerial | Bad::SnapEmpty | Bad::SnapIsDelta => {
                let b = match kind {
                    Bad::SnapXml => bad_xml(&mut r, &snap_bytes),
                    Bad::SnapB64 => {
                        let s = String::from_utf8_lossy(&snap_bytes).to_string();
                        match s.find("</publish>") {
                            Some(i) => {
                                let mut t = s.clone();
                                t.insert_str(i, "*!*");
                                t.into_bytes()
                            }
                            None => vec![],
                        }
                    }
                    Bad::SnapSession => self.snapshot_xml(&uuid(&mut r), serial, &objs),
                    Bad::SnapSerial => self.snapshot_xml(&session, r.pick(&[serial + 1, serial + 7, serial.saturating_sub(1), 0]), &objs),
                    Bad::SnapEmpty => vec![],
                    _ => match deltas.last() {
                        Some(d) => self.files[&d.rel].clone(),
                        None => vec![],
                    },
                };
                snap.hash = sha256(&b);
                self.overlay.insert(snap.rel.clone(), Some(b));
            }
            Bad::SnapOutside | Bad::SnapTraversal | Bad::SnapAbsolute => {
                let url = self.escape_url(kind, &mut r, "snap");
                self.place_elsewhere(&url, &snap_bytes);
                snap.rel = url;
            }
            Bad::SnapIsNotif => {
                snap.rel = self.name.clone();
                self.snap_is_notif = Some(snap_bytes.clone());
            }
            Bad::DeltaHash => {
                let d = deltas[at].clone();
                let b = corrupt(&mut r, &self.files[&d.rel]);
                self.overlay.insert(d.rel, Some(b));
            }
            Bad::DeltaMissing => {
                let d = deltas[at].clone();
                self.overlay.insert(d.rel, None);
            }
            Bad::DeltaXml | Bad::DeltaB64 | Bad::DeltaSession | Bad::DeltaSerial => {
                let d = &mut deltas[at];
                let old = self.files[&d.rel].clone();
                let s = String::from_utf8_lossy(&old).to_string();
                let b = match kind {
                    Bad::DeltaXml => bad_xml(&mut r, &old),
                    Bad::DeltaB64 => match s.find("</publish>") {
                        Some(i) => {
                            let mut t = s.clone();
                            t.insert_str(i, "*!*");
                            t.into_bytes()
                        }
                        None => bad_xml(&mut r, &old),
                    },
                    Bad::DeltaSession => s.replacen(&session, &uuid(&mut r), 1).into_bytes(),
                    _ => {
                        let other = r.pick(&[d.serial + 5, d.serial + 1, d.serial.saturating_sub(1), 0]);
                        s.replacen(&format!("serial=\"{}\"", d.serial), &format!("serial=\"{}\"", other), 1).into_bytes()
                    }
                };
                d.hash = sha256(&b);
                self.overlay.insert(d.rel.clone(), Some(b));
            }
            Bad::DeltaOutside | Bad::DeltaTraversal | Bad::DeltaAbsolute => {
                let url = self.escape_url(kind, &mut r, "delta");
                let b = self.files[&deltas[at].rel].clone();
                self.place_elsewhere(&url, &b);
                deltas[at].rel = url;
            }
            Bad::DeltaIsNotifTmp => {
                let b = self.files[&deltas[at].rel].clone();
                let rel = format!("{}.tmp", self.name);
                self.overlay.insert(rel.clone(), Some(b));
                deltas[at].rel = rel;
            }
            Bad::ObjTraversalHost | Bad::ObjTraversalModule | Bad::ObjConflict | Bad::ObjSlash | Bad::Rewritten => unreachable!(),
        }
        let bytes = match raw {
            Some(b) => b,
            None => self.notif_xml(&session, serial, &snap, &deltas),
        };
        self.bad = Some(kind);
        self.set_notif(bytes, NotifRec { session, serial, snap, deltas, rev: k, bad: Some(kind), depth, stale: false, hash: [0; 32] });
    }

    fn escape_url(&self, kind: Bad, r: &mut Rng, what: &str) -> String {
        match kind {
            Bad::SnapOutside | Bad::DeltaOutside => {
                let host = self.base.splitn(4, '/').nth(2).unwrap().to_string();
                let mut v = vec![format!("https://elsewhere.example.com/{}.xml", what), format!("https://{}.evil.example/{}.xml", host, what)];
                if !self.base.ends_with(&format!("{}/", host)) {
                    v.push(format!("https://{}/outside/{}.xml", host, what));
                    // shares the textual prefix, but not the directory
                    v.push(format!("{}x/{}.xml", &self.base[..self.base.len() - 1], what));
                }
                r.pick(&v)
            }
            Bad::SnapTraversal | Bad::DeltaTraversal => {
                let up = r.pick(&["../", "a/../../", "../../../", "a/b/../../../../", "../../../../../../", "./../"]);
                let tail = r.pick(&["evil/x.xml", "evil.xml", "state/rrdp-state.json", "etc/evil.xml"]);
                format!("{}{}{}", self.base, up, tail)
            }
            _ => format!("{}{}", self.base, r.pick(&["/etc/evil.xml", "/srv/n0/evil.xml", "//srv/evil/x.xml"])),
        }
    }

    fn place_elsewhere(&mut self, url: &str, b: &[u8]) {
        self.elsewhere.insert(url.to_string(), b.to_vec());
    }

    /// Content at a relative name right now.
    pub fn serve(&self, rel: &str) -> Option<&[u8]> {
        if let Some(o) = self.overlay.get(rel) {
            return o.as_deref();
        }
        if rel == self.name || rel == format!("alt-{}", self.name) || rel == "notification-alt.xml" {
            return Some(&self.notif);
        }
        if let Some(b) = self.files.get(rel) {
            return Some(b);
        }
        self.elsewhere.get(&format!("{}{}", self.base, rel)).map(|v| &v[..])
    }

    pub fn kind_of(&self, rel: &str) -> FileKind {
        if rel == self.name || rel == format!("alt-{}", self.name) || rel == "notification-alt.xml" {
            return FileKind::Notif;
        }
        self.kinds.get(rel).copied().unwrap_or(FileKind::Other)
    }

    pub fn healthy(&self) -> bool {
        self.bad.is_none() && !self.stale
    }

    pub fn etag(&self) -> String {
        hex(&self.notifs[self.notif_idx].hash)[..20].to_string()
    }

    /// Revision a (session, serial) pair stands for.
    pub fn rev_of(&self, session: &str, serial: u64) -> Option<usize> {
        self.revs.iter().position(|r| r.session == session && r.serial == serial)
    }
}

impl World {
    pub fn source_op(&mut self, op: &SrcOp) {
        let at = self.mono;
        let k = self.source.apply(op, at);
        self.stats.add(&format!("source.{}", k), 1);
        if let SrcOp::Bad { .. } = op {
            if let Some(b) = self.source.bad {
                self.stats.add(&format!("fault.source.{:?}", b), 1);
            }
        }
        if k == "stale" {
            self.stats.add("fault.source.stale", 1);
        }
        let c = {
            let n = self.source.notifs.last().unwrap();
            (n.session.clone(), n.serial, n.bad, n.stale, n.deltas.len())
        };
        self.note(fnv(c.1, c.0.as_bytes()));
        self.log(|| format!("SOURCE {} -> session {} serial {} deltas {} bad {:?} stale {}", k, &c.0[..8], c.1, c.4, c.2, c.3));
        self.oracle_source_changed();
        self.mirror_source();
    }

    /// Keep the directory version of the source up to date.
    pub fn mirror_source(&mut self) {
        if !self.source.mirror {
            return;
        }
        let now = self.now();
        let base = crate::layout::SRCDIR.to_string();
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for (k, v) in &self.source.files {
            want.insert(k.clone(), v.clone());
        }
        for (k, v) in &self.source.overlay {
            match v {
                Some(v) => {
                    want.insert(k.clone(), v.clone());
                }
                None => {
                    want.remove(k);
                }
            }
        }
        let n = self.source.notif.clone();
        want.insert(self.source.name.clone(), n.clone());
        want.insert(format!("alt-{}", self.source.name), n);
        for (u, v) in &self.source.elsewhere {
            if let Some(rel) = u.strip_prefix(&self.source.base) {
                want.insert(rel.to_string(), v.clone());
            }
        }
        let old = std::mem::take(&mut self.source.mirrored);
        for k in &old {
            if !want.contains_key(k) {
                let p = clean_path(&join(&base, k));
                self.vfs.env_remove(&p, now);
            }
        }
        for (k, v) in &want {
            let p = join(&base, k);
            // resolve dot segments textually
            let p = clean_path(&p);
            if let Some(i) = self.vfs.lookup(&p) {
                if self.vfs.get(i).data == *v {
                    continue;
                }
            }
            // replace atomically, like a careful publisher does
            self.vfs.env_remove(&p, now);
            self.vfs.env_write(&p, v, now);
        }
        self.source.mirrored = want.keys().cloned().collect();
    }
}

pub fn join(base: &str, rel: &str) -> String {
    if rel.starts_with('/') {
        rel.to_string()
    } else {
        format!("{}{}", base, rel)
    }
}

pub fn clean_path(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

//! The simulated network: name resolution, TLS identity, HTTP exchanges, faults.
use crate::kernel::*;
use crate::plan::*;
use crate::rng::mix;
use crate::source::FileKind;
use crate::util::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum HttpErr {
    Timeout,
    Connect(String),
    Redirect,
    Request(String),
    Body(String),
    Builder(String),
}

#[derive(Clone, Debug)]
pub struct HttpReq {
    pub url: String,
    pub method: String,
    pub headers: Vec<(String, String)>,
    /// None = no limit at all
    pub timeout_ms: Option<u64>,
    pub insecure_certs: bool,
    pub insecure_hosts: bool,
    /// how many redirects are followed; 0 = none
    pub redirects: u32,
}

#[derive(Clone, Debug)]
pub struct HttpResp {
    pub id: u64,
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub url: String,
    pub len: Option<u64>,
}

pub struct Body {
    pub data: Vec<u8>,
    pub pos: usize,
    /// ends with an error instead of a proper end
    pub err: bool,
    /// delivers nothing after `data`, without ending
    pub stall: bool,
    /// time the whole transfer takes
    pub ms: u64,
    pub url: String,
    pub notif: Option<usize>,
    pub tampered: bool,
    pub req: usize,
    pub len: usize,
}

#[derive(Clone, Debug)]
pub struct ReqRec {
    pub pid: u32,
    pub url: String,
    pub kind: NetSel,
    pub start: u64,
    pub end: u64,
    pub status: u16,
    pub fault: bool,
}

#[derive(Default)]
pub struct NetState {
    pub bodies: BTreeMap<u64, Body>,
    pub next: u64,
    pub reqs: Vec<ReqRec>,
}

pub const REQ_LIMIT_S: u64 = 60;

/// scheme, host with port, path
pub fn split_url(u: &str) -> Option<(String, String, String)> {
    let (s, r) = u.split_once("://")?;
    let (h, p) = match r.find('/') {
        Some(i) => (&r[..i], &r[i..]),
        None => (r, "/"),
    };
    let h = h.strip_suffix(":443").unwrap_or(h);
    Some((s.to_lowercase(), h.to_lowercase(), p.to_string()))
}

pub fn http_send(req: HttpReq) -> Result<HttpResp, HttpErr> {
    kcall(|w, pid| w.net_request(pid, &req))
}
/// Whole remaining body.
pub fn http_body_all(id: u64, timeout_ms: Option<u64>) -> Result<Vec<u8>, HttpErr> {
    kcall(|w, pid| w.net_body_all(pid, id, timeout_ms))
}
/// Next piece; empty at the end.
pub fn http_body_some(id: u64, max: usize, timeout_ms: Option<u64>) -> Result<Vec<u8>, HttpErr> {
    kcall(|w, pid| w.net_body_some(pid, id, max, timeout_ms))
}

impl World {
    fn net_wait(&mut self, pid: u32, ms: u64) {
        let t = self.mono + ms * 1_000_000;
        let s = self.p(pid).slept;
        self.sleep_until(pid, t);
        self.p(pid).slept = s;
    }

    fn stall(&mut self, pid: u32, timeout: Option<u64>, url: &str) -> HttpErr {
        match timeout {
            Some(t) => {
                self.net_wait(pid, t);
                HttpErr::Timeout
            }
            None => {
                self.violate(&["C16"], "no-timeout", format!("request for {} has no time limit and is never answered", url));
                self.end_proc(pid, Exit::Hang(format!("waiting for {}", url)));
            }
        }
    }

    pub fn net_request(&mut self, pid: u32, req: &HttpReq) -> Result<HttpResp, HttpErr> {
        let _ = self.gate(pid, OpSel::Net, false, &req.url);
        let url = req.url.clone();
        let nreq = {
            let p = self.p(pid);
            p.reqs += 1;
            p.reqs
        };
        self.oracle_proceeds(pid, "request");
        self.log(|| format!("[{}] {} {}", pid, req.method, url));
        self.stats.add("net.requests", 1);
        let start = self.own_time();
        // upstream activity scheduled at this request
        let mut fire = vec![];
        {
            let p = self.p(pid);
            let mut i = 0;
            while i < p.during.len() {
                if let At::Request(n) = p.during[i].0 {
                    if nreq > n {
                        fire.push(p.during.remove(i).1);
                        p.during_fired += 1;
                        continue;
                    }
                }
                i += 1;
            }
        }
        for o in fire {
            self.source_op(&o);
        }
        if nreq > 3000 {
            self.violate(&["C16"], "too-many-requests", "more than 3000 requests in one run".into());
            self.end_proc(pid, Exit::Hang("requests".into()));
        }
        let same = self.net.reqs.iter().filter(|r| r.pid == pid && r.url == url).count();
        if same == 20 {
            self.violate(&["C16"], "repeated-request", format!("the same request was repeated more than 20 times in one run: {}", url));
        }
        let cfg = self.procs[&pid].cfg.clone();
        let (scheme, host, path) = split_url(&url).unwrap_or_default();
        // where may requests go?
        let base = match cfg.src {
            SrcSel::Public => Some(crate::layout::public(&self.plan.src, cfg.notif_alt).0),
            SrcSel::Hidden => Some(crate::layout::HIDDEN.to_string()),
            SrcSel::Dir => None,
        };
        let mut rel: Option<String> = None;
        if let Some(b) = &base {
            let (_, bh, bp) = split_url(b).unwrap();
            if bh == host && scheme == "https" {
                if let Some(r) = path.strip_prefix(&bp) {
                    rel = Some(r.to_string());
                }
            }
        }
        let is_ta = cfg.tal > 0 && host == "localhost:3000" && path.starts_with("/ta/");
        let third = if cfg.tal > 0 && self.plan.src.signed && self.plan.src.tree == 1 {
            url.strip_prefix(crate::layout::THIRD).map(|s| s.to_string())
        } else {
            None
        };
        let kind = if is_ta {
            NetSel::Ta
        } else if third.is_some() {
            NetSel::Third
        } else {
            match &rel {
                Some(r) => match self.source.kind_of(r) {
                    FileKind::Notif => NetSel::Notif,
                    FileKind::Snap => NetSel::Snap,
                    FileKind::Delta => NetSel::Delta,
                    FileKind::Other => NetSel::Other,
                },
                None => NetSel::Other,
            }
        };
        let aside = is_ta || third.is_some();
        // where a damaged notification of the other publisher leads is anybody's guess
        let led = self.net.reqs.iter().any(|q| q.pid == pid && q.kind == NetSel::Third && q.fault);
        if rel.is_none() && !aside && !led && !self.procs[&pid].usage {
            self.violate(
                &["C15"],
                "foreign-request",
                format!("requested {} which is not below the configured source {}", url, base.clone().unwrap_or_else(|| "directory".into())),
            );
        }
        if !aside {
            let r = rel.clone();
            self.oracle_request(pid, r.as_deref(), kind == NetSel::Notif, kind == NetSel::Delta);
        }
        let req_i = self.net.reqs.len();
        self.net.reqs.push(ReqRec { pid, url: url.clone(), kind, start, end: 0, status: 0, fault: false });
        let h = mix(self.plan.seed ^ mix((pid as u64) << 40 ^ nreq as u64 ^ 0x7e7));
        let lat = 5 + h % 195;
        // faults
        let mut fault: Option<NetKind> = None;
        let benign;
        let conditional = req.headers.iter().any(|(k, _)| k == "if-none-match");
        {
            let p = self.p(pid);
            for a in p.net_faults.iter_mut() {
                if a.f.sel != NetSel::Any && a.f.sel != kind {
                    continue;
                }
                let k = a.seen;
                a.seen += 1;
                if k >= a.f.nth && k - a.f.nth <= a.f.more {
                    // in answer to a condition it would be an answer like any other
                    if kind == NetSel::Notif && a.f.kind == NetKind::NotModified && conditional {
                        continue;
                    }
                    a.fired += 1;
                    fault = Some(a.f.kind);
                }
            }
            benign = match fault {
                Some(NetKind::RedirectOk) => req.redirects > 0,
                Some(NetKind::Slow(s)) => s <= 20,
                Some(NetKind::BadCert(_)) => cfg.insecure && !aside,
                _ if third.is_some() => true,
                _ => false,
            };
            if fault.is_some() && !benign {
                p.net_fired += 1;
            }
        }
        if let Some(f) = fault {
            let n = format!("{:?}", f);
            let n = n.split('(').next().unwrap().to_string();
            self.stats.add(&format!("fault.net.{}", n), 1);
            self.sig(pid, fnv(0x4e7, format!("{:?}{}", kind, n).as_bytes()));
            self.log(|| format!("[{}] FAULT network {:?}", pid, f));
            self.net.reqs[req_i].fault = !benign || third.is_some();
        }
        let r = self.exchange(pid, req, kind, if third.is_some() { third.as_deref() } else { rel.as_deref() }, fault, lat, req_i, &host);
        self.net.reqs[req_i].end = self.own_time();
        if let Ok(r) = &r {
            self.net.reqs[req_i].status = r.status;
        }
        let took = self.own_time().saturating_sub(start);
        if took > (REQ_LIMIT_S + 5) * 1_000_000_000 {
            self.violate(&["C16"], "slow-request", format!("{} kept the run waiting for {} s", url, took / 1_000_000_000));
        }
        let st = match &r {
            Ok(r) => r.status as i64,
            Err(_) => -1,
        };
        self.log(|| format!("[{}]   -> {}", pid, match &r { Ok(x) => format!("{} len {:?}", x.status, x.len), Err(e) => format!("{:?}", e) }));
        self.done(pid, OpSel::Net, false, &url, None, st, false);
        r
    }

    #[allow(clippy::too_many_arguments)]
    fn exchange(
        &mut self,
        pid: u32,
        req: &HttpReq,
        kind: NetSel,
        rel: Option<&str>,
        fault: Option<NetKind>,
        lat: u64,
        req_i: usize,
        host: &str,
    ) -> Result<HttpResp, HttpErr> {
        let to = req.timeout_ms;
        // establishing the connection
        match fault {
            Some(NetKind::Dns) => {
                self.net_wait(pid, 30);
                return Err(HttpErr::Connect("dns error".into()));
            }
            Some(NetKind::Refuse) => {
                self.net_wait(pid, 1);
                return Err(HttpErr::Connect("connection refused".into()));
            }
            Some(NetKind::Stall) => return Err(self.stall(pid, to, &req.url)),
            _ => {}
        }
        let known = rel.is_some() || kind == NetSel::Ta;
        let known = known || self.source.elsewhere.keys().any(|u| split_url(u).map_or(false, |x| x.1 == host));
        if !known {
            self.net_wait(pid, 30);
            return Err(HttpErr::Connect("dns error".into()));
        }
        let cfg = self.procs[&pid].cfg.clone();
        if let Some(NetKind::BadCert(wrong_host)) = fault {
            // without certificate verification the name is not looked at either
            let accepted = req.insecure_certs || (wrong_host && req.insecure_hosts);
            if !accepted {
                self.net_wait(pid, lat);
                return Err(HttpErr::Connect("certificate verify failed".into()));
            }
            if !cfg.insecure && kind != NetSel::Ta && kind != NetSel::Third {
                self.violate(
                    &["C15"],
                    "bad-certificate-accepted",
                    format!("{}: a server with an invalid certificate was accepted without --insecure", req.url),
                );
            }
        }
        self.net_wait(pid, lat);
        if let Some(NetKind::Reset) = fault {
            return Err(HttpErr::Request("connection reset by peer".into()));
        }
        let mut headers: Vec<(String, String)> = vec![("content-type".into(), "application/xml".into())];
        let mut status = 200u16;
        let mut data: Vec<u8>;
        let mut notif = None;
        // the genuine answer
        let content: Option<Vec<u8>> = if kind == NetSel::Ta {
            if self.plan.src.tree == 1 {
                let name = req.url.rsplit('/').next().unwrap_or("");
                let k = crate::layout::TA_NAMES.iter().position(|n| name == format!("{}.cer", n));
                k.and_then(|k| self.source.ta_cert(k))
            } else {
                Some(crate::source::fixtures().signed.ta.clone())
            }
        } else if kind == NetSel::Third {
            rel.and_then(|r| self.source.third.files.get(r).cloned())
        } else if let Some(r) = rel {
            if kind == NetSel::Notif {
                let again = self.net.reqs[..req_i].iter().any(|q| q.pid == pid && q.kind == NetSel::Notif);
                if self.source.bad == Some(Bad::Rewritten) {
                    // a mirror that does not have this serial cannot know that it is not the genuine one
                    let n = self.source.notifs[self.source.notif_idx].clone();
                    let has = self.oracle.runs.get(&pid).map_or(false, |r| {
                        let c = &self.oracle.nodes[&r.node].rrdp[&r.vkey].cur;
                        c.as_ref().map_or(false, |c| c.session == n.session && c.serial == n.serial && c.snap == self.source.revs[n.rev].snap.hash)
                    });
                    if has {
                        self.stats.add("net.rewritten", 1);
                    } else {
                        self.source_op(&SrcOp::Heal);
                    }
                }
                match (&self.source.snap_is_notif, again) {
                    (Some(b), true) => Some(b.clone()),
                    _ => {
                        notif = Some(self.source.notif_idx);
                        Some(self.source.notif.clone())
                    }
                }
            } else {
                self.source.serve(r).map(|b| b.to_vec())
            }
        } else {
            self.source.elsewhere.get(&req.url).cloned()
        };
        match content {
            Some(c) => data = c,
            None => {
                status = 404;
                data = b"not found".to_vec();
            }
        }
        if status == 200 && self.plan.src.etag && kind != NetSel::Ta {
            let hash = if kind == NetSel::Notif { self.source.etag() } else { hex(&sha256(&data))[..20].to_string() };
            let tag = match self.plan.src.etag_style {
                1 => format!("W/\"{}\"", hash),
                2 => format!("\"{}-{}\"", hash, self.net.reqs.len()),
                3 => format!("\"{}-\u{e9}\"", hash),
                4 => format!("{} {}", &hash[..8], &hash[8..]),
                _ => format!("\"{}\"", hash),
            };
            if req.headers.iter().any(|(k, v)| k == "if-none-match" && *v == tag) {
                status = 304;
                data.clear();
                self.stats.add("net.304", 1);
                if let Some(n) = notif {
                    self.oracle_notif_served(pid, n, false);
                }
            }
            headers.push(("etag".into(), tag));
        }
        let mut b = Body { data: vec![], pos: 0, err: false, stall: false, ms: 0, url: req.url.clone(), notif: None, tampered: false, req: req_i, len: 0 };
        let mut with_len = true;
        match fault {
            None | Some(NetKind::BadCert(_)) | Some(NetKind::RedirectOk) => {
                if let Some(NetKind::RedirectOk) = fault {
                    if req.redirects == 0 {
                        status = 302;
                        data.clear();
                        headers.push(("location".into(), req.url.clone()));
                    } else {
                        self.net_wait(pid, lat);
                    }
                }
            }
            Some(NetKind::Slow(s)) => b.ms = s as u64 * 1000,
            Some(NetKind::StallBody(p)) => {
                let n = data.len() * p as usize / 1000;
                b.len = data.len();
                data.truncate(n);
                b.stall = true;
            }
            Some(NetKind::Status(s)) => {
                status = s;
                notif = None;
                data = b"<html><body>error</body></html>".to_vec();
            }
            Some(NetKind::CutErr(p)) => {
                let n = data.len() * p as usize / 1000;
                b.len = data.len();
                data.truncate(n);
                b.err = true;
            }
            Some(NetKind::CutSilent(p)) => {
                let n = data.len() * p.min(999) as usize / 1000;
                data.truncate(n);
                with_len = false;
                b.tampered = true;
            }
            Some(NetKind::Flip(k)) => {
                if !data.is_empty() {
                    let i = k as usize % data.len();
                    data[i] ^= 1 << ((k >> 16) & 7);
                }
                b.tampered = true;
            }
            Some(NetKind::Empty) => {
                data.clear();
                notif = None;
            }
            Some(NetKind::Html) => {
                data = b"<html><head><title>Login</title></head><body>Welcome</body></html>".to_vec();
                notif = None;
            }
            Some(NetKind::RedirectLoop) => {
                if req.redirects == 0 {
                    status = 302;
                    data.clear();
                    headers.push(("location".into(), req.url.clone()));
                } else {
                    let hops = req.redirects.min(1000) as u64;
                    if let Some(t) = to {
                        if hops * lat > t {
                            self.net_wait(pid, t);
                            return Err(HttpErr::Timeout);
                        }
                    }
                    self.net_wait(pid, hops * lat);
                    return Err(HttpErr::Redirect);
                }
            }
            Some(NetKind::NotModified) => {
                status = 304;
                data.clear();
            }
            Some(_) => {}
        }
        if status != 200 {
            notif = None;
        }
        if req.method == "HEAD" {
            data.clear();
        }
        if b.len == 0 {
            b.len = data.len();
        }
        let len = if with_len { Some(b.len as u64) } else { None };
        if let Some(l) = len {
            headers.push(("content-length".into(), l.to_string()));
        }
        b.notif = notif;
        b.data = data;
        let id = self.net.next;
        self.net.next += 1;
        self.net.bodies.insert(id, b);
        Ok(HttpResp { id, status, headers, url: req.url.clone(), len })
    }

    pub fn net_body_all(&mut self, pid: u32, id: u64, to: Option<u64>) -> Result<Vec<u8>, HttpErr> {
        let (ms, stall, err, url, req) = match self.net.bodies.get(&id) {
            Some(b) => (b.ms, b.stall, b.err, b.url.clone(), b.req),
            None => return Ok(vec![]),
        };
        let start = self.own_time();
        if stall {
            return Err(self.stall(pid, to, &url));
        }
        if ms > 0 {
            match to {
                Some(t) if ms > t => {
                    self.net_wait(pid, t);
                    self.body_time(req, start, &url);
                    return Err(HttpErr::Timeout);
                }
                _ => self.net_wait(pid, ms),
            }
        }
        self.body_time(req, start, &url);
        if err {
            return Err(HttpErr::Body("connection closed before message completed".into()));
        }
        let b = self.net.bodies.remove(&id).unwrap();
        if let Some(n) = b.notif {
            self.oracle_notif_served(pid, n, b.tampered);
        }
        Ok(b.data[b.pos..].to_vec())
    }

    fn body_time(&mut self, _req: usize, start: u64, url: &str) {
        let took = self.own_time().saturating_sub(start);
        if took > (REQ_LIMIT_S + 5) * 1_000_000_000 {
            self.violate(&["C16"], "slow-request", format!("{} kept the run waiting for {} s", url, took / 1_000_000_000));
        }
    }

    pub fn net_body_some(&mut self, pid: u32, id: u64, max: usize, to: Option<u64>) -> Result<Vec<u8>, HttpErr> {
        let (ms, stall, err, url, pos, len, req) = match self.net.bodies.get(&id) {
            Some(b) => (b.ms, b.stall, b.err, b.url.clone(), b.pos, b.data.len(), b.req),
            None => return Ok(vec![]),
        };
        let mut n = max.min(len - pos).min(4096);
        if ms > 0 && pos < len {
            // trickles in pieces that never leave a gap of more than ten seconds
            let pieces = (ms / 10_000).max(1).min(10_000);
            n = n.min((len / pieces as usize).max(1));
            let gap = ms / ((len / n.max(1)).max(1) as u64);
            let gap = gap.min(10_000);
            match to {
                Some(t) if gap > t => {
                    self.net_wait(pid, t);
                    return Err(HttpErr::Timeout);
                }
                _ => self.net_wait(pid, gap),
            }
            let start = self.net.reqs[req].end;
            self.body_time(req, start, &url);
        }
        if n == 0 {
            if stall {
                return Err(self.stall(pid, to, &url));
            }
            if err {
                return Err(HttpErr::Body("connection closed before message completed".into()));
            }
            let b = self.net.bodies.get_mut(&id).unwrap();
            let (n, t) = (b.notif.take(), b.tampered);
            if let Some(n) = n {
                self.oracle_notif_served(pid, n, t);
            }
            return Ok(vec![]);
        }
        let b = self.net.bodies.get_mut(&id).unwrap();
        let out = b.data[pos..pos + n].to_vec();
        b.pos += n;
        Ok(out)
    }
}

//! Writes ../tree.json: small signed RPKI trees, valid ones and ones that are
//! broken in exactly one way each. Run by hand; the result is committed.
use bcder::encode::Values;
use bcder::{Mode, Oid};
use bytes::Bytes;
use chrono::{TimeZone, Utc};
use openssl::hash::MessageDigest;
use openssl::pkey::{PKey, Private};
use openssl::rsa::Rsa;
use rpki::crypto::signer::{KeyError, SigningAlgorithm, SigningError};
use rpki::crypto::{DigestAlgorithm, PublicKey, PublicKeyFormat, Signature, SignatureAlgorithm, Signer};
use rpki::repository::aspa::AspaBuilder;
use rpki::repository::cert::{ExtendedKeyUsage, KeyUsage, Overclaim, TbsCert};
use rpki::repository::crl::{CrlEntry, TbsCertList};
use rpki::repository::manifest::{FileAndHash, ManifestContent};
use rpki::repository::resources::{Asn, Prefix};
use rpki::repository::roa::RoaBuilder;
use rpki::repository::sigobj::SignedObjectBuilder;
use rpki::repository::x509::{Time, Validity};
use rpki::uri;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::str::FromStr;

const EPOCH: i64 = 1_676_303_880;
const FROM: i64 = EPOCH - 6 * 3600;
const FAR: i64 = EPOCH + 30 * 86_400;
const H: i64 = 3600;
const OWN: &str = "https://localhost:3000/rrdp/notification.xml";
const THIRD: &str = "https://third.example.net/rrdp/notification.xml";

// ------------------------------------------------------------------- signer

struct S {
    keys: RefCell<Vec<PKey<Private>>>,
}
fn public(k: &PKey<Private>) -> PublicKey {
    use bcder::decode::IntoSource;
    let der = k.public_key_to_der().unwrap();
    PublicKey::decode(der.as_slice().into_source()).unwrap()
}
fn new_rsa() -> PKey<Private> {
    PKey::from_rsa(Rsa::generate(2048).unwrap()).unwrap()
}
impl S {
    fn sig<Alg: SignatureAlgorithm>(k: &PKey<Private>, alg: Alg, data: &[u8]) -> Signature<Alg> {
        assert!(matches!(alg.signing_algorithm(), SigningAlgorithm::RsaSha256));
        let mut s = openssl::sign::Signer::new(MessageDigest::sha256(), k).unwrap();
        s.update(data).unwrap();
        Signature::new(alg, s.sign_to_vec().unwrap().into())
    }
}
impl Signer for S {
    type KeyId = usize;
    type Error = std::io::Error;
    fn create_key(&self, _: PublicKeyFormat) -> Result<usize, Self::Error> {
        let mut k = self.keys.borrow_mut();
        k.push(new_rsa());
        Ok(k.len() - 1)
    }
    fn get_key_info(&self, key: &usize) -> Result<PublicKey, KeyError<Self::Error>> {
        Ok(public(&self.keys.borrow()[*key]))
    }
    fn destroy_key(&self, _: &usize) -> Result<(), KeyError<Self::Error>> {
        Ok(())
    }
    fn sign<Alg: SignatureAlgorithm, D: AsRef<[u8]> + ?Sized>(&self, key: &usize, alg: Alg, data: &D) -> Result<Signature<Alg>, SigningError<Self::Error>> {
        Ok(S::sig(&self.keys.borrow()[*key], alg, data.as_ref()))
    }
    fn sign_one_off<Alg: SignatureAlgorithm, D: AsRef<[u8]> + ?Sized>(&self, alg: Alg, data: &D) -> Result<(Signature<Alg>, PublicKey), Self::Error> {
        let k = new_rsa();
        Ok((S::sig(&k, alg, data.as_ref()), public(&k)))
    }
    fn rand(&self, target: &mut [u8]) -> Result<(), Self::Error> {
        openssl::rand::rand_bytes(target).unwrap();
        Ok(())
    }
}

fn t(s: i64) -> Time {
    Time::new(Utc.timestamp_opt(s, 0).unwrap())
}
fn rs(s: &str) -> uri::Rsync {
    uri::Rsync::from_str(s).unwrap()
}
fn sha(b: &[u8]) -> Vec<u8> {
    openssl::sha::sha256(b).to_vec()
}

/// Outermost layers of a CMS object in BER with indefinite lengths.
fn ber(der: &[u8]) -> Vec<u8> {
    fn split(d: &[u8]) -> (u8, &[u8], &[u8]) {
        let (n, h) = if d[1] < 0x80 {
            (d[1] as usize, 2)
        } else {
            let k = (d[1] & 0x7f) as usize;
            (d[2..2 + k].iter().fold(0usize, |a, b| a << 8 | *b as usize), 2 + k)
        };
        (d[0], &d[h..h + n], &d[h + n..])
    }
    let (tag, c, _) = split(der);
    assert_eq!(tag, 0x30);
    let (_, _, rest) = split(c);
    let oid = &c[..c.len() - rest.len()];
    let (t0, inner, _) = split(rest);
    assert_eq!(t0, 0xa0);
    let (t1, sd, _) = split(inner);
    assert_eq!(t1, 0x30);
    let mut v = vec![0x30, 0x80];
    v.extend_from_slice(oid);
    v.extend_from_slice(&[0xa0, 0x80, 0x30, 0x80]);
    v.extend_from_slice(sd);
    v.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
    v
}

// ---------------------------------------------------------------------- CAs

#[derive(Clone, Debug)]
struct Res {
    v4: Vec<(u32, u8)>,
    asn: (u32, u32),
}
#[derive(Clone)]
struct Ca {
    name: &'static str,
    key: usize,
    dir: String,
    notify: Option<&'static str>,
    parent: Option<&'static str>,
    res: Res,
}

type Obj = (Vec<u8>, Option<i64>);

#[derive(Clone)]
struct Point {
    ca: Ca,
    entries: Vec<(String, Obj)>,
    /// objects in the directory that are not on the manifest
    unlisted: Vec<(String, Obj)>,
    /// names on the manifest without an object
    ghost: Vec<String>,
    revoked: Vec<u64>,
    crl_until: i64,
    mft_until: i64,
    mft_ee_from: i64,
    mft_ee_until: i64,
    mft_serial: u64,
    crl_key: usize,
    mft_key: usize,
    crl_listed: bool,
    crl_wrong_hash: bool,
    crl_junk: bool,
    no_mft: bool,
    no_crl: bool,
    ber: bool,
    /// listed, but not there
    missing: Vec<String>,
    /// (name, listed, there)
    swapped: Vec<(String, Obj, Obj)>,
    /// has the manifest of another CA
    mft_of: Option<&'static str>,
}

struct G {
    s: S,
    cas: BTreeMap<&'static str, Ca>,
    cache: RefCell<BTreeMap<String, Obj>>,
}

#[derive(Clone, Debug)]
struct O {
    serial: u64,
    from: i64,
    until: i64,
    key: Option<usize>,
    signing: bool,
    ber: bool,
}
fn o(serial: u64) -> O {
    O { serial, from: FROM, until: FAR, key: None, signing: serial % 2 == 0, ber: false }
}

impl G {
    fn cached(&self, k: String, f: impl FnOnce() -> Obj) -> Obj {
        if let Some(v) = self.cache.borrow().get(&k) {
            return v.clone();
        }
        let v = f();
        self.cache.borrow_mut().insert(k, v.clone());
        v
    }
    fn crl_uri(&self, ca: &str) -> uri::Rsync {
        rs(&format!("{}{}.crl", self.cas[ca].dir, ca))
    }
    fn cer_uri(&self, ca: &str) -> uri::Rsync {
        let c = &self.cas[ca];
        match c.parent {
            Some(p) => rs(&format!("{}{}.cer", self.cas[p].dir, ca)),
            None => rs(&format!("rsync://localhost/ta/{}.cer", ca)),
        }
    }
    fn sob(&self, ca: &str, name: &str, o: &O) -> SignedObjectBuilder {
        let mut b = SignedObjectBuilder::new(
            o.serial.into(),
            Validity::new(t(o.from), t(o.until)),
            self.crl_uri(ca),
            self.cer_uri(ca),
            rs(&format!("{}{}", self.cas[ca].dir, name)),
        );
        if o.signing {
            b.set_signing_time(Some(t(o.from + 77)));
        }
        b
    }
    fn mtime(o: &O) -> Option<i64> {
        Some(if o.signing { o.from + 77 } else { o.from })
    }
    fn fin(&self, v: Vec<u8>, o: &O) -> Obj {
        (if o.ber { ber(&v) } else { v }, Self::mtime(o))
    }
    fn roa(&self, ca: &str, name: &str, p: (u32, u8), o: &O) -> Obj {
        self.cached(format!("roa {} {} {:?} {:?}", ca, name, p, o), || {
            let mut b = RoaBuilder::new(Asn::from(64496));
            b.push_v4_addr(std::net::Ipv4Addr::from(p.0), p.1, Some(p.1 + 2));
            let key = o.key.unwrap_or(self.cas[ca].key);
            let r = b.finalize(self.named(ca, name, o), &self.s, &key).unwrap();
            self.fin(r.to_captured().into_bytes().to_vec(), o)
        })
    }
    /// With the CA's own name as the issuer, whatever key signs.
    fn named(&self, ca: &str, name: &str, o: &O) -> SignedObjectBuilder {
        let mut b = self.sob(ca, name, o);
        b.set_issuer(Some(self.s.get_key_info(&self.cas[ca].key).unwrap().to_subject_name()));
        b
    }
    fn aspa(&self, ca: &str, name: &str, asn: u32, o: &O) -> Obj {
        self.cached(format!("aspa {} {} {} {:?}", ca, name, asn, o), || {
            let mut b = AspaBuilder::empty(Asn::from(asn));
            b.add_provider(Asn::from(65001)).unwrap();
            b.add_provider(Asn::from(65003)).unwrap();
            let key = o.key.unwrap_or(self.cas[ca].key);
            let r = b.finalize(self.named(ca, name, o), &self.s, &key).unwrap();
            self.fin(r.to_captured().into_bytes().to_vec(), o)
        })
    }
    fn gbr(&self, ca: &str, name: &str, o: &O) -> Obj {
        self.cached(format!("gbr {} {} {:?}", ca, name, o), || {
            let mut b = self.named(ca, name, o);
            b.set_v4_resources_inherit();
            b.set_v6_resources_inherit();
            b.set_as_resources_inherit();
            let oid: Vec<u8> = vec![42, 134, 72, 134, 247, 13, 1, 9, 16, 1, 35];
            let r = b
                .finalize(Oid(Bytes::from(oid)), Bytes::from_static(b"BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Somebody\r\nORG:Somewhere\r\nEND:VCARD\r\n"), &self.s, &self.cas[ca].key)
                .unwrap();
            let v = r.encode_ref().to_captured(Mode::Der).into_bytes().to_vec();
            self.fin(v, o)
        })
    }
    fn router(&self, ca: &str, asn: u32, o: &O) -> Obj {
        self.cached(format!("router {} {} {:?}", ca, asn, o), || {
            let g = openssl::ec::EcGroup::from_curve_name(openssl::nid::Nid::X9_62_PRIME256V1).unwrap();
            let k = PKey::from_ec_key(openssl::ec::EcKey::generate(&g).unwrap()).unwrap();
            let pk = public(&k);
            let key = o.key.unwrap_or(self.cas[ca].key);
            let ik = self.s.get_key_info(&key).unwrap();
            let name = self.s.get_key_info(&self.cas[ca].key).unwrap().to_subject_name();
            let mut c = TbsCert::new(o.serial.into(), name, Validity::new(t(o.from), t(o.until)), None, pk, KeyUsage::Ee, Overclaim::Refuse);
            c.set_authority_key_identifier(Some(ik.key_identifier()));
            c.set_extended_key_usage(Some(ExtendedKeyUsage::create_router()));
            c.set_crl_uri(Some(self.crl_uri(ca)));
            c.set_ca_issuer(Some(self.cer_uri(ca)));
            c.build_as_resource_blocks(|b| b.push(Asn::from(asn)));
            let c = c.into_cert(&self.s, &key).unwrap();
            (c.to_captured().into_bytes().to_vec(), Some(o.from))
        })
    }
    /// Certificate of CA `ca` signed by `issuer` (None: self-signed)
    fn ca_cert(&self, ca: &str, issuer: Option<&str>, o: &O, res: Option<&Res>) -> Obj {
        self.cached(format!("cert {} {:?} {:?} {:?}", ca, issuer, o, res), || {
            let c = self.cas[ca].clone();
            let pk = self.s.get_key_info(&c.key).unwrap();
            let ikey = o.key.unwrap_or(issuer.map_or(c.key, |i| self.cas[i].key));
            let ipk = self.s.get_key_info(&ikey).unwrap();
            let iname = issuer.map_or(pk.to_subject_name(), |i| self.s.get_key_info(&self.cas[i].key).unwrap().to_subject_name());
            let mut x = TbsCert::new(o.serial.into(), iname, Validity::new(t(o.from), t(o.until)), None, pk, KeyUsage::Ca, Overclaim::Refuse);
            x.set_basic_ca(Some(true));
            if let Some(i) = issuer {
                x.set_authority_key_identifier(Some(ipk.key_identifier()));
                x.set_crl_uri(Some(self.crl_uri(i)));
                x.set_ca_issuer(Some(self.cer_uri(i)));
            }
            x.set_ca_repository(Some(rs(&c.dir)));
            x.set_rpki_manifest(Some(rs(&format!("{}{}.mft", c.dir, c.name))));
            x.set_rpki_notify(c.notify.map(|n| uri::Https::from_str(n).unwrap()));
            let r = res.unwrap_or(&c.res);
            x.build_v4_resource_blocks(|b| {
                for (a, l) in &r.v4 {
                    b.push(Prefix::new(std::net::Ipv4Addr::from(*a), *l));
                }
            });
            x.build_as_resource_blocks(|b| b.push((Asn::from(r.asn.0), Asn::from(r.asn.1))));
            let x = x.into_cert(&self.s, &ikey).unwrap();
            (x.to_captured().into_bytes().to_vec(), Some(o.from))
        })
    }
    fn point(&self, ca: &'static str) -> Point {
        let c = self.cas[ca].clone();
        Point {
            entries: vec![],
            unlisted: vec![],
            ghost: vec![],
            revoked: vec![9001],
            crl_until: FAR,
            mft_until: FAR,
            mft_ee_from: FROM,
            mft_ee_until: FAR,
            mft_serial: 5000,
            crl_key: c.key,
            mft_key: c.key,
            crl_listed: true,
            crl_wrong_hash: false,
            crl_junk: false,
            no_mft: false,
            no_crl: false,
            ber: false,
            missing: vec![],
            swapped: vec![],
            mft_of: None,
            ca: c,
        }
    }
    fn emit(&self, p: &Point, out: &mut BTreeMap<String, Obj>) {
        let n = p.ca.name;
        let dir = &p.ca.dir;
        let crl = if p.crl_junk {
            (b"this is no CRL".to_vec(), None)
        } else {
            self.cached(format!("crl {} {:?} {} {}", n, p.revoked, p.crl_until, p.crl_key), || {
                let pk = self.s.get_key_info(&p.ca.key).unwrap();
                let c = TbsCertList::new(
                    Default::default(),
                    pk.to_subject_name(),
                    t(FROM + 5),
                    t(p.crl_until),
                    p.revoked.iter().map(|s| CrlEntry::new((*s).into(), t(FROM))).collect::<Vec<_>>(),
                    pk.key_identifier(),
                    7u64.into(),
                );
                let c = c.into_crl(&self.s, &p.crl_key).unwrap();
                (c.to_captured().into_bytes().to_vec(), Some(FROM + 5))
            })
        };
        let mut list: Vec<(String, Vec<u8>)> = p.entries.iter().map(|(n, o)| (n.clone(), sha(&o.0))).collect();
        if p.crl_listed {
            let h = if p.crl_wrong_hash { sha(b"something else") } else { sha(&crl.0) };
            list.push((format!("{}.crl", n), h));
        }
        for g in &p.ghost {
            list.push((g.clone(), sha(g.as_bytes())));
        }
        list.sort();
        let so = O { serial: p.mft_serial, from: p.mft_ee_from, until: p.mft_ee_until, key: Some(p.mft_key), signing: true, ber: p.ber };
        let mname = format!("{}.mft", n);
        let mft = self.cached(format!("mft {} {:?} {} {:?} {:?}", n, list, p.mft_until, so, p.mft_of), || {
            let c = ManifestContent::new(
                5u64.into(),
                t(FROM),
                t(p.mft_until),
                DigestAlgorithm::default(),
                list.iter().map(|(n, h)| FileAndHash::new(n.as_bytes().to_vec(), h.clone())).collect::<Vec<_>>().iter(),
            );
            let m = c.into_manifest(self.named(p.mft_of.unwrap_or(n), &mname, &so), &self.s, &p.mft_of.map_or(p.mft_key, |x| self.cas[x].key)).unwrap();
            self.fin(m.to_captured().into_bytes().to_vec(), &so)
        });
        for (n, o) in p.entries.iter().chain(p.unlisted.iter()) {
            if !p.missing.contains(n) {
                out.insert(format!("{}{}", dir, n), o.clone());
            }
        }
        for (n, _, o) in &p.swapped {
            out.insert(format!("{}{}", dir, n), o.clone());
        }
        if !p.no_crl {
            out.insert(format!("{}{}.crl", dir, n), crl);
        }
        if !p.no_mft {
            out.insert(format!("{}{}", dir, mname), mft);
        }
    }
}


// -------------------------------------------------------------------- trees

type W = BTreeMap<&'static str, Point>;

#[derive(Clone, Copy)]
struct V {
    ok: bool,
    from: i64,
    until: i64,
}
const GOOD: V = V { ok: true, from: FROM, until: FAR };
const BAD: V = V { ok: false, from: 0, until: 0 };
fn until(t: i64) -> V {
    V { ok: true, from: FROM, until: t }
}
fn from(t: i64) -> V {
    V { ok: true, from: t, until: FAR }
}

fn ip(a: u8, b: u8, c: u8) -> u32 {
    (a as u32) << 24 | (b as u32) << 16 | (c as u32) << 8
}

impl Point {
    fn put(&mut self, n: &str, o: Obj) -> &mut Self {
        self.entries.retain(|e| e.0 != n);
        self.entries.push((n.into(), o));
        self
    }
    fn del(&mut self, n: &str) -> Obj {
        let i = self.entries.iter().position(|e| e.0 == n).expect(n);
        self.entries.remove(i).1
    }
    fn get(&self, n: &str) -> Obj {
        self.entries.iter().find(|e| e.0 == n).expect(n).1.clone()
    }
    /// Listed under the hash of its old content
    fn swap(&mut self, n: &str, o: Obj) {
        let old = self.get(n);
        self.swapped.push((n.into(), old, o));
    }
}

impl G {
    fn ca(&mut self, name: &'static str, parent: Option<&'static str>, host: &str, notify: Option<&'static str>, v4: &[(u32, u8)], asn: (u32, u32)) {
        let key = self.s.create_key(PublicKeyFormat::Rsa).unwrap();
        self.cas.insert(
            name,
            Ca { name, key, dir: format!("rsync://{}/repo/{}/", host, name), notify, parent, res: Res { v4: v4.to_vec(), asn } },
        );
    }
    fn base(&self) -> W {
        let mut w = W::new();
        for n in ["A", "C1", "C2", "C3", "G1", "B", "D1"] {
            w.insert(n, self.point(n));
        }
        let c = |n: &'static str, i: &'static str, s: u64| self.ca_cert(n, Some(i), &o(s), None);
        let a = w.get_mut("A").unwrap();
        a.put("C1.cer", c("C1", "A", 10)).put("C2.cer", c("C2", "A", 11)).put("C3.cer", c("C3", "A", 12));
        a.put("a.roa", self.roa("A", "a.roa", (ip(10, 200, 0), 24), &o(13)));
        let x = w.get_mut("C1").unwrap();
        x.put("one.roa", self.roa("C1", "one.roa", (ip(10, 1, 0), 24), &o(20)));
        x.put("two.roa", self.roa("C1", "two.roa", (ip(10, 1, 4), 22), &o(21)));
        x.put("AS64500.asa", self.aspa("C1", "AS64500.asa", 64500, &o(22)));
        x.put("ROUTER-0000FBF4.cer", self.router("C1", 64500, &o(23)));
        x.put("who.gbr", self.gbr("C1", "who.gbr", &o(24)));
        x.put("G1.cer", c("G1", "C1", 26));
        let x = w.get_mut("G1").unwrap();
        x.put("g.roa", self.roa("G1", "g.roa", (ip(10, 1, 128), 24), &o(30)));
        let x = w.get_mut("C2").unwrap();
        x.put("p.roa", self.roa("C2", "p.roa", (ip(10, 2, 0), 24), &o(40)));
        x.put("q.roa", self.roa("C2", "q.roa", (ip(10, 2, 1), 24), &o(41)));
        let x = w.get_mut("B").unwrap();
        x.put("D1.cer", c("D1", "B", 10)).put("b.roa", self.roa("B", "b.roa", (ip(172, 16, 0), 24), &o(11)));
        let x = w.get_mut("D1").unwrap();
        x.put("d.roa", self.roa("D1", "d.roa", (ip(172, 17, 0), 24), &o(12)));
        w
    }
}

fn main() {
    let mut g = G { s: S { keys: RefCell::new(vec![]) }, cas: BTreeMap::new(), cache: RefCell::new(BTreeMap::new()) };
    let own = "localhost";
    let third = "third.example.net";
    g.ca("A", None, own, Some(OWN), &[(ip(10, 0, 0), 8)], (64496, 64600));
    g.ca("C1", Some("A"), own, Some(OWN), &[(ip(10, 1, 0), 16)], (64500, 64510));
    g.ca("C1n", Some("A"), own, Some(OWN), &[(ip(10, 1, 0), 16)], (64500, 64510));
    g.ca("C2", Some("A"), own, Some(OWN), &[(ip(10, 2, 0), 16)], (64511, 64520));
    g.ca("C3", Some("A"), own, Some(OWN), &[(ip(10, 3, 0), 16)], (64521, 64530));
    g.ca("G1", Some("C1"), own, Some(OWN), &[(ip(10, 1, 128), 17)], (64505, 64506));
    g.ca("C4", Some("A"), third, Some(THIRD), &[(ip(10, 4, 0), 16)], (64531, 64540));
    g.ca("G4", Some("C4"), own, Some(OWN), &[(ip(10, 4, 128), 17)], (64535, 64536));
    g.ca("C5", Some("A"), own, None, &[(ip(10, 5, 0), 16)], (64541, 64550));
    g.ca("B", None, own, Some(OWN), &[(ip(172, 16, 0), 12)], (64700, 64800));
    g.ca("D1", Some("B"), own, Some(OWN), &[(ip(172, 17, 0), 16)], (64710, 64720));
    g.ca("X", None, third, Some(THIRD), &[(ip(192, 168, 0), 16)], (64900, 64910));
    g.ca("L", Some("C1"), own, Some(OWN), &[(ip(10, 1, 0), 16)], (64500, 64510));
    // the loop: "L" is C1 itself once more
    let l = Ca { parent: Some("C1"), ..g.cas["C1"].clone() };
    g.cas.insert("L", l);
    let g = g;

    // name, validity under A, under B, what it says about G4, tree
    let mut trees: Vec<(String, V, V, u8, BTreeMap<String, Obj>)> = vec![];
    let add = |trees: &mut Vec<_>, n: &str, a: V, b: V, g4: u8, f: &mut dyn FnMut(&mut W)| {
        let mut w = g.base();
        f(&mut w);
        let mut out = BTreeMap::new();
        for p in w.values() {
            g.emit(p, &mut out);
        }
        eprintln!("{:30} {} objects", n, out.len());
        trees.push((n.to_string(), a, b, g4, out));
    };
    macro_rules! t {
        ($n:expr, $a:expr, $b:expr, $g4:expr, |$w:ident| $body:expr) => {
            add(&mut trees, $n, $a, $b, $g4, &mut |$w: &mut W| {
                $body;
            })
        };
        ($n:expr, bad, |$w:ident| $body:expr) => {
            t!($n, BAD, GOOD, 0, |$w| $body)
        };
        ($n:expr, good, |$w:ident| $body:expr) => {
            t!($n, GOOD, GOOD, 0, |$w| $body)
        };
    }
    macro_rules! p {
        ($w:ident, $n:expr) => {
            $w.get_mut($n).unwrap()
        };
    }
    let ex = |s: u64, f: i64, u: i64| O { from: f, until: u, ..o(s) };

    // ---- valid ones
    t!("base", good, |w| w.len());
    t!("fewer", good, |w| {
        p!(w, "C1").del("two.roa");
        p!(w, "C1").del("who.gbr");
        p!(w, "C1").revoked.push(21);
        p!(w, "C1").mft_serial = 5001;
    });
    t!("no-child", good, |w| {
        p!(w, "A").del("C2.cer");
        p!(w, "A").revoked.push(11);
        w.remove("C2");
    });
    t!("left-over-child", good, |w| {
        // revoked, unlisted, and its objects still there
        let c = p!(w, "A").del("C2.cer");
        p!(w, "A").unlisted.push(("C2.cer".into(), c));
        p!(w, "A").revoked.push(11);
        p!(w, "C2").no_crl = true;
    });
    t!("empty", good, |w| {
        for n in ["C1.cer", "C2.cer", "C3.cer", "a.roa"] {
            p!(w, "A").del(n);
        }
        for n in ["C1", "C2", "C3", "G1"] {
            w.remove(n);
        }
    });
    t!("rekeyed", good, |w| {
        p!(w, "A").del("C1.cer");
        p!(w, "A").put("C1n.cer", g.ca_cert("C1n", Some("A"), &o(60), None));
        p!(w, "A").revoked.push(10);
        w.remove("C1");
        w.remove("G1");
        let mut n = g.point("C1n");
        n.put("one.roa", g.roa("C1n", "one.roa", (ip(10, 1, 0), 24), &o(61)));
        w.insert("C1n", n);
    });
    t!("both-keys", good, |w| {
        p!(w, "A").put("C1n.cer", g.ca_cert("C1n", Some("A"), &o(60), None));
        w.insert("C1n", g.point("C1n"));
    });
    t!("ber", good, |w| {
        let b = |s: u64| O { ber: true, ..o(s) };
        p!(w, "C1").put("one.roa", g.roa("C1", "one.roa", (ip(10, 1, 0), 24), &b(20)));
        p!(w, "C1").put("AS64500.asa", g.aspa("C1", "AS64500.asa", 64500, &b(22)));
        p!(w, "C1").put("who.gbr", g.gbr("C1", "who.gbr", &b(24)));
        p!(w, "C2").ber = true;
    });
    t!("more", good, |w| {
        for i in 0..6u8 {
            let n = format!("m{}.roa", i);
            let r = g.roa("C2", &n, (ip(10, 2, 16 + i), 24), &o(70 + i as u64));
            p!(w, "C2").put(&n, r);
        }
        p!(w, "C1").put("AS64501.asa", g.aspa("C1", "AS64501.asa", 64501, &o(80)));
        p!(w, "G1").put("ROUTER-2.cer", g.router("G1", 64505, &o(81)));
    });
    t!("unlisted-revoked", good, |w| {
        let r = p!(w, "C1").del("one.roa");
        p!(w, "C1").unlisted.push(("one.roa".into(), r));
        p!(w, "C1").unlisted.push(("junk.roa".into(), (b"junk".to_vec(), None)));
        p!(w, "C1").revoked.push(20);
    });
    t!("rsync-only-child", good, |w| {
        p!(w, "A").put("C5.cer", g.ca_cert("C5", Some("A"), &o(90), None));
        w.insert("C5", g.point("C5"));
    });
    t!("third-good", GOOD, GOOD, 1, |w| {
        p!(w, "A").put("C4.cer", g.ca_cert("C4", Some("A"), &o(91), None));
        let mut x = g.point("G4");
        x.put("z.roa", g.roa("G4", "z.roa", (ip(10, 4, 128), 24), &o(92)));
        w.insert("G4", x);
    });
    t!("third-missing", GOOD, GOOD, 2, |w| {
        p!(w, "A").put("C4.cer", g.ca_cert("C4", Some("A"), &o(91), None));
    });
    t!("third-bad", GOOD, GOOD, 2, |w| {
        p!(w, "A").put("C4.cer", g.ca_cert("C4", Some("A"), &o(91), None));
        let mut x = g.point("G4");
        x.crl_until = EPOCH - 3 * H;
        w.insert("G4", x);
    });
    t!("third-and-broken", BAD, GOOD, 1, |w| {
        p!(w, "A").put("C4.cer", g.ca_cert("C4", Some("A"), &o(91), None));
        w.insert("G4", g.point("G4"));
        p!(w, "C2").no_mft = true;
    });
    // ---- valid for a while
    t!("roa-short", until(EPOCH + 3 * H), GOOD, 0, |w| {
        let r = g.roa("C1", "one.roa", (ip(10, 1, 0), 24), &ex(20, FROM, EPOCH + 3 * H));
        p!(w, "C1").put("one.roa", r)
    });
    t!("asa-short", until(EPOCH + 5 * H), GOOD, 0, |w| {
        let r = g.aspa("C1", "AS64500.asa", 64500, &ex(22, FROM, EPOCH + 5 * H));
        p!(w, "C1").put("AS64500.asa", r)
    });
    t!("crl-short", until(EPOCH + 2 * H), GOOD, 0, |w| p!(w, "C2").crl_until = EPOCH + 2 * H);
    t!("mft-short", until(EPOCH + 4 * H), GOOD, 0, |w| p!(w, "C1").mft_until = EPOCH + 4 * H);
    t!("mft-ee-short", until(EPOCH + 2 * H), GOOD, 0, |w| p!(w, "G1").mft_ee_until = EPOCH + 2 * H);
    t!("cert-short", until(EPOCH + 3 * H), GOOD, 0, |w| p!(w, "A").put("C2.cer", g.ca_cert("C2", Some("A"), &ex(11, FROM, EPOCH + 3 * H), None)));
    t!("router-short", until(EPOCH + 6 * H), GOOD, 0, |w| p!(w, "C1").put("ROUTER-0000FBF4.cer", g.router("C1", 64500, &ex(23, FROM, EPOCH + 6 * H))));
    t!("ta-crl-short", until(EPOCH + H), GOOD, 0, |w| p!(w, "A").crl_until = EPOCH + H);
    t!("cert-later", from(EPOCH + 3 * H), GOOD, 0, |w| p!(w, "A").put("C3.cer", g.ca_cert("C3", Some("A"), &ex(12, EPOCH + 3 * H, FAR), None)));
    t!("roa-later", from(EPOCH + 2 * H), GOOD, 0, |w| {
        let r = g.roa("G1", "g.roa", (ip(10, 1, 128), 24), &ex(30, EPOCH + 2 * H, FAR));
        p!(w, "G1").put("g.roa", r)
    });
    t!("b-crl-short", GOOD, until(EPOCH + 2 * H), 0, |w| p!(w, "B").crl_until = EPOCH + 2 * H);
    // ---- broken under B only
    t!("b-missing", GOOD, BAD, 0, |w| p!(w, "D1").ghost.push("gone.roa".into()));
    t!("b-no-mft", GOOD, BAD, 0, |w| p!(w, "B").no_mft = true);
    t!("b-revoked", GOOD, BAD, 0, |w| p!(w, "B").revoked.push(10));
    // ---- broken
    for (ca, n) in [("C1", "one.roa"), ("C1", "AS64500.asa"), ("C1", "ROUTER-0000FBF4.cer"), ("C1", "G1.cer"), ("C1", "who.gbr"), ("A", "C2.cer"), ("G1", "g.roa"), ("A", "a.roa")] {
        t!(&format!("missing {} {}", ca, n), bad, |w| p!(w, ca).missing.push(n.into()));
    }
    for ca in ["A", "C1", "C2", "C3", "G1"] {
        t!(&format!("no mft {}", ca), bad, |w| p!(w, ca).no_mft = true);
        t!(&format!("no crl {}", ca), bad, |w| p!(w, ca).no_crl = true);
    }
    t!("swapped roa", bad, |w| {
        let x = p!(w, "C1").get("two.roa");
        p!(w, "C1").swap("one.roa", x)
    });
    t!("swapped asa", bad, |w| {
        let x = g.aspa("C1", "AS64501.asa", 64501, &o(80));
        p!(w, "C1").swap("AS64500.asa", x)
    });
    t!("swapped router", bad, |w| {
        let x = g.router("C1", 64501, &o(82));
        p!(w, "C1").swap("ROUTER-0000FBF4.cer", x)
    });
    t!("swapped child", bad, |w| {
        let x = g.ca_cert("C2", Some("A"), &o(83), None);
        p!(w, "A").swap("C2.cer", x)
    });
    t!("swapped gbr", bad, |w| {
        let x = g.gbr("C1", "who.gbr", &o(84));
        p!(w, "C1").swap("who.gbr", x)
    });
    for (ca, n, s) in [("C1", "roa", 20u64), ("C1", "asa", 22), ("C1", "router", 23), ("C1", "child", 26), ("A", "child", 12), ("A", "roa", 13), ("C1", "mft", 5000), ("A", "mft", 5000), ("G1", "roa", 30)] {
        t!(&format!("revoked {} {}", n, ca), bad, |w| p!(w, ca).revoked.push(s));
    }
    t!("expired roa", bad, |w| {
        let r = g.roa("C1", "one.roa", (ip(10, 1, 0), 24), &ex(20, FROM - 48 * H, EPOCH - 3 * H));
        p!(w, "C1").put("one.roa", r)
    });
    t!("expired asa", bad, |w| {
        let r = g.aspa("C1", "AS64500.asa", 64500, &ex(22, FROM - 48 * H, EPOCH - 3 * H));
        p!(w, "C1").put("AS64500.asa", r)
    });
    t!("expired child", bad, |w| p!(w, "A").put("C3.cer", g.ca_cert("C3", Some("A"), &ex(12, FROM - 48 * H, EPOCH - 3 * H), None)));
    t!("expired router", bad, |w| p!(w, "C1").put("ROUTER-0000FBF4.cer", g.router("C1", 64500, &ex(23, FROM - 48 * H, EPOCH - 3 * H))));
    t!("future roa", bad, |w| {
        let r = g.roa("C2", "p.roa", (ip(10, 2, 0), 24), &ex(40, FAR, FAR + 48 * H));
        p!(w, "C2").put("p.roa", r)
    });
    t!("stale crl", bad, |w| p!(w, "C1").crl_until = EPOCH - 3 * H);
    t!("stale crl A", bad, |w| p!(w, "A").crl_until = EPOCH - 3 * H);
    t!("stale mft", bad, |w| p!(w, "C1").mft_until = EPOCH - 3 * H);
    t!("stale mft A", bad, |w| p!(w, "A").mft_until = EPOCH - 3 * H);
    t!("expired mft ee", bad, |w| {
        p!(w, "C2").mft_ee_from = FROM - 48 * H;
        p!(w, "C2").mft_ee_until = EPOCH - 3 * H;
    });
    t!("overclaiming roa", bad, |w| {
        let r = g.roa("C1", "one.roa", (ip(10, 7, 0), 24), &o(20));
        p!(w, "C1").put("one.roa", r)
    });
    t!("overclaiming child", bad, |w| {
        let r = Res { v4: vec![(ip(10, 1, 128), 17), (ip(11, 0, 0), 8)], asn: (64505, 64506) };
        p!(w, "C1").put("G1.cer", g.ca_cert("G1", Some("C1"), &o(26), Some(&r)))
    });
    t!("overclaiming asn", bad, |w| {
        let r = Res { v4: vec![(ip(10, 2, 0), 16)], asn: (64511, 65520) };
        p!(w, "A").put("C2.cer", g.ca_cert("C2", Some("A"), &o(11), Some(&r)))
    });
    t!("overclaiming asa", bad, |w| {
        let r = g.aspa("C1", "AS64500.asa", 65500, &o(22));
        p!(w, "C1").put("AS64500.asa", r)
    });
    t!("overclaiming router", bad, |w| p!(w, "C1").put("ROUTER-0000FBF4.cer", g.router("C1", 65500, &o(23))));
    let wrong = g.cas["C3"].key;
    t!("foreign key roa", bad, |w| {
        let r = g.roa("C1", "one.roa", (ip(10, 1, 0), 24), &O { key: Some(wrong), ..o(20) });
        p!(w, "C1").put("one.roa", r)
    });
    t!("foreign key asa", bad, |w| {
        let r = g.aspa("C1", "AS64500.asa", 64500, &O { key: Some(wrong), ..o(22) });
        p!(w, "C1").put("AS64500.asa", r)
    });
    t!("foreign key router", bad, |w| p!(w, "C1").put("ROUTER-0000FBF4.cer", g.router("C1", 64500, &O { key: Some(wrong), ..o(23) })));
    t!("foreign key child", bad, |w| p!(w, "C1").put("G1.cer", g.ca_cert("G1", Some("C1"), &O { key: Some(wrong), ..o(26) }, None)));
    t!("foreign key crl", bad, |w| p!(w, "C1").crl_key = wrong);
    t!("foreign key mft", bad, |w| p!(w, "C1").mft_key = wrong);
    t!("crl unlisted", bad, |w| p!(w, "C2").crl_listed = false);
    t!("crl hash", bad, |w| p!(w, "C2").crl_wrong_hash = true);
    t!("crl junk", bad, |w| p!(w, "G1").crl_junk = true);
    for (ca, n) in [("C1", "one.roa"), ("C1", "AS64500.asa"), ("A", "C3.cer")] {
        t!(&format!("junk {} {}", ca, n), bad, |w| p!(w, ca).put(n, (format!("junk as {}", n).into_bytes(), None)));
    }
    t!("other ca's mft", bad, |w| p!(w, "C1").mft_of = Some("C2"));
    t!("odd name", bad, |w| p!(w, "C1").ghost.push("with space.roa".into()));
    t!("loop", bad, |w| {
        let c = g.ca_cert("L", Some("C1"), &o(95), None);
        p!(w, "C1").put("L.cer", c)
    });

    // ---- the other repository
    let mut thirds: Vec<(String, bool, BTreeMap<String, Obj>)> = vec![];
    for (n, lists, broken, more) in [("plain", false, false, false), ("delegates", true, false, false), ("broken", true, true, false), ("plain-more", false, false, true), ("delegates-more", true, false, true)] {
        let mut out = BTreeMap::new();
        let mut c4 = g.point("C4");
        c4.put("y.roa", g.roa("C4", "y.roa", (ip(10, 4, 0), 24), &o(96)));
        if more {
            c4.put("y2.roa", g.roa("C4", "y2.roa", (ip(10, 4, 1), 24), &o(98)));
        }
        if lists {
            c4.put("G4.cer", g.ca_cert("G4", Some("C4"), &o(97), None));
        }
        c4.no_crl = broken;
        g.emit(&c4, &mut out);
        let mut x = g.point("X");
        x.put("x.roa", g.roa("X", "x.roa", (ip(192, 168, 0), 24), &o(99)));
        g.emit(&x, &mut out);
        thirds.push((n.into(), lists && !broken, out));
    }

    // ---- trust anchors
    let mut tas = vec![];
    for n in ["A", "B", "X"] {
        let url = format!("https://localhost:3000/ta/{}.cer", n);
        let spki = public(&g.s.keys.borrow()[g.cas[n].key]);
        let info = base64::encode(spki.to_info_bytes());
        let mut tal = format!("{}\n\n", url);
        for c in info.as_bytes().chunks(64) {
            tal.push_str(std::str::from_utf8(c).unwrap());
            tal.push('\n');
        }
        let good = g.ca_cert(n, None, &o(1), None);
        let again = g.ca_cert(n, None, &O { from: EPOCH - 3 * H, ..o(3) }, None);
        let expired = g.ca_cert(n, None, &ex(5, FROM - 48 * H, EPOCH - 3 * H), None);
        let short = g.ca_cert(n, None, &ex(7, FROM, EPOCH + 3 * H), None);
        tas.push((n, url, tal, good, again, expired, short));
    }

    // ---- write
    let mut blobs: Vec<Obj> = vec![];
    let mut index: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut id = |ob: &Obj| -> usize {
        *index.entry(ob.0.clone()).or_insert_with(|| {
            blobs.push(ob.clone());
            blobs.len() - 1
        })
    };
    let mut uris: Vec<String> = vec![];
    let mut uid = |u: &String| -> usize {
        uris.iter().position(|x| x == u).unwrap_or_else(|| {
            uris.push(u.clone());
            uris.len() - 1
        })
    };
    let mut objs = |m: &BTreeMap<String, Obj>| -> Vec<(usize, usize)> { m.iter().map(|(u, o)| (uid(u), id(o))).collect() };
    let v = |v: &V| serde_json::json!([v.ok, v.from, v.until]);
    let trees: Vec<_> = trees.iter().map(|t| serde_json::json!({"name": t.0, "a": v(&t.1), "b": v(&t.2), "g4": t.3, "objs": objs(&t.4)})).collect();
    let thirds: Vec<_> = thirds.iter().map(|t| serde_json::json!({"name": t.0, "g4": t.1, "objs": objs(&t.2)})).collect();
    let e = |o: &Obj| base64::encode(&o.0);
    let tas: Vec<_> = tas
        .iter()
        .map(|t| serde_json::json!({"name": t.0, "url": t.1, "tal": t.2, "certs": [e(&t.3), e(&t.4), e(&t.5), e(&t.6)], "short": EPOCH + 3 * H}))
        .collect();
    let blobs: Vec<_> = blobs.iter().map(|b| serde_json::json!({"b64": e(b), "mtime": b.1})).collect();
    eprintln!("{} trees, {} blobs, {} uris", trees.len(), blobs.len(), uris.len());
    let all = serde_json::json!({"uris": uris, "blobs": blobs, "trees": trees, "thirds": thirds, "tas": tas});
    std::fs::write(concat!(env!("CARGO_MANIFEST_DIR"), "/../tree.json"), serde_json::to_string(&all).unwrap() + "\n").unwrap();
}

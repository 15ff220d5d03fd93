//! In-memory POSIX-like file system: inodes, directories, symlinks, hard links,
//! several devices (mount points), space accounting.
use std::collections::BTreeMap;

pub type Ino = u64;
pub type KR<T> = Result<T, i32>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    File,
    Dir,
    Symlink,
    Null,
    Random,
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub data: Vec<u8>,
    pub entries: BTreeMap<Vec<u8>, Ino>,
    /// (parent directory, name) pairs under which this inode is linked.
    pub links: Vec<(Ino, Vec<u8>)>,
    pub mode: u32,
    pub mtime: (i64, u32),
    pub atime: (i64, u32),
    pub ctime: (i64, u32),
    pub dev: u32,
    pub opens: u32,
    pub version: u64,
    pub sha: Option<[u8; 32]>,
    /// Content and data placed by the environment, not by the program.
    pub foreign: bool,
}

pub struct Vfs {
    pub inodes: BTreeMap<Ino, Inode>,
    pub next: Ino,
    pub root: Ino,
    /// Remaining-space limit per device (bytes in use may not exceed it).
    pub quota: BTreeMap<u32, u64>,
    pub used: BTreeMap<u32, u64>,
    pub ver: u64,
    pub order_seed: u64,
}

#[derive(Clone, Debug)]
pub struct Res {
    /// Parent directory of the final component (root for "/").
    pub parent: Ino,
    /// Final name; empty when the path denotes `parent` itself (".", "..", "/").
    pub name: Vec<u8>,
    pub ino: Option<Ino>,
    pub trailing: bool,
}

const PER_ENTRY: u64 = 64;

impl Vfs {
    pub fn new() -> Vfs {
        let mut v = Vfs {
            inodes: BTreeMap::new(),
            next: 2,
            root: 2,
            quota: BTreeMap::new(),
            used: BTreeMap::new(),
            ver: 0,
            order_seed: 0,
        };
        let root = v.new_inode(Kind::Dir, 0o755, 1, (0, 0));
        v.root = root;
        v.inodes.get_mut(&root).unwrap().links.push((root, Vec::new()));
        v
    }

    pub fn new_inode(&mut self, kind: Kind, mode: u32, dev: u32, now: (i64, u32)) -> Ino {
        let i = self.next;
        self.next += 1;
        self.ver += 1;
        self.inodes.insert(
            i,
            Inode {
                kind,
                data: Vec::new(),
                entries: BTreeMap::new(),
                links: Vec::new(),
                mode,
                mtime: now,
                atime: now,
                ctime: now,
                dev,
                opens: 0,
                version: self.ver,
                sha: None,
                foreign: false,
            },
        );
        i
    }

    pub fn get(&self, i: Ino) -> &Inode {
        &self.inodes[&i]
    }
    pub fn get_mut(&mut self, i: Ino) -> &mut Inode {
        self.inodes.get_mut(&i).unwrap()
    }

    pub fn touch(&mut self, i: Ino) {
        self.ver += 1;
        let v = self.ver;
        let n = self.get_mut(i);
        n.version = v;
        n.sha = None;
    }

    /// Canonical absolute path of a linked inode.
    pub fn canon(&self, mut i: Ino) -> String {
        let mut parts: Vec<&[u8]> = vec![];
        let mut guard = 0;
        while i != self.root {
            let n = match self.inodes.get(&i) {
                Some(n) => n,
                None => return "<gone>".into(),
            };
            match n.links.first() {
                Some((p, name)) => {
                    parts.push(name);
                    i = *p;
                }
                None => {
                    parts.push(b"<unlinked>");
                    break;
                }
            }
            guard += 1;
            if guard > 200 {
                break;
            }
        }
        let mut s = String::new();
        for p in parts.iter().rev() {
            s.push('/');
            s.push_str(&String::from_utf8_lossy(p));
        }
        if s.is_empty() {
            s.push('/');
        }
        s
    }

    pub fn canon_res(&self, r: &Res) -> String {
        let mut s = self.canon(r.parent);
        if !r.name.is_empty() {
            if s != "/" {
                s.push('/');
            }
            s.push_str(&String::from_utf8_lossy(&r.name));
        }
        s
    }

    pub fn resolve(&self, cwd: Ino, path: &[u8], follow: bool) -> KR<Res> {
        let mut links = 0;
        self.resolve_in(cwd, path, follow, &mut links)
    }

    fn resolve_in(&self, cwd: Ino, path: &[u8], follow: bool, links: &mut u32) -> KR<Res> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut cur = if path[0] == b'/' { self.root } else { cwd };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        let trailing = path.last() == Some(&b'/');
        if comps.is_empty() {
            return Ok(Res { parent: self.root, name: vec![], ino: Some(self.root), trailing });
        }
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == comps.len();
            let n = self.inodes.get(&cur).ok_or(libc::ENOENT)?;
            if n.kind != Kind::Dir {
                return Err(libc::ENOTDIR);
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if *c == b"." {
                if last {
                    return Ok(Res { parent: cur, name: vec![], ino: Some(cur), trailing });
                }
                continue;
            }
            if *c == b".." {
                let p = n.links.first().map(|l| l.0).unwrap_or(self.root);
                if last {
                    return Ok(Res { parent: p, name: vec![], ino: Some(p), trailing });
                }
                cur = p;
                continue;
            }
            match n.entries.get(*c) {
                None => {
                    if last {
                        return Ok(Res { parent: cur, name: c.to_vec(), ino: None, trailing });
                    }
                    return Err(libc::ENOENT);
                }
                Some(&e) => {
                    let en = self.get(e);
                    if en.kind == Kind::Symlink && (!last || follow || trailing) {
                        *links += 1;
                        if *links > 40 {
                            return Err(libc::ELOOP);
                        }
                        let target = en.data.clone();
                        let r = self.resolve_in(cur, &target, true, links)?;
                        if last {
                            return Ok(Res { trailing, ..r });
                        }
                        cur = r.ino.ok_or(libc::ENOENT)?;
                    } else {
                        if last {
                            if trailing && en.kind != Kind::Dir {
                                return Err(libc::ENOTDIR);
                            }
                            return Ok(Res { parent: cur, name: c.to_vec(), ino: Some(e), trailing });
                        }
                        cur = e;
                    }
                }
            }
        }
        unreachable!()
    }

    pub fn lookup(&self, path: &str) -> Option<Ino> {
        self.resolve(self.root, path.as_bytes(), true).ok().and_then(|r| r.ino)
    }
    pub fn lookup_nofollow(&self, path: &str) -> Option<Ino> {
        self.resolve(self.root, path.as_bytes(), false).ok().and_then(|r| r.ino)
    }

    fn charge(&mut self, dev: u32, add: u64) -> KR<()> {
        let u = *self.used.get(&dev).unwrap_or(&0);
        if let Some(q) = self.quota.get(&dev) {
            if u + add > *q {
                return Err(libc::ENOSPC);
            }
        }
        self.used.insert(dev, u + add);
        Ok(())
    }
    fn refund(&mut self, dev: u32, sub: u64) {
        let u = self.used.get(&dev).copied().unwrap_or(0);
        self.used.insert(dev, u.saturating_sub(sub));
    }
    /// Bytes that can still be written on `dev`.
    pub fn room(&self, dev: u32) -> u64 {
        match self.quota.get(&dev) {
            None => u64::MAX,
            Some(q) => q.saturating_sub(*self.used.get(&dev).unwrap_or(&0)),
        }
    }

    pub fn link_in(&mut self, parent: Ino, name: &[u8], ino: Ino, now: (i64, u32)) {
        let p = self.get_mut(parent);
        p.entries.insert(name.to_vec(), ino);
        p.mtime = now;
        p.ctime = now;
        self.get_mut(ino).links.push((parent, name.to_vec()));
    }

    pub fn unlink_from(&mut self, parent: Ino, name: &[u8], now: (i64, u32)) -> Ino {
        let p = self.get_mut(parent);
        let i = p.entries.remove(name).unwrap();
        p.mtime = now;
        p.ctime = now;
        let n = self.get_mut(i);
        if let Some(k) = n.links.iter().position(|l| l.0 == parent && l.1 == name) {
            n.links.remove(k);
        }
        i
    }

    /// Free an inode that is neither linked nor open.
    pub fn maybe_free(&mut self, i: Ino) {
        if i == self.root {
            return;
        }
        let n = self.get(i);
        if n.links.is_empty() && n.opens == 0 {
            let dev = n.dev;
            let sz = n.data.len() as u64 + PER_ENTRY;
            self.refund(dev, sz);
            self.inodes.remove(&i);
        }
    }

    pub fn create(&mut self, r: &Res, kind: Kind, mode: u32, now: (i64, u32)) -> KR<Ino> {
        let p = self.get(r.parent);
        if p.kind != Kind::Dir {
            return Err(libc::ENOTDIR);
        }
        if p.links.is_empty() {
            return Err(libc::ENOENT);
        }
        let dev = p.dev;
        self.charge(dev, PER_ENTRY)?;
        let i = self.new_inode(kind, mode, dev, now);
        self.link_in(r.parent, &r.name, i, now);
        Ok(i)
    }

    pub fn mkdir(&mut self, r: &Res, mode: u32, now: (i64, u32)) -> KR<Ino> {
        if r.ino.is_some() {
            return Err(libc::EEXIST);
        }
        self.create(r, Kind::Dir, mode, now)
    }

    pub fn unlink(&mut self, r: &Res, now: (i64, u32)) -> KR<Ino> {
        let i = r.ino.ok_or(libc::ENOENT)?;
        if r.name.is_empty() || self.get(i).kind == Kind::Dir {
            return Err(libc::EISDIR);
        }
        self.unlink_from(r.parent, &r.name, now);
        self.get_mut(i).ctime = now;
        Ok(i)
    }

    pub fn rmdir(&mut self, r: &Res, now: (i64, u32)) -> KR<Ino> {
        let i = r.ino.ok_or(libc::ENOENT)?;
        if self.get(i).kind != Kind::Dir {
            return Err(libc::ENOTDIR);
        }
        if i == self.root {
            return Err(libc::EBUSY);
        }
        if r.name.is_empty() {
            return Err(libc::EINVAL);
        }
        if !self.get(i).entries.is_empty() {
            return Err(libc::ENOTEMPTY);
        }
        if self.get(i).dev != self.get(r.parent).dev {
            return Err(libc::EBUSY); // mount point
        }
        self.unlink_from(r.parent, &r.name, now);
        Ok(i)
    }

    fn is_ancestor(&self, a: Ino, mut d: Ino) -> bool {
        let mut g = 0;
        loop {
            if a == d {
                return true;
            }
            if d == self.root || g > 200 {
                return false;
            }
            d = match self.get(d).links.first() {
                Some(l) => l.0,
                None => return false,
            };
            g += 1;
        }
    }

    /// Returns (moved inode, replaced inode).
    pub fn rename(&mut self, a: &Res, b: &Res, noreplace: bool, now: (i64, u32)) -> KR<(Ino, Option<Ino>)> {
        let src = a.ino.ok_or(libc::ENOENT)?;
        if a.name.is_empty() || b.name.is_empty() {
            return Err(libc::EBUSY);
        }
        if self.get(a.parent).dev != self.get(b.parent).dev {
            return Err(libc::EXDEV);
        }
        let sk = self.get(src).kind;
        if sk != Kind::Dir && (b.trailing && b.ino.is_none()) {
            return Err(libc::ENOTDIR);
        }
        if self.get(src).dev != self.get(a.parent).dev {
            return Err(libc::EBUSY);
        }
        if sk == Kind::Dir && self.is_ancestor(src, b.parent) {
            return Err(libc::EINVAL);
        }
        if self.get(b.parent).links.is_empty() {
            return Err(libc::ENOENT);
        }
        let mut replaced = None;
        if let Some(d) = b.ino {
            if noreplace {
                return Err(libc::EEXIST);
            }
            if d == src {
                return Ok((src, None));
            }
            let dk = self.get(d).kind;
            if sk == Kind::Dir && dk != Kind::Dir {
                return Err(libc::ENOTDIR);
            }
            if sk != Kind::Dir && dk == Kind::Dir {
                return Err(libc::EISDIR);
            }
            if dk == Kind::Dir && !self.get(d).entries.is_empty() {
                return Err(libc::ENOTEMPTY);
            }
            self.unlink_from(b.parent, &b.name, now);
            replaced = Some(d);
        }
        self.unlink_from(a.parent, &a.name, now);
        self.link_in(b.parent, &b.name, src, now);
        self.get_mut(src).ctime = now;
        Ok((src, replaced))
    }

    /// Write at `pos`; returns bytes written (may be short when space runs out).
    pub fn write_at(&mut self, i: Ino, pos: u64, buf: &[u8], now: (i64, u32)) -> KR<usize> {
        let dev = self.get(i).dev;
        let len = self.get(i).data.len() as u64;
        let end = pos + buf.len() as u64;
        let mut n = buf.len();
        if end > len {
            let grow = end - len;
            let room = self.room(dev);
            if grow > room {
                let allowed_end = len + room;
                if allowed_end <= pos {
                    return Err(libc::ENOSPC);
                }
                n = (allowed_end - pos) as usize;
            }
            let grow = (pos + n as u64).saturating_sub(len);
            self.charge(dev, grow).map_err(|_| libc::ENOSPC)?;
        }
        let node = self.get_mut(i);
        let endn = pos as usize + n;
        if node.data.len() < endn {
            if pos as usize == node.data.len() {
                node.data.extend_from_slice(&buf[..n]);
            } else {
                node.data.resize(endn, 0);
                node.data[pos as usize..endn].copy_from_slice(&buf[..n]);
            }
        } else {
            node.data[pos as usize..endn].copy_from_slice(&buf[..n]);
        }
        node.mtime = now;
        node.ctime = now;
        self.touch(i);
        Ok(n)
    }

    pub fn truncate(&mut self, i: Ino, len: u64, now: (i64, u32)) -> KR<()> {
        let dev = self.get(i).dev;
        let old = self.get(i).data.len() as u64;
        if len > old {
            self.charge(dev, len - old)?;
        } else {
            self.refund(dev, old - len);
        }
        let n = self.get_mut(i);
        n.data.resize(len as usize, 0);
        if len == 0 {
            n.data = Vec::new();
        }
        n.mtime = now;
        n.ctime = now;
        self.touch(i);
        Ok(())
    }

    pub fn sha(&mut self, i: Ino) -> [u8; 32] {
        if let Some(s) = self.get(i).sha {
            return s;
        }
        let s = crate::util::sha256(&self.get(i).data);
        self.get_mut(i).sha = Some(s);
        s
    }

    /// Directory listing in a reproducible but arbitrary order.
    pub fn list(&self, d: Ino) -> Vec<(Vec<u8>, Ino)> {
        let mut v: Vec<(u64, Vec<u8>, Ino)> = self
            .get(d)
            .entries
            .iter()
            .map(|(k, i)| {
                let mut h = self.order_seed ^ d;
                for b in k {
                    h = crate::rng::mix(h ^ *b as u64);
                }
                (h, k.clone(), *i)
            })
            .collect();
        v.sort();
        v.into_iter().map(|(_, k, i)| (k, i)).collect()
    }

    // ---- helpers for the environment (not the simulated program) ----

    pub fn env_mkdirs(&mut self, path: &str, now: (i64, u32)) -> Ino {
        let mut cur = self.root;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let e = self.get(cur).entries.get(c.as_bytes()).copied();
            cur = match e {
                Some(e) => e,
                None => {
                    let dev = self.get(cur).dev;
                    let i = self.new_inode(Kind::Dir, 0o755, dev, now);
                    self.link_in(cur, c.as_bytes(), i, now);
                    i
                }
            };
        }
        cur
    }

    pub fn env_symlink(&mut self, path: &str, target: &str, now: (i64, u32)) {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = self.env_mkdirs(dir, now);
        if self.get(d).entries.contains_key(name.as_bytes()) {
            return;
        }
        let dev = self.get(d).dev;
        let i = self.new_inode(Kind::Symlink, 0o777, dev, now);
        self.get_mut(i).data = target.as_bytes().to_vec();
        self.link_in(d, name.as_bytes(), i, now);
    }

    pub fn env_write(&mut self, path: &str, data: &[u8], now: (i64, u32)) -> Ino {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = self.env_mkdirs(dir, now);
        if let Some(i) = self.get(d).entries.get(name.as_bytes()).copied() {
            self.get_mut(i).data = data.to_vec();
            self.touch(i);
            return i;
        }
        let dev = self.get(d).dev;
        let i = self.new_inode(Kind::File, 0o644, dev, now);
        self.get_mut(i).data = data.to_vec();
        self.get_mut(i).foreign = true;
        self.link_in(d, name.as_bytes(), i, now);
        i
    }

    pub fn env_remove(&mut self, path: &str, now: (i64, u32)) {
        if let Ok(r) = self.resolve(self.root, path.as_bytes(), false) {
            if let Some(i) = r.ino {
                if self.get(i).kind == Kind::Dir {
                    let names: Vec<Vec<u8>> = self.get(i).entries.keys().cloned().collect();
                    for n in names {
                        let p = format!("{}/{}", path, String::from_utf8_lossy(&n));
                        self.env_remove(&p, now);
                    }
                }
                self.unlink_from(r.parent, &r.name, now);
                self.maybe_free(i);
            }
        }
    }

    /// All files below a directory: relative path -> inode (symlinks included as such).
    pub fn walk(&self, d: Ino) -> Vec<(String, Ino)> {
        let mut out = vec![];
        let mut stack = vec![(String::new(), d)];
        while let Some((pre, i)) = stack.pop() {
            for (k, e) in &self.get(i).entries {
                let mut p = pre.clone();
                if !p.is_empty() {
                    p.push('/');
                }
                p.push_str(&String::from_utf8_lossy(k));
                if self.get(*e).kind == Kind::Dir {
                    stack.push((p.clone(), *e));
                }
                out.push((p, *e));
            }
        }
        out.sort();
        out
    }
}

//! System calls of the simulated program on files, directories and pipes.
use crate::kernel::*;
use crate::plan::*;
use crate::vfs::*;
use libc::*;

pub struct StatOut {
    pub ino: u64,
    pub dev: u64,
    pub mode: u32,
    pub nlink: u64,
    pub size: u64,
    pub mtime: (i64, u32),
    pub atime: (i64, u32),
    pub ctime: (i64, u32),
}

impl World {
    pub fn base_dir(&self, pid: u32, dirfd: i32, path: &[u8]) -> KR<Ino> {
        if path.first() == Some(&b'/') {
            return Ok(self.vfs.root);
        }
        if dirfd == AT_FDCWD {
            return Ok(self.procs[&pid].cwd);
        }
        let o = self.ofd(pid, dirfd)?;
        match o.kind {
            OKind::Node => Ok(o.ino),
            _ => Err(ENOTDIR),
        }
    }

    pub fn ofd(&self, pid: u32, fd: i32) -> KR<&Ofd> {
        let id = self.procs[&pid].fds.get(&fd).ok_or(EBADF)?;
        Ok(&self.ofds[id])
    }

    fn path_op(&mut self, pid: u32, dirfd: i32, path: &[u8], follow: bool, op: OpSel, mutating: bool) -> KR<(Res, String, Gate)> {
        let base = self.base_dir(pid, dirfd, path)?;
        match self.vfs.resolve(base, path, follow) {
            Ok(r) => {
                let p = self.vfs.canon_res(&r);
                let g = self.gate(pid, op, mutating, &p)?;
                Ok((r, p, g))
            }
            Err(e) => {
                let p = String::from_utf8_lossy(path).to_string();
                self.gate(pid, op, false, &p)?;
                Err(e)
            }
        }
    }

    fn install_fd(&mut self, pid: u32, o: Ofd) -> KR<i32> {
        let mut fd = 3;
        let p = self.p(pid);
        while p.fds.contains_key(&fd) {
            fd += 1;
        }
        if fd > 1000 {
            return Err(EMFILE);
        }
        let id = self.next_ofd;
        self.next_ofd += 1;
        if let OKind::Node = o.kind {
            self.vfs.get_mut(o.ino).opens += 1;
        }
        self.ofds.insert(id, o);
        self.p(pid).fds.insert(fd, id);
        Ok(fd)
    }

    pub fn sys_open(&mut self, pid: u32, dirfd: i32, path: &[u8], flags: i32, mode: u32) -> KR<i64> {
        if flags & O_TMPFILE == O_TMPFILE {
            return Err(EOPNOTSUPP);
        }
        let creat = flags & O_CREAT != 0;
        let follow = flags & O_NOFOLLOW == 0 && !(creat && flags & O_EXCL != 0);
        let wr = (flags & O_ACCMODE) != O_RDONLY;
        // decide what kind of operation this will be
        let base = self.base_dir(pid, dirfd, path)?;
        let exists = self.vfs.resolve(base, path, follow).ok().and_then(|r| r.ino);
        let trunc_existing = flags & O_TRUNC != 0
            && wr
            && exists.map_or(false, |i| self.vfs.get(i).kind == Kind::File);
        let creating = creat && exists.is_none();
        let mutating = creating || trunc_existing;
        let op = if mutating { OpSel::Create } else { OpSel::Open };
        let (r, p, g) = self.path_op(pid, dirfd, path, follow, op, mutating)?;
        let now = self.now();
        let ino = match r.ino {
            Some(i) => {
                if creat && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                let k = self.vfs.get(i).kind;
                if k == Kind::Symlink {
                    if flags & O_PATH == 0 {
                        return Err(ELOOP);
                    }
                }
                if k == Kind::Dir && (wr || creat) {
                    return Err(EISDIR);
                }
                if k != Kind::Dir && (flags & O_DIRECTORY != 0 || r.trailing) {
                    return Err(ENOTDIR);
                }
                if trunc_existing {
                    self.power_data(i);
                    self.vfs.truncate(i, 0, now)?;
                }
                i
            }
            None => {
                if !creat {
                    return Err(ENOENT);
                }
                if r.trailing || r.name.is_empty() {
                    return Err(EISDIR);
                }
                let um = self.p(pid).umask;
                let i = self.vfs.create(&r, Kind::File, mode & 0o7777 & !um, now)?;
                self.power_link(r.parent, &r.name, i);
                i
            }
        };
        let fd = self.install_fd(pid, Ofd { kind: OKind::Node, ino, pos: 0, flags, refs: 1, path: p.clone() })?;
        self.done(pid, op, mutating, &p, None, fd as i64, g.crash_after);
        Ok(fd as i64)
    }

    pub fn sys_close(&mut self, pid: u32, fd: i32) -> KR<i64> {
        if !self.p(pid).fds.contains_key(&fd) {
            return Err(EBADF);
        }
        self.close_fd(pid, fd);
        Ok(0)
    }

    pub fn close_fd(&mut self, pid: u32, fd: i32) {
        let id = match self.p(pid).fds.remove(&fd) {
            Some(x) => x,
            None => return,
        };
        let (kind, ino, path) = {
            let o = self.ofds.get_mut(&id).unwrap();
            o.refs -= 1;
            let (kind, ino, refs) = (o.kind.clone(), o.ino, o.refs);
            let mut path = None;
            if let OKind::Node = kind {
                // POSIX record locks go away with any close of the file by this process
                let held = self.locks.len();
                self.locks.retain(|l| !(l.0 == ino && l.1 == pid));
                let flock = refs == 0 && self.flocks.iter().any(|l| l.1 & !SHARED == id);
                if flock || self.locks.len() < held {
                    path = Some(self.node_path(id).1);
                }
            }
            if refs > 0 {
                if let Some(p) = path {
                    self.oracle_unlocked(pid, &p);
                }
                return;
            }
            (kind, ino, path)
        };
        self.ofds.remove(&id);
        self.flocks.retain(|l| l.1 & !SHARED != id);
        if let Some(p) = path {
            // closing the file is another way to give up the lock
            self.oracle_unlocked(pid, &p);
        }
        match kind {
            OKind::Node => {
                self.vfs.get_mut(ino).opens -= 1;
                self.vfs.maybe_free(ino);
            }
            OKind::Std(_) => {}
            OKind::PipeR(p) => {
                if let Some(x) = self.pipes.get_mut(&p) {
                    x.readers -= 1;
                }
            }
            OKind::PipeW(p) => {
                if let Some(x) = self.pipes.get_mut(&p) {
                    x.writers -= 1;
                }
            }
        }
    }

    fn node_path(&self, id: u64) -> (Ino, String) {
        let o = &self.ofds[&id];
        if self.vfs.get(o.ino).links.is_empty() && !o.path.is_empty() {
            // replaced or removed since it was opened
            return (o.ino, o.path.clone());
        }
        (o.ino, self.vfs.canon(o.ino))
    }

    pub fn sys_read(&mut self, pid: u32, fd: i32, want: usize, at: Option<u64>) -> KR<Vec<u8>> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        let (kind, flags, pos) = {
            let o = &self.ofds[&id];
            (o.kind.clone(), o.flags, o.pos)
        };
        match kind {
            OKind::Std(_) => Ok(vec![]),
            OKind::PipeW(_) => Err(EBADF),
            OKind::PipeR(pi) => loop {
                self.script_progress();
                let p = self.pipes.get_mut(&pi).unwrap();
                if !p.buf.is_empty() {
                    let n = want.min(p.buf.len());
                    let out: Vec<u8> = p.buf.drain(..n).collect();
                    return Ok(out);
                }
                if p.writers == 0 {
                    return Ok(vec![]);
                }
                if flags & O_NONBLOCK != 0 {
                    return Err(EAGAIN);
                }
                self.p(pid).state = PState::Blocked(Block::Pipe(vec![pi]));
                self.block(pid);
            },
            OKind::Node => {
                if flags & O_ACCMODE == O_WRONLY || flags & O_PATH != 0 {
                    return Err(EBADF);
                }
                let (ino, path) = self.node_path(id);
                let g = self.gate(pid, OpSel::Read, false, &path)?;
                let k = self.vfs.get(ino).kind;
                let out = match k {
                    Kind::Dir => return Err(EISDIR),
                    Kind::Null => vec![],
                    Kind::Random => {
                        let r = &mut self.p(pid).rnd;
                        (0..want.min(4096)).map(|_| r.next() as u8).collect()
                    }
                    _ => {
                        let start = at.unwrap_or(pos);
                        let n = self.vfs.get(ino);
                        let len = n.data.len() as u64;
                        if start >= len {
                            vec![]
                        } else {
                            let mut e = (start + want as u64).min(len);
                            if let Some(s) = g.short {
                                e = e.min(start + s as u64);
                            }
                            n.data[start as usize..e as usize].to_vec()
                        }
                    }
                };
                if at.is_none() {
                    self.ofds.get_mut(&id).unwrap().pos += out.len() as u64;
                }
                self.note_read(pid, ino, &path);
                self.done(pid, OpSel::Read, false, &path, None, out.len() as i64, g.crash_after);
                Ok(out)
            }
        }
    }

    pub fn sys_write(&mut self, pid: u32, fd: i32, buf: &[u8], at: Option<u64>) -> KR<i64> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        let (kind, flags, pos) = {
            let o = &self.ofds[&id];
            (o.kind.clone(), o.flags, o.pos)
        };
        match kind {
            OKind::Std(n) => {
                let p = self.p(pid);
                let b = if n == 1 { &mut p.stdout } else { &mut p.stderr };
                if b.len() < 200_000 {
                    b.extend_from_slice(buf);
                }
                if n == 1 && self.plan.world.out > 0 {
                    self.stats.add("fault.stdout", 1);
                    return Err(self.plan.world.out as i32);
                }
                Ok(buf.len() as i64)
            }
            OKind::PipeR(_) => Err(EBADF),
            OKind::PipeW(pi) => {
                let p = self.pipes.get_mut(&pi).unwrap();
                if p.readers == 0 {
                    return Err(EPIPE);
                }
                p.buf.extend_from_slice(buf);
                Ok(buf.len() as i64)
            }
            OKind::Node => {
                if flags & O_ACCMODE == O_RDONLY || flags & O_PATH != 0 {
                    return Err(EBADF);
                }
                let (ino, path) = self.node_path(id);
                let mut g = self.gate(pid, OpSel::Write, true, &path)?;
                if self.vfs.get(ino).kind != Kind::File {
                    return Ok(buf.len() as i64);
                }
                let now = self.now();
                let mut n = buf.len();
                if let Some(s) = g.short {
                    n = n.min(s).max(1.min(buf.len()));
                }
                if let Some(t) = g.torn {
                    n = (buf.len() as u64 * t.min(1000) as u64 / 1000) as usize;
                    self.stats.add("fault.torn_write", 1);
                    g.crash_after = true;
                }
                let start = if flags & O_APPEND != 0 { self.vfs.get(ino).data.len() as u64 } else { at.unwrap_or(pos) };
                let w = if n == 0 {
                    0
                } else {
                    self.power_data(ino);
                    let w = self.vfs.write_at(ino, start, &buf[..n], now)?;
                    w
                };
                if at.is_none() {
                    self.ofds.get_mut(&id).unwrap().pos = start + w as u64;
                }
                self.done(pid, OpSel::Write, true, &path, None, w as i64, g.crash_after);
                Ok(w as i64)
            }
        }
    }

    pub fn sys_lseek(&mut self, pid: u32, fd: i32, off: i64, whence: i32) -> KR<i64> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        let (kind, ino, pos) = {
            let o = &self.ofds[&id];
            (o.kind.clone(), o.ino, o.pos)
        };
        match kind {
            OKind::Node => {}
            _ => return Err(ESPIPE),
        }
        let b = match whence {
            SEEK_SET => 0,
            SEEK_CUR => pos as i64,
            SEEK_END => self.vfs.get(ino).data.len() as i64,
            _ => return Err(EINVAL),
        };
        let n = b + off;
        if n < 0 {
            return Err(EINVAL);
        }
        self.ofds.get_mut(&id).unwrap().pos = n as u64;
        Ok(n)
    }

    fn stat_ino(&self, i: Ino) -> StatOut {
        let n = self.vfs.get(i);
        let (t, size) = match n.kind {
            Kind::File => (S_IFREG, n.data.len() as u64),
            Kind::Dir => (S_IFDIR, 4096),
            Kind::Symlink => (S_IFLNK, n.data.len() as u64),
            Kind::Null | Kind::Random => (S_IFCHR, 0),
        };
        let nlink = if n.kind == Kind::Dir { 2 } else { n.links.len() as u64 };
        StatOut { ino: i, dev: n.dev as u64, mode: t | n.mode, nlink, size, mtime: n.mtime, atime: n.atime, ctime: n.ctime }
    }

    pub fn sys_stat(&mut self, pid: u32, dirfd: i32, path: &[u8], follow: bool) -> KR<StatOut> {
        let (r, p, g) = self.path_op(pid, dirfd, path, follow, OpSel::Stat, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        self.done(pid, OpSel::Stat, false, &p, None, 0, g.crash_after);
        Ok(self.stat_ino(i))
    }

    pub fn sys_fstat(&mut self, pid: u32, fd: i32) -> KR<StatOut> {
        let o = self.ofd(pid, fd)?;
        let (kind, ino) = (o.kind.clone(), o.ino);
        match kind {
            OKind::Node => {
                let p = self.vfs.canon(ino);
                let g = self.gate(pid, OpSel::Stat, false, &p)?;
                self.done(pid, OpSel::Stat, false, &p, None, 0, g.crash_after);
                Ok(self.stat_ino(ino))
            }
            _ => Ok(StatOut { ino: 1, dev: 0, mode: S_IFIFO | 0o600, nlink: 1, size: 0, mtime: (0, 0), atime: (0, 0), ctime: (0, 0) }),
        }
    }

    pub fn sys_mkdir(&mut self, pid: u32, dirfd: i32, path: &[u8], mode: u32) -> KR<i64> {
        let base = self.base_dir(pid, dirfd, path)?;
        let exists = self.vfs.resolve(base, path, false).map_or(false, |r| r.ino.is_some());
        let (r, p, g) = self.path_op(pid, dirfd, path, false, OpSel::Mkdir, !exists)?;
        let now = self.now();
        let um = self.p(pid).umask;
        let i = self.vfs.mkdir(&r, mode & 0o7777 & !um, now)?;
        self.power_link(r.parent, &r.name, i);
        self.done(pid, OpSel::Mkdir, true, &p, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_unlink(&mut self, pid: u32, dirfd: i32, path: &[u8], dir: bool) -> KR<i64> {
        let (r, p, g) = self.path_op(pid, dirfd, path, false, OpSel::Remove, true)?;
        let now = self.now();
        self.oracle_before_remove(pid, &p);
        let i = if dir { self.vfs.rmdir(&r, now)? } else { self.vfs.unlink(&r, now)? };
        self.power_unlink(r.parent, &r.name, i);
        self.oracle_removed(pid, &p, i);
        self.vfs.maybe_free(i);
        self.done(pid, OpSel::Remove, true, &p, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_rename(&mut self, pid: u32, d1: i32, p1: &[u8], d2: i32, p2: &[u8], flags: u32) -> KR<i64> {
        let b2 = self.base_dir(pid, d2, p2)?;
        let r2 = self.vfs.resolve(b2, p2, false);
        let (a, pa, g) = self.path_op(pid, d1, p1, false, OpSel::Rename, true)?;
        if flags & !(RENAME_NOREPLACE as u32) != 0 {
            return Err(EINVAL);
        }
        let b = r2?;
        let pb = self.vfs.canon_res(&b);
        let now = self.now();
        let (src, replaced) = self.vfs.rename(&a, &b, flags != 0, now)?;
        self.power_rename(&a, &b, src, replaced);
        if let Some(x) = replaced {
            self.oracle_removed(pid, &pb, x);
            self.vfs.maybe_free(x);
        }
        self.oracle_renamed(pid, &pa, &pb, src);
        self.done(pid, OpSel::Rename, true, &pa, Some(&pb), 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_symlink(&mut self, pid: u32, target: &[u8], dirfd: i32, path: &[u8]) -> KR<i64> {
        let (r, p, g) = self.path_op(pid, dirfd, path, false, OpSel::Link, true)?;
        if r.ino.is_some() {
            return Err(EEXIST);
        }
        let now = self.now();
        let i = self.vfs.create(&r, Kind::Symlink, 0o777, now)?;
        self.vfs.get_mut(i).data = target.to_vec();
        self.power_link(r.parent, &r.name, i);
        self.done(pid, OpSel::Link, true, &p, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_link(&mut self, pid: u32, d1: i32, p1: &[u8], d2: i32, p2: &[u8], follow: bool) -> KR<i64> {
        let b1 = self.base_dir(pid, d1, p1)?;
        let a = self.vfs.resolve(b1, p1, follow);
        let (b, pb, g) = self.path_op(pid, d2, p2, false, OpSel::Link, true)?;
        let src = a?.ino.ok_or(ENOENT)?;
        if b.ino.is_some() {
            return Err(EEXIST);
        }
        if self.vfs.get(src).kind == Kind::Dir {
            return Err(EPERM);
        }
        if self.vfs.get(src).dev != self.vfs.get(b.parent).dev {
            return Err(EXDEV);
        }
        let now = self.now();
        self.vfs.link_in(b.parent, &b.name, src, now);
        self.power_link(b.parent, &b.name, src);
        self.done(pid, OpSel::Link, true, &pb, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_readlink(&mut self, pid: u32, dirfd: i32, path: &[u8]) -> KR<Vec<u8>> {
        let (r, p, g) = self.path_op(pid, dirfd, path, false, OpSel::Stat, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if self.vfs.get(i).kind != Kind::Symlink {
            return Err(EINVAL);
        }
        self.done(pid, OpSel::Stat, false, &p, None, 0, g.crash_after);
        Ok(self.vfs.get(i).data.clone())
    }

    pub fn sys_realpath(&mut self, pid: u32, path: &[u8]) -> KR<Vec<u8>> {
        let (r, p, g) = self.path_op(pid, AT_FDCWD, path, true, OpSel::Stat, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        self.done(pid, OpSel::Stat, false, &p, None, 0, g.crash_after);
        Ok(self.vfs.canon(i).into_bytes())
    }

    pub fn sys_truncate(&mut self, pid: u32, fd: i32, len: i64) -> KR<i64> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        if self.ofds[&id].flags & O_ACCMODE == O_RDONLY {
            return Err(EINVAL);
        }
        let (ino, path) = self.node_path(id);
        let g = self.gate(pid, OpSel::Write, true, &path)?;
        let now = self.now();
        self.power_data(ino);
        self.vfs.truncate(ino, len as u64, now)?;
        self.done(pid, OpSel::Write, true, &path, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_truncate_path(&mut self, pid: u32, path: &[u8], len: i64) -> KR<i64> {
        let (r, p, g) = self.path_op(pid, AT_FDCWD, path, true, OpSel::Write, true)?;
        let ino = r.ino.ok_or(ENOENT)?;
        if self.vfs.get(ino).kind != Kind::File {
            return Err(EISDIR);
        }
        let now = self.now();
        self.power_data(ino);
        self.vfs.truncate(ino, len as u64, now)?;
        self.done(pid, OpSel::Write, true, &p, None, 0, g.crash_after);
        Ok(0)
    }

    /// `None` = leave unchanged.
    pub fn set_times(&mut self, pid: u32, r: KR<(Res, String, Gate)>, at: Option<(i64, u32)>, mt: Option<(i64, u32)>) -> KR<i64> {
        let (r, p, g) = r?;
        let i = r.ino.ok_or(ENOENT)?;
        let now = self.now();
        self.power_times(i);
        let n = self.vfs.get_mut(i);
        if let Some(a) = at {
            n.atime = a;
        }
        if let Some(m) = mt {
            n.mtime = m;
        }
        n.ctime = now;
        self.done(pid, OpSel::Utimes, true, &p, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_utimens(&mut self, pid: u32, dirfd: i32, path: Option<&[u8]>, follow: bool, at: Option<(i64, u32)>, mt: Option<(i64, u32)>) -> KR<i64> {
        let r = match path {
            Some(p) => self.path_op(pid, dirfd, p, follow, OpSel::Utimes, true),
            None => {
                let o = self.ofd(pid, dirfd)?;
                let ino = o.ino;
                let p = self.vfs.canon(ino);
                match self.gate(pid, OpSel::Utimes, true, &p) {
                    Ok(g) => Ok((Res { parent: self.vfs.root, name: vec![], ino: Some(ino), trailing: false }, p, g)),
                    Err(e) => Err(e),
                }
            }
        };
        self.set_times(pid, r, at, mt)
    }

    pub fn sys_chmod(&mut self, pid: u32, dirfd: i32, path: Option<&[u8]>, follow: bool, mode: Option<u32>) -> KR<i64> {
        let (ino, p, g) = match path {
            Some(p) => {
                let (r, p, g) = self.path_op(pid, dirfd, p, follow, OpSel::Utimes, true)?;
                (r.ino.ok_or(ENOENT)?, p, g)
            }
            None => {
                let ino = self.ofd(pid, dirfd)?.ino;
                let p = self.vfs.canon(ino);
                let g = self.gate(pid, OpSel::Utimes, true, &p)?;
                (ino, p, g)
            }
        };
        if let Some(m) = mode {
            self.vfs.get_mut(ino).mode = m & 0o7777;
        }
        self.done(pid, OpSel::Utimes, true, &p, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_access(&mut self, pid: u32, dirfd: i32, path: &[u8]) -> KR<i64> {
        self.sys_stat(pid, dirfd, path, true).map(|_| 0)
    }

    pub fn sys_fsync(&mut self, pid: u32, fd: i32) -> KR<i64> {
        let ino = self.ofd(pid, fd)?.ino;
        let p = self.vfs.canon(ino);
        let g = self.gate(pid, OpSel::Sync, false, &p)?;
        self.power_fsync(ino);
        self.stats.add("op.fsync", 1);
        self.done(pid, OpSel::Sync, false, &p, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_sync(&mut self, pid: u32) -> KR<i64> {
        self.gate(pid, OpSel::Sync, false, "/")?;
        self.power_sync_all();
        Ok(0)
    }

    pub fn sys_getdents(&mut self, pid: u32, fd: i32) -> KR<Vec<(u64, u8, Vec<u8>)>> {
        let ino = self.ofd(pid, fd)?.ino;
        if self.vfs.get(ino).kind != Kind::Dir {
            return Err(ENOTDIR);
        }
        let p = self.vfs.canon(ino);
        let g = self.gate(pid, OpSel::Readdir, false, &p)?;
        let mut out = vec![(ino, DT_DIR, b".".to_vec()), (ino, DT_DIR, b"..".to_vec())];
        for (k, i) in self.vfs.list(ino) {
            let t = match self.vfs.get(i).kind {
                Kind::Dir => DT_DIR,
                Kind::Symlink => DT_LNK,
                Kind::File => DT_REG,
                _ => DT_CHR,
            };
            out.push((i, t, k));
        }
        self.done(pid, OpSel::Readdir, false, &p, None, out.len() as i64, g.crash_after);
        Ok(out)
    }

    pub fn sys_dup(&mut self, pid: u32, fd: i32, to: Option<i32>, min: i32) -> KR<i64> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        let nfd = match to {
            Some(t) => {
                if t == fd {
                    return Ok(t as i64);
                }
                self.close_fd(pid, t);
                t
            }
            None => {
                let mut n = min.max(3);
                while self.p(pid).fds.contains_key(&n) {
                    n += 1;
                }
                n
            }
        };
        self.ofds.get_mut(&id).unwrap().refs += 1;
        self.p(pid).fds.insert(nfd, id);
        Ok(nfd as i64)
    }

    /// POSIX record lock on the whole file. type: F_RDLCK/F_WRLCK/F_UNLCK
    pub fn sys_plock(&mut self, pid: u32, fd: i32, typ: i32, wait: bool, test: bool) -> KR<i64> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        let (ino, path) = self.node_path(id);
        let g = self.gate(pid, OpSel::Lock, false, &path)?;
        if typ == F_UNLCK {
            self.locks.retain(|l| !(l.0 == ino && l.1 == pid));
            self.oracle_unlocked(pid, &path);
        } else {
            loop {
                let held = self.locks.iter().any(|l| l.0 == ino && l.1 != pid);
                if !held {
                    break;
                }
                if test || !wait {
                    self.p(pid).contended = true;
                    return Err(EAGAIN);
                }
                self.waits_for_lock(pid, &path);
                self.p(pid).state = PState::Blocked(Block::Lock(ino));
                self.block(pid);
            }
            if !test {
                self.locks.retain(|l| !(l.0 == ino && l.1 == pid));
                self.locks.push((ino, pid));
            }
        }
        self.done(pid, OpSel::Lock, false, &path, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn waits_for_lock(&mut self, pid: u32, path: &str) {
        self.violate(&["C16", "C09"], "waits-for-lock", format!("[{}] waits for another instance to release {}", pid, path));
    }

    pub fn sys_flock(&mut self, pid: u32, fd: i32, how: i32) -> KR<i64> {
        let id = *self.p(pid).fds.get(&fd).ok_or(EBADF)?;
        let (ino, path) = self.node_path(id);
        let g = self.gate(pid, OpSel::Lock, false, &path)?;
        let op = how & !LOCK_NB;
        if op == LOCK_UN {
            self.flocks.retain(|l| l.1 & !SHARED != id);
            self.oracle_unlocked(pid, &path);
        } else {
            let excl = op == LOCK_EX;
            loop {
                // a shared holder is stored with the top bit set
                let held = self.flocks.iter().any(|l| {
                    l.0 == ino && l.1 & !SHARED != id && (excl || l.1 & SHARED == 0)
                });
                if !held {
                    break;
                }
                if how & LOCK_NB != 0 {
                    self.stats.add("lock.contended", 1);
                    self.p(pid).contended = true;
                    return Err(EWOULDBLOCK);
                }
                self.waits_for_lock(pid, &path);
                self.p(pid).state = PState::Blocked(Block::Flock(ino));
                self.block(pid);
            }
            self.flocks.retain(|l| l.1 & !SHARED != id);
            self.flocks.push((ino, if excl { id } else { id | SHARED }));
        }
        self.done(pid, OpSel::Lock, false, &path, None, 0, g.crash_after);
        Ok(0)
    }

    pub fn sys_pipe(&mut self, pid: u32, flags: i32) -> KR<(i32, i32)> {
        let id = self.next_ofd;
        self.next_ofd += 1;
        self.pipes.insert(id, Pipe { buf: vec![], readers: 1, writers: 1, script: None });
        let r = self.install_fd(pid, Ofd { kind: OKind::PipeR(id), ino: 0, pos: 0, flags, refs: 1, path: "pipe".into() })?;
        let w = self.install_fd(pid, Ofd { kind: OKind::PipeW(id), ino: 0, pos: 0, flags, refs: 1, path: "pipe".into() })?;
        Ok((r, w))
    }

    pub fn sys_chdir(&mut self, pid: u32, path: &[u8]) -> KR<i64> {
        let (r, _, _) = self.path_op(pid, AT_FDCWD, path, true, OpSel::Stat, false)?;
        let i = r.ino.ok_or(ENOENT)?;
        if self.vfs.get(i).kind != Kind::Dir {
            return Err(ENOTDIR);
        }
        self.p(pid).cwd = i;
        Ok(0)
    }
}

pub const SHARED: u64 = 1 << 63;

//! Child processes (pre-validation scripts), pipes between them and the program.
use crate::kernel::*;
use crate::plan::*;
use crate::vfs::KR;
use libc::*;

const PIPE_CAP: usize = 65536;

impl World {
    pub fn pipe_ready(&self, ps: &[u64]) -> bool {
        ps.iter().any(|p| self.pipes.get(p).map_or(true, |p| !p.buf.is_empty() || p.writers == 0))
    }

    pub fn script_progress(&mut self) {
        if self.scripts.is_empty() {
            return;
        }
        let mono = self.mono;
        let ids: Vec<u32> = self.scripts.keys().copied().collect();
        for id in ids {
            let (done, op, ep) = {
                let s = &self.scripts[&id];
                (s.done, s.out_pipe, s.err_pipe)
            };
            if done {
                continue;
            }
            let mut broken = false;
            for (k, pp) in [(0, op), (1, ep)] {
                let style = self.scripts[&id].cfg.out % 4;
                let left = if k == 0 { self.scripts[&id].out_left } else { self.scripts[&id].err_left };
                if left == 0 {
                    continue;
                }
                let n = match pp {
                    None => left as usize,
                    Some(p) => {
                        let p = self.pipes.get_mut(&p).unwrap();
                        if p.readers == 0 {
                            broken = true;
                            0
                        } else {
                            let n = (left as usize).min(PIPE_CAP - p.buf.len().min(PIPE_CAP));
                            let text: &[u8] = match style {
                                0 | 1 => b"script output\n",
                                2 => "{} \u{2713} gr\u{fc}n %s\n".as_bytes(),
                                _ => b"\xe9t\xe9 \xff\xfe\0\x1b[31m\r\n",
                            };
                            for i in 0..n {
                                p.buf.push(text[(i + left as usize) % text.len()]);
                            }
                            n
                        }
                    }
                };
                let s = self.scripts.get_mut(&id).unwrap();
                if k == 0 {
                    s.out_left -= n as u32;
                } else {
                    s.err_left -= n as u32;
                }
            }
            let s = self.scripts.get_mut(&id).unwrap();
            if broken {
                s.cfg.exit = -SIGPIPE;
                s.out_left = 0;
                s.err_left = 0;
                s.end_at = mono;
                s.killed = true;
            }
            if s.out_left == 0 && s.err_left == 0 && s.end_at <= mono {
                self.script_end(id);
            }
        }
    }

    fn script_end(&mut self, id: u32) {
        let (op, ep, parent, idx, ex) = {
            let s = self.scripts.get_mut(&id).unwrap();
            s.done = true;
            (s.out_pipe, s.err_pipe, s.parent, s.idx, s.cfg.exit)
        };
        for p in [op, ep].into_iter().flatten() {
            if let Some(p) = self.pipes.get_mut(&p) {
                p.writers -= 1;
            }
        }
        self.log(|| format!("[{}] script {} of [{}] ends with {}", id, idx, parent, ex));
        self.oracle_script_end(parent, idx);
    }

    pub fn sys_spawn(&mut self, pid: u32, file: &[u8], acts: &[(i32, i32)]) -> KR<u32> {
        let path = String::from_utf8_lossy(file).to_string();
        let g = self.gate(pid, OpSel::Spawn, false, &path)?;
        if self.vfs.lookup(&path).is_none() {
            return Err(ENOENT);
        }
        let idx: usize = match path.strip_prefix("/usr/local/bin/check-").and_then(|s| s.parse().ok()) {
            Some(i) => i,
            None => return Err(EACCES),
        };
        let cfg = match self.p(pid).cfg.scripts.get(idx) {
            Some(c) => c.clone(),
            None => return Err(ENOENT),
        };
        if cfg.spawn != 0 {
            self.stats.add("fault.script_spawn", 1);
            return Err(cfg.spawn);
        }
        let mut out_pipe = None;
        let mut err_pipe = None;
        for (from, to) in acts {
            if let Ok(o) = self.ofd(pid, *from) {
                if let OKind::PipeW(p) = o.kind {
                    if *to == 1 {
                        out_pipe = Some(p);
                    } else if *to == 2 {
                        err_pipe = Some(p);
                    }
                }
            }
        }
        for p in [out_pipe, err_pipe].into_iter().flatten() {
            self.pipes.get_mut(&p).unwrap().writers += 1;
        }
        let id = self.next_pid;
        self.next_pid += 1;
        let end_at = self.mono + cfg.ms as u64 * 1_000_000;
        self.log(|| format!("[{}] starts script {} as [{}]", pid, idx, id));
        self.stats.add("scripts.started", 1);
        self.oracle_script_start(pid, idx);
        self.scripts.insert(
            id,
            ScriptProc {
                pid: id,
                parent: pid,
                out_left: cfg.out,
                err_left: cfg.err,
                cfg,
                idx,
                out_pipe,
                err_pipe,
                end_at,
                done: false,
                reaped: false,
                killed: false,
            },
        );
        self.done(pid, OpSel::Spawn, false, &path, None, id as i64, g.crash_after);
        Ok(id)
    }

    /// Returns (pid, wait status).
    pub fn sys_wait(&mut self, pid: u32, child: i32, nohang: bool) -> KR<(i32, i32)> {
        loop {
            self.script_progress();
            let mine: Vec<u32> = self
                .scripts
                .values()
                .filter(|s| s.parent == pid && !s.reaped && (child == -1 || s.pid as i32 == child))
                .map(|s| s.pid)
                .collect();
            if mine.is_empty() {
                return Err(ECHILD);
            }
            for c in &mine {
                let s = self.scripts.get_mut(c).unwrap();
                if s.done {
                    s.reaped = true;
                    let st = if s.cfg.exit >= 0 { (s.cfg.exit & 0xff) << 8 } else { -s.cfg.exit };
                    return Ok((*c as i32, st));
                }
            }
            if nohang {
                return Ok((0, 0));
            }
            self.p(pid).state = PState::Blocked(Block::Child(mine[0]));
            self.block(pid);
        }
    }

    pub fn sys_kill(&mut self, pid: u32, child: i32, sig: i32) -> KR<i64> {
        if child as u32 == pid {
            if sig == 0 {
                return Ok(0);
            }
            self.end_proc(pid, Exit::Signal(sig));
        }
        match self.scripts.get_mut(&(child as u32)) {
            Some(s) if s.parent == pid => {
                if sig != 0 && !s.done {
                    s.cfg.exit = -sig;
                    s.out_left = 0;
                    s.err_left = 0;
                    s.killed = true;
                    let idx = s.idx;
                    self.oracle_script_killed(pid, idx);
                    self.script_end(child as u32);
                }
                Ok(0)
            }
            _ => Err(ESRCH),
        }
    }

    /// (fd, events) -> revents; timeout in ms, negative = forever.
    pub fn sys_poll(&mut self, pid: u32, fds: &mut [(i32, i16, i16)], timeout: i32) -> KR<i64> {
        let deadline = if timeout < 0 { u64::MAX } else { self.mono + timeout as u64 * 1_000_000 };
        loop {
            self.script_progress();
            let mut n = 0;
            let mut pipes = vec![];
            for f in fds.iter_mut() {
                f.2 = 0;
                if f.0 < 0 {
                    continue;
                }
                match self.ofd(pid, f.0).map(|o| o.kind.clone()) {
                    Err(_) => f.2 = POLLNVAL,
                    Ok(OKind::PipeR(p)) => {
                        pipes.push(p);
                        let p = &self.pipes[&p];
                        if !p.buf.is_empty() {
                            f.2 |= f.1 & POLLIN;
                        }
                        if p.writers == 0 {
                            f.2 |= POLLHUP;
                        }
                    }
                    Ok(OKind::PipeW(_)) => f.2 = f.1 & POLLOUT,
                    Ok(OKind::Std(_)) => f.2 = f.1 & POLLOUT,
                    Ok(OKind::Node) => f.2 = f.1 & (POLLIN | POLLOUT),
                }
                if f.2 != 0 {
                    n += 1;
                }
            }
            if n > 0 || timeout == 0 || self.mono >= deadline {
                return Ok(n);
            }
            self.p(pid).state = if timeout < 0 {
                PState::Blocked(Block::Pipe(pipes))
            } else {
                PState::Blocked(Block::Poll(pipes, deadline))
            };
            self.block(pid);
        }
    }
}

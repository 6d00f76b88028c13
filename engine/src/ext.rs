//! Models of libc, of the harness intrinsics (sym_*), LLVM intrinsics and an in-memory file system.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Normal,
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Memchr,
    Memrchr,
    Strlen,
    Zero,
    MinusOne,
    Errno,
    Getrandom,
    Exit,
    Open,
    Read,
    Write,
    Writev,
    Close,
    Fstat,
    Stat,
    Statx,
    Lseek,
    Opendir,
    Readdir,
    Dirfd,
    Closedir,
    Realpath,
    Getcwd,
    Rename,
    Unlink,
    Mkdir,
    StrerrorR,
    Sysconf,
    Memcpy,
    Memset,
    ArgU8,
    Assume,
    Assert,
    Fail,
    Job,
    Conc,
    Report,
    Cover,
    IsSym,
    Print,
    FsFile,
    FsDir,
    FsRead,
    FsOut,
    FsStdin,
    FsFault,
    FsOps,
    SetArgs,
    Unknown,
}
pub enum ExtRes {
    Val(Val),
    Call(u32, Vec<Val>),
}

pub fn classify(f: &Func) -> Ext {
    let n = f.name.as_str();
    let hook = match n {
        "sym_u8" => Some(Ext::ArgU8),
        "sym_assume" => Some(Ext::Assume),
        "sym_assert" => Some(Ext::Assert),
        "sym_fail" => Some(Ext::Fail),
        "sym_job" => Some(Ext::Job),
        "sym_conc" => Some(Ext::Conc),
        "sym_report" => Some(Ext::Report),
        "sym_cover" => Some(Ext::Cover),
        "sym_is_symbolic" => Some(Ext::IsSym),
        "sym_print" => Some(Ext::Print),
        "sym_fs_file" => Some(Ext::FsFile),
        "sym_fs_dir" => Some(Ext::FsDir),
        "sym_fs_read" => Some(Ext::FsRead),
        "sym_fs_out" => Some(Ext::FsOut),
        "sym_fs_stdin" => Some(Ext::FsStdin),
        "sym_fs_fault" => Some(Ext::FsFault),
        "sym_fs_ops" => Some(Ext::FsOps),
        "sym_set_args" => Some(Ext::SetArgs),
        _ => None,
    };
    if let Some(h) = hook {
        return h;
    }
    if !f.is_decl {
        if n.contains("4core9panicking") && !n.contains("AssertKind") {
            return Ext::Panic;
        }
        if n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic")) || n.contains("rust_begin_unwind") {
            return Ext::Panic;
        }
        if n.contains("3std7process5abort") || n.contains("rust_oom") {
            return Ext::Abort;
        }
        return Ext::Normal;
    }
    match n {
        "malloc" => Ext::Malloc,
        "calloc" => Ext::Calloc,
        "realloc" => Ext::Realloc,
        "free" => Ext::Free,
        "posix_memalign" => Ext::Memalign,
        "bcmp" => Ext::Bcmp,
        "memcmp" => Ext::Memcmp,
        "memchr" => Ext::Memchr,
        "memrchr" => Ext::Memrchr,
        "strlen" => Ext::Strlen,
        "memcpy" | "memmove" => Ext::Memcpy,
        "memset" => Ext::Memset,
        "abort" => Ext::Abort,
        "exit" | "_exit" => Ext::Exit,
        "__errno_location" => Ext::Errno,
        "getrandom" => Ext::Getrandom,
        "open64" | "open" => Ext::Open,
        "read" => Ext::Read,
        "write" => Ext::Write,
        "writev" => Ext::Writev,
        "close" => Ext::Close,
        "fstat64" => Ext::Fstat,
        "stat64" | "lstat64" => Ext::Stat,
        "statx" => Ext::Statx,
        "lseek64" => Ext::Lseek,
        "opendir" => Ext::Opendir,
        "readdir64" => Ext::Readdir,
        "dirfd" => Ext::Dirfd,
        "closedir" => Ext::Closedir,
        "realpath" => Ext::Realpath,
        "getcwd" => Ext::Getcwd,
        "rename" => Ext::Rename,
        "unlink" => Ext::Unlink,
        "mkdir" => Ext::Mkdir,
        "__xpg_strerror_r" => Ext::StrerrorR,
        "sysconf" => Ext::Sysconf,
        "getenv" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "dl_iterate_phdr" | "munmap" | "gettid" | "poll" | "sigaction" | "signal" | "sigaltstack" | "syscall" | "pthread_self" | "fcntl" | "fcntl64" | "isatty" => Ext::Zero,
        "readlink" | "mmap64" => Ext::MinusOne,
        "_Unwind_Backtrace" => Ext::Zero,
        _ => Ext::Unknown,
    }
}

// ---------------- file system model ----------------
#[derive(Clone)]
pub enum FNode {
    File(Rc<Vec<(u8, E)>>),
    Dir(Vec<Vec<u8>>), // entry names in readdir order
}
#[derive(Clone, Default)]
pub struct Fd {
    pub path: Vec<u8>,
    pub pos: usize,
    pub kind: u8, // 0 closed 1 file 2 dir 3 stdin 4 stdout 5 stderr
    pub append: bool,
    pub writable: bool,
}
#[derive(Clone, Default)]
pub struct Fs {
    pub nodes: BTreeMap<Vec<u8>, FNode>, // absolute normalised path without trailing slash; root = ""
    pub fds: Vec<Fd>,
    pub stdin: Vec<(u8, E)>,
    pub out: Vec<(u8, E)>,
    pub err: Vec<(u8, E)>,
    pub ops: u32,         // mutating operations performed
    pub fault: Vec<(Vec<u8>, u8)>, // (path, what): 1 open-for-read fails, 2 read fails, 4 open-for-write fails, 8 opendir fails
    pub wrote: Vec<Vec<u8>>,
}
const CWD: &[u8] = b"/w";
fn norm(p: &[u8]) -> Vec<u8> {
    let mut full = vec![];
    if !p.starts_with(b"/") {
        full.extend_from_slice(CWD);
        full.push(b'/');
    }
    full.extend_from_slice(p);
    let mut parts: Vec<&[u8]> = vec![];
    for c in full.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    let mut o = vec![];
    for c in parts {
        o.push(b'/');
        o.extend_from_slice(c);
    }
    o
}
impl Fs {
    fn init(&mut self) {
        if self.nodes.is_empty() {
            self.nodes.insert(vec![], FNode::Dir(vec![b"w".to_vec()]));
            self.nodes.insert(CWD.to_vec(), FNode::Dir(vec![]));
        }
        if self.fds.is_empty() {
            for k in 3..6 {
                self.fds.push(Fd { kind: k, writable: k > 3, ..Fd::default() });
            }
        }
    }
    fn link(&mut self, p: &[u8]) {
        let cut = p.iter().rposition(|b| *b == b'/').unwrap_or(0);
        let (dir, name) = (p[..cut].to_vec(), p[cut + 1..].to_vec());
        if !self.nodes.contains_key(&dir) {
            self.mkdir(&dir);
        }
        if let Some(FNode::Dir(v)) = self.nodes.get_mut(&dir) {
            if !v.contains(&name) {
                v.push(name);
            }
        }
    }
    fn mkdir(&mut self, p: &[u8]) {
        self.init();
        if self.nodes.contains_key(p) {
            return;
        }
        self.link(p);
        self.nodes.insert(p.to_vec(), FNode::Dir(vec![]));
    }
    fn mkfile(&mut self, p: &[u8], data: Vec<(u8, E)>) {
        self.init();
        self.link(p);
        self.nodes.insert(p.to_vec(), FNode::File(Rc::new(data)));
    }
    fn fault(&self, p: &[u8], bit: u8) -> bool {
        self.fault.iter().any(|f| f.0 == p && f.1 & bit != 0)
    }
    fn lookup(&self, raw: &[u8]) -> Option<(&Vec<u8>, &FNode)> {
        let n = norm(raw);
        // a trailing slash or path through a file is an error
        match self.nodes.get_key_value(&n) {
            Some((k, v)) => {
                if raw.ends_with(b"/") {
                    if let FNode::File(_) = v {
                        return None;
                    }
                }
                Some((k, v))
            }
            None => None,
        }
    }
}

impl Worker {
    fn set_errno(&mut self, st: &mut State, e: u32) -> R<()> {
        let p = (self.errno as u64) << 32;
        self.store_u(st, &Val::I(p), &Val::I(e as u64), 4)
    }
    fn fail(&mut self, st: &mut State, e: u32) -> R<ExtRes> {
        self.set_errno(st, e)?;
        Ok(ExtRes::Val(Val::I(u64::MAX)))
    }
    fn fail32(&mut self, st: &mut State, e: u32) -> R<ExtRes> {
        self.set_errno(st, e)?;
        Ok(ExtRes::Val(Val::I(0xffff_ffff)))
    }
    fn strarg(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (self.conc(st, p)?, self.conc(st, n)?);
        let b = self.bytes(st, p, n)?;
        let mut v = vec![];
        for x in b {
            let e = self.be(x);
            let vv = self.v(e);
            v.push(self.conc(st, &vv)? as u8);
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    fn pathbytes(&mut self, st: &mut State, p: &Val, n: &Val) -> R<Vec<u8>> {
        Ok(norm(self.strarg(st, p, n)?.as_bytes()))
    }
    fn putbytes(&mut self, st: &mut State, p: u64, b: &[(u8, E)]) -> R<()> {
        for (i, x) in b.iter().enumerate() {
            let v = if x.1 != 0 { Val::S(x.1) } else { Val::I(x.0 as u64) };
            self.store_u(st, &Val::I(p + i as u64), &v, 1)?;
        }
        Ok(())
    }

    pub fn external(&mut self, p: &Prog, st: &mut State, x: Ext, fi: u32, a: &[Val]) -> R<ExtRes> {
        let val = |v| Ok(ExtRes::Val(v));
        match x {
            Ext::Normal => unreachable!(),
            Ext::Unknown => Err(Stop::Err(format!("call to unmodelled external {}", p.m.funcs[fi as usize].name))),
            Ext::Panic => {
                let mut who = String::new();
                for f in std::iter::once(&st.top).chain(st.frames.iter().rev().map(|f| &**f)) {
                    let n = &p.m.funcs[f.func as usize].name;
                    if n.contains("luafmt") {
                        who = crate::exec::short(n);
                        break;
                    }
                }
                Err(Stop::Viol(format!("panic in {}", who)))
            }
            Ext::Abort => Err(Stop::Viol("abort".into())),
            Ext::Malloc => {
                let n = self.conc(st, &a[0])?;
                if n > 1 << 28 {
                    return Err(Stop::Err("huge allocation".into()));
                }
                val(Val::I((st.mem.alloc(n, Kind::Heap) as u64) << 32))
            }
            Ext::Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                if n.saturating_mul(m) > 1 << 28 {
                    return Err(Stop::Err("huge allocation".into()));
                }
                val(Val::I((st.mem.alloc(n * m, Kind::Heap) as u64) << 32))
            }
            Ext::Memalign => {
                let pp = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                let o = st.mem.alloc(n, Kind::Heap);
                self.store_u(st, &Val::I(pp), &Val::I((o as u64) << 32), 8)?;
                val(Val::I(0))
            }
            Ext::Realloc => {
                let old = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if n > 1 << 28 {
                    return Err(Stop::Err("huge allocation".into()));
                }
                let o = st.mem.alloc(n, Kind::Heap);
                if old != 0 {
                    let oid = (old >> 32) as u32;
                    let osz = match st.mem.get(oid) {
                        Some(o) => o.data.len() as u64,
                        None => return Err(Stop::Err("realloc of dead object".into())),
                    };
                    self.memcpy(st, (o as u64) << 32, old, osz.min(n))?;
                    st.mem.dealloc(oid);
                }
                val(Val::I((o as u64) << 32))
            }
            Ext::Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    if st.mem.get(id).map(|o| o.kind) != Some(Kind::Heap) || p & 0xffff_ffff != 0 {
                        return Err(Stop::Err("invalid free".into()));
                    }
                    st.mem.dealloc(id);
                }
                val(Val::I(0))
            }
            Ext::Memcpy => {
                let (d, s, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                self.memcpy(st, d, s, n)?;
                val(Val::I(d))
            }
            Ext::Memset => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                val(a[0].clone())
            }
            Ext::Bcmp => {
                let (x, y, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let (bx, by) = (self.bytes(st, x, n)?, self.bytes(st, y, n)?);
                let e = self.bytes_eq(&bx, &by);
                let z = self.pool.konst(0, 32);
                let o = self.pool.konst(1, 32);
                let r = self.pool.ite(e, z, o);
                val(self.v(r))
            }
            Ext::Memcmp => {
                let (x, y, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let (bx, by) = (self.bytes(st, x, n)?, self.bytes(st, y, n)?);
                for i in 0..n as usize {
                    let (p, q) = (self.be(bx[i]), self.be(by[i]));
                    let e = self.pool.eq(p, q);
                    if !self.branch(st, e)? {
                        let l = self.pool.bin(Op::Ult, p, q);
                        return val(Val::I(if self.branch(st, l)? { 0xffff_ffff } else { 1 }));
                    }
                }
                val(Val::I(0))
            }
            Ext::Memchr | Ext::Memrchr => {
                let x_is_rev = x == Ext::Memrchr;
                let (x, n) = (self.conc(st, &a[0])?, self.conc(st, &a[2])?);
                let c = self.cast(CastK::Trunc, 32, 8, &a[1]);
                let c = self.e(&c, 8);
                let b = self.bytes(st, x, n)?;
                let order: Vec<usize> = if x_is_rev { (0..b.len()).rev().collect() } else { (0..b.len()).collect() };
                for i in order {
                    let q = self.be(b[i]);
                    let e = self.pool.eq(q, c);
                    if self.branch(st, e)? {
                        return val(Val::I(x + i as u64));
                    }
                }
                val(Val::I(0))
            }
            Ext::Strlen => {
                let x = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_u(st, &Val::I(x + n), 1)?;
                    let b = self.e(&b, 8);
                    let z = self.pool.konst(0, 8);
                    let e = self.pool.eq(b, z);
                    if self.branch(st, e)? {
                        return val(Val::I(n));
                    }
                    n += 1;
                }
            }
            Ext::Zero => val(Val::I(0)),
            Ext::MinusOne => {
                self.set_errno(st, 22)?;
                val(Val::I(u64::MAX))
            }
            Ext::Sysconf => val(Val::I(4096)),
            Ext::Errno => val(Val::I((self.errno as u64) << 32)),
            Ext::Getrandom => val(a[1].clone()),
            Ext::Exit => {
                if let Some(f) = p.m.fname.get("h_at_exit") {
                    if !st.exiting {
                        st.exiting = true;
                        return Ok(ExtRes::Call(*f, vec![a[0].clone()]));
                    }
                }
                Err(Stop::Done)
            }
            Ext::StrerrorR => {
                let p = self.conc(st, &a[1])?;
                self.putbytes(st, p, &[(b'e', 0), (b'r', 0), (b'r', 0), (0, 0)])?;
                val(Val::I(0))
            }
            // ---------- files ----------
            Ext::Open => {
                let pa = self.conc(st, &a[0])?;
                let raw = self.cstr(st, pa)?;
                let fl = self.conc(st, &a[1])?;
                let mut fs = (*st.fs).clone();
                fs.init();
                let path = norm(&raw);
                let wr = fl & 3 != 0;
                let isdir = match fs.lookup(&raw) {
                    Some((_, FNode::Dir(_))) => true,
                    Some((_, FNode::File(_))) => {
                        if fl & 0xc0 == 0xc0 {
                            return self.fail32(st, 17);
                        }
                        false
                    }
                    None => {
                        if fl & 0x40 == 0 || raw.ends_with(b"/") {
                            return self.fail32(st, 2);
                        }
                        let cut = path.iter().rposition(|b| *b == b'/').unwrap_or(0);
                        if !matches!(fs.nodes.get(&path[..cut]), Some(FNode::Dir(_))) {
                            return self.fail32(st, 2);
                        }
                        if fs.fault(&path, 4) {
                            return self.fail32(st, 13);
                        }
                        fs.ops += 1;
                        fs.mkfile(&path, vec![]);
                        false
                    }
                };
                if isdir && wr {
                    return self.fail32(st, 21);
                }
                if wr && fs.fault(&path, 4) || !wr && fs.fault(&path, 1) {
                    return self.fail32(st, 13);
                }
                if fl & 0x200 != 0 && wr {
                    fs.ops += 1;
                    fs.nodes.insert(path.clone(), FNode::File(Rc::new(vec![])));
                }
                if wr {
                    fs.wrote.push(path.clone());
                }
                let fd = fs.fds.len();
                fs.fds.push(Fd { path, pos: 0, kind: if isdir { 2 } else { 1 }, append: fl & 0x400 != 0, writable: wr });
                st.fs = Rc::new(fs);
                val(Val::I(fd as u64))
            }
            Ext::Close => val(Val::I(0)),
            Ext::Read => {
                let (fd, buf, n) = (self.conc(st, &a[0])? as u32 as usize, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let mut fs = (*st.fs).clone();
                fs.init();
                let f = match fs.fds.get(fd) {
                    Some(f) => f.clone(),
                    None => return self.fail(st, 9),
                };
                if fs.fault(&f.path, 2) {
                    return self.fail(st, 5);
                }
                let data: Vec<(u8, E)> = match f.kind {
                    3 => fs.stdin.clone(),
                    1 => match fs.nodes.get(&f.path) {
                        Some(FNode::File(d)) => (**d).clone(),
                        _ => vec![],
                    },
                    2 => return self.fail(st, 21),
                    _ => return self.fail(st, 9),
                };
                let end = (f.pos + n as usize).min(data.len());
                let start = f.pos.min(end);
                let chunk = data[start..end].to_vec();
                fs.fds[fd].pos = end;
                st.fs = Rc::new(fs);
                self.putbytes(st, buf, &chunk)?;
                val(Val::I(chunk.len() as u64))
            }
            Ext::Write => {
                let (fd, buf, n) = (self.conc(st, &a[0])? as u32 as usize, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let d = self.bytes(st, buf, n)?;
                self.fdwrite(st, fd, d)
            }
            Ext::Writev => {
                let (fd, iov, cnt) = (self.conc(st, &a[0])? as u32 as usize, self.conc(st, &a[1])?, self.conc(st, &a[2])? as u32);
                let mut d = vec![];
                for i in 0..cnt as u64 {
                    let b = self.load_u(st, &Val::I(iov + i * 16), 8)?;
                    let l = self.load_u(st, &Val::I(iov + i * 16 + 8), 8)?;
                    let (b, l) = (self.conc(st, &b)?, self.conc(st, &l)?);
                    d.extend(self.bytes(st, b, l)?);
                }
                self.fdwrite(st, fd, d)
            }
            Ext::Lseek => {
                let (fd, off, wh) = (self.conc(st, &a[0])? as u32 as usize, self.conc(st, &a[1])? as i64, self.conc(st, &a[2])? as u32);
                let mut fs = (*st.fs).clone();
                fs.init();
                if fd >= fs.fds.len() || fs.fds[fd].kind != 1 {
                    return self.fail(st, 29);
                }
                let len = match fs.nodes.get(&fs.fds[fd].path) {
                    Some(FNode::File(d)) => d.len() as i64,
                    _ => 0,
                };
                let np = match wh {
                    0 => off,
                    1 => fs.fds[fd].pos as i64 + off,
                    _ => len + off,
                };
                fs.fds[fd].pos = np as usize;
                st.fs = Rc::new(fs);
                val(Val::I(np as u64))
            }
            Ext::Statx => {
                let pa = self.conc(st, &a[1])?;
                let dirfd = self.conc(st, &a[0])? as u32 as i32;
                let fl = self.conc(st, &a[2])?;
                let buf = self.conc(st, &a[4])?;
                let mut fs = (*st.fs).clone();
                fs.init();
                if pa == 0 {
                    return self.fail32(st, 14);
                }
                let raw = self.cstr(st, pa)?;
                let r = if raw.is_empty() && fl & 0x1000 != 0 {
                    self.stat_of_fd(&fs, dirfd as usize)
                } else {
                    self.stat_of(&fs, &raw)
                };
                match r {
                    Some((mode, size)) => {
                        for i in 0..32 {
                            self.store_u(st, &Val::I(buf + i * 8), &Val::I(0), 8)?;
                        }
                        self.store_u(st, &Val::I(buf), &Val::I(0x7ff), 4)?;
                        self.store_u(st, &Val::I(buf + 16), &Val::I(1), 4)?;
                        self.store_u(st, &Val::I(buf + 28), &Val::I(mode), 2)?;
                        self.store_u(st, &Val::I(buf + 40), &Val::I(size), 8)?;
                        val(Val::I(0))
                    }
                    None => self.fail32(st, 2),
                }
            }
            Ext::Stat | Ext::Fstat => {
                let mut fs = (*st.fs).clone();
                fs.init();
                let r = if x == Ext::Stat {
                    let pa = self.conc(st, &a[0])?;
                    let raw = self.cstr(st, pa)?;
                    self.stat_of(&fs, &raw)
                } else {
                    let fd = self.conc(st, &a[0])? as u32 as usize;
                    self.stat_of_fd(&fs, fd)
                };
                let buf = self.conc(st, &a[1])?;
                match r {
                    Some((mode, size)) => {
                        for i in 0..18 {
                            self.store_u(st, &Val::I(buf + i * 8), &Val::I(0), 8)?;
                        }
                        self.store_u(st, &Val::I(buf + 24), &Val::I(mode), 4)?;
                        self.store_u(st, &Val::I(buf + 48), &Val::I(size), 8)?;
                        val(Val::I(0))
                    }
                    None => self.fail32(st, 2),
                }
            }
            Ext::Opendir => {
                let pa = self.conc(st, &a[0])?;
                let raw = self.cstr(st, pa)?;
                let mut fs = (*st.fs).clone();
                fs.init();
                let path = norm(&raw);
                match fs.lookup(&raw) {
                    Some((_, FNode::Dir(_))) => {}
                    Some(_) => {
                        self.set_errno(st, 20)?;
                        return val(Val::I(0));
                    }
                    None => {
                        self.set_errno(st, 2)?;
                        return val(Val::I(0));
                    }
                }
                if fs.fault(&path, 8) {
                    self.set_errno(st, 13)?;
                    return val(Val::I(0));
                }
                let fd = fs.fds.len();
                fs.fds.push(Fd { path, pos: 0, kind: 2, append: false, writable: false });
                st.fs = Rc::new(fs);
                let o = st.mem.alloc(320, Kind::Heap);
                let p = (o as u64) << 32;
                self.store_u(st, &Val::I(p), &Val::I(fd as u64), 8)?;
                val(Val::I(p))
            }
            Ext::Readdir => {
                let d = self.conc(st, &a[0])?;
                let fd = self.load_u(st, &Val::I(d), 8)?;
                let fd = self.conc(st, &fd)? as usize;
                let mut fs = (*st.fs).clone();
                let f = fs.fds[fd].clone();
                let mut names = vec![b".".to_vec(), b"..".to_vec()];
                if let Some(FNode::Dir(v)) = fs.nodes.get(&f.path) {
                    names.extend(v.iter().cloned());
                }
                if f.pos >= names.len() {
                    return val(Val::I(0));
                }
                let n = names[f.pos].clone();
                let mut full = f.path.clone();
                full.push(b'/');
                full.extend_from_slice(&n);
                let ty = match fs.nodes.get(&norm(&full)) {
                    Some(FNode::Dir(_)) => 4,
                    _ => 8,
                };
                fs.fds[fd].pos += 1;
                st.fs = Rc::new(fs);
                let e = d + 16;
                self.store_u(st, &Val::I(e), &Val::I(1), 8)?;
                self.store_u(st, &Val::I(e + 16), &Val::I(280), 2)?;
                self.store_u(st, &Val::I(e + 18), &Val::I(ty), 1)?;
                let mut bs: Vec<(u8, E)> = n.iter().map(|b| (*b, 0)).collect();
                bs.push((0, 0));
                self.putbytes(st, e + 19, &bs)?;
                val(Val::I(e))
            }
            Ext::Dirfd => {
                let d = self.conc(st, &a[0])?;
                let fd = self.load_u(st, &Val::I(d), 8)?;
                let fd = self.conc(st, &fd)?;
                val(Val::I(fd as u32 as u64))
            }
            Ext::Closedir => {
                let d = self.conc(st, &a[0])?;
                st.mem.dealloc((d >> 32) as u32);
                val(Val::I(0))
            }
            Ext::Realpath => {
                let pa = self.conc(st, &a[0])?;
                let raw = self.cstr(st, pa)?;
                let mut fs = (*st.fs).clone();
                fs.init();
                let n = norm(&raw);
                if fs.lookup(&raw).is_none() {
                    self.set_errno(st, 2)?;
                    return val(Val::I(0));
                }
                let out = self.conc(st, &a[1])?;
                let mut bs: Vec<(u8, E)> = n.iter().map(|b| (*b, 0)).collect();
                if bs.is_empty() {
                    bs.push((b'/', 0));
                }
                bs.push((0, 0));
                let dst = if out == 0 { (st.mem.alloc(bs.len() as u64, Kind::Heap) as u64) << 32 } else { out };
                self.putbytes(st, dst, &bs)?;
                val(Val::I(dst))
            }
            Ext::Getcwd => {
                let p = self.conc(st, &a[0])?;
                let mut bs: Vec<(u8, E)> = CWD.iter().map(|b| (*b, 0)).collect();
                bs.push((0, 0));
                self.putbytes(st, p, &bs)?;
                val(Val::I(p))
            }
            Ext::Rename => {
                let (x, y) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let (rx, ry) = (self.cstr(st, x)?, self.cstr(st, y)?);
                let mut fs = (*st.fs).clone();
                fs.init();
                let (px, py) = (norm(&rx), norm(&ry));
                match fs.nodes.remove(&px) {
                    None => return self.fail32(st, 2),
                    Some(n) => {
                        let cut = px.iter().rposition(|b| *b == b'/').unwrap_or(0);
                        let (dir, name) = (px[..cut].to_vec(), px[cut + 1..].to_vec());
                        if let Some(FNode::Dir(v)) = fs.nodes.get_mut(&dir) {
                            v.retain(|e| *e != name);
                        }
                        fs.link(&py);
                        fs.ops += 1;
                        fs.wrote.push(py.clone());
                        fs.nodes.insert(py, n);
                    }
                }
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            Ext::Unlink => {
                let x = self.conc(st, &a[0])?;
                let rx = self.cstr(st, x)?;
                let mut fs = (*st.fs).clone();
                fs.init();
                let px = norm(&rx);
                if fs.nodes.remove(&px).is_none() {
                    return self.fail32(st, 2);
                }
                let cut = px.iter().rposition(|b| *b == b'/').unwrap_or(0);
                let (dir, name) = (px[..cut].to_vec(), px[cut + 1..].to_vec());
                if let Some(FNode::Dir(v)) = fs.nodes.get_mut(&dir) {
                    v.retain(|e| *e != name);
                }
                fs.ops += 1;
                fs.wrote.push(px);
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            Ext::Mkdir => {
                let x = self.conc(st, &a[0])?;
                let rx = self.cstr(st, x)?;
                let mut fs = (*st.fs).clone();
                fs.mkdir(&norm(&rx));
                fs.ops += 1;
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            // ---------- harness intrinsics ----------
            Ext::ArgU8 => {
                let i = st.model.len() as u32;
                if i >= 128 {
                    return Err(Stop::Err("more than 128 symbolic bytes".into()));
                }
                st.model.push(0);
                val(Val::S(self.pool.var(i)))
            }
            Ext::Assume => {
                let e = self.e(&a[0], 1);
                self.assume(st, e)?;
                val(Val::I(0))
            }
            Ext::Assert => {
                let msg = self.strarg(st, &a[1], &a[2])?;
                let e = self.e(&a[0], 1);
                self.assert(st, e, &msg)?;
                val(Val::I(0))
            }
            Ext::Fail => {
                let msg = self.strarg(st, &a[0], &a[1])?;
                self.stats.asserts += 1;
                Err(Stop::Viol(msg))
            }
            Ext::Job => val(Val::I(self.job as u64)),
            Ext::Conc => {
                let k = self.conc(st, &a[0])?;
                val(Val::I(k))
            }
            Ext::Report => {
                let tag = self.strarg(st, &a[0], &a[1])?;
                let (p, n) = (self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let b = self.bytes(st, p, n)?;
                st.reports.push(Rc::new(Report { tag, bytes: b }));
                val(Val::I(0))
            }
            Ext::Cover => {
                let k = self.conc(st, &a[0])? as u32;
                if !st.covers.contains(&k) {
                    st.covers.push(k);
                }
                val(Val::I(0))
            }
            Ext::IsSym => val(Val::I(1)),
            Ext::Print => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let b = self.bytes(st, p, n)?;
                if self.cfg.verbose {
                    let s: String = b.iter().map(|(c, e)| if *e != 0 { format!("<{}>", self.pool.show(*e)) } else { (*c as char).to_string() }).collect();
                    eprintln!("[print] {}", s);
                }
                val(Val::I(0))
            }
            Ext::FsFile => {
                let path = self.pathbytes(st, &a[0], &a[1])?;
                let (p, n) = (self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let b = self.bytes(st, p, n)?;
                let mut fs = (*st.fs).clone();
                fs.mkfile(&path, b);
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            Ext::FsDir => {
                let path = self.pathbytes(st, &a[0], &a[1])?;
                let mut fs = (*st.fs).clone();
                fs.mkdir(&path);
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            Ext::FsRead => {
                // sym_fs_read(path, len, buf, cap) -> length, or -1 when missing
                let path = self.pathbytes(st, &a[0], &a[1])?;
                let (p, n) = (self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let d = match st.fs.nodes.get(&path) {
                    Some(FNode::File(d)) => (**d).clone(),
                    _ => return val(Val::I(u64::MAX)),
                };
                if d.len() as u64 > n {
                    return Err(Stop::Err("fs_read buffer".into()));
                }
                self.putbytes(st, p, &d)?;
                val(Val::I(d.len() as u64))
            }
            Ext::FsOut => {
                // sym_fs_out(which, buf, cap) -> length
                let w = self.conc(st, &a[0])?;
                let (p, n) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let d = if w == 1 { st.fs.out.clone() } else { st.fs.err.clone() };
                if d.len() as u64 > n {
                    return Err(Stop::Err("fs_out buffer".into()));
                }
                self.putbytes(st, p, &d)?;
                val(Val::I(d.len() as u64))
            }
            Ext::FsStdin => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let b = self.bytes(st, p, n)?;
                let mut fs = (*st.fs).clone();
                fs.init();
                fs.stdin = b;
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            Ext::FsFault => {
                let path = self.pathbytes(st, &a[0], &a[1])?;
                let w = self.conc(st, &a[2])? as u8;
                let mut fs = (*st.fs).clone();
                fs.init();
                fs.fault.push((path, w));
                st.fs = Rc::new(fs);
                val(Val::I(0))
            }
            Ext::FsOps => val(Val::I(st.fs.ops as u64)),
            Ext::SetArgs => {
                // sym_set_args(argc, argv)
                for (i, g) in p.m.globals.iter().enumerate() {
                    if g.name.contains("4args") && (g.name.contains("4ARGC") || g.name.contains("4ARGV")) {
                        let is_c = g.name.contains("4ARGC");
                        let o = (i as u64 + 1) << 32;
                        if is_c {
                            self.store_u(st, &Val::I(o), &a[0], 8)?;
                        } else {
                            self.store_u(st, &Val::I(o), &a[1], 8)?;
                        }
                    }
                }
                val(Val::I(0))
            }
        }
    }
    fn stat_of(&self, fs: &Fs, raw: &[u8]) -> Option<(u64, u64)> {
        match fs.lookup(raw) {
            Some((_, FNode::Dir(_))) => Some((0o040755, 4096)),
            Some((_, FNode::File(d))) => Some((0o100644, d.len() as u64)),
            None => None,
        }
    }
    fn stat_of_fd(&self, fs: &Fs, fd: usize) -> Option<(u64, u64)> {
        let f = fs.fds.get(fd)?;
        match f.kind {
            1 | 2 => match fs.nodes.get(&f.path) {
                Some(FNode::Dir(_)) => Some((0o040755, 4096)),
                Some(FNode::File(d)) => Some((0o100644, d.len() as u64)),
                None => None,
            },
            _ => Some((0o010600, 0)),
        }
    }
    fn fdwrite(&mut self, st: &mut State, fd: usize, d: Vec<(u8, E)>) -> R<ExtRes> {
        let mut fs = (*st.fs).clone();
        fs.init();
        let f = match fs.fds.get(fd) {
            Some(f) => f.clone(),
            None => return self.fail(st, 9),
        };
        let n = d.len();
        match f.kind {
            4 => fs.out.extend(d),
            5 => fs.err.extend(d),
            1 if f.writable => {
                if fs.fault(&f.path, 16) {
                    return self.fail(st, 28);
                }
                fs.ops += 1;
                let mut cur = match fs.nodes.get(&f.path) {
                    Some(FNode::File(c)) => (**c).clone(),
                    _ => vec![],
                };
                let pos = if f.append { cur.len() } else { f.pos };
                while cur.len() < pos + n {
                    cur.push((0, 0));
                }
                cur[pos..pos + n].copy_from_slice(&d);
                fs.fds[fd].pos = pos + n;
                fs.nodes.insert(f.path, FNode::File(Rc::new(cur)));
            }
            _ => return self.fail(st, 9),
        }
        st.fs = Rc::new(fs);
        Ok(ExtRes::Val(Val::I(n as u64)))
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let (d, n) = (self.conc(st, d)?, self.conc(st, n)?);
        if n == 0 {
            return Ok(());
        }
        match v {
            Val::I(k) => {
                let (id, off) = ((d >> 32) as u32, (d & 0xffff_ffff) as usize);
                match st.mem.get(id) {
                    Some(o) if off + n as usize <= o.data.len() => {}
                    _ => return Err(Stop::Err("memset out of bounds".into())),
                }
                let o = st.mem.get_mut(id).unwrap();
                o.data[off..off + n as usize].fill(*k as u8);
                if !o.sym.is_empty() {
                    o.sym[off..off + n as usize].fill(0);
                }
                Ok(())
            }
            v => {
                let e = self.e(v, 8);
                for i in 0..n {
                    self.store_u(st, &Val::I(d + i), &Val::S(e), 1)?;
                }
                Ok(())
            }
        }
    }
    pub fn intrinsic(&mut self, st: &mut State, i: Intr, c: &Call, a: &[Val]) -> R<Val> {
        let w = || c.args[0].0.bits();
        match i {
            Intr::Nop => Ok(a.get(0).cloned().unwrap_or(Val::I(0))),
            Intr::Ident | Intr::Expect => Ok(a[0].clone()),
            Intr::Memcpy => {
                let (d, s, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                self.memcpy(st, d, s, n)?;
                Ok(Val::I(0))
            }
            Intr::Memset => {
                self.memset(st, &a[0], &a[1], &a[2])?;
                Ok(Val::I(0))
            }
            Intr::Trap => Err(Stop::Viol("trap".into())),
            Intr::IsConst => Ok(Val::I(0)),
            Intr::ObjSize => Ok(Val::I(u64::MAX)),
            Intr::PtrMask => self.bin(Bin::And, 64, &a[0], &a[1]),
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                if let Ty::Vector(..) = c.args[0].0 {
                    return Err(Stop::Err("vector min/max".into()));
                }
                let w = w();
                let pr = match i {
                    Intr::UMin => Pred::Ult,
                    Intr::UMax => Pred::Ugt,
                    Intr::SMin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let t = self.icmp(pr, w, &a[0], &a[1]);
                self.sel(t, w, &a[0], &a[1])
            }
            Intr::USubSat => {
                let w = w();
                let d = self.bin(Bin::Sub, w, &a[0], &a[1])?;
                let t = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                self.sel(t, w, &Val::I(0), &d)
            }
            Intr::UAddSat => {
                let w = w();
                let d = self.bin(Bin::Add, w, &a[0], &a[1])?;
                let t = self.icmp(Pred::Ult, w, &d, &a[0]);
                self.sel(t, w, &Val::I(m64(w)), &d)
            }
            Intr::Abs => {
                let w = w();
                let n = self.bin(Bin::Sub, w, &Val::I(0), &a[0])?;
                let t = self.icmp(Pred::Slt, w, &a[0], &Val::I(0));
                self.sel(t, w, &n, &a[0])
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let w = w();
                let (op, signed) = match i {
                    Intr::UAddO => (Bin::Add, false),
                    Intr::USubO => (Bin::Sub, false),
                    Intr::UMulO => (Bin::Mul, false),
                    Intr::SAddO => (Bin::Add, true),
                    Intr::SSubO => (Bin::Sub, true),
                    _ => (Bin::Mul, true),
                };
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) {
                    if w <= 64 {
                        let (lo, hi, r): (i128, i128, i128);
                        if signed {
                            let (p, q) = (sx(*x as u128, w), sx(*y as u128, w));
                            r = match op {
                                Bin::Add => p + q,
                                Bin::Sub => p - q,
                                _ => p * q,
                            };
                            lo = -(1i128 << (w - 1));
                            hi = (1i128 << (w - 1)) - 1;
                            let o = r < lo || r > hi;
                            return Ok(Val::A(Rc::new(vec![Val::I(r as u64 & m64(w)), Val::I(o as u64)])));
                        }
                        let (p, q) = (*x as u128, *y as u128);
                        let (rr, o) = match op {
                            Bin::Add => (p + q, p + q > m64(w) as u128),
                            Bin::Sub => (p.wrapping_sub(q), p < q),
                            _ => (p * q, p * q > m64(w) as u128),
                        };
                        return Ok(Val::A(Rc::new(vec![Val::I(rr as u64 & m64(w)), Val::I(o as u64)])));
                    }
                }
                let ww = if op == Bin::Mul { w * 2 } else { w + 1 };
                let ck = if signed { CastK::SExt } else { CastK::ZExt };
                let x = self.cast(ck, w, ww, &a[0]);
                let y = self.cast(ck, w, ww, &a[1]);
                let (x, y) = (self.e(&x, ww), self.e(&y, ww));
                let o = match op {
                    Bin::Add => Op::Add,
                    Bin::Sub => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.pool.bin(o, x, y);
                let lo = self.pool.extract(r, 0, w);
                let back = if signed { self.pool.sext(lo, ww) } else { self.pool.zext(lo, ww) };
                let ok = self.pool.eq(back, r);
                let of = self.pool.not(ok);
                let (l, o) = (self.v(lo), self.v(of));
                Ok(Val::A(Rc::new(vec![l, o])))
            }
            Intr::UCmp | Intr::SCmp => {
                let w = w();
                let rw = c.ret.bits();
                let (p1, p2) = if i == Intr::UCmp { (Pred::Ult, Pred::Eq) } else { (Pred::Slt, Pred::Eq) };
                let lt = self.icmp(p1, w, &a[0], &a[1]);
                let eq = self.icmp(p2, w, &a[0], &a[1]);
                let x = self.sel(eq, rw, &Val::I(0), &Val::I(1))?;
                self.sel(lt, rw, &Val::I(m64(rw)), &x)
            }
            Intr::Fshl | Intr::Fshr => {
                let w = w();
                let s = self.bin(Bin::URem, w, &a[2], &Val::I(w as u64))?;
                let r = self.bin(Bin::Sub, w, &Val::I(w as u64), &s)?;
                let (l, h) = if i == Intr::Fshl { (s, r) } else { (r, s) };
                // fshl: (a << s) | (b >> (w - s)); shifts >= w give 0
                let x = self.bin(Bin::Shl, w, &a[0], &l)?;
                let y = self.bin(Bin::LShr, w, &a[1], &h)?;
                self.bin(Bin::Or, w, &x, &y)
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::Bitreverse => {
                let w = w();
                if let Val::I(x) = &a[0] {
                    let x = *x;
                    let r = match i {
                        Intr::Ctlz => {
                            if x == 0 {
                                w as u64
                            } else {
                                (x.leading_zeros() - (64 - w)) as u64
                            }
                        }
                        Intr::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Intr::Ctpop => x.count_ones() as u64,
                        Intr::Bswap => x.swap_bytes() >> (64 - w),
                        _ => x.reverse_bits() >> (64 - w),
                    };
                    return Ok(Val::I(r));
                }
                let e = self.e(&a[0], w);
                let bit = |s: &mut Worker, k: u32| s.pool.extract(e, k, 1);
                let r = match i {
                    Intr::Cttz => {
                        let mut r = self.pool.konst(w as u128, w);
                        for k in (0..w).rev() {
                            let b = bit(self, k);
                            let kk = self.pool.konst(k as u128, w);
                            r = self.pool.ite(b, kk, r);
                        }
                        r
                    }
                    Intr::Ctlz => {
                        let mut r = self.pool.konst(w as u128, w);
                        for k in 0..w {
                            let b = bit(self, k);
                            let kk = self.pool.konst((w - 1 - k) as u128, w);
                            r = self.pool.ite(b, kk, r);
                        }
                        r
                    }
                    Intr::Ctpop => {
                        let mut r = self.pool.konst(0, w);
                        for k in 0..w {
                            let b = bit(self, k);
                            let b = self.pool.zext(b, w);
                            r = self.pool.bin(Op::Add, r, b);
                        }
                        r
                    }
                    Intr::Bswap => {
                        let mut r = self.pool.extract(e, 0, 8);
                        for k in 1..w / 8 {
                            let b = self.pool.extract(e, k * 8, 8);
                            r = self.pool.concat(r, b);
                        }
                        r
                    }
                    _ => {
                        let mut r = bit(self, 0);
                        for k in 1..w {
                            let b = bit(self, k);
                            r = self.pool.concat(r, b);
                        }
                        r
                    }
                };
                Ok(self.v(r))
            }
            Intr::VecReduceOr | Intr::VecReduceAnd | Intr::VecReduceAdd => {
                let et = match &c.args[0].0 {
                    Ty::Vector(_, t) => t.bits(),
                    _ => 0,
                };
                if let Val::A(v) = &a[0] {
                    let mut r = v[0].clone();
                    let op = match i {
                        Intr::VecReduceOr => Bin::Or,
                        Intr::VecReduceAnd => Bin::And,
                        _ => Bin::Add,
                    };
                    for x in v.iter().skip(1) {
                        r = self.bin(op, et, &r, x)?;
                    }
                    return Ok(r);
                }
                Err(Stop::Err("vector reduce".into()))
            }
            _ => Err(Stop::Err(format!("intrinsic {:?}", i))),
        }
    }
    fn sel(&mut self, c: Val, w: u32, a: &Val, b: &Val) -> R<Val> {
        match c {
            Val::I(k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::S(e) => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.pool.ite(e, x, y);
                Ok(self.v(r))
            }
            _ => Err(Stop::Err("sel".into())),
        }
    }
}

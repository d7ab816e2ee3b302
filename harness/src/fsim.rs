//! File-system interposition. The functions below replace the C library's for this process: they
//! perform the system call, unless a plan is armed and the call is a storage access below the
//! scratch directory the plan is about. A plan counts accesses, makes one of them fail, or stops
//! the machine at one of them (every later modification has no effect). For the latter the state
//! that was certainly flushed is tracked, so that a loss of unflushed data can be simulated.
use libc::{c_char, c_int, c_void, mode_t, off_t, size_t, ssize_t};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    OpenRead,
    OpenWrite,
    Read,
    Write,
    Stat,
    Sync,
    Truncate,
    Mkdir,
    Unlink,
    Rename,
    Link,
    OpenDir,
    ReadDir,
    Lock,
    Seek,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub class: Class,
    pub path: String,
    pub len: usize,
    /// changes the file system
    pub mutating: bool,
}

#[derive(Clone, Copy, Debug)]
pub enum Plan {
    Count,
    /// the accesses numbered at..at+width fail
    Fault { at: usize, width: usize, errno: c_int },
    /// read or write number `at` (if it is one) transfers less than was asked for
    Short { at: usize },
    /// the machine stops at the modifying (or syncing) access number `at`
    Crash { at: usize, torn: bool },
}

#[derive(Default, Clone)]
struct Durable {
    next: u64,
    /// inode -> identity (identities are never reused)
    vids: HashMap<u64, u64>,
    /// flushed contents of files
    files: HashMap<u64, Vec<u8>>,
    /// flushed entries of directories: name -> (identity, is directory)
    dirs: HashMap<u64, BTreeMap<Vec<u8>, (u64, bool)>>,
}

impl Durable {
    fn vid(&mut self, ino: u64) -> u64 {
        if let Some(v) = self.vids.get(&ino) {
            return *v;
        }
        self.next += 1;
        self.vids.insert(ino, self.next);
        self.next
    }
}

struct St {
    root: PathBuf,
    plan: Plan,
    n: usize,
    log: Vec<Op>,
    m: usize,
    hit: Option<Op>,
    crashed: bool,
    dur: Durable,
}

static ARMED: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<St>> = Mutex::new(None);

/// What happened while a plan was armed.
#[derive(Debug, Clone)]
pub struct Outcome {
    pub log: Vec<Op>,
    pub hit: Option<Op>,
}

fn raw_ino(fd: c_int) -> Option<u64> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::syscall(libc::SYS_fstat, fd, &mut st as *mut libc::stat) == 0 {
            Some(st.st_ino)
        } else {
            None
        }
    }
}

fn raw_lstat(p: &CStr) -> Option<libc::stat> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p.as_ptr(), &mut st as *mut libc::stat, libc::AT_SYMLINK_NOFOLLOW) == 0 {
            Some(st)
        } else {
            None
        }
    }
}

fn cpath(p: &Path) -> CString {
    CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// reads a whole file without going through the interposed functions' bookkeeping
fn raw_contents(p: &CStr) -> Vec<u8> {
    unsafe {
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p.as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0) as c_int;
        if fd < 0 {
            return vec![];
        }
        let mut out = vec![];
        let mut buf = [0u8; 16384];
        loop {
            let n = libc::syscall(libc::SYS_read, fd, buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::syscall(libc::SYS_close, fd);
        out
    }
}

/// lists a directory: name, inode, is directory
fn raw_list(p: &CStr) -> Vec<(Vec<u8>, u64, bool)> {
    let mut v = vec![];
    unsafe {
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p.as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0) as c_int;
        if fd < 0 {
            return v;
        }
        let mut buf = vec![0u8; 32768];
        loop {
            let n = libc::syscall(libc::SYS_getdents64, fd, buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            let mut o = 0usize;
            while o < n as usize {
                let ino = u64::from_ne_bytes(buf[o..o + 8].try_into().unwrap());
                let len = u16::from_ne_bytes(buf[o + 16..o + 18].try_into().unwrap()) as usize;
                let ty = buf[o + 18];
                let name = &buf[o + 19..o + len];
                let end = name.iter().position(|c| *c == 0).unwrap_or(name.len());
                let name = name[..end].to_vec();
                if name != b"." && name != b".." {
                    v.push((name, ino, ty == libc::DT_DIR));
                }
                o += len;
            }
        }
        libc::syscall(libc::SYS_close, fd);
    }
    v
}

fn join(p: &CStr, name: &[u8]) -> CString {
    let mut v = p.to_bytes().to_vec();
    v.push(b'/');
    v.extend_from_slice(name);
    CString::new(v).unwrap()
}

fn baseline(d: &mut Durable, p: &CStr) {
    let ino = match raw_lstat(p) {
        Some(s) => s.st_ino,
        None => return,
    };
    let v = d.vid(ino);
    let mut entries = BTreeMap::new();
    for (name, ino, isdir) in raw_list(p) {
        let c = d.vid(ino);
        let child = join(p, &name);
        if isdir {
            baseline(d, &child);
        } else {
            d.files.insert(c, raw_contents(&child));
        }
        entries.insert(name, (c, isdir));
    }
    d.dirs.insert(v, entries);
}

pub fn arm(root: &Path, plan: Plan) {
    let mut dur = Durable::default();
    if let Plan::Crash { .. } = plan {
        baseline(&mut dur, &cpath(root));
    }
    *STATE.lock().unwrap() = Some(St { root: root.to_path_buf(), plan, n: 0, log: vec![], m: 0, hit: None, crashed: false, dur });
    ARMED.store(true, Ordering::SeqCst);
}

pub fn crashed() -> bool {
    STATE.lock().unwrap().as_ref().map(|s| s.crashed).unwrap_or(false)
}

pub fn hit() -> Option<Op> {
    STATE.lock().unwrap().as_ref().and_then(|s| s.hit.clone())
}

/// number of accesses so far
pub fn count() -> usize {
    STATE.lock().unwrap().as_ref().map(|s| s.n).unwrap_or(0)
}

pub struct Crashed {
    dur: Durable,
    root: PathBuf,
}

pub fn disarm() -> (Outcome, Crashed) {
    ARMED.store(false, Ordering::SeqCst);
    let s = STATE.lock().unwrap().take().expect("armed");
    (Outcome { log: s.log, hit: s.hit }, Crashed { dur: s.dur, root: s.root })
}

fn rnd(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *x >> 33
}

impl Crashed {
    /// Writes what may be left after a loss of unflushed data into `to`. With `mix` = None only
    /// what was flushed is left; otherwise each unflushed change survives or not at random.
    /// Returns whether that differs from what was there.
    pub fn materialize(&mut self, to: &Path, mix: Option<u64>) -> bool {
        let root = cpath(&self.root);
        let vid = self.dur.vid(raw_lstat(&root).unwrap().st_ino);
        // where the current contents of each identity are found
        let mut now: HashMap<u64, CString> = HashMap::new();
        let mut nowdirs: HashMap<u64, BTreeMap<Vec<u8>, (u64, bool)>> = HashMap::new();
        fn walk(d: &mut Durable, p: &CStr, v: u64, now: &mut HashMap<u64, CString>, nowdirs: &mut HashMap<u64, BTreeMap<Vec<u8>, (u64, bool)>>) {
            let mut e = BTreeMap::new();
            for (name, ino, isdir) in raw_list(p) {
                let c = d.vid(ino);
                let child = join(p, &name);
                if isdir {
                    walk(d, &child, c, now, nowdirs);
                }
                now.insert(c, child);
                e.insert(name, (c, isdir));
            }
            nowdirs.insert(v, e);
        }
        walk(&mut self.dur, &root, vid, &mut now, &mut nowdirs);
        let mut x = mix.unwrap_or(0).wrapping_mul(2).wrapping_add(1);
        for _ in 0..3 {
            rnd(&mut x);
        }
        let mut differs = false;
        std::fs::create_dir_all(to).unwrap();
        let mut stack = vec![(vid, to.to_path_buf())];
        let empty = BTreeMap::new();
        while let Some((v, p)) = stack.pop() {
            let durable = self.dur.dirs.get(&v).unwrap_or(&empty);
            let current = nowdirs.get(&v).unwrap_or(&empty);
            let mut names: Vec<&Vec<u8>> = durable.keys().chain(current.keys()).collect();
            names.sort();
            names.dedup();
            for name in names {
                let (a, b) = (durable.get(name), current.get(name));
                let pick = if a == b {
                    a
                } else {
                    differs = true;
                    match mix {
                        None => a,
                        Some(_) => {
                            if rnd(&mut x) % 2 == 0 {
                                a
                            } else {
                                b
                            }
                        }
                    }
                };
                let (c, isdir) = match pick {
                    None => continue,
                    Some(z) => *z,
                };
                let path = p.join(OsStr::from_bytes(name));
                if isdir {
                    std::fs::create_dir_all(&path).unwrap();
                    stack.push((c, path));
                    continue;
                }
                let flushed = self.dur.files.get(&c).cloned();
                let cur = match now.get(&c) {
                    Some(q) => Some(raw_contents(q)),
                    // unlinked or replaced: the entry comes back with what has been flushed
                    None => flushed.clone(),
                };
                let data = if flushed == cur {
                    cur.unwrap_or_default()
                } else {
                    differs = true;
                    let f = flushed.unwrap_or_default();
                    let n = cur.unwrap_or_default();
                    match mix {
                        None => f,
                        Some(_) => match rnd(&mut x) % 4 {
                            0 => f,
                            1 => n,
                            // the new size with the old data
                            2 => {
                                let mut d = f;
                                d.resize(n.len(), 0);
                                d
                            }
                            // part of the new data
                            _ => {
                                if n.len() > 512 {
                                    let k = (n.len() / 2 / 512).max(1) * 512;
                                    n[..k].to_vec()
                                } else if f.is_empty() {
                                    vec![]
                                } else {
                                    n
                                }
                            }
                        },
                    }
                };
                std::fs::write(&path, data).unwrap();
            }
        }
        differs
    }
}

// ---- deciding what happens to an access ----

enum Act {
    Real,
    Fail(c_int),
    Short,
    /// perform the first n bytes, then fail
    Torn(usize),
}

pub fn under(root: &Path, p: &[u8]) -> Option<String> {
    let r = root.as_os_str().as_bytes();
    if p.len() >= r.len() && &p[..r.len()] == r && (p.len() == r.len() || p[r.len()] == b'/') {
        Some(String::from_utf8_lossy(&p[r.len()..]).into_owned())
    } else {
        None
    }
}

fn fd_path(fd: c_int) -> Option<Vec<u8>> {
    let l = format!("/proc/self/fd/{}\0", fd);
    let mut buf = [0u8; 4096];
    let n = unsafe { libc::syscall(libc::SYS_readlinkat, libc::AT_FDCWD, l.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    if n <= 0 {
        return None;
    }
    Some(buf[..n as usize].to_vec())
}

fn decide(st: &mut St, class: Class, path: String, len: usize, mutating: bool) -> Act {
    let op = Op { class, path, len, mutating };
    let n = st.n;
    st.n += 1;
    let counts = mutating || class == Class::Sync;
    let m = st.m;
    if counts {
        st.m += 1;
    }
    let act = match st.plan {
        Plan::Count => Act::Real,
        Plan::Fault { at, width, errno } => {
            if n >= at && n < at + width {
                if st.hit.is_none() {
                    st.hit = Some(op.clone());
                }
                Act::Fail(errno)
            } else {
                Act::Real
            }
        }
        Plan::Short { at } => {
            if n == at && matches!(class, Class::Read | Class::Write) && len > 1 {
                st.hit = Some(op.clone());
                Act::Short
            } else {
                Act::Real
            }
        }
        Plan::Crash { at, torn } => {
            if st.crashed {
                if counts {
                    Act::Fail(libc::EIO)
                } else {
                    Act::Real
                }
            } else if counts && m == at {
                st.crashed = true;
                st.hit = Some(op.clone());
                if torn && class == Class::Write && len > 512 {
                    Act::Torn((len / 2 / 512).max(1) * 512)
                } else {
                    Act::Fail(libc::EIO)
                }
            } else {
                Act::Real
            }
        }
    };
    st.log.push(op);
    act
}

fn fail(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// Decides about an access and performs it. Modifications are performed while the state is
/// locked, so that their order is known.
fn access<F: Fn(Option<usize>) -> i64, G: FnOnce(&mut St)>(path: Option<Vec<u8>>, class: Class, len: usize, mutating: bool, real: F, after: G) -> i64 {
    let path = match path {
        Some(p) => p,
        None => return real(None),
    };
    if crate::conc::gating() {
        crate::conc::before(&path, &format!("{:?}", class), false);
    }
    let mut g = match STATE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    let st = match g.as_mut() {
        Some(s) => s,
        None => {
            drop(g);
            return real(None);
        }
    };
    let rel = match under(&st.root, &path) {
        Some(r) => r,
        None => {
            drop(g);
            return real(None);
        }
    };
    match decide(st, class, rel, len, mutating) {
        Act::Real => {
            if mutating || class == Class::Sync {
                let r = real(None);
                if r >= 0 {
                    let e = unsafe { *libc::__errno_location() };
                    after(st);
                    unsafe { *libc::__errno_location() = e };
                }
                r
            } else {
                drop(g);
                real(None)
            }
        }
        Act::Fail(e) => fail(e) as i64,
        Act::Short => real(Some((len / 2).max(1))),
        Act::Torn(k) => {
            real(Some(k));
            fail(libc::EIO) as i64
        }
    }
}

/// Let accesses be seen by the gate although no plan is armed.
pub fn watch(on: bool) {
    ARMED.store(on, Ordering::SeqCst);
}

fn armed() -> bool {
    ARMED.load(Ordering::Relaxed)
}

unsafe fn path_arg(dir: c_int, p: *const c_char) -> Option<Vec<u8>> {
    if p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.is_empty() {
        return fd_path(dir);
    }
    if b[0] == b'/' || dir == libc::AT_FDCWD {
        return Some(b.to_vec());
    }
    let mut d = fd_path(dir)?;
    d.push(b'/');
    d.extend_from_slice(b);
    Some(d)
}

fn ret(r: i64) -> i64 {
    r
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || libc::syscall(libc::SYS_openat, dir, path, flags, mode as c_int);
    if !armed() {
        return real() as c_int;
    }
    let p = path_arg(dir, path);
    let creates = flags & libc::O_CREAT != 0 && p.as_ref().map(|p| raw_lstat(&CString::new(p.clone()).unwrap()).is_none()).unwrap_or(false);
    let mutating = creates || flags & libc::O_TRUNC != 0;
    let w = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    let class = if flags & libc::O_DIRECTORY != 0 {
        Class::OpenDir
    } else if w {
        Class::OpenWrite
    } else {
        Class::OpenRead
    };
    access(p, class, 0, mutating, |_| real(), |_| ()) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let real = |k: Option<usize>| libc::syscall(libc::SYS_read, fd, buf, k.unwrap_or(n));
    if !armed() {
        return real(None) as ssize_t;
    }
    ret(access(fd_path(fd), Class::Read, n, false, real, |_| ())) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    let real = |k: Option<usize>| libc::syscall(libc::SYS_pread64, fd, buf, k.unwrap_or(n), off);
    if !armed() {
        return real(None) as ssize_t;
    }
    access(fd_path(fd), Class::Read, n, false, real, |_| ()) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let real = |k: Option<usize>| libc::syscall(libc::SYS_write, fd, buf, k.unwrap_or(n));
    if !armed() {
        return real(None) as ssize_t;
    }
    access(fd_path(fd), Class::Write, n, true, real, |_| ()) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    let real = |k: Option<usize>| libc::syscall(libc::SYS_pwrite64, fd, buf, k.unwrap_or(n), off);
    if !armed() {
        return real(None) as ssize_t;
    }
    access(fd_path(fd), Class::Write, n, true, real, |_| ()) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_writev, fd, iov, cnt);
    if !armed() {
        return real(None) as ssize_t;
    }
    let n: usize = (0..cnt as usize).map(|i| (*iov.add(i)).iov_len).sum();
    let f = |k: Option<usize>| match k {
        None => real(None),
        Some(k) => {
            // the first k bytes
            let first = &*iov;
            libc::syscall(libc::SYS_write, fd, first.iov_base, k.min(first.iov_len).max(1.min(first.iov_len)))
        }
    };
    access(fd_path(fd), Class::Write, n, true, f, |_| ()) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_lseek, fd, off, whence);
    if !armed() {
        return real(None);
    }
    access(fd_path(fd), Class::Seek, 0, false, real, |_| ())
}

unsafe fn do_truncate(fd: c_int, len: off_t) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_ftruncate, fd, len);
    if !armed() {
        return real(None) as c_int;
    }
    access(fd_path(fd), Class::Truncate, len as usize, true, real, |_| ()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    do_truncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    do_truncate(fd, len)
}

fn flushed(st: &mut St, fd: c_int) {
    if !matches!(st.plan, Plan::Crash { .. }) {
        return;
    }
    let ino = match raw_ino(fd) {
        Some(i) => i,
        None => return,
    };
    let v = st.dur.vid(ino);
    let p = match fd_path(fd) {
        Some(p) => p,
        None => return,
    };
    // reading through /proc also works for unlinked files
    let l = CString::new(format!("/proc/self/fd/{}", fd)).unwrap();
    let mut s: libc::stat = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_fstat, fd, &mut s as *mut libc::stat) };
    if s.st_mode & libc::S_IFMT == libc::S_IFDIR {
        let p = CString::new(p).unwrap();
        let mut e = BTreeMap::new();
        for (name, ino, isdir) in raw_list(&p) {
            let c = st.dur.vid(ino);
            e.insert(name, (c, isdir));
        }
        st.dur.dirs.insert(v, e);
    } else {
        let data = raw_contents(&l);
        st.dur.files.insert(v, data);
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_fsync, fd);
    if !armed() {
        return real(None) as c_int;
    }
    access(fd_path(fd), Class::Sync, 0, false, real, |st| flushed(st, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_fdatasync, fd);
    if !armed() {
        return real(None) as c_int;
    }
    access(fd_path(fd), Class::Sync, 0, false, real, |st| flushed(st, fd)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, path, mode as c_int);
    if !armed() {
        return real(None) as c_int;
    }
    let p = path_arg(libc::AT_FDCWD, path);
    let exists = raw_lstat(CStr::from_ptr(path)).is_some();
    access(p, Class::Mkdir, 0, !exists, real, |_| ()) as c_int
}

/// forget the identity of a name that is about to go
unsafe fn doomed(path: *const c_char) -> Option<u64> {
    let s = raw_lstat(CStr::from_ptr(path))?;
    if s.st_nlink <= 1 || s.st_mode & libc::S_IFMT == libc::S_IFDIR {
        Some(s.st_ino)
    } else {
        None
    }
}

unsafe fn do_unlink(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_unlinkat, dir, path, flags);
    if !armed() || dir != libc::AT_FDCWD {
        return real(None) as c_int;
    }
    let gone = doomed(path);
    access(path_arg(dir, path), Class::Unlink, 0, true, real, |st| {
        if let Some(i) = gone {
            st.dur.vids.remove(&i);
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    do_unlink(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    do_unlink(dir, path, flags)
}

unsafe fn do_rename(a: c_int, old: *const c_char, b: c_int, new: *const c_char, flags: libc::c_uint) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_renameat2, a, old, b, new, flags);
    if !armed() {
        return real(None) as c_int;
    }
    let gone = doomed(new);
    access(path_arg(b, new), Class::Rename, 0, true, real, |st| {
        if let Some(i) = gone {
            st.dur.vids.remove(&i);
        }
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(old: *const c_char, new: *const c_char) -> c_int {
    do_rename(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(a: c_int, old: *const c_char, b: c_int, new: *const c_char) -> c_int {
    do_rename(a, old, b, new, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(a: c_int, old: *const c_char, b: c_int, new: *const c_char, flags: libc::c_uint) -> c_int {
    do_rename(a, old, b, new, flags)
}

unsafe fn do_link(a: c_int, old: *const c_char, b: c_int, new: *const c_char, flags: c_int) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_linkat, a, old, b, new, flags);
    if !armed() {
        return real(None) as c_int;
    }
    access(path_arg(b, new), Class::Link, 0, true, real, |_| ()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(old: *const c_char, new: *const c_char) -> c_int {
    do_link(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(a: c_int, old: *const c_char, b: c_int, new: *const c_char, flags: c_int) -> c_int {
    do_link(a, old, b, new, flags)
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf);
    if !armed() {
        return real(None) as c_int;
    }
    access(path_arg(dir, path), Class::Stat, 0, false, real, |_| ()) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let real = |_: Option<usize>| libc::syscall(libc::SYS_flock, fd, op);
    if !armed() || op & libc::LOCK_UN != 0 {
        // giving up a lock does not access storage
        return real(None) as c_int;
    }
    if crate::conc::gating() {
        if let Some(p) = fd_path(fd) {
            let mut waited = false;
            while crate::conc::before(&p, "Lock", waited) {
                let r = libc::syscall(libc::SYS_flock, fd, op | libc::LOCK_NB) as c_int;
                if r == 0 || op & libc::LOCK_NB != 0 || *libc::__errno_location() != libc::EWOULDBLOCK {
                    return r;
                }
                waited = true;
                if !crate::conc::gating() {
                    break;
                }
            }
        }
        return real(None) as c_int;
    }
    access(fd_path(fd), Class::Lock, op as usize, false, real, |_| ()) as c_int
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;

extern "C" fn start_as_client(p: *mut c_void) -> *mut c_void {
    let b: Box<(usize, Start, usize)> = unsafe { Box::from_raw(p as *mut _) };
    crate::conc::become_client(b.0);
    (b.1)(b.2 as *mut c_void)
}

/// Threads that a client starts belong to that client.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    static F: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let f: CreateFn = std::mem::transmute(*F.get_or_init(|| next(b"pthread_create\0") as usize));
    match crate::conc::client() {
        None => f(t, attr, start, arg),
        Some(c) => {
            let p = Box::into_raw(Box::new((c, start, arg as usize))) as *mut c_void;
            let r = f(t, attr, start_as_client, p);
            if r != 0 {
                drop(Box::from_raw(p as *mut (usize, Start, usize)));
            }
            r
        }
    }
}

type OpenDirFn = unsafe extern "C" fn(*const c_char) -> *mut libc::DIR;
type ReadDirFn = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;

unsafe fn next(name: &'static [u8]) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char)
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    static F: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let f: OpenDirFn = std::mem::transmute(*F.get_or_init(|| next(b"opendir\0") as usize));
    if !armed() {
        return f(path);
    }
    access(path_arg(libc::AT_FDCWD, path), Class::OpenDir, 0, false, |_| {
        let d = f(path);
        if d.is_null() { -1 } else { d as i64 }
    }, |_| ())
    .max(0) as *mut libc::DIR
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    static F: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let f: ReadDirFn = std::mem::transmute(*F.get_or_init(|| next(b"readdir64\0") as usize));
    if !armed() {
        return f(d);
    }
    let r = access(fd_path(libc::dirfd(d)), Class::ReadDir, 0, false, |_| {
        *libc::__errno_location() = 0;
        f(d) as i64
    }, |_| ());
    if r == -1 {
        std::ptr::null_mut()
    } else {
        r as *mut libc::dirent64
    }
}

/// Copies a directory tree.
pub fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_tree(&e.path(), &t);
        } else {
            // not fs::copy: the copy must not share anything
            std::fs::write(&t, std::fs::read(e.path()).unwrap()).unwrap();
        }
    }
}

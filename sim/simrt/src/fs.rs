//! Simulated disk: libc calls of the server are intercepted, passed through to a scratch directory,
//! and shadowed by a model of what is durable. Faults are injected here.
use crate::{
    proc,
    sched::{self, Group, Pt},
};
use libc::{c_char, c_int, c_uint, c_void, off64_t, size_t, ssize_t};
use std::{
    collections::BTreeMap,
    ffi::{CStr, CString},
};

#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    Dir,
    File(usize),
}
#[derive(Clone, Debug)]
enum FOp {
    Write { off: u64, data: Vec<u8>, lost: bool },
    Trunc { len: u64 },
}
#[derive(Clone, Debug, Default)]
struct Inode {
    durable: Vec<u8>,
    ops: Vec<FOp>,
}
#[derive(Clone, Debug)]
enum MOp {
    Create(String, usize),
    Mkdir(String),
    Unlink(String),
    Rmdir(String),
    Rename(String, String),
}
#[derive(Clone, Debug)]
struct Fd {
    group: Group,
    path: String,
    file: Option<usize>,
    append: bool,
    wr: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Fsync,
    Trunc,
    Rename,
    Unlink,
    Mkdir,
    Rmdir,
    Any,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// fail with this errno, no effect
    Err(i32),
    /// transfer only part of the data
    Short,
    /// write part of the data, then fail with this errno
    Torn(i32),
    /// fsync fails; the dirty data never reaches the disk
    SyncLost,
    /// the process dies before / in the middle of / after the operation; power: volatile data is lost
    CrashBefore { power: bool },
    CrashMid { power: bool },
    CrashAfter { power: bool },
    /// the operation takes this long
    Slow(u64),
}
#[derive(Clone, Debug)]
pub struct Fault {
    pub op: Op,
    /// substring of the path; "" = any, a leading '!' negates
    pub path: String,
    /// fires at the nth matching operation (0 based) ...
    pub nth: u32,
    /// ... and the following ones, in total this many
    pub repeat: u32,
    pub kind: Kind,
    pub seen: u32,
    pub fired: u32,
}
impl Fault {
    pub fn new(op: Op, path: &str, nth: u32, repeat: u32, kind: Kind) -> Self {
        Self {
            op,
            path: path.into(),
            nth,
            repeat,
            kind,
            seen: 0,
            fired: 0,
        }
    }
}
#[derive(Default)]
pub struct Fs {
    pub root: String,
    inodes: Vec<Inode>,
    ns: BTreeMap<String, Ent>,
    dns: BTreeMap<String, Ent>,
    mlog: Vec<MOp>,
    fds: BTreeMap<c_int, Fd>,
    /// per path: the size at the last fsync, and at the last one before with a different size
    pub synced_sizes: BTreeMap<String, (u64, u64)>,
    pub faults: Vec<Fault>,
    pub armed: bool,
    /// probability (2^32) that an operation is slow, and how slow
    pub p_slow: u32,
    pub slow_ns: u64,
    pub p_short: u32,
    pub counts: BTreeMap<String, u64>,
    pub escapes: Vec<String>,
    /// a crash fault fired: Some(power)
    pub crashed: Option<bool>,
    pub ops_total: u64,
    pub fsyncs: u64,
    pub trace: Option<Vec<String>>,
    /// set when an error was injected and not yet taken
    pub injected_errors: u64,
    /// when the first and the last error were injected
    pub first_err: Option<u64>,
    pub last_err: Option<u64>,
    /// the same for each path
    pub path_errs: BTreeMap<String, (u64, u64)>,
    /// processes that have used the data, and who has done so after them
    users: BTreeMap<Group, Option<Group>>,
    /// (who, after whom had begun to use the data, what): two processes at work on the same data
    pub conflicts: Vec<(Group, Group, String)>,
}
static mut FS: Option<Fs> = None;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe {
        if FS.is_none() {
            FS = Some(Fs::default());
        }
        FS.as_mut().unwrap()
    }
}

pub fn count(k: &str, n: u64) {
    *fs().counts.entry(k.to_string()).or_insert(0) += n;
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// calls of the harness itself and of untracked threads go straight to the kernel
fn tracked() -> bool {
    sched::in_sim() && sched::cur_group() != 0
}

fn norm(path: &str) -> Option<String> {
    let root = &fs().root;
    let p = if path.starts_with('/') {
        if path == root {
            ""
        } else if path.starts_with(root.as_str()) && path.as_bytes().get(root.len()) == Some(&b'/') {
            &path[root.len() + 1..]
        } else {
            return None;
        }
    } else {
        path
    };
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop()?;
            }
            c => out.push(c),
        }
    }
    Some(out.join("/"))
}
unsafe fn cpath(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
fn at_path(dirfd: c_int, p: &str) -> String {
    if dirfd == libc::AT_FDCWD || p.starts_with('/') {
        return p.to_string();
    }
    match fs().fds.get(&dirfd) {
        Some(f) => format!("{}/{}", f.path, p),
        None => p.to_string(),
    }
}
fn tr(f: impl FnOnce() -> String) {
    if let Some(t) = fs().trace.as_mut() {
        let s = f();
        t.push(s);
    }
}

fn path_matches(pat: &str, path: &str) -> bool {
    match pat.strip_prefix('!') {
        Some(p) => !path.contains(p),
        None => path.contains(pat),
    }
}

fn access(op: Op, path: &str) {
    if !(path.starts_with("data") || path.starts_with("gns")) {
        return;
    }
    let g = sched::cur_group();
    let f = fs();
    if let Some(Some(other)) = f.users.get(&g) {
        if !matches!(op, Op::Open | Op::Read) && f.conflicts.len() < 10 {
            f.conflicts.push((g, *other, format!("{op:?} of {path}")));
        }
    }
    if f.users.len() > 1 || !f.users.contains_key(&g) {
        for (o, by) in f.users.iter_mut() {
            if *o != g && by.is_none() {
                *by = Some(g);
            }
        }
        f.users.entry(g).or_default();
    }
}
/// scheduling point + fault decision for one operation
fn enter(op: Op, path: &str) -> Option<Kind> {
    sched::yield_point(Pt::Io);
    sched::die_if_dead();
    let f = fs();
    f.ops_total += 1;
    access(op, path);
    if f.p_slow > 0 && sched::rng().chance32(f.p_slow) {
        let ns = sched::rng().below(f.slow_ns.max(1));
        count("slow-io", 1);
        sched::sleep_ns(ns);
        sched::die_if_dead();
    }
    let f = fs();
    if !f.armed {
        return None;
    }
    let mut hit = None;
    for x in f.faults.iter_mut() {
        if (x.op == op || x.op == Op::Any || (x.op == Op::Open && op == Op::Create))
            && path_matches(&x.path, path)
        {
            let k = x.seen;
            x.seen += 1;
            if k >= x.nth && k < x.nth.saturating_add(x.repeat) && hit.is_none() {
                x.fired += 1;
                hit = Some(x.kind);
            }
        }
    }
    if let Some(k) = hit {
        let name = match k {
            Kind::Err(e) | Kind::Torn(e) => {
                let n = match e {
                    libc::EIO => "eio",
                    libc::ENOSPC => "enospc",
                    libc::EMFILE => "emfile",
                    libc::EINTR => "eintr",
                    _ => "errno",
                };
                format!(
                    "{}{}@{:?}",
                    if matches!(k, Kind::Torn(_)) { "torn+" } else { "" },
                    n,
                    op
                )
            }
            Kind::Short => format!("short@{op:?}"),
            Kind::SyncLost => "fsync-fails".into(),
            Kind::CrashBefore { power } | Kind::CrashMid { power } | Kind::CrashAfter { power } => {
                format!("{}@{op:?}", if power { "power-loss" } else { "kill" })
            }
            Kind::Slow(_) => "slow-io".into(),
        };
        count(&name, 1);
        tr(|| format!("FAULT {name} path={path}"));
        match k {
            Kind::Slow(ns) => {
                sched::sleep_ns(ns);
                sched::die_if_dead();
                return None;
            }
            Kind::Err(_) | Kind::Torn(_) | Kind::SyncLost => {
                fs().injected_errors += 1;
                let n = sched::now();
                fs().first_err.get_or_insert(n);
                fs().last_err = Some(n);
                fs().path_errs.entry(path.to_string()).or_insert((n, n)).1 = n;
            }
            Kind::CrashBefore { power } => crash_now(power),
            _ => {}
        }
        return Some(k);
    }
    None
}

fn crash_now(power: bool) -> ! {
    fs().crashed = Some(power);
    let g = sched::cur_group();
    proc::end(g, proc::Exit::Killed);
    sched::die_if_dead();
    unreachable!()
}
fn leave(k: Option<Kind>) {
    if let Some(Kind::CrashAfter { power }) | Some(Kind::CrashMid { power }) = k {
        crash_now(power);
    }
}

impl Inode {
    fn apply(content: &mut Vec<u8>, op: &FOp) {
        match op {
            FOp::Write { off, data, lost } => {
                if *lost {
                    return;
                }
                let end = *off as usize + data.len();
                if content.len() < end {
                    content.resize(end, 0);
                }
                content[*off as usize..end].copy_from_slice(data);
            }
            FOp::Trunc { len } => content.resize(*len as usize, 0),
        }
    }
    fn sync(&mut self) {
        for op in std::mem::take(&mut self.ops) {
            Self::apply(&mut self.durable, &op);
        }
    }
}
fn apply_m(ns: &mut BTreeMap<String, Ent>, m: &MOp) {
    match m {
        MOp::Create(p, f) => {
            ns.insert(p.clone(), Ent::File(*f));
        }
        MOp::Mkdir(p) => {
            ns.insert(p.clone(), Ent::Dir);
        }
        MOp::Unlink(p) | MOp::Rmdir(p) => {
            ns.remove(p);
        }
        MOp::Rename(a, b) => {
            let pre = format!("{a}/");
            let moved: Vec<String> = ns
                .keys()
                .filter(|k| *k == a || k.starts_with(&pre))
                .cloned()
                .collect();
            for k in moved {
                let e = ns.remove(&k).unwrap();
                ns.insert(format!("{b}{}", &k[a.len()..]), e);
            }
        }
    }
}
fn meta(m: MOp) {
    let f = fs();
    apply_m(&mut f.ns, &m);
    tr(|| format!("{m:?}"));
    f.mlog.push(m);
}
fn commit_meta() {
    let f = fs();
    for m in std::mem::take(&mut f.mlog) {
        apply_m(&mut f.dns, &m);
    }
}

/* ---------------------------------------------------------------- harness API */

/// use this (existing, empty) directory as the disk
pub fn setup(root: &str) {
    let f = fs();
    *f = Fs::default();
    f.root = root.into();
}
/// everything on the simulated disk right now, in path order
pub fn snapshot() -> BTreeMap<String, Option<Vec<u8>>> {
    let f = fs();
    let mut r = BTreeMap::new();
    for (p, e) in &f.ns {
        match e {
            Ent::Dir => {
                r.insert(p.clone(), None);
            }
            Ent::File(i) => {
                let mut c = f.inodes[*i].durable.clone();
                for op in &f.inodes[*i].ops {
                    let mut op = op.clone();
                    if let FOp::Write { lost, .. } = &mut op {
                        *lost = false;
                    }
                    Inode::apply(&mut c, &op);
                }
                r.insert(p.clone(), Some(c));
            }
        }
    }
    r
}
/// replace the whole disk content; everything in it is durable
pub fn install(img: &BTreeMap<String, Option<Vec<u8>>>) {
    let root = fs().root.clone();
    if let Ok(rd) = std::fs::read_dir(&root) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    let f = fs();
    f.ns.clear();
    f.dns.clear();
    f.mlog.clear();
    f.inodes.clear();
    for (p, c) in img {
        let full = format!("{root}/{p}");
        match c {
            None => {
                let _ = std::fs::create_dir_all(&full);
                f.ns.insert(p.clone(), Ent::Dir);
            }
            Some(c) => {
                if let Some(d) = std::path::Path::new(&full).parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                let _ = std::fs::write(&full, c);
                f.inodes.push(Inode {
                    durable: c.clone(),
                    ops: vec![],
                });
                f.ns.insert(p.clone(), Ent::File(f.inodes.len() - 1));
            }
        }
    }
    f.dns = f.ns.clone();
}
/// how many bytes / operations are not durable
pub fn dirty() -> (u64, usize) {
    let f = fs();
    let mut b = 0;
    for e in f.ns.values() {
        if let Ent::File(i) = e {
            for o in &f.inodes[*i].ops {
                if let FOp::Write { data, .. } = o {
                    b += data.len() as u64
                }
            }
        }
    }
    (b, f.mlog.len())
}
/// what a power failure leaves. `mode` 0: nothing volatile survives, 1: everything written survives,
/// 2: some prefix of the metadata operations and per file some prefix of the writes, the last torn
pub fn crash_image(mode: u32) -> BTreeMap<String, Option<Vec<u8>>> {
    let f = fs();
    if mode == 1 {
        // still honours data dropped by a failed fsync
        let mut r = BTreeMap::new();
        for (p, e) in &f.ns {
            r.insert(
                p.clone(),
                match e {
                    Ent::Dir => None,
                    Ent::File(i) => {
                        let mut c = f.inodes[*i].durable.clone();
                        for op in &f.inodes[*i].ops {
                            Inode::apply(&mut c, op);
                        }
                        Some(c)
                    }
                },
            );
        }
        return r;
    }
    let k = if mode == 0 {
        0
    } else {
        sched::rng().idx(f.mlog.len() + 1)
    };
    let mut ns = f.dns.clone();
    for m in &f.mlog[..k] {
        apply_m(&mut ns, m);
    }
    let mut r = BTreeMap::new();
    for (p, e) in &ns {
        match e {
            Ent::Dir => {
                r.insert(p.clone(), None);
            }
            Ent::File(i) => {
                let ino = &f.inodes[*i];
                let mut c = ino.durable.clone();
                if mode != 0 && !ino.ops.is_empty() {
                    let n = sched::rng().idx(ino.ops.len() + 1);
                    for op in &ino.ops[..n] {
                        Inode::apply(&mut c, op);
                    }
                    if n < ino.ops.len() && sched::rng().chance(0.5) {
                        if let FOp::Write { off, data, lost } = &ino.ops[n] {
                            let part = sched::rng().idx(data.len() + 1);
                            if part > 0 && part < data.len() {
                                count("torn-tail", 1);
                            }
                            Inode::apply(
                                &mut c,
                                &FOp::Write {
                                    off: *off,
                                    data: data[..part].to_vec(),
                                    lost: *lost,
                                },
                            );
                        }
                    }
                }
                r.insert(p.clone(), Some(c));
            }
        }
    }
    r
}

pub fn close_group(g: Group) {
    fs().users.remove(&g);
    let fds: Vec<c_int> = fs()
        .fds
        .iter()
        .filter(|(_, f)| f.group == g)
        .map(|(k, _)| *k)
        .collect();
    for fd in fds {
        fs().fds.remove(&fd);
        unsafe {
            libc::syscall(libc::SYS_close, fd);
        }
    }
}

/* ---------------------------------------------------------------- intercepted calls */

unsafe fn raw_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int
}
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !tracked() {
        return raw_open(dirfd, path, flags, mode);
    }
    let s = at_path(dirfd, &cpath(path));
    let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let Some(p) = norm(&s) else {
        if wr || flags & libc::O_CREAT != 0 {
            fs().escapes.push(format!("open {s}"));
            set_errno(libc::EACCES);
            return -1;
        }
        return raw_open(dirfd, path, flags, mode);
    };
    let exists = fs().ns.contains_key(&p) || p.is_empty();
    let creating = flags & libc::O_CREAT != 0 && !exists;
    let k = enter(if creating { Op::Create } else { Op::Open }, &p);
    if let Some(Kind::Err(e)) = k {
        set_errno(e);
        return -1;
    }
    let fd = raw_open(dirfd, path, flags, mode);
    if fd >= 0 {
        let mut file = None;
        if creating {
            fs().inodes.push(Inode::default());
            let id = fs().inodes.len() - 1;
            file = Some(id);
            meta(MOp::Create(p.clone(), id));
        } else {
            match fs().ns.get(&p) {
                Some(Ent::File(i)) => {
                    file = Some(*i);
                    if flags & libc::O_TRUNC != 0 && wr {
                        fs().inodes[*i].ops.push(FOp::Trunc { len: 0 });
                    }
                }
                _ => {}
            }
        }
        fs().fds.insert(
            fd,
            Fd {
                group: sched::cur_group(),
                path: p,
                file,
                append: flags & libc::O_APPEND != 0,
                wr,
            },
        );
    }
    let e = *libc::__errno_location();
    leave(k);
    set_errno(e);
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags | libc::O_LARGEFILE, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if tracked() {
        // a dead process' descriptors were closed already
        if sched::thread_state(sched::cur()) == sched::St::Dead {
            return 0;
        }
        fs().fds.remove(&fd);
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
fn tfd(fd: c_int) -> Option<Fd> {
    if !tracked() {
        return None;
    }
    fs().fds.get(&fd).cloned()
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let Some(f) = tfd(fd) else {
        return libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t;
    };
    let k = enter(Op::Read, &f.path);
    let mut len = n;
    match k {
        Some(Kind::Err(e)) | Some(Kind::Torn(e)) => {
            set_errno(e);
            return -1;
        }
        Some(Kind::Short) if n > 1 => len = 1 + sched::rng().idx(n - 1),
        _ => {
            let ps = fs().p_short;
            if ps > 0 && n > 1 && fs().armed && sched::rng().chance32(ps) {
                len = 1 + sched::rng().idx(n - 1);
                count("short-read", 1);
            }
        }
    }
    let r = libc::syscall(libc::SYS_read, fd, buf, len) as ssize_t;
    leave(k);
    r
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: size_t, at: Option<i64>) -> ssize_t {
    let raw = |len: usize| -> ssize_t {
        match at {
            None => libc::syscall(libc::SYS_write, fd, buf, len) as ssize_t,
            Some(o) => libc::syscall(libc::SYS_pwrite64, fd, buf, len, o) as ssize_t,
        }
    };
    let Some(f) = tfd(fd) else {
        if tracked() && (fd == 1 || fd == 2) {
            return n as ssize_t; // output of the simulated process
        }
        return raw(n);
    };
    let k = enter(Op::Write, &f.path);
    let mut len = n;
    let mut err = 0;
    match k {
        Some(Kind::Err(e)) => {
            set_errno(e);
            return -1;
        }
        Some(Kind::Short) if n > 1 => len = 1 + sched::rng().idx(n - 1),
        Some(Kind::Torn(e)) => {
            len = sched::rng().idx(n + 1).min(n.saturating_sub(1));
            err = e;
        }
        Some(Kind::CrashMid { .. }) => len = sched::rng().idx(n + 1),
        _ => {
            let ps = fs().p_short;
            if ps > 0 && n > 1 && fs().armed && sched::rng().chance32(ps) {
                len = 1 + sched::rng().idx(n - 1);
                count("short-write", 1);
            }
        }
    }
    let mut r = 0;
    if len > 0 {
        let off = match at {
            Some(o) => o,
            None if f.append => libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_END),
            None => libc::syscall(libc::SYS_lseek, fd, 0i64, libc::SEEK_CUR),
        };
        r = raw(len);
        if r > 0 {
            if let Some(i) = f.file {
                fs().inodes[i].ops.push(FOp::Write {
                    off: off as u64,
                    data: std::slice::from_raw_parts(buf, r as usize).to_vec(),
                    lost: false,
                });
                tr(|| format!("write {} off={} len={} of {}", f.path, off, r, n));
            }
        }
    }
    leave(k);
    if err != 0 {
        set_errno(err);
        return -1;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf as *const u8, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_write(fd, buf as *const u8, n, Some(o))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if tfd(fd).is_none() {
        if tracked() && (fd == 1 || fd == 2) {
            let v = std::slice::from_raw_parts(iov, cnt as usize);
            return v.iter().map(|x| x.iov_len as ssize_t).sum();
        }
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as ssize_t;
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let mut all = Vec::new();
    for x in v {
        all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    do_write(fd, all.as_ptr(), all.len(), None)
}
unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    let Some(f) = tfd(fd) else {
        return libc::syscall(nr, fd) as c_int;
    };
    let k = enter(Op::Fsync, &f.path);
    match k {
        Some(Kind::Err(e)) | Some(Kind::Torn(e)) => {
            set_errno(e);
            return -1;
        }
        Some(Kind::SyncLost) => {
            if let Some(i) = f.file {
                for o in fs().inodes[i].ops.iter_mut() {
                    if let FOp::Write { lost, .. } = o {
                        *lost = true;
                    }
                }
            }
            set_errno(libc::EIO);
            return -1;
        }
        _ => {}
    }
    if let Some(Kind::CrashMid { power }) = k {
        crash_now(power)
    }
    if let Some(i) = f.file {
        fs().inodes[i].sync();
        fs().fsyncs += 1;
        let n = fs().inodes[i].durable.len() as u64;
        let e = fs().synced_sizes.entry(f.path.clone()).or_insert((0, 0));
        if n < e.0 {
            *e = (n, e.1.min(n));
        } else if n > e.0 {
            *e = (n, e.0);
        }
    }
    commit_meta();
    tr(|| format!("fsync {}", f.path));
    leave(k);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let Some(f) = tfd(fd) else {
        return libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    };
    let k = enter(Op::Trunc, &f.path);
    if let Some(Kind::Err(e)) | Some(Kind::Torn(e)) = k {
        set_errno(e);
        return -1;
    }
    let r = libc::syscall(libc::SYS_ftruncate, fd, len) as c_int;
    if r == 0 {
        if let Some(i) = f.file {
            fs().inodes[i].ops.push(FOp::Trunc { len: len as u64 });
        }
        tr(|| format!("truncate {} {}", f.path, len));
    }
    leave(k);
    r
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int;
    if (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) && r >= 0 {
        if let Some(f) = tfd(fd) {
            fs().fds.insert(r, f);
        }
    }
    r
}
unsafe fn deny(s: &str, what: &str) -> c_int {
    fs().escapes.push(format!("{what} {s}"));
    set_errno(libc::EACCES);
    -1
}
unsafe fn path_op(op: Op, s: &str, raw: impl FnOnce() -> c_int, m: impl FnOnce(String) -> MOp) -> c_int {
    let Some(p) = norm(s) else {
        return deny(s, "path op");
    };
    let k = enter(op, &p);
    if let Some(Kind::Err(e)) | Some(Kind::Torn(e)) = k {
        set_errno(e);
        return -1;
    }
    let r = raw();
    let e = *libc::__errno_location();
    if r == 0 {
        meta(m(p));
    }
    leave(k);
    set_errno(e);
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_rename, a, b) as c_int;
    if !tracked() {
        return raw();
    }
    let (sa, sb) = (cpath(a), cpath(b));
    let Some(pb) = norm(&sb) else {
        return deny(&sb, "rename to");
    };
    path_op(Op::Rename, &sa, raw, |pa| MOp::Rename(pa, pb))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_unlink, p) as c_int;
    if !tracked() {
        return raw();
    }
    path_op(Op::Unlink, &cpath(p), raw, MOp::Unlink)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let raw = || libc::syscall(libc::SYS_rmdir, p) as c_int;
    if !tracked() {
        return raw();
    }
    path_op(Op::Rmdir, &cpath(p), raw, MOp::Rmdir)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let raw = || libc::syscall(libc::SYS_unlinkat, d, p, flags) as c_int;
    if !tracked() {
        return raw();
    }
    let s = at_path(d, &cpath(p));
    if flags & libc::AT_REMOVEDIR != 0 {
        path_op(Op::Rmdir, &s, raw, MOp::Rmdir)
    } else {
        path_op(Op::Unlink, &s, raw, MOp::Unlink)
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: c_uint) -> c_int {
    let raw = || libc::syscall(libc::SYS_mkdir, p, mode) as c_int;
    if !tracked() {
        return raw();
    }
    path_op(Op::Mkdir, &cpath(p), raw, MOp::Mkdir)
}
/// file copies are done by plain reads and writes, so that they are tracked
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int,
    ao: *mut off64_t,
    b: c_int,
    bo: *mut off64_t,
    n: size_t,
    fl: c_uint,
) -> ssize_t {
    if !tracked() {
        return libc::syscall(libc::SYS_copy_file_range, a, ao, b, bo, n, fl) as ssize_t;
    }
    set_errno(libc::ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if !tracked() {
        return libc::syscall(libc::SYS_sendfile, o, i, off, n) as ssize_t;
    }
    set_errno(libc::ENOSYS);
    -1
}

/* ---------------------------------------------------------------- clock, randomness, misc */
pub const EPOCH_NS: u64 = 1_700_000_000_000_000_000;
pub static mut CLOCK_SKEW_NS: i64 = 0;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if sched::in_sim() {
        let mut n = sched::now() as i64;
        if id == libc::CLOCK_REALTIME {
            n += EPOCH_NS as i64 + CLOCK_SKEW_NS;
        } else {
            n += 1_000_000_000;
        }
        (*ts).tv_sec = n / 1_000_000_000;
        (*ts).tv_nsec = n % 1_000_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as c_int
}
static mut PRE: u64 = 0x5EED;
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, _flags: c_uint) -> ssize_t {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    for x in out.iter_mut() {
        *x = if sched::in_sim() {
            sched::rng().next() as u8
        } else {
            let mut z = PRE;
            let v = crate::rng::splitmix(&mut z);
            PRE = z;
            v as u8
        };
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if sched::in_sim() {
        sched::sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if sched::in_sim() && flags == 0 {
        sched::sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    libc::syscall(libc::SYS_clock_nanosleep, id, flags, req, rem) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sched::in_sim() {
        sched::spin();
        return 0;
    }
    libc::syscall(libc::SYS_sched_yield) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sysinfo(info: *mut libc::sysinfo) -> c_int {
    if sched::in_sim() {
        std::ptr::write_bytes(info as *mut u8, 0, std::mem::size_of::<libc::sysinfo>());
        (*info).uptime = 1000 + (sched::now() / 1_000_000_000) as i64;
        (*info).totalram = 8 << 30;
        (*info).freeram = FREE_RAM;
        (*info).mem_unit = 1;
        return 0;
    }
    libc::syscall(libc::SYS_sysinfo, info) as c_int
}
/// what the simulated machine reports as free memory
pub static mut FREE_RAM: u64 = 4 << 30;

#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut c_char, n: size_t) -> c_int {
    let h = b"simhost\0";
    if n < h.len() {
        set_errno(libc::ENAMETOOLONG);
        return -1;
    }
    std::ptr::copy_nonoverlapping(h.as_ptr() as *const c_char, buf, h.len());
    0
}

pub fn chdir(p: &str) -> bool {
    let c = CString::new(p).unwrap();
    unsafe { libc::chdir(c.as_ptr()) == 0 }
}
#[allow(dead_code)]
fn _wr(f: &Fd) -> bool {
    f.wr
}

//! Running the tools and the parser contained and observed: as another user, under a filter of
//! system calls, with their output and their effect on the file system recorded.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
#[derive(Clone, Copy)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}

#[repr(C)]
struct Prog {
    len: u16,
    filter: *const Filter,
}

extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

const LD: u16 = 0x20;
const JEQ: u16 = 0x15;
const JSET: u16 = 0x45;
const RET: u16 = 0x06;
const ALLOW: u32 = 0x7fff_0000;
const KILL: u32 = 0x8000_0000;
const TRAP: u32 = 0x0003_0000;

fn op(code: u16, jt: u8, jf: u8, k: u32) -> Filter {
    Filter { code, jt, jf, k }
}

/// Kills what the calls in `never` are made by, opening for writing, and, given a descriptor,
/// writing to any other.
fn program(never: &[u32], no_write_open: bool, only_fd: Option<u32>, bad: u32) -> Vec<Filter> {
    // offsets in struct seccomp_data: nr 0, arch 4, args 16 + 8 i
    let mut v = vec![op(LD, 0, 0, 4), op(JEQ, 1, 0, 0xC000_003E), op(RET, 0, 0, ALLOW), op(LD, 0, 0, 0)];
    for n in never {
        v.push(op(JEQ, 0, 1, *n));
        v.push(op(RET, 0, 0, bad));
    }
    // O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND
    let w = 0o1 | 0o2 | 0o100 | 0o1000 | 0o2000;
    if no_write_open {
        for (n, arg) in [(2u32, 24u32), (257, 32)] {
            v.push(op(JEQ, 0, 4, n));
            v.push(op(LD, 0, 0, arg));
            v.push(op(JSET, 0, 1, w));
            v.push(op(RET, 0, 0, bad));
            v.push(op(RET, 0, 0, ALLOW));
        }
    }
    if let Some(fd) = only_fd {
        v.push(op(JEQ, 0, 4, 1));
        v.push(op(LD, 0, 0, 16));
        v.push(op(JEQ, 1, 0, fd));
        v.push(op(RET, 0, 0, bad));
        v.push(op(RET, 0, 0, ALLOW));
    }
    v.push(op(RET, 0, 0, ALLOW));
    v
}

fn install(p: &[Filter]) -> bool {
    let prog = Prog { len: p.len() as u16, filter: p.as_ptr() };
    unsafe { prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &prog as *const Prog as u64, 0, 0) == 0 }
}

/// Calls that change files or the system: creat, rename, mkdir, rmdir, link, unlink, symlink,
/// chmod, chown, truncate, mknod, utime, xattr, mount and their like.
const CHANGES: &[u32] = &[
    76, 77, 82, 83, 84, 85, 86, 87, 88, 90, 91, 92, 93, 94, 132, 133, 155, 161, 165, 166, 188, 189, 190, 197, 198, 199, 235, 258, 259, 260, 261, 263, 264, 265, 266, 268, 280, 285, 316, 437,
];

/// Calls that read or write anything: files, directories, sockets, processes, the current folder.
const TALKS: &[u32] = &[
    0, 2, 4, 6, 16, 17, 18, 19, 20, 21, 40, 41, 42, 44, 45, 46, 47, 57, 58, 59, 62, 76, 77, 78, 79, 80, 82, 83, 84, 85, 86, 87, 88, 89, 90, 217, 257, 258, 262, 263, 264, 265, 266, 267, 268, 269, 316, 322, 326, 332, 425, 437, 439,
];

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}

extern "C" {
    fn sigaction(signal: i32, new: *const Action, old: *mut Action) -> i32;
}

/// Says which call it was and ends the process.
extern "C" fn trapped(_: i32, info: *const u8, _: *const u8) {
    // struct siginfo: the address of the call at 16, its number at 24
    let n = unsafe { *(info.add(24) as *const i32) };
    let mut b = *b"call      \n";
    let (mut n, mut i) = (n.max(0), 9);
    while i > 4 {
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        i -= 1;
    }
    unsafe {
        write(1, b.as_ptr(), b.len());
        _exit(TRAPPED)
    }
}

/// The exit status of a sealed process that made a forbidden call.
pub const TRAPPED: i32 = 131;

extern "C" {
    fn mallopt(what: i32, value: i32) -> i32;
}

/// Keeps the C library's allocator from giving memory back and from arenas of its own for each
/// thread: to shrink one it looks into /proc, which is no doing of the parser's.
pub fn keep_memory() {
    unsafe {
        mallopt(-8, 1);
        mallopt(-1, i32::MAX);
    }
}

/// From here on this thread may not communicate except by writing to `fd`.
pub fn seal(fd: u32) -> bool {
    let a = Action { handler: trapped as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
    cfg!(target_arch = "x86_64") && unsafe { sigaction(SIGSYS, &a, std::ptr::null_mut()) == 0 } && install(&program(TALKS, false, Some(fd), TRAP))
}

/// The arguments of this process, as the system handed them over.
static ARGUMENTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

extern "C" fn arguments(_: i32, argv: *mut *const u8, _: *const *const u8) {
    ARGUMENTS.store(argv as usize, std::sync::atomic::Ordering::SeqCst);
}

#[used]
#[link_section = ".init_array"]
static AT_START: extern "C" fn(i32, *mut *const u8, *const *const u8) = arguments;

extern "C" {
    static mut environ: *mut *const u8;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Memory that nobody may read.
static CLOSED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const PAGE: usize = 65536;

/// Says that closed memory was read and ends the process; other faults take their course.
extern "C" fn looked(signal: i32, info: *const u8, _: *const u8) {
    let at = unsafe { *(info.add(16) as *const usize) };
    let closed = CLOSED.load(std::sync::atomic::Ordering::SeqCst);
    if at >= closed && at < closed + PAGE {
        let b = b"call for the environment or the arguments\n";
        unsafe {
            write(1, b.as_ptr(), b.len());
            _exit(TRAPPED)
        }
    }
    let a = Action { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };
    unsafe { sigaction(signal, &a, std::ptr::null_mut()) };
}

/// From here on whoever looks at the environment or the arguments of this process ends it.
pub fn hide_surroundings() -> bool {
    unsafe {
        let p = mmap(std::ptr::null_mut(), PAGE, 0, 0x22, -1, 0);
        if p as isize == -1 {
            return false;
        }
        CLOSED.store(p as usize, std::sync::atomic::Ordering::SeqCst);
        let a = Action { handler: looked as *const () as usize, mask: [0; 16], flags: 0x0800_0004, restorer: 0 };
        if sigaction(11, &a, std::ptr::null_mut()) != 0 {
            return false;
        }
        let mut v = ARGUMENTS.load(std::sync::atomic::Ordering::SeqCst) as *mut *const u8;
        while !v.is_null() && !(*v).is_null() {
            *v = p.add(PAGE / 2);
            v = v.add(1);
        }
        environ = p as *mut *const u8;
        true
    }
}

#[derive(Debug, Clone)]
pub struct Ran {
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
}

impl Ran {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).to_string()
    }
    pub fn ended(&self) -> String {
        match (self.code, self.signal) {
            _ if self.timed_out => "not ended in time".to_string(),
            (Some(c), _) => format!("exit status {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "?".to_string(),
        }
    }
}

pub const NOBODY: u32 = 65534;

#[derive(Clone)]
pub struct Tool {
    pub bin: PathBuf,
    pub cwd: PathBuf,
    pub log: PathBuf,
    pub env: Vec<(String, String)>,
    pub sealed: bool,
}

pub const SIGSYS: i32 = 31;

impl Tool {
    /// Runs it as nobody, with a filter that ends it when it tries to change files.
    pub fn run(&self, args: &[OsString]) -> std::io::Result<Ran> {
        let out = self.log.join("out");
        let err = self.log.join("err");
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(&self.cwd).env_clear();
        for (k, v) in &self.env {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).stdout(std::fs::File::create(&out)?).stderr(std::fs::File::create(&err)?);
        if unsafe { geteuid() } == 0 {
            c.uid(NOBODY).gid(NOBODY);
        }
        if self.sealed && cfg!(target_arch = "x86_64") {
            let p = program(CHANGES, true, None, KILL);
            unsafe {
                c.pre_exec(move || {
                    install(&p);
                    Ok(())
                });
            }
        }
        let mut child = c.spawn()?;
        let started = Instant::now();
        let mut pause = 200;
        let status = loop {
            if let Some(s) = child.try_wait()? {
                break Some(s);
            }
            if started.elapsed() > Duration::from_secs(100) {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(pause));
            pause = (pause * 3 / 2).min(10_000);
        };
        Ok(Ran {
            stdout: std::fs::read(&out)?,
            stderr: std::fs::read(&err)?,
            code: status.and_then(|s| s.code()),
            signal: status.and_then(|s| s.signal()),
            timed_out: status.is_none(),
        })
    }
}

extern "C" {
    fn geteuid() -> u32;
    fn mkfifo(path: *const std::os::raw::c_char, mode: u32) -> i32;
}

pub fn fifo(p: &Path) -> bool {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { mkfifo(c.as_ptr(), 0o644) == 0 }
}

pub fn is_root() -> bool {
    unsafe { geteuid() == 0 }
}

/// Everything there is to see of a folder: kinds, modes, owners, times, sizes and contents.
pub fn snapshot(p: &Path) -> BTreeMap<PathBuf, String> {
    let mut m = BTreeMap::new();
    fn go(p: &Path, m: &mut BTreeMap<PathBuf, String>) {
        let md = match std::fs::symlink_metadata(p) {
            Ok(md) => md,
            Err(e) => {
                m.insert(p.to_path_buf(), format!("{}", e));
                return;
            }
        };
        let what = if md.is_file() {
            format!("file {:x}", crate::engine::hash(&std::fs::read(p).unwrap_or_default()))
        } else if md.is_dir() {
            "dir".to_string()
        } else if md.file_type().is_symlink() {
            format!("link {:?}", std::fs::read_link(p))
        } else {
            "other".to_string()
        };
        m.insert(p.to_path_buf(), format!("{} mode {:o} owner {}:{} size {} links {} mtime {}.{} ctime {}.{}", what, md.mode(), md.uid(), md.gid(), md.size(), md.nlink(), md.mtime(), md.mtime_nsec(), md.ctime(), md.ctime_nsec()));
        if md.is_dir() {
            if let Ok(d) = std::fs::read_dir(p) {
                for e in d.flatten() {
                    go(&e.path(), m);
                }
            }
        }
    }
    go(p, &mut m);
    m
}

pub fn difference(a: &BTreeMap<PathBuf, String>, b: &BTreeMap<PathBuf, String>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{:?} is gone", k)),
            Some(w) if w != v => return Some(format!("{:?} changed from {} to {}", k, v, w)),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Some(format!("{:?} appeared", k));
        }
    }
    None
}

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

/// Writes without a lock or a buffer.
pub fn write_fd(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { write(1, b.as_ptr(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

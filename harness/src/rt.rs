//! Harness runtime: symbolic inputs, assumptions, assertions, reports.
//! In the symbolic build these are intercepted by the engine; in the native build they read the
//! values of a counterexample / sampled path and replay it on the real code.
extern "C" {
    fn sym_u8() -> u8;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, m: *const u8, n: usize);
    fn sym_fail(m: *const u8, n: usize) -> !;
    fn sym_job() -> u32;
    fn sym_conc(v: u64) -> u64;
    fn sym_report(t: *const u8, tn: usize, p: *const u8, n: usize);
    fn sym_cover(id: u32);
    fn sym_is_symbolic() -> bool;
    fn sym_print(p: *const u8, n: usize);
    fn sym_fs_file(p: *const u8, n: usize, d: *const u8, dn: usize);
    fn sym_fs_dir(p: *const u8, n: usize);
    fn sym_fs_read(p: *const u8, n: usize, b: *mut u8, cap: usize) -> u64;
    fn sym_fs_out(which: u32, b: *mut u8, cap: usize) -> u64;
    fn sym_fs_stdin(p: *const u8, n: usize);
    fn sym_fs_fault(p: *const u8, n: usize, what: u32);
    fn sym_fs_ops() -> u64;
    fn sym_set_args(argc: u64, argv: *const *const u8);
}
// ---- files: paths are relative to the working directory (a scratch directory in native replays)
const CAP: usize = 4096;
/// the engine's files live below /w, native replays use a scratch directory as the working directory
fn full(path: &str) -> String {
    if is_symbolic() {
        format!("/w/{}", path)
    } else {
        path.to_string()
    }
}
pub fn fs_file(path: &str, d: &[u8]) {
    let p = full(path);
    unsafe { sym_fs_file(p.as_ptr(), p.len(), d.as_ptr(), d.len()) }
}
pub fn fs_dir(path: &str) {
    let p = full(path);
    unsafe { sym_fs_dir(p.as_ptr(), p.len()) }
}
pub fn fs_read(path: &str) -> Option<Vec<u8>> {
    let p = full(path);
    let mut b = vec![0u8; CAP];
    let n = unsafe { sym_fs_read(p.as_ptr(), p.len(), b.as_mut_ptr(), CAP) };
    if n == u64::MAX {
        return None;
    }
    b.truncate(n as usize);
    Some(b)
}
/// what the last command wrote: 1 stdout, 2 stderr
pub fn fs_out(which: u32) -> Vec<u8> {
    let mut b = vec![0u8; CAP];
    let n = unsafe { sym_fs_out(which, b.as_mut_ptr(), CAP) };
    b.truncate(n as usize);
    b
}
pub fn fs_stdin(d: &[u8]) {
    unsafe { sym_fs_stdin(d.as_ptr(), d.len()) }
}
/// 1 opening for reading fails, 4 opening for writing fails
pub fn fs_fault(path: &str, what: u32) {
    let p = full(path);
    unsafe { sym_fs_fault(p.as_ptr(), p.len(), what) }
}
/// number of changes made to files
pub fn fs_ops() -> u64 {
    unsafe { sym_fs_ops() }
}
/// run the command-line program
#[cfg(feature = "symbolic")]
pub fn command(args: &[String]) {
    let mut v: Vec<Vec<u8>> = vec![b"luafmt\0".to_vec()];
    for a in args {
        let mut b = a.as_bytes().to_vec();
        b.push(0);
        v.push(b);
    }
    let mut ps: Vec<*const u8> = v.iter().map(|x| x.as_ptr()).collect();
    ps.push(std::ptr::null());
    unsafe { sym_set_args(v.len() as u64, ps.as_ptr()) };
    crate::cli::run();
}
#[cfg(not(feature = "symbolic"))]
pub fn command(args: &[String]) {
    native::command(args)
}
pub fn u8_() -> u8 {
    unsafe { sym_u8() }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { sym_fail(m.as_ptr(), m.len()) }
}
pub fn job() -> u32 {
    unsafe { sym_job() }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_conc(v) }
}
pub fn report(t: &str, s: &str) {
    unsafe { sym_report(t.as_ptr(), t.len(), s.as_ptr(), s.len()) }
}
pub fn report_bytes(t: &str, s: &[u8]) {
    unsafe { sym_report(t.as_ptr(), t.len(), s.as_ptr(), s.len()) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn is_symbolic() -> bool {
    unsafe { sym_is_symbolic() }
}
pub fn print(s: &str) {
    unsafe { sym_print(s.as_ptr(), s.len()) }
}
/// symbolic byte in [lo, hi]
pub fn range(lo: u8, hi: u8) -> u8 {
    let v = u8_();
    assume((v >= lo) & (v <= hi));
    v
}
/// symbolic choice 0..n, decided (one path per value)
pub fn choice(n: u8) -> u8 {
    let v = range(0, n - 1);
    conc(v as u64) as u8
}
pub fn boolean() -> bool {
    choice(2) == 1
}
/// symbolic byte from an explicit set (stays symbolic)
pub fn one_of(set: &[u8]) -> u8 {
    let v = u8_();
    let mut ok = false;
    for c in set {
        ok |= v == *c;
    }
    assume(ok);
    v
}

#[cfg(not(feature = "symbolic"))]
pub mod native {
    use std::cell::RefCell;
    thread_local! {
        pub static VALS: RefCell<(Vec<u8>, usize)> = RefCell::new((vec![], 0));
        pub static JOB: RefCell<u32> = RefCell::new(0);
        pub static FAILED: RefCell<bool> = RefCell::new(false);
    }
    unsafe fn s(p: *const u8, n: usize) -> String {
        String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
    }
    unsafe fn hex(p: *const u8, n: usize) -> String {
        std::slice::from_raw_parts(p, n).iter().map(|b| format!("{:02x}", b)).collect()
    }
    #[no_mangle]
    extern "C" fn sym_u8() -> u8 {
        VALS.with(|v| {
            let mut v = v.borrow_mut();
            let i = v.1;
            v.1 += 1;
            v.0.get(i).copied().unwrap_or(0)
        })
    }
    #[no_mangle]
    extern "C" fn sym_assume(c: bool) {
        if !c {
            println!("ASSUME-FALSE");
            cleanup();
            std::process::exit(3);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_assert(c: bool, m: *const u8, n: usize) {
        if !c {
            FAILED.with(|f| *f.borrow_mut() = true);
            println!("ASSERT-FAIL {}", s(m, n));
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fail(m: *const u8, n: usize) -> ! {
        println!("ASSERT-FAIL {}", s(m, n));
        cleanup();
        std::process::exit(1);
    }
    #[no_mangle]
    extern "C" fn sym_job() -> u32 {
        JOB.with(|j| *j.borrow())
    }
    #[no_mangle]
    extern "C" fn sym_conc(v: u64) -> u64 {
        v
    }
    #[no_mangle]
    unsafe extern "C" fn sym_report(t: *const u8, tn: usize, p: *const u8, n: usize) {
        println!("REPORT {} {}", s(t, tn), hex(p, n));
    }
    #[no_mangle]
    extern "C" fn sym_cover(_id: u32) {}
    #[no_mangle]
    extern "C" fn sym_is_symbolic() -> bool {
        false
    }
    #[no_mangle]
    unsafe extern "C" fn sym_print(p: *const u8, n: usize) {
        eprintln!("{}", s(p, n));
    }
    // ---- files
    #[derive(Default)]
    pub struct World {
        dir: Option<std::path::PathBuf>,
        stdin: Vec<u8>,
        out: [Vec<u8>; 2],
        faults: Vec<(String, u32)>,
    }
    thread_local! { static WORLD: RefCell<World> = RefCell::new(World::default()); }
    /// creates the scratch directory and makes it the working directory
    fn enter() {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            if w.dir.is_none() {
                let d = std::env::temp_dir().join(format!("luafmt-replay-{}", std::process::id())).join("w");
                std::fs::create_dir_all(&d).unwrap();
                std::env::set_current_dir(&d).unwrap();
                w.dir = Some(d);
            }
        })
    }
    pub fn cleanup() {
        let d = std::env::temp_dir().join(format!("luafmt-replay-{}", std::process::id()));
        if d.is_dir() {
            let _ = std::env::set_current_dir("/");
            let _ = std::fs::remove_dir_all(&d);
        }
    }
    unsafe fn raw<'a>(p: *const u8, n: usize) -> &'a [u8] {
        std::slice::from_raw_parts(p, n)
    }
    fn inside(p: &str) {
        assert!(!p.starts_with('/') && p.split('/').all(|c| c != ".."), "path outside the scratch directory");
        enter();
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fs_file(p: *const u8, n: usize, d: *const u8, dn: usize) {
        let p = s(p, n);
        inside(&p);
        if let Some(x) = std::path::Path::new(&p).parent() {
            std::fs::create_dir_all(std::path::Path::new(".").join(x)).unwrap();
        }
        std::fs::write(&p, raw(d, dn)).unwrap();
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fs_dir(p: *const u8, n: usize) {
        let p = s(p, n);
        inside(&p);
        std::fs::create_dir_all(&p).unwrap();
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fs_read(p: *const u8, n: usize, b: *mut u8, cap: usize) -> u64 {
        let p = s(p, n);
        inside(&p);
        match std::fs::read(&p) {
            Ok(d) => {
                assert!(d.len() <= cap);
                std::ptr::copy_nonoverlapping(d.as_ptr(), b, d.len());
                d.len() as u64
            }
            Err(_) => u64::MAX,
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fs_out(which: u32, b: *mut u8, cap: usize) -> u64 {
        WORLD.with(|w| {
            let d = &w.borrow().out[which as usize - 1];
            assert!(d.len() <= cap);
            std::ptr::copy_nonoverlapping(d.as_ptr(), b, d.len());
            d.len() as u64
        })
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fs_stdin(p: *const u8, n: usize) {
        WORLD.with(|w| w.borrow_mut().stdin = raw(p, n).to_vec());
    }
    #[no_mangle]
    unsafe extern "C" fn sym_fs_fault(p: *const u8, n: usize, what: u32) {
        WORLD.with(|w| w.borrow_mut().faults.push((s(p, n), what)));
    }
    #[no_mangle]
    extern "C" fn sym_fs_ops() -> u64 {
        0
    }
    /// runs the program as a child process, as an unprivileged user when permissions matter
    pub fn command(args: &[String]) {
        use std::io::Write;
        use std::os::unix::fs::PermissionsExt;
        use std::os::unix::process::CommandExt;
        use std::process::*;
        enter();
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new(&exe);
        c.args(args).env("LUAFMT_REPLAY_CLI", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let (stdin, faults) = WORLD.with(|w| (w.borrow().stdin.clone(), w.borrow().faults.clone()));
        if !faults.is_empty() {
            fn open_up(p: &std::path::Path) {
                if p.is_dir() {
                    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)).unwrap();
                    for e in std::fs::read_dir(p).unwrap() {
                        open_up(&e.unwrap().path());
                    }
                } else {
                    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o666)).unwrap();
                }
            }
            open_up(std::path::Path::new("."));
            for (p, what) in &faults {
                let m = if what & 1 != 0 { 0o222 } else { 0o444 };
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
            }
            // a copy that the other user can run
            let copy = std::path::Path::new("..").join("replay");
            std::fs::copy(&exe, &copy).unwrap();
            std::fs::set_permissions(&copy, std::fs::Permissions::from_mode(0o755)).unwrap();
            std::fs::set_permissions("..", std::fs::Permissions::from_mode(0o755)).unwrap();
            let path = std::env::current_dir().unwrap().join(&copy);
            c = Command::new(path);
            c.args(args).env("LUAFMT_REPLAY_CLI", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).uid(65534).gid(65534);
        }
        let mut ch = match c.spawn() {
            Ok(c) => c,
            Err(e) => {
                println!("cannot run the command: {}", e);
                cleanup();
                std::process::exit(3);
            }
        };
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(&stdin);
        drop(i);
        let o = ch.wait_with_output().unwrap();
        if !o.status.success() {
            println!("PANIC {}", String::from_utf8_lossy(&o.stderr).replace('\n', " "));
            cleanup();
            std::process::exit(101);
        }
        WORLD.with(|w| w.borrow_mut().out = [o.stdout, o.stderr]);
    }
}

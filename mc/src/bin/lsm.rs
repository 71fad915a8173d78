use extended_collections::lsm_tree::compaction::{LeveledStrategy, SizeTieredStrategy};
use vpmc::engine::*;
use vpmc::fsx;
use vpmc::lsm::*;

macro_rules! hook {
    ($name:literal) => {
        if fsx::before($name) {
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
    };
}
/// A call that may fail or be interrupted; a transfer of `$n` bytes may become one of fewer.
macro_rules! transfer {
    ($write:expr, $n:expr) => {
        match fsx::transfer($write) {
            fsx::Fate::Go => $n,
            fsx::Fate::Part => fsx::part($n),
            fsx::Fate::Error(e) => {
                *libc::__errno_location() = e;
                return -1;
            }
        }
    };
}
fn wr(flags: libc::c_int) -> bool {
    flags & (libc::O_CREAT | libc::O_TRUNC) != 0
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, mut n: libc::size_t) -> libc::ssize_t {
    if fd <= 2 {
        if fd == 1 && fsx::watched() {
            return n as libc::ssize_t;
        }
    } else {
        n = transfer!(true, n);
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, buf: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    if fd <= 2 {
        if fd == 1 && fsx::watched() {
            return (0..n as usize).map(|i| (*buf.add(i)).iov_len).sum::<usize>() as libc::ssize_t;
        }
    } else {
        transfer!(true, 0);
    }
    libc::syscall(libc::SYS_writev, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t, off: libc::off64_t) -> libc::ssize_t {
    let n = transfer!(true, n);
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, n: libc::off64_t) -> libc::c_int {
    transfer!(true, 0);
    libc::syscall(libc::SYS_ftruncate, fd, n) as libc::c_int
}
macro_rules! hook_read {
    () => {
        if fsx::before_read() {
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
    };
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let n = transfer!(false, n);
    let r = libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t;
    fsx::note(None, r.max(0) as u64);
    r
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: libc::c_int, buf: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    transfer!(false, 0);
    let r = libc::syscall(libc::SYS_readv, fd, buf, n) as libc::ssize_t;
    fsx::note(None, r.max(0) as u64);
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t, off: libc::off64_t) -> libc::ssize_t {
    let n = transfer!(false, n);
    let r = libc::syscall(libc::SYS_pread64, fd, buf, n, off) as libc::ssize_t;
    fsx::note(None, r.max(0) as u64);
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    transfer!(wr(flags), 0);
    fsx::note(Some(std::ffi::CStr::from_ptr(p)), 0);
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: libc::c_int, p: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if wr(flags) {
        hook!("open");
    }
    libc::syscall(libc::SYS_openat, d, p, flags, mode) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
    hook!("mkdir");
    libc::syscall(libc::SYS_mkdir, p, mode) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const libc::c_char) -> libc::c_int {
    hook!("rmdir");
    libc::syscall(libc::SYS_rmdir, p) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> libc::c_int {
    hook!("unlink");
    libc::syscall(libc::SYS_unlink, p) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: libc::c_int, p: *const libc::c_char, f: libc::c_int) -> libc::c_int {
    hook!("unlink");
    libc::syscall(libc::SYS_unlinkat, d, p, f) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> libc::c_int {
    hook!("rename");
    libc::syscall(libc::SYS_rename, a, b) as libc::c_int
}

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}
type S = Vec<Box<dyn Scenario>>;
type St = SizeTieredStrategy<u32, u32>;
type Lv = LeveledStrategy<u32, u32>;
const CAP: usize = 40_000_000;
const BIG: u64 = 1 << 40;

const CT: [Par; 2] = [Par::Tiered(0, 1, BIG, 0.5, 1.5), Par::Tiered(20, 1, 60, 0.8, 1.5)];
const CL: [Par; 2] = [Par::Leveled(0, 1, 0, 1, 1), Par::Leveled(20, 1, 30, 1, 1)];

/// Parameters at the ends of their ranges.
const XT: [Par; 4] = [Par::Tiered(0, 0, 0, 0.0, 0.0), Par::Tiered(20, 0, 60, f64::NAN, f64::NAN), Par::Tiered(20, 1, 30, f64::INFINITY, f64::NEG_INFINITY), Par::Tiered(u64::MAX, usize::MAX, u64::MAX, 0.0, f64::INFINITY)];
const XL: [Par; 5] = [Par::Leveled(0, 0, 0, 0, 0), Par::Leveled(20, 1, 30, 0, 2), Par::Leveled(20, 0, 0, 1, 0), Par::Leveled(0, 0, 0, 2, u64::MAX), Par::Leveled(u64::MAX, usize::MAX, u64::MAX, usize::MAX, u64::MAX)];

/// Tables are merged three or four at a time; many of them on the second level.
const ZT: [Par; 4] = [Par::Tiered(0, 2, BIG, 0.5, 1.5), Par::Tiered(0, 3, BIG, 0.5, 1.5), Par::Tiered(0, 2, 0, 0.5, 1.5), Par::Tiered(20, 3, 40, 0.8, 1.2)];
const ZL: [Par; 3] = [Par::Leveled(0, 2, 0, 1, 1), Par::Leveled(0, 3, 30, 2, 1), Par::Leveled(0, 1, 0, 1, 100)];
const DEEP: Par = Par::Leveled(60, 1, 100, 1, 100);
/// Batches that insert the first 1, 2, 4 and 8 keys.
const SIZES: [u16; 4] = [1, 4, 40, 3280];
fn wide(p: Par) -> usize {
    if matches!(p, Par::Leveled(_, 1, ..)) { 4 } else { 3 }
}
/// Flushed only when asked for.
fn big(p: Par) -> Par {
    match p {
        Par::Tiered(_, a, b, c, d) => Par::Tiered(BIG, a, b, c, d),
        Par::Leveled(_, a, b, c, d) => Par::Leveled(BIG, a, b, c, d),
    }
}

/// Larger stores, where tables have several blocks and stores several buckets or levels.
const FT: [Par; 4] = [Par::Tiered(90, 2, 200, 0.5, 1.5), Par::Tiered(300, 1, 0, 0.7, 1.3), Par::Tiered(700, 3, BIG, 0.5, 1.5), Par::Tiered(60, 1, 400, 0.5, 2.0)];
const FL: [Par; 4] = [Par::Leveled(90, 2, 100, 1, 2), Par::Leveled(300, 1, 60, 2, 2), Par::Leveled(700, 3, 2000, 1, 3), Par::Leveled(60, 1, 150, 1, 1)];
const PAIRS: [(usize, usize); 12] = [(0, 0), (0, 1), (1, 0), (2, 5), (3, 2), (5, 3), (4, 4), (5, 5), (2, 0), (1, 5), (5, 1), (3, 4)];
const FC: LsmCfg = LsmCfg { keys: 40, minmax: true, scan: true, ..LCFG };
fn fam<T: LItem, U: LItem, C: Strat<T, U>>(c: &mut Ctx, i: usize, cfg: LsmCfg, th: bool, every: usize, iters: bool) {
    let s = LsmScn::<T, U, C>::new("", cfg);
    c.family(i, "fill, replace, drain and fill in fixed orders", s.long(cfg.keys, if th { &PAIRS } else { &PAIRS[..6] }, if th { (every / 4).max(1) } else { every }, iters));
}

/// Keys of the large tables.
const WIDE: usize = 1440;

fn main() {
    let checks = [
        Check {
            id: "L01",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in [Par::Tiered(0, 1, BIG, 0.5, 1.5), Par::Tiered(0, 2, 0, 0.5, 1.5), Par::Tiered(20, 1, BIG, 0.5, 1.5), Par::Tiered(34, 2, 0, 0.5, 1.5)] {
                    v.push(b(LsmScn::<u32, u32, St>::new("reference", LsmCfg { par, keys: if th { 3 } else { 2 }, reopen: true, kill: true, clear: true, look: true, ..LCFG })));
                }
                for par in [Par::Tiered(BIG, 1, 0, 0.9, 1.1), Par::Tiered(BIG, 2, 0, 0.5, 1.5), Par::Tiered(BIG, 1, 60, 0.9, 1.1)] {
                    v.push(b(LsmScn::<u32, u32, St>::new("tables", LsmCfg { par, keys: 2, batch: true, bg: false, flush: false, ..LCFG })));
                    v.push(b(LsmScn::<u32, u32, St>::new("tables", LsmCfg { par, keys: 3, batch: true, bg: false, flush: false, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, St>::new("tables of four keys", LsmCfg { par: Par::Tiered(BIG, 1, 60, 0.8, 1.5), keys: 4, batch: true, only: runs(4), bg: false, flush: false, ..LCFG })));
                v.push(b(LsmScn::<u32, u32, SizeTieredStrategy<u32, u32>>::new("larger", LsmCfg { par: FT[0], reopen: true, ..FC })));
                v.push(b(LsmScn::<String, u64, SizeTieredStrategy<String, u64>>::new("larger", LsmCfg { par: FT[1], kill: true, ..FC })));
                v.push(b(LsmScn::<u64, String, SizeTieredStrategy<u64, String>>::new("larger", LsmCfg { par: FT[2], clear: true, reopen: true, ..FC })));
                v.push(b(LsmScn::<u32, (), SizeTieredStrategy<u32, ()>>::new("larger", LsmCfg { par: FT[3], kill: true, clear: true, ..FC })));
                for par in XT {
                    v.push(b(LsmScn::<u32, u32, St>::new("extreme parameters", LsmCfg { par, keys: 2, reopen: true, clear: true, ..LCFG })));
                }
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 9 } else { 6 }, 0, CAP);
                }
                for i in 0..XT.len() {
                    c.bfs(15 + i, if th { 8 } else { 5 }, 0, CAP);
                }
                for i in 0..3 {
                    c.bfs(4 + 2 * i, if th { 7 } else { 5 }, 0, CAP);
                    c.bfs(5 + 2 * i, if th { 4 } else { 3 }, 0, CAP);
                }
                c.bfs(10, if th { 5 } else { 4 }, 0, CAP);
                fam::<u32, u32, SizeTieredStrategy<u32, u32>>(c, 11, LsmCfg { par: FT[0], reopen: true, ..FC }, th, 8, false);
                fam::<String, u64, SizeTieredStrategy<String, u64>>(c, 12, LsmCfg { par: FT[1], kill: true, ..FC }, th, 8, false);
                fam::<u64, String, SizeTieredStrategy<u64, String>>(c, 13, LsmCfg { par: FT[2], clear: true, reopen: true, ..FC }, th, 8, false);
                fam::<u32, (), SizeTieredStrategy<u32, ()>>(c, 14, LsmCfg { par: FT[3], kill: true, clear: true, ..FC }, th, 8, false);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L02",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in [Par::Leveled(0, 1, 30, 1, 1), Par::Leveled(0, 1, 0, 1, 2), Par::Leveled(20, 1, 0, 1, 1), Par::Leveled(34, 0, 30, 1, 1)] {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("reference", LsmCfg { par, keys: if th { 3 } else { 2 }, reopen: true, kill: true, clear: true, look: true, ..LCFG })));
                }
                for par in [Par::Leveled(BIG, 0, 0, 1, 1), Par::Leveled(BIG, 1, 0, 1, 1), Par::Leveled(BIG, 1, 60, 1, 2)] {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("tables", LsmCfg { par, keys: 2, batch: true, bg: false, flush: false, ..LCFG })));
                    v.push(b(LsmScn::<u32, u32, Lv>::new("tables", LsmCfg { par, keys: 3, batch: true, bg: false, flush: false, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, LeveledStrategy<u32, u32>>::new("larger", LsmCfg { par: FL[0], reopen: true, ..FC })));
                v.push(b(LsmScn::<String, u64, LeveledStrategy<String, u64>>::new("larger", LsmCfg { par: FL[1], kill: true, ..FC })));
                v.push(b(LsmScn::<u64, String, LeveledStrategy<u64, String>>::new("larger", LsmCfg { par: FL[2], clear: true, reopen: true, ..FC })));
                v.push(b(LsmScn::<u32, (), LeveledStrategy<u32, ()>>::new("larger", LsmCfg { par: FL[3], kill: true, clear: true, ..FC })));
                for par in XL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("extreme parameters", LsmCfg { par, keys: 3, reopen: true, clear: true, ..LCFG })));
                }
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 9 } else { 6 }, 0, CAP);
                }
                for i in 0..XL.len() {
                    c.bfs(14 + i, if th { 8 } else { 5 }, 0, CAP);
                }
                for i in 0..3 {
                    c.bfs(4 + 2 * i, if th { 7 } else { 5 }, 0, CAP);
                    c.bfs(5 + 2 * i, if th { 4 } else { 3 }, 0, CAP);
                }
                fam::<u32, u32, LeveledStrategy<u32, u32>>(c, 10, LsmCfg { par: FL[0], reopen: true, ..FC }, th, 8, false);
                fam::<String, u64, LeveledStrategy<String, u64>>(c, 11, LsmCfg { par: FL[1], kill: true, ..FC }, th, 8, false);
                fam::<u64, String, LeveledStrategy<u64, String>>(c, 12, LsmCfg { par: FL[2], clear: true, reopen: true, ..FC }, th, 8, false);
                fam::<u32, (), LeveledStrategy<u32, ()>>(c, 13, LsmCfg { par: FL[3], kill: true, clear: true, ..FC }, th, 8, false);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L04",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in CT {
                    v.push(b(LsmScn::<u32, u32, St>::new("killed at every file system call", LsmCfg { par, keys: 2, crash: true, clear: true, scan: th, reopen: true, look: true, ..LCFG })));
                }
                for par in CL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("killed at every file system call", LsmCfg { par, keys: 2, crash: true, clear: true, scan: th, reopen: true, look: true, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, St>::new("killed at every file system call, tables", LsmCfg { par: Par::Tiered(BIG, 1, 60, 0.8, 1.5), keys: 3, crash: true, batch: true, bg: false, flush: false, ..LCFG })));
                v.push(b(LsmScn::<u32, u32, Lv>::new("killed at every file system call, tables", LsmCfg { par: Par::Leveled(BIG, 1, 0, 1, 1), keys: 3, crash: true, batch: true, bg: false, flush: false, ..LCFG })));
                v.push(b(LsmScn::<u32, u32, SizeTieredStrategy<u32, u32>>::new("larger", LsmCfg { par: FT[0], keys: 18, crash: true, kill: true, ..FC })));
                v.push(b(LsmScn::<u32, u32, LeveledStrategy<u32, u32>>::new("larger", LsmCfg { par: FL[0], keys: 18, crash: true, kill: true, ..FC })));
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 6 } else { 4 }, 0, CAP);
                }
                for i in 4..6 {
                    c.bfs(i, if th { 4 } else { 3 }, 0, CAP);
                }
                fam::<u32, u32, SizeTieredStrategy<u32, u32>>(c, 6, LsmCfg { par: FT[0], keys: 18, crash: true, kill: true, ..FC }, th, 7, false);
                fam::<u32, u32, LeveledStrategy<u32, u32>>(c, 7, LsmCfg { par: FL[0], keys: 18, crash: true, kill: true, ..FC }, th, 7, false);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L05",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in CT {
                    v.push(b(LsmScn::<u32, u32, St>::new("iterators", LsmCfg { par, keys: 2, iters: if th { 2 } else { 1 }, minmax: true, scan: true, look: true, ..LCFG })));
                }
                for par in CL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("iterators", LsmCfg { par, keys: 2, iters: if th { 2 } else { 1 }, minmax: true, scan: true, look: true, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, SizeTieredStrategy<u32, u32>>::new("larger", LsmCfg { par: FT[0], keys: 40, iters: 1, ..FC })));
                v.push(b(LsmScn::<u32, u32, LeveledStrategy<u32, u32>>::new("larger", LsmCfg { par: FL[0], keys: 40, iters: 1, ..FC })));
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 9 } else { 6 }, 0, CAP);
                }
                fam::<u32, u32, SizeTieredStrategy<u32, u32>>(c, 4, LsmCfg { par: FT[0], keys: 40, iters: 1, ..FC }, th, 8, true);
                fam::<u32, u32, LeveledStrategy<u32, u32>>(c, 5, LsmCfg { par: FL[0], keys: 40, iters: 1, ..FC }, th, 8, true);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L06",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in CT {
                    v.push(b(LsmScn::<u32, u32, St>::new("space", LsmCfg { par, keys: 2, space: true, clear: th, reopen: true, look: true, iters: 1, ..LCFG })));
                }
                for par in CL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("space", LsmCfg { par, keys: 2, space: true, clear: th, reopen: true, look: true, iters: 1, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, SizeTieredStrategy<u32, u32>>::new("larger", LsmCfg { par: FT[2], keys: 24, space: true, ..FC })));
                v.push(b(LsmScn::<u32, u32, LeveledStrategy<u32, u32>>::new("larger", LsmCfg { par: FL[0], keys: 24, space: true, ..FC })));
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 8 } else { 6 }, 0, CAP);
                }
                fam::<u32, u32, SizeTieredStrategy<u32, u32>>(c, 4, LsmCfg { par: FT[2], keys: 24, space: true, ..FC }, th, 24, false);
                fam::<u32, u32, LeveledStrategy<u32, u32>>(c, 5, LsmCfg { par: FL[0], keys: 24, space: true, ..FC }, th, 24, false);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L07",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in CT {
                    v.push(b(LsmScn::<u32, u32, St>::new("each file system call fails", LsmCfg { par, keys: 2, fault: true, minmax: true, scan: true, reopen: th, look: true, ..LCFG })));
                }
                for par in CL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("each file system call fails", LsmCfg { par, keys: 2, fault: true, minmax: true, scan: true, reopen: th, look: true, ..LCFG })));
                }
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 5 } else { 4 }, 0, CAP);
                }
            },
            budget_s: (400, 3000),
            hang_s: 60,
        },
        Check {
            id: "L08",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in [Par::Tiered(0, 1, 60, 0.8, 1.5), Par::Tiered(40, 2, BIG, 0.5, 1.5)] {
                    v.push(b(LsmScn::<u32, u32, St>::new("lookups", LsmCfg { par, keys: 3, cost: true, reopen: true, ..LCFG })));
                }
                for par in [Par::Leveled(0, 1, 0, 1, 1), Par::Leveled(40, 2, 30, 1, 2)] {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("lookups", LsmCfg { par, keys: 3, cost: true, reopen: true, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, St>::new("lookups, tables", LsmCfg { par: Par::Tiered(BIG, 2, 0, 0.5, 1.5), keys: 4, cost: true, batch: true, only: runs(4), bg: false, flush: false, ..LCFG })));
                v.push(b(LsmScn::<u32, u32, Lv>::new("lookups, tables", LsmCfg { par: Par::Leveled(BIG, 2, 30, 1, 2), keys: 4, cost: true, batch: true, only: runs(4), bg: false, flush: false, ..LCFG })));
                v.push(b(LsmScn::<Vec<u8>, u32, SizeTieredStrategy<Vec<u8>, u32>>::new("large tables", LsmCfg { par: Par::Tiered(BIG, 2, 0, 0.5, 1.5), keys: WIDE, cost: true, ..LCFG })));
                v.push(b(LsmScn::<Vec<u8>, u32, LeveledStrategy<Vec<u8>, u32>>::new("large tables", LsmCfg { par: Par::Leveled(BIG, 2, 60_000, 2, 2), keys: WIDE, cost: true, ..LCFG })));
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 9 } else { 6 }, 0, CAP);
                }
                for i in 4..6 {
                    c.bfs(i, if th { 5 } else { 4 }, 0, CAP);
                }
                for i in 6..8 {
                    let n = WIDE as u16;
                    let mut fam: Vec<Vec<u16>> = vec![];
                    // every second, third or sixth key, in several tables
                    for (a, step) in [(0u16, 2u16), (1, 3), (0, 6)] {
                        let mut t: Vec<u16> = vec![];
                        for part in 0..4 {
                            let (from, to) = if part % 2 == 0 { (n / 8 * part, n / 8 * part + n / 2) } else { (0, n) };
                            t.extend((from..to.min(n)).filter(|k| k % step == a && (part < 2 || k % 5 != part)).map(|k| if part == 3 && k % 7 == 0 { n + k } else { k }));
                            t.push(2 * n + FLUSH);
                            fam.push(t.clone());
                        }
                    }
                    c.family(i, "every second, third or sixth key, in up to four tables", fam);
                }
            },
            budget_s: (400, 3000),
            hang_s: 60,
        },
        Check {
            id: "L09",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in [Par::Leveled(0, 1, 30, 1, 1), Par::Leveled(0, 1, 0, 1, 2), Par::Leveled(20, 2, 0, 1, 1), Par::Leveled(34, 0, 30, 2, 1)] {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("shape", LsmCfg { par, keys: if th { 4 } else { 3 }, shape: true, reopen: true, kill: true, clear: true, ..LCFG })));
                }
                for par in [Par::Leveled(BIG, 0, 0, 1, 1), Par::Leveled(BIG, 1, 0, 1, 2), Par::Leveled(BIG, 1, 60, 1, 2)] {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("shape, tables", LsmCfg { par, keys: 3, shape: true, batch: true, bg: false, flush: false, ..LCFG })));
                    v.push(b(LsmScn::<u32, u32, Lv>::new("shape, tables", LsmCfg { par, keys: 5, shape: true, batch: true, only: runs(5), bg: false, flush: false, ..LCFG })));
                }
                v.push(b(LsmScn::<u32, u32, LeveledStrategy<u32, u32>>::new("larger", LsmCfg { par: FL[0], shape: true, reopen: true, ..FC })));
                v.push(b(LsmScn::<String, u64, LeveledStrategy<String, u64>>::new("larger", LsmCfg { par: FL[1], shape: true, kill: true, ..FC })));
                v.push(b(LsmScn::<u64, String, LeveledStrategy<u64, String>>::new("larger", LsmCfg { par: FL[2], shape: true, clear: true, reopen: true, ..FC })));
                v.push(b(LsmScn::<u32, (), LeveledStrategy<u32, ()>>::new("larger", LsmCfg { par: FL[3], shape: true, kill: true, clear: true, ..FC })));
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(i, if th { 8 } else { 5 }, 0, CAP);
                }
                for i in 0..3 {
                    c.bfs(4 + 2 * i, if th { 5 } else { 3 }, 0, CAP);
                    c.bfs(5 + 2 * i, if th { 4 } else { 3 }, 0, CAP);
                }
                fam::<u32, u32, LeveledStrategy<u32, u32>>(c, 10, LsmCfg { par: FL[0], shape: true, reopen: true, ..FC }, th, 4, false);
                fam::<String, u64, LeveledStrategy<String, u64>>(c, 11, LsmCfg { par: FL[1], shape: true, kill: true, ..FC }, th, 4, false);
                fam::<u64, String, LeveledStrategy<u64, String>>(c, 12, LsmCfg { par: FL[2], shape: true, clear: true, reopen: true, ..FC }, th, 4, false);
                fam::<u32, (), LeveledStrategy<u32, ()>>(c, 13, LsmCfg { par: FL[3], shape: true, kill: true, clear: true, ..FC }, th, 4, false);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L10",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for par in ZT {
                    v.push(b(LsmScn::<u32, u32, St>::new("merging only when due", LsmCfg { par, keys: if th { 3 } else { 2 }, lazy: true, reopen: true, ..LCFG })));
                    v.push(b(LsmScn::<u32, u32, St>::new("merging only when due, tables", LsmCfg { par: big(par), keys: if th { 3 } else { 2 }, lazy: true, batch: true, bg: false, flush: false, ..LCFG })));
                }
                for par in ZL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("merging only when due", LsmCfg { par, keys: if th { 3 } else { 2 }, lazy: true, reopen: true, ..LCFG })));
                    v.push(b(LsmScn::<u32, u32, Lv>::new("merging only when due, tables", LsmCfg { par: big(par), keys: wide(par), lazy: true, batch: true, only: runs(wide(par)), bg: false, flush: false, ..LCFG })));
                }
                for par in [FT[0], FT[2], FT[3]] {
                    v.push(b(LsmScn::<u32, u32, SizeTieredStrategy<u32, u32>>::new("larger", LsmCfg { par, lazy: true, reopen: true, ..FC })));
                }
                for par in [FL[0], FL[2], FL[3], DEEP] {
                    v.push(b(LsmScn::<u32, u32, LeveledStrategy<u32, u32>>::new("larger", LsmCfg { par, lazy: true, reopen: true, ..FC })));
                }
                for par in [Par::Tiered(BIG, 3, 0, 0.8, 1.2), Par::Tiered(BIG, 2, 0, 0.5, 1.5)] {
                    v.push(b(LsmScn::<u32, u32, St>::new("merging only when due, tables of 1, 2, 4 and 8 entries", LsmCfg { par, keys: 8, lazy: true, batch: true, only: &SIZES, bg: false, flush: false, ..LCFG })));
                }
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.bfs(2 * i, if th { 8 } else { 6 }, 0, CAP);
                    c.bfs(2 * i + 1, if th { 5 } else { 4 }, 0, CAP);
                }
                for i in 0..3 {
                    c.bfs(8 + 2 * i, if th { 8 } else { 6 }, 0, CAP);
                    c.bfs(9 + 2 * i, if th { 6 } else { 4 }, 0, CAP);
                }
                for (i, par) in [FT[0], FT[2], FT[3]].iter().enumerate() {
                    fam::<u32, u32, SizeTieredStrategy<u32, u32>>(c, 14 + i, LsmCfg { par: *par, lazy: true, reopen: true, ..FC }, th, 1, false);
                }
                for (i, par) in [FL[0], FL[2], FL[3], DEEP].iter().enumerate() {
                    fam::<u32, u32, LeveledStrategy<u32, u32>>(c, 17 + i, LsmCfg { par: *par, lazy: true, reopen: true, ..FC }, th, 1, false);
                }
                c.bfs(21, if th { 9 } else { 7 }, 0, CAP);
                c.bfs(22, if th { 9 } else { 7 }, 0, CAP);
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
        Check {
            id: "L03",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                let p = Some(if th { 3 } else { 2 });
                for par in CT {
                    v.push(b(LsmScn::<u32, u32, St>::new("all schedules", LsmCfg { par, keys: 2, bg: false, explore: p, look: true, scan: true, clear: true, ..LCFG })));
                }
                for par in CL {
                    v.push(b(LsmScn::<u32, u32, Lv>::new("all schedules", LsmCfg { par, keys: 2, bg: false, explore: p, look: true, scan: true, clear: true, ..LCFG })));
                }
                v
            },
            explore: |c, th| {
                for i in 0..4 {
                    c.dfs(i, vec![vec![0, 1]], if th { 3 } else { 2 });
                }
            },
            budget_s: (400, 3000),
            hang_s: 30,
        },
    ];
    vpmc::engine::main(&checks);
}
const RULE: &str = "A case is one sequence of operations executed on the real store and on the reference, compared at every step and observed in full at its end. Cases are enumerated, not drawn: breadth first with states merged on what is observed (plus the stated number of past steps), or all sequences up to a length. Distinct and non-trivial: a distinct (state, operation) pair.";
const ASSUME: &[&str] = &[
    "the file system keeps what is written to it; calls take effect in the order made",
    "bounded size: the stated number of keys in the exhaustive part",
];

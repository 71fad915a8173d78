use vpmc::bp::*;
use vpmc::engine::*;
use vpmc::fsx;

#[global_allocator]
static A: vpmc::alloc::Checking = vpmc::alloc::Checking;

// The file system calls that the code under test makes: counted, or made to fail.
macro_rules! hook {
    ($c:expr) => {
        if $c {
            *libc::__errno_location() = libc::EIO;
            return -1;
        }
    };
}
/// A call that may fail or be interrupted; a transfer of `$n` bytes may become one of fewer.
macro_rules! transfer {
    ($write:expr, $n:expr) => {
        match fsx::transfer($write) {
            fsx::Fate::Go => $n,
            fsx::Fate::Part => fsx::part($n),
            fsx::Fate::Error(e) => {
                *libc::__errno_location() = e;
                return -1;
            }
        }
    };
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let _ = READS.try_with(|r| r.set(r.get() + 1));
    let n = transfer!(false, n);
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t, off: libc::off64_t) -> libc::ssize_t {
    let _ = READS.try_with(|r| r.set(r.get() + 1));
    let n = transfer!(false, n);
    libc::syscall(libc::SYS_pread64, fd, buf, n, off) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: libc::c_int, off: libc::off64_t, w: libc::c_int) -> libc::off64_t {
    hook!(fsx::before_read());
    libc::syscall(libc::SYS_lseek, fd, off, w) as libc::off64_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let n = if fd > 2 { transfer!(true, n) } else { n };
    libc::syscall(libc::SYS_write, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, buf: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    if fd > 2 {
        hook!(fsx::before("writev"));
    }
    libc::syscall(libc::SYS_writev, fd, buf, n) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t, off: libc::off64_t) -> libc::ssize_t {
    let n = transfer!(true, n);
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as libc::ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, n: libc::off64_t) -> libc::c_int {
    transfer!(true, 0);
    libc::syscall(libc::SYS_ftruncate, fd, n) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    transfer!(false, 0);
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as libc::c_int
}

fn b<S: Scenario + 'static>(s: S) -> Box<dyn Scenario> {
    Box::new(s)
}
type S = Vec<Box<dyn Scenario>>;
const CAP: usize = 40_000_000;

const DEG: [(usize, usize); 12] = [(1, 2), (1, 3), (2, 3), (3, 3), (2, 2), (1, 4), (2, 4), (3, 4), (4, 3), (5, 3), (6, 4), (7, 5)];

fn fam<T: Item, U: Item>(c: &mut Ctx, si: usize, cfg: BpCfg, n: usize, every: usize) {
    let s = BpScn::<T, U>::new("", cfg);
    c.family(si, "6 fill orders x 6 drain orders, then half filled again", s.fill_drain(n, every, cfg.reopen_op));
}
const FDEG: [(usize, usize); 5] = [(1, 2), (1, 3), (2, 3), (3, 3), (4, 3)];
const DFAM: [(usize, usize); 7] = [(1, 2), (1, 3), (2, 3), (3, 3), (4, 5), (5, 4), (8, 6)];

/// The same configurations for an item type pair; `explore_types` explores them.
fn types<T: Item, U: Item>(th: bool) -> S {
    let mut v: S = vec![];
    for d in [Some((2, 3)), Some((3, 3)), Some((5, 4))] {
        v.push(b(BpScn::<T, U>::new("items of the declared size", BpCfg { keys: if th { 7 } else { 5 }, degrees: d, oversize: true, reopen_op: th, ..BCFG })));
    }
    v.push(b(BpScn::<T, U>::new("items of the declared size", TFAM)));
    v
}
const TFAM: BpCfg = BpCfg { keys: 250, degrees: None, ..BCFG };
fn explore_types<T: Item, U: Item>(c: &mut Ctx, off: usize, th: bool) {
    for i in 0..3 {
        c.bfs(off + i, 1000, 0, CAP);
    }
    let s = BpScn::<T, U>::new("", TFAM);
    let mut t = s.fill_drain(if T::MAX + U::MAX > 60 { 120 } else { 250 }, if th { 25 } else { 90 }, false);
    if !th {
        t = t.into_iter().enumerate().filter(|(i, _)| i % 3 != 1).map(|(_, t)| t).collect();
    }
    c.family(off + 3, "6 fill orders x 6 drain orders, then half filled again", t);
}

fn main() {
    let checks = [
        Check {
            id: "B01",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for (l, i) in DEG {
                    let keys = (if l < 3 { 7 } else if l < 5 { 8 } else { 9 }) + if th { 2 } else { 0 };
                    v.push(b(BpScn::<u32, u64>::new("reference", BpCfg { keys, degrees: Some((l, i)), ..BCFG })));
                }
                for (l, i) in DFAM {
                    v.push(b(BpScn::<u32, u64>::new("long", BpCfg { keys: 60, degrees: Some((l, i)), ..BCFG })));
                }
                v.push(b(BpScn::<u32, u64>::new("long", BpCfg { keys: 460, degrees: None, ..BCFG })));
                v
            },
            explore: |c, th| {
                for i in 0..DEG.len() {
                    c.bfs(i, 1000, 0, CAP);
                }
                for (j, d) in DFAM.iter().enumerate() {
                    fam::<u32, u64>(c, DEG.len() + j, BpCfg { keys: 60, degrees: Some(*d), ..BCFG }, if th { 60 } else { 40 }, if th { 1 } else { 3 });
                }
                fam::<u32, u64>(c, DEG.len() + DFAM.len(), BpCfg { keys: 460, degrees: None, ..BCFG }, 460, if th { 10 } else { 120 });
            },
            budget_s: (400, 3000),
            hang_s: 20,
        },
        Check {
            id: "B02",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for d in [(1, 2), (2, 3), (3, 3), (5, 4)] {
                    let keys = if th { 8 } else { 6 };
                    v.push(b(BpScn::<u32, u64>::new("opened again after every operation", BpCfg { keys, degrees: Some(d), reopen_always: true, ..BCFG })));
                    v.push(b(BpScn::<u32, u64>::new("opened again at any point", BpCfg { keys, degrees: Some(d), reopen_op: true, ..BCFG })));
                }
                v.push(b(BpScn::<String, Vec<u8>>::new("opened again at any point", BpCfg { keys: 5, degrees: Some((3, 3)), reopen_op: true, ..BCFG })));
                v.push(b(BpScn::<u32, u64>::new("long", BpCfg { keys: 60, degrees: Some((3, 3)), reopen_op: true, ..BCFG })));
                v.push(b(BpScn::<u32, u64>::new("long", BpCfg { keys: 420, degrees: None, reopen_op: true, ..BCFG })));
                v
            },
            explore: |c, th| {
                for i in 0..9 {
                    c.bfs(i, 1000, if i % 2 == 1 { 1 } else { 0 }, CAP);
                }
                fam::<u32, u64>(c, 9, BpCfg { keys: 60, degrees: Some((3, 3)), reopen_op: true, ..BCFG }, 60, if th { 1 } else { 5 });
                fam::<u32, u64>(c, 10, BpCfg { keys: 420, degrees: None, reopen_op: true, ..BCFG }, 420, if th { 10 } else { 200 });
            },
            budget_s: (400, 3000),
            hang_s: 20,
        },
        Check {
            id: "B03",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v = types::<String, String>(th);
                v.extend(types::<u8, u8>(th));
                v.extend(types::<u32, Box<[u32]>>(th));
                v.extend(types::<Vec<u8>, ()>(th));
                v.extend(types::<String, u64>(th));
                v.extend(types::<Option<u64>, bool>(th));
                v.extend(types::<u64, Vec<u8>>(th));
                v.extend(types::<i64, Option<u64>>(th));
                v.extend(types::<String, Vec<u8>>(th));
                v.extend(types::<Vec<u8>, Box<[u32]>>(th));
                v.extend(types::<Box<[u32]>, Vec<u8>>(th));
                v
            },
            explore: |c, th| {
                explore_types::<String, String>(c, 0, th);
                explore_types::<u8, u8>(c, 4, th);
                explore_types::<u32, Box<[u32]>>(c, 8, th);
                explore_types::<Vec<u8>, ()>(c, 12, th);
                explore_types::<String, u64>(c, 16, th);
                explore_types::<Option<u64>, bool>(c, 20, th);
                explore_types::<u64, Vec<u8>>(c, 24, th);
                explore_types::<i64, Option<u64>>(c, 28, th);
                explore_types::<String, Vec<u8>>(c, 32, th);
                explore_types::<Vec<u8>, Box<[u32]>>(c, 36, th);
                explore_types::<Box<[u32]>, Vec<u8>>(c, 40, th);
            },
            budget_s: (400, 3000),
            hang_s: 20,
        },
        Check {
            id: "B04",
            level: "model_checking",
            rule: RULE,
            assumptions: ASSUME,
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for d in [(1, 2), (1, 3), (2, 3), (3, 3), (4, 3)] {
                    let keys = (if d.0 < 3 { 6 } else { 7 }) + if th { 1 } else { 0 };
                    v.push(b(BpScn::<u32, u64>::new("space and cost", BpCfg { keys, degrees: Some(d), repl: false, space: true, cost: true, reference: false, ..BCFG })));
                }
                for (l, i) in DFAM {
                    v.push(b(BpScn::<u32, u64>::new("space and cost, long", BpCfg { keys: 120, degrees: Some((l, i)), space: true, cost: true, reference: false, ..BCFG })));
                }
                v
            },
            explore: |c, th| {
                for i in 0..5 {
                    c.bfs(i, 1000, 0, CAP);
                }
                for (j, d) in DFAM.iter().enumerate() {
                    let cfg = BpCfg { keys: 120, degrees: Some(*d), ..BCFG };
                    fam::<u32, u64>(c, 5 + j, cfg, if th { 120 } else { 70 }, if th { 1 } else { 4 });
                }
            },
            budget_s: (400, 3000),
            hang_s: 20,
        },
        Check {
            id: "B05",
            level: "model_checking",
            rule: RULE,
            assumptions: &["a call that fails has no effect; nothing is claimed about an operation that fails after it changed the file"],
            scenarios: |th| -> S {
                let mut v: S = vec![];
                for d in FDEG {
                    let keys = (if d.0 < 2 { 5 } else { 6 }) + if th { 2 } else { 0 };
                    v.push(b(BpFaultScn(BpScn::<u32, u64>::new("failing calls", BpCfg { keys, degrees: Some(d), repl: false, ..BCFG }))));
                }
                v.push(b(BpFaultScn(BpScn::<String, Vec<u8>>::new("failing calls", BpCfg { keys: 4, degrees: Some((2, 3)), repl: false, ..BCFG }))));
                v
            },
            explore: |c, _| {
                for i in 0..FDEG.len() + 1 {
                    c.bfs(i, 1000, 0, CAP);
                }
            },
            budget_s: (300, 3000),
            hang_s: 20,
        },
    ];
    vpmc::engine::main(&checks);
}
const RULE: &str = "A case is one sequence of operations executed on the real collection and on the reference, compared at every step and observed in full at its end. Cases are enumerated, not drawn: breadth first with states merged on what is observed (plus the stated number of past steps), or all sequences up to a length. Distinct and non-trivial: a distinct (state, operation) pair.";
const ASSUME: &[&str] = &[
    "the file system keeps what is written to it",
    "bounded size: the collections hold at most the stated number of elements in the exhaustive part",
];

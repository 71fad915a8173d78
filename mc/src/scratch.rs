//! A scratch directory made by the supervising process and removed by it.
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

const VAR: &str = "VPMC_SCRATCH";

pub fn make() {
    for base in ["/dev/shm", "/tmp"] {
        let p = format!("{}/vpmc-{}", base, std::process::id());
        if std::fs::create_dir_all(&p).is_ok() {
            std::env::set_var(VAR, &p);
            return;
        }
    }
    panic!("no scratch directory");
}

pub fn remove() {
    if let Ok(p) = std::env::var(VAR) {
        if p.starts_with("/dev/shm/vpmc-") || p.starts_with("/tmp/vpmc-") {
            let _ = std::fs::remove_dir_all(&p);
        }
    }
}

static N: AtomicU64 = AtomicU64::new(0);

/// A path of its own in the scratch directory.
pub fn path(tag: &str) -> PathBuf {
    let n = N.fetch_add(1, Ordering::Relaxed);
    PathBuf::from(std::env::var(VAR).expect("scratch")).join(format!("{}{}-{}", tag, std::process::id(), n))
}

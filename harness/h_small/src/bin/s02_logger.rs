//! Log rotation: every accepted byte is on disk exactly once, in order; files are cut where the strategy says.
//! The monitor interposes the C library's clock_gettime and write to control time and inject short and failing writes.
use rolling_logger::{RollingLogger, RotateStrategy};
use std::cell::Cell;
use std::io::Write;
use std::path::{Path, PathBuf};
use vcommon::{Case, Check, Viol, ensure, guard, viol};

thread_local! {
    /// None: real time. Some(ms): frozen wall clock.
    static NOW_MS: Cell<Option<i64>> = const { Cell::new(None) };
    /// Fault plan for the next write calls on this thread: 0 = none, 1 = short, 2 = ENOSPC.
    static FAULT: Cell<u8> = const { Cell::new(0) };
    static FAULTS_HIT: Cell<u64> = const { Cell::new(0) };
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = unsafe { libc::syscall(libc::SYS_clock_gettime, clk, ts) } as libc::c_int;
    if r == 0 && clk == libc::CLOCK_REALTIME {
        if let Ok(Some(ms)) = NOW_MS.try_with(|n| n.get()) {
            unsafe {
                (*ts).tv_sec = ms / 1000;
                (*ts).tv_nsec = (ms % 1000) * 1_000_000;
            }
        }
    }
    r
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let fault = FAULT.try_with(|f| f.get()).unwrap_or(0);
    let mut n = n;
    if fd > 2 && fault != 0 {
        FAULTS_HIT.with(|h| h.set(h.get() + 1));
        if fault == 2 {
            unsafe { *libc::__errno_location() = libc::ENOSPC };
            return -1;
        }
        if n > 1 {
            n /= 2;
        }
    }
    (unsafe { libc::syscall(libc::SYS_write, fd, buf, n) }) as libc::ssize_t
}

fn scratch(case: &Case) -> PathBuf {
    let base = std::env::var("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let d = base.join(format!("log-{}-{:?}", case.seed, std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        NOW_MS.with(|n| n.set(None));
        FAULT.with(|n| n.set(0));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn read_all(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap())
        .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap()))
        .collect();
    v.sort();
    v
}

/// The files on disk must be exactly the expected chunks (the last one is the current file).
fn compare(dir: &Path, chunks: &[Vec<u8>], log: &str) -> Result<(), Viol> {
    let files = read_all(dir);
    let show = |b: &[u8]| String::from_utf8_lossy(b).chars().take(80).collect::<String>();
    let Some(current) = files.iter().find(|f| f.0 == "access.log") else {
        return viol("no-current", format!("no current log file; {log}"));
    };
    for f in &files {
        ensure!(f.0 == "access.log" || f.0.starts_with("access.log."), "name", "unexpected file {}; {log}", f.0);
    }
    let total: usize = files.iter().map(|f| f.1.len()).sum();
    let want: usize = chunks.iter().map(|c| c.len()).sum();
    ensure!(total >= want, "lost", "{} of {want} accepted bytes are missing ({} files on disk, {} expected); {log}", want - total, files.len(), chunks.len());
    ensure!(total <= want, "duplicated", "{} bytes on disk were never accepted; {log}", total - want);
    let mut got: Vec<&[u8]> = files.iter().map(|f| f.1.as_slice()).collect();
    let mut exp: Vec<&[u8]> = chunks.iter().map(|c| c.as_slice()).collect();
    got.sort();
    exp.sort();
    ensure!(
        current.1 == *chunks.last().unwrap(),
        "current",
        "current file holds {:?}, expected {:?}; {log}",
        show(&current.1),
        show(chunks.last().unwrap())
    );
    ensure!(
        got == exp,
        "cuts",
        "the rotated files are cut differently: {:?} vs expected {:?}; {log}",
        got.iter().map(|b| show(b)).collect::<Vec<_>>(),
        exp.iter().map(|b| show(b)).collect::<Vec<_>>()
    );
    Ok(())
}

const PERIODS: [(&str, i64); 6] =
    [("minutely", 60), ("hourly", 3600), ("daily", 86400), ("weekly", 7 * 86400), ("monthly", 30 * 86400), ("yearly", 365 * 86400)];

fn strategy(kind: usize, size: u64) -> RotateStrategy {
    match kind {
        0 => RotateStrategy::minutely(),
        1 => RotateStrategy::hourly(),
        2 => RotateStrategy::daily(),
        3 => RotateStrategy::weekly(),
        4 => RotateStrategy::monthly(),
        5 => RotateStrategy::yearly(),
        6 => RotateStrategy::size(size),
        _ => RotateStrategy::never(),
    }
}

fn run(case: &mut Case, size_only: bool) -> Result<(), Viol> {
    let dir = scratch(case);
    let _clean = Cleanup(dir.clone());
    let path = dir.join("access.log");
    let kind = if size_only { 6 } else { case.rng.below(8) };
    let size = case.rng.range(1, 200) as u64;
    let mut now: i64 = 1_700_000_000_000 + case.rng.below(1_000_000) as i64;
    NOW_MS.with(|n| n.set(Some(now)));
    let mut log = format!("strategy {} size {size}:", if kind < 6 { PERIODS[kind].0 } else if kind == 6 { "size" } else { "never" });
    // pre-existing content, so that opening must append
    let mut chunks: Vec<Vec<u8>> = vec![vec![]];
    if case.rng.pct(30) {
        let pre = format!("pre-existing {}\n", "z".repeat(case.rng.below(100)));
        std::fs::write(&path, &pre).unwrap();
        chunks[0] = pre.into_bytes();
        log.push_str(" pre-existing;");
    }
    let mut logger = match guard("new", || RollingLogger::new(&path, strategy(kind, size)))? {
        Ok(l) => l,
        Err(e) => return viol("open", format!("cannot open: {e}")),
    };
    let mut start = now;
    let mut rotations = 0;
    let ops = case.rng.range(5, 60);
    for i in 0..ops {
        match case.rng.below(20) {
            0..=3 => {
                // Time advances: a little, or close to the period of the strategy.
                let d = match (case.rng.below(3), kind) {
                    (0, _) => case.rng.below(3) as i64,
                    (1, k) if k < 6 => {
                        let target = start + PERIODS[k].1 * 1000 + case.rng.range(0, 4) as i64 - 2;
                        (target - now).max(0)
                    }
                    _ => case.rng.below(100_000_000) as i64,
                };
                now += d;
                NOW_MS.with(|n| n.set(Some(now)));
                log.push_str(&format!(" +{d}ms;"));
            }
            4 => {
                if let Err(e) = guard("flush", || logger.flush())? {
                    return viol("flush", format!("flush failed: {e}"));
                }
                log.push_str(" flush;");
            }
            5 if kind >= 6 || case.rng.pct(20) => {
                drop(logger);
                logger = match guard("new", || RollingLogger::new(&path, strategy(kind, size)))? {
                    Ok(l) => l,
                    Err(e) => return viol("open", format!("cannot reopen: {e}")),
                };
                start = now;
                log.push_str(" reopen;");
            }
            x => {
                let rec = format!("{}-{i}-{}\n", case.seed % 97, "x".repeat(case.rng.below(60)));
                let fault = if x == 6 { 1 } else if x == 7 { 2 } else { 0 };
                FAULT.with(|f| f.set(fault));
                FAULTS_HIT.with(|f| f.set(0));
                let must_rotate = match kind {
                    6 => chunks.last().unwrap().len() as u64 >= size,
                    k if k < 6 => now - start >= PERIODS[k].1 * 1000,
                    _ => false,
                };
                let r = guard("write", || logger.write(rec.as_bytes()));
                FAULT.with(|f| f.set(0));
                let r = r?;
                if must_rotate {
                    chunks.push(vec![]);
                    start = now;
                    rotations += 1;
                }
                log.push_str(&format!(" write {}B fault {fault} -> {r:?};", rec.len()));
                case.count("writes", 1);
                case.count("injected faults", FAULTS_HIT.with(|f| f.get()));
                match r {
                    Ok(n) => {
                        ensure!(n <= rec.len(), "write-count", "write returned {n} for {} bytes", rec.len());
                        ensure!(fault != 2, "error-hidden", "a failed write was reported as {n} bytes written; {log}");
                        chunks.last_mut().unwrap().extend_from_slice(&rec.as_bytes()[..n]);
                    }
                    Err(e) => ensure!(fault == 2, "write-error", "write failed without a fault: {e}; {log}"),
                }
            }
        }
        case.input(log.clone());
        if case.rng.pct(15) {
            compare(&dir, &chunks, &log)?;
        }
    }
    drop(logger);
    compare(&dir, &chunks, &log)?;
    case.count("rotations", rotations);
    case.count("executions compared", 1);
    if rotations >= 1 {
        case.nontrivial(&log);
        case.sample(log.chars().take(600).collect::<String>());
    }
    case.seen("number of files", &chunks.len());
    Ok(())
}

fn main() {
    let mut c = Check::new("S02", "an execution with at least one rotation, identified by its operation log");
    c.cases("mixed", 4000, 300_000, |case| run(case, false));
    c.cases("size", 4000, 300_000, |case| run(case, true));
    // The real clock: a fast writer rotates several times within a millisecond.
    c.cases("burst", 60, 2000, |case| {
        let dir = scratch(case);
        let _clean = Cleanup(dir.clone());
        let path = dir.join("access.log");
        let mut logger = RollingLogger::new(&path, RotateStrategy::size(10)).unwrap();
        let n = case.rng.range(5, 200);
        let mut chunks = vec![vec![]];
        for i in 0..n {
            let rec = format!("record number {i}\n");
            if chunks.last().is_some_and(|c: &Vec<u8>| c.len() >= 10) {
                chunks.push(vec![]);
            }
            logger.write_all(rec.as_bytes()).unwrap();
            chunks.last_mut().unwrap().extend_from_slice(rec.as_bytes());
        }
        drop(logger);
        case.input(format!("{n} records of 16+ bytes, rotation at 10 bytes, real clock"));
        case.count("rotations", n as u64 - 1);
        case.nontrivial(&("burst", n));
        compare(&dir, &chunks, "burst")
    });
    c.require("rotations", 1000);
    c.require("injected faults", 1000);
    c.assume("rename and file creation succeed; only data writes are made to fail");
    c.finish();
}

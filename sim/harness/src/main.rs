//! hbsim: deterministic simulation of hyperbee with fault injection.
//!
//!   hbsim check --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--secs S]
//!   hbsim replay FILE          run a replay file again; exit 1 if it reproduces
//!   hbsim show PROP SEED I     run number I of a check, with its log
//!   hbsim selftest             every property, same seeds in different processes: same runs
mod alloc;
mod check;
mod ffi;
mod gen;
mod model;
mod net;
mod oracle;
mod plan;
mod run;
mod trace;

/// The seam for randomness: the standard library takes its hash keys from here, so that hash maps
/// iterate in the same order in every run.
#[no_mangle]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    std::ptr::write_bytes(buf, 0x5a, len);
    len as isize
}

/// The seam for clocks: within a run every clock shows simulated time, plus the jumps of the run.
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    match simrt::clock() {
        Some(c) => {
            let wall = matches!(id, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI);
            let us = if wall { c.wall() } else { c.monotonic() as i64 };
            (*ts).tv_sec = 1_700_000_000 + us.div_euclid(1_000_000) as libc::time_t;
            (*ts).tv_nsec = us.rem_euclid(1_000_000) as libc::c_long * 1000;
            0
        }
        None => libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| &s[..]) {
        Some("check") => check::check(&a[1..]),
        Some("worker") => check::worker(&a[1..]),
        Some("serve") => check::serve(),
        Some("replay") => check::replay(&a[1]),
        Some("show") => check::show(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("selftest") => check::selftest(),
        _ => {
            eprintln!("usage: hbsim check|replay|show|selftest");
            2
        }
    };
    std::process::exit(code);
}

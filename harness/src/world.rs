//! What surrounds a process and is not an input of the library: the clocks, the random keys of hash maps,
//! the environment, the working directory. The harness defines `clock_gettime` and `getrandom` itself, so
//! that a forked process can be given any date and any keys; everywhere else they are the system's.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

static REAL: AtomicI64 = AtomicI64::new(0);
static MONO: AtomicI64 = AtomicI64::new(0);
static KEYED: AtomicBool = AtomicBool::new(false);
static KEY: AtomicU64 = AtomicU64::new(0);

/// # Safety
/// as the function of the C library
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int;
    if r == 0 && !t.is_null() {
        let d = match id { libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => REAL.load(SeqCst), libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => MONO.load(SeqCst), _ => 0 };
        (*t).tv_sec += d;
    }
    r
}

/// # Safety
/// as the function of the C library
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !KEYED.load(SeqCst) { return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t }
    // splitmix64 from the key that was set
    let mut x = KEY.load(SeqCst);
    for i in 0..len {
        if i % 8 == 0 { x = x.wrapping_add(0x9e3779b97f4a7c15) }
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        *(buf as *mut u8).add(i) = ((z ^ (z >> 31)) >> (8 * (i % 8))) as u8;
    }
    len as libc::ssize_t
}

/// from now on it is this date (seconds since 1970), in this process
pub fn set_date(secs: i64) {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_REALTIME, &mut t as *mut _); }
    REAL.store(secs - t.tv_sec, SeqCst);
}
/// time passes (or the date is set back)
pub fn pass(real: i64, mono: i64) { REAL.fetch_add(real, SeqCst); MONO.fetch_add(mono, SeqCst); }
/// from now on every new thread gets the hash map keys made from this one
pub fn set_keys(k: u64) { KEY.store(k, SeqCst); KEYED.store(true, SeqCst); }
pub fn set_env(name: &str, value: Option<&str>) {
    let n = std::ffi::CString::new(name).unwrap();
    match value { Some(v) => { let v = std::ffi::CString::new(v).unwrap(); unsafe { libc::setenv(n.as_ptr(), v.as_ptr(), 1); } } None => unsafe { libc::unsetenv(n.as_ptr()); } }
}
pub fn clear_env() { unsafe { libc::clearenv(); } }

/// do the functions above reach the standard library? (in a process of its own)
pub fn self_test() -> Result<(), String> {
    use std::hash::BuildHasher;
    use std::time::{Instant, SystemTime, UNIX_EPOCH};
    set_date(1_000_000_000);
    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
    if !(1_000_000_000..1_000_000_100).contains(&now) { return Err(format!("the date cannot be set: {}", now)) }
    let a = Instant::now();
    pass(-5000, 5000);
    if a.elapsed().as_secs() < 5000 || SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() > 999_996_000 { return Err("time does not pass".into()) }
    let hash = |k: u64| { set_keys(k); std::thread::spawn(|| std::collections::hash_map::RandomState::new().hash_one(7)).join().unwrap() };
    let h = [hash(1), hash(2), hash(1)];
    if h[0] != h[2] || h[0] == h[1] { return Err("the keys of hash maps cannot be chosen".into()) }
    set_env("MC_SELF_TEST", Some("x"));
    if std::env::var("MC_SELF_TEST").as_deref() != Ok("x") { return Err("the environment cannot be set".into()) }
    Ok(())
}

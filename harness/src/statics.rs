//! every access to the library's writable statics becomes a point at which a thread can be stopped
//!
//! The pages holding them are protected; an access faults, the handler reports it (and may stop the thread there, before the
//! access happens), lets exactly one instruction through with the trap flag, and protects the pages again.
//! Only ever switched on in a forked process that runs one history.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::OnceLock;

/// on a page of its own, so that the handler never touches a protected one
#[repr(C, align(4096))]
struct Own { n: AtomicUsize, pages: [AtomicUsize; 64], spans: AtomicUsize, span: [[AtomicUsize; 2]; 256], event: AtomicUsize, pad: [u8; 4096] }
static OWN: Own = Own { n: AtomicUsize::new(0), pages: [const { AtomicUsize::new(0) }; 64], spans: AtomicUsize::new(0), span: [const { [const { AtomicUsize::new(0) }; 2] }; 256], event: AtomicUsize::new(0), pad: [0; 4096] };
thread_local! { static STEPPING: Cell<bool> = const { Cell::new(false) }; }

/// own symbol: where the program was loaded, and what the self-test watches
#[repr(C, align(4096))]
pub struct Anchor { v: AtomicUsize, pad: [u8; 4088] }
#[no_mangle]
pub static MC_STATICS_ANCHOR: Anchor = Anchor { v: AtomicUsize::new(7), pad: [0; 4088] };

pub struct Found { pub names: Vec<String>, spans: Vec<(usize, usize)> }

/// the writable statics of the library, by the symbol table of this program
pub fn found() -> &'static Found {
    static F: OnceLock<Found> = OnceLock::new();
    F.get_or_init(|| read().expect("harness: symbol table"))
}
fn read() -> Option<Found> {
    let e = std::fs::read("/proc/self/exe").ok()?;
    let u64at = |o: usize| Some(u64::from_le_bytes(e.get(o..o + 8)?.try_into().ok()?) as usize);
    let u32at = |o: usize| Some(u32::from_le_bytes(e.get(o..o + 4)?.try_into().ok()?) as usize);
    let u16at = |o: usize| Some(u16::from_le_bytes(e.get(o..o + 2)?.try_into().ok()?) as usize);
    let (shoff, shentsize, shnum, shstrndx) = (u64at(0x28)?, u16at(0x3a)?, u16at(0x3c)?, u16at(0x3e)?);
    let sh = |i: usize| shoff + i * shentsize;
    let cstr = |o: usize| -> Option<String> { let b = e.get(o..)?; let n = b.iter().position(|c| *c == 0)?; Some(String::from_utf8_lossy(&b[..n]).into_owned()) };
    let names = u64at(sh(shstrndx) + 0x18)?;
    let section = |i: usize| -> Option<String> { cstr(names + u32at(sh(i))?) };
    let tab = (0..shnum).find(|i| u32at(sh(*i) + 4) == Some(2))?;
    let (off, size, link) = (u64at(sh(tab) + 0x18)?, u64at(sh(tab) + 0x20)?, u32at(sh(tab) + 0x28)?);
    let strs = u64at(sh(link) + 0x18)?;
    let mut anchor = None;
    let mut l = vec![];
    for k in 0..size / 24 {
        let s = off + k * 24;
        let (name, info, shndx, value, len) = (cstr(strs + u32at(s)?)?, e[s + 4], u16at(s + 6)?, u64at(s + 8)?, u64at(s + 16)?);
        if name == "MC_STATICS_ANCHOR" { anchor = Some(value) }
        // objects only: thread-local ones are not shared
        if info & 15 != 1 || len == 0 || shndx == 0 || shndx >= shnum || !name.contains("4swrs") { continue }
        let sec = section(shndx)?;
        if sec.starts_with(".bss") || (sec.starts_with(".data") && !sec.starts_with(".data.rel.ro")) { l.push((name, value, len)) }
    }
    let bias = &MC_STATICS_ANCHOR as *const Anchor as usize - anchor?;
    Some(Found { names: l.iter().map(|x| x.0.clone()).collect(), spans: l.iter().map(|x| (x.1 + bias, x.2)).collect() })
}

#[inline(never)]
fn protect(p: i32) {
    for i in 0..OWN.n.load(SeqCst) { unsafe { libc::mprotect(OWN.pages[i].load(SeqCst) as *mut _, 4096, p); } }
}
const TRAP: i64 = 0x100;

unsafe extern "C" fn fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let errno = libc::__errno_location();
    let saved = *errno;
    let at = (*info).si_addr() as usize;
    let n = OWN.n.load(SeqCst);
    if !(0..n).any(|i| { let p = OWN.pages[i].load(SeqCst); at >= p && at < p + 4096 }) {
        // not ours: let it end the process
        libc::signal(sig, libc::SIG_DFL);
        return;
    }
    let stepping = STEPPING.with(|s| s.get());
    if !stepping && (0..OWN.spans.load(SeqCst)).any(|i| { let (s, l) = (OWN.span[i][0].load(SeqCst), OWN.span[i][1].load(SeqCst)); at >= s && at < s + l }) {
        let f: fn() = std::mem::transmute(OWN.event.load(SeqCst));
        f();
    }
    STEPPING.with(|s| s.set(true));
    protect(libc::PROT_READ | libc::PROT_WRITE);
    (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] |= TRAP;
    *errno = saved;
}
unsafe extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let errno = libc::__errno_location();
    let saved = *errno;
    STEPPING.with(|s| s.set(false));
    protect(libc::PROT_NONE);
    (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TRAP;
    *errno = saved;
}
unsafe fn handle(sig: i32, f: unsafe extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void)) {
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_sigaction = f as usize;
    a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
    libc::sigaction(sig, &a, std::ptr::null_mut());
}
fn on(spans: &[(usize, usize)], event: fn()) {
    let mut pages = std::collections::BTreeSet::new();
    for (s, l) in spans.iter().take(256) { let mut p = s & !4095; while p < s + l { pages.insert(p); p += 4096 } }
    let mine = &OWN as *const Own as usize;
    let mine = mine..mine + std::mem::size_of::<Own>();
    for (i, p) in pages.iter().filter(|p| !mine.contains(p)).take(64).enumerate() { OWN.pages[i].store(*p, SeqCst); OWN.n.store(i + 1, SeqCst) }
    for (i, (s, l)) in spans.iter().take(256).enumerate() { OWN.span[i][0].store(*s, SeqCst); OWN.span[i][1].store(*l, SeqCst) }
    OWN.spans.store(spans.len().min(256), SeqCst);
    OWN.event.store(event as usize, SeqCst);
    STEPPING.with(|s| s.get());
    if OWN.n.load(SeqCst) == 0 { return }
    unsafe { handle(libc::SIGSEGV, fault); handle(libc::SIGTRAP, trap); }
    protect(libc::PROT_NONE);
}
/// from here on `event` runs before every access of this process to a writable static of the library
pub fn watch(event: fn()) { on(&found().spans, event) }

/// whether it works here: two accesses to an own static are two events, and the value is what was stored (run it in a forked process)
pub fn self_test() -> Result<(), String> {
    static SEEN: Own = Own { n: AtomicUsize::new(0), pages: [const { AtomicUsize::new(0) }; 64], spans: AtomicUsize::new(0), span: [const { [const { AtomicUsize::new(0) }; 2] }; 256], event: AtomicUsize::new(0), pad: [0; 4096] };
    fn event() { SEEN.n.fetch_add(1, SeqCst); }
    on(&[(&MC_STATICS_ANCHOR.v as *const _ as usize, 8)], event);
    MC_STATICS_ANCHOR.v.store(8, SeqCst);
    let v = MC_STATICS_ANCHOR.v.load(SeqCst);
    let n = SEEN.n.load(SeqCst);
    if v == 8 && n == 2 { Ok(()) } else { Err(format!("harness: watching statics saw {} accesses and {}", n, v)) }
}

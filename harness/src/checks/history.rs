//! C22: the same input gives the same result, whatever ran before it or runs next to it
use super::blocks;
use super::projects::*;
use super::screens::empty;
use super::Scratch;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::Raw;
use crate::statics::{self, watch};
use crate::{obs, Check};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use swrs::api::block::{Block, BlockContent, BlockControl, BlockType, Blocks};
use swrs::api::view::{flatten_views, parse_raw_layout, View};
use swrs::api::{ResourceId, Resources, SketchwareProject};
use swrs::color::Color;
use swrs::parser::{file::File, library::Library, logic::Logic, project::Project, resource::Resource, view, Parsable, ResourceFileWrapper as W, ResourceFiles, ResourceType, SketchwareProject as Parsed};

// ------------------------------------------------------------------ pausing a thread anywhere it allocates

/// counts down to the allocation (or access to a writable static of the library) at which the thread stops and lets the other one run
pub struct Pausing;
thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}
/// per thread slot: 0 running, 1 stopped, 2 told to go on, 3 done
/// (on a page of its own: it is used while a thread is stopped at an access to a watched page)
#[repr(C, align(4096))]
struct Slots([AtomicUsize; 512]);
static STATES: Slots = Slots([const { AtomicUsize::new(0) }; 512]);
static STATE: &[AtomicUsize; 512] = &STATES.0;
#[inline(always)]
fn tick() {
    let _ = LEFT.try_with(|l| {
        let n = l.get();
        if n != 0 { l.set(n - 1); if n == 1 { stop() } }
    });
}
#[cold]
fn stop() {
    let s = &STATE[SLOT.with(|s| s.get())];
    s.store(1, SeqCst);
    while s.load(SeqCst) != 2 { std::hint::spin_loop(); unsafe { libc::sched_yield(); } }
    s.store(0, SeqCst);
}
unsafe impl GlobalAlloc for Pausing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { tick(); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { tick(); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { tick(); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { tick(); System.realloc(p, l, n) }
}

// ------------------------------------------------------------------ a process of its own per history

/// results compared so far by the forked process; the page is shared with it
fn beat() -> &'static AtomicUsize {
    thread_local! { static PAGE: Cell<usize> = const { Cell::new(0) }; }
    PAGE.with(|p| {
        if p.get() == 0 { let m = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) }; if m == libc::MAP_FAILED { panic!("harness: no page") } p.set(m as usize) }
        unsafe { &*(p.get() as *const AtomicUsize) }
    })
}
/// runs the history in a forked process, in which the library has never run; Err: what it reported
fn apart(f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    let beats = beat();
    let mut fd = [0i32; 2];
    if unsafe { libc::pipe(fd.as_mut_ptr()) } != 0 { panic!("harness: no pipe") }
    let pid = unsafe { libc::fork() };
    if pid < 0 { panic!("harness: cannot fork") }
    if pid == 0 {
        let r = guard(f).and_then(|r| r);
        let (tag, text) = match r { Ok(s) => (b'o', s), Err(s) => (b'e', s) };
        let mut out = vec![tag];
        out.extend(text.as_bytes());
        let mut at = 0;
        while at < out.len() { let n = unsafe { libc::write(fd[1], out[at..].as_ptr() as *const _, out.len() - at) }; if n <= 0 { break } at += n as usize }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fd[1]); }
    let mut out = vec![];
    let mut t0 = Instant::now();
    let mut last = beats.load(SeqCst);
    let mut hung = false;
    loop {
        let mut p = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
        let k = unsafe { libc::poll(&mut p, 1, 1000) };
        if k > 0 {
            let mut buf = [0u8; 8192];
            let n = unsafe { libc::read(fd[0], buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 { break }
            out.extend(&buf[..n as usize]);
        }
        // a history that still completes operations is not blocked
        let now = beats.load(SeqCst);
        if now != last { last = now; t0 = Instant::now() }
        if t0.elapsed() > Duration::from_secs(40) { hung = true; unsafe { libc::kill(pid, libc::SIGKILL); } break }
    }
    let mut st = 0;
    unsafe { libc::close(fd[0]); libc::waitpid(pid, &mut st, 0); }
    if hung || libc::WIFSIGNALED(st) {
        if let Ok(d) = std::fs::read_dir(std::env::temp_dir()) { for e in d.flatten() { if e.file_name().to_string_lossy().starts_with(&format!("mc-scratch-{}-", pid)) { let _ = std::fs::remove_dir_all(e.path()); } } }
    }
    if hung { return Err("does not return: the history is blocked".into()) }
    if libc::WIFSIGNALED(st) { return Err(format!("the process ended by signal {}", libc::WTERMSIG(st))) }
    if out.is_empty() { return Err("the process ended early".into()) }
    let text = String::from_utf8_lossy(&out[1..]).into_owned();
    if out[0] == b'o' { Ok(text) } else { Err(text) }
}

// ------------------------------------------------------------------ the operations

#[derive(Clone)]
pub struct Op { pub name: String, pub run: std::sync::Arc<dyn Fn() -> String + Send + Sync> }
fn op(name: impl Into<String>, f: impl Fn() -> String + Send + Sync + 'static) -> Op { Op { name: name.into(), run: std::sync::Arc::new(f) } }
fn outcome<T: Debug, E: Debug>(r: Result<T, E>) -> String { match r { Ok(t) => format!("{:?}", t), Err(e) => format!("refused: {:?}", e) } }
fn run(o: &Op) -> String { match guard(|| (o.run)()) { Ok(s) => s, Err(p) => p } }

fn parse_save<T>(text: &str) -> String where T: Parsable + Debug, T::ParseError: Debug, T::ReconstructionError: Debug {
    match T::parse(text) { Err(e) => format!("refused: {:?}", e), Ok(t) => { let d = format!("{:?}", t); format!("{}\n{}", d, outcome(t.reconstruct())) } }
}
pub fn texts(d: &Doc) -> [String; 6] { d.texts(Style { json: 0, after: 1, ..Style::default() }) }
fn sorted(f: &Files) -> String { file_set(f).to_string() }
/// load, convert, save, load and save again
pub fn project(t: [String; 6], files: Files) -> String {
    let auto = files.is_none();
    let parsed = match Parsed::parse_from(raw_of(t, files)) { Ok(p) => p, Err(e) => return format!("loading refused: {:?}", e) };
    let p = match SketchwareProject::try_from(parsed) { Ok(p) => p, Err(e) => return format!("conversion refused: {:?}", e) };
    let seen = aproj(&p, auto).to_string();
    let r = match save(p) { Ok(r) => r, Err(e) => return e };
    format!("{}\n{}\n{}", seen, texts_of(&r).join("\n=====\n"), sorted(&r.resource_files))
}
fn list_of(l: &[Raw]) -> String {
    match Blocks::try_from(obs::mk_container(l)) { Err(e) => format!("refused: {:?}", e), Ok(b) => { let s = format!("{:?}", obs::nodes(&b)); let c: swrs::parser::logic::BlockContainer = b.into(); format!("{}\n{:?}", s, c.0.iter().map(obs::raw).collect::<Vec<_>>()) } }
}
fn layout(vs: &[Value]) -> String {
    let l: Vec<_> = vs.iter().map(|v| super::views::mk_view(v).unwrap()).collect();
    match parse_raw_layout(view::Layout(l)) { Err(e) => format!("refused: {:?}", e), Ok(t) => { let s = format!("{:?}", t); format!("{}\n{:?}", s, flatten_views(t, None, None)) } }
}
fn spec(s: &str, ps: &[&str]) -> String {
    let a = BlockContent::parse(s.to_string(), ps.iter().map(|p| p.to_string()).collect());
    let b = BlockContent::parse_wo_params(s);
    let t = |c: &BlockContent| format!("{:?} {:?}", c, c.to_string());
    let c = b.as_ref().ok().cloned().map(|b| b.apply_args(ps.iter().map(|p| p.to_string()).collect()));
    format!("{}\n{}\n{}", outcome(a.as_ref().map(t)), outcome(b.as_ref().map(t)), c.map(|c| outcome(c.as_ref().map(t))).unwrap_or_default())
}
fn handle(i: usize) -> W { W::StringId { id: format!("h{}", i), res_full_name: format!("f{}.png", i), res_type: ResourceType::Image } }

/// small project: one screen
fn little() -> Doc {
    let mut d = empty();
    let mut r = ScreenDoc::rich();
    r.events.truncate(1); r.func.truncate(1); r.components.truncate(2); r.var.truncate(2); r.list.truncate(1);
    r.create = Some(vec![block("10", 11, "doToast", "Toast %s", json!(["hi"])), block("11", -1, "finish", "finish", json!([]))]);
    d.file["activity"] = json!([with(FILE_ITEM, &[])]);
    d.view["layouts"] = json!([["main", [with(VIEW, &[("id", json!("button1"))])]]]);
    d.logic["MainActivity"] = r.doc().unwrap();
    d
}
fn rename(mut d: Doc) -> Doc {
    // same names and sizes, other content
    d.view["layouts"][0][1][0]["text"]["text"] = json!("other");
    d.logic["MainActivity"]["containers"][0][1][1]["opCode"] = json!("leave");
    d.logic["MainActivity"]["containers"][1][1][0]["color"] = json!(7);
    d
}
fn broken(f: fn(&mut Doc)) -> [String; 6] { let mut d = little(); f(&mut d); texts(&d) }

/// the menu: at least one call that works and one that fails per part of the library
pub fn menu() -> &'static Vec<Op> {
    static M: OnceLock<Vec<Op>> = OnceLock::new();
    M.get_or_init(|| {
        let (big, small, small2) = (texts(&sample_doc()), texts(&little()), texts(&rename(little())));
        let hs = handles(&sample_doc(), false);
        let mut m = vec![
            op("encrypt 17 bytes", || format!("{:?}", swrs::encrypt_sw(b"seventeen bytes!!"))),
            op("encrypt and decrypt 16 bytes", || outcome(swrs::decrypt_sw_encrypted(&swrs::encrypt_sw(b"sixteen bytes !!")))),
            op("decrypt nonsense", || outcome(swrs::decrypt_sw_encrypted(b"sixteen bytes !!"))),
            op("encrypt a file in place", || { let s = Scratch::new(); let p = s.0.join("x"); std::fs::write(&p, b"text").unwrap(); let r = swrs::encrypt_sw_file_to_file(&p, None); format!("{:?} {:?} {:?}", r.is_ok(), std::fs::read(&p).unwrap(), outcome(swrs::decrypt_sw_file(&p))) }),
            op("encrypt a missing file", || { let s = Scratch::new(); format!("{:?}", swrs::encrypt_sw_file_to_file(&s.0.join("none"), Some(&s.0.join("out"))).is_ok()) }),
        ];
        for (n, t) in [("a project", &small), ("the same names with other content", &small2), ("the large project", &big)] { let t = t.clone(); m.push(op(format!("load, convert and save {}", n), move || project(t.clone(), None))) }
        { let (t, h) = (big.clone(), hs.clone()); m.push(op("load, convert and save with files", move || project(t.clone(), Some(h.clone())))); }
        { let (t, h) = (big.clone(), hs[1..].to_vec()); m.push(op("load with a file missing", move || project(t.clone(), Some(h.clone())))); }
        let bad: [(&str, fn(&mut Doc)); 6] = [
            ("a reference to a missing block", |d| d.logic["MainActivity"]["containers"][0][1][0]["subStack1"] = json!(77)),
            ("a bad parameter in the last container", |d| { let c = d.logic["MainActivity"]["containers"].as_array_mut().unwrap(); let n = c.len(); c[n - 1][1][0]["parameters"] = json!(["@x"]) }),
            ("a view under a missing parent", |d| d.view["layouts"][0][1][0]["parent"] = json!("gone")),
            ("an unknown view type", |d| d.view["layouts"][0][1][0]["type"] = json!(77)),
            ("an unknown component type", |d| d.logic["MainActivity"]["components"][0]["type"] = json!(99)),
            ("a custom view without layout", |d| d.file["customview"] = json!([with(FILE_ITEM, &[("fileName", json!("row")), ("fileType", json!(1))])])),
        ];
        for (n, f) in bad { m.push(op(format!("convert {}", n), move || project(broken(f), None))) }
        for (i, n) in ["project", "file", "library", "resource", "view", "logic"].iter().enumerate() {
            let parse = move |t: &str| match i { 0 => parse_save::<Project>(t), 1 => parse_save::<File>(t), 2 => parse_save::<Library>(t), 3 => parse_save::<Resource>(t), 4 => parse_save::<view::View>(t), _ => parse_save::<Logic>(t) };
            let t = big[i].clone();
            m.push(op(format!("parse and save the {} file", n), move || parse(&t)));
            // the entry cut in its middle: the last one that has quotes
            let at = big[i].rfind("\":").unwrap();
            let t = format!("{}{}", &big[i][..at], &big[i][at + 2..]);
            m.push(op(format!("parse a broken {} file", n), move || parse(&t)));
        }
        let l = |id: &str, next: i64, sp: &str, ps: &[&str]| Raw { next, spec: sp.into(), params: ps.iter().map(|p| p.to_string()).collect(), ..blocks::raw(id) };
        let l1 = vec![l("10", 11, "a %s", &["@12"]), l("12", -1, "c", &[]), l("11", -1, "b", &[])];
        let l2 = vec![l("10", 12, "a %s", &["@11"]), l("12", -1, "d", &[]), l("11", -1, "e", &[])];
        let l3 = vec![l("10", 11, "a %s", &["@12"]), l("12", -1, "%d", &["no"]), l("11", -1, "b", &[])];
        let l4 = vec![l("10", 11, "a", &[]), l("11", 10, "b", &[])];
        for (n, x) in [("blocks", l1), ("other blocks under the same ids", l2), ("blocks with a bad argument", l3), ("a cycle of blocks", l4)] { m.push(op(format!("load and save {}", n), move || list_of(&x))) }
        for (n, s, p) in [("a spec", "set %m.varInt to %d", vec!["count", "3"]), ("the same spec with other parameters", "set %m.varInt to %d", vec!["name", "4.5"]), ("a spec with a bad parameter", "set %m.varInt to %d", vec!["count", "three"]), ("a spec with references", "%s %b", vec!["@10", "@11"])] {
            m.push(op(format!("parse {}", n), move || spec(s, &p)))
        }
        m.push(op("save a placeholder", || { let b = Blocks(vec![Block::new(swrs::api::block::BlockCategory::List, "x".into(), BlockContent::parse("a %s".into(), vec!["@10".into()]).unwrap(), BlockType::Control(BlockControl::OneNest))]); let c: swrs::parser::logic::BlockContainer = b.into(); format!("{:?}", c.0.len()) }));
        for (n, first) in [("a nest", 3usize), ("another nest", 1)] { m.push(op(format!("save {}", n), move || {
            let leaf = |s: &str| Block::new(swrs::api::block::BlockCategory::List, s.into(), BlockContent::parse("leaf".into(), vec![]).unwrap(), BlockType::Regular);
            let nest = |s: &str, l: Vec<Block>, r: Vec<Block>| { let mut b = leaf(s); b.block_type = BlockType::Control(BlockControl::TwoNest); b.sub_stack1 = Some(Blocks(l)); b.sub_stack2 = Some(Blocks(r)); b };
            let mut b: Vec<Block> = (0..first).map(|_| leaf("l")).collect();
            b.push(nest("n", vec![leaf("a"), nest("m", vec![leaf("b")], vec![])], vec![leaf("c")]));
            let c: swrs::parser::logic::BlockContainer = Blocks(b).into();
            format!("{:?}", c.0.iter().map(obs::raw).collect::<Vec<_>>())
        })) }
        let v = |id: &str, ty: i64, p: &str| with(VIEW, &[("id", json!(id)), ("type", json!(ty)), ("parent", json!(p))]);
        for (n, vs) in [("a layout", vec![v("a", 0, "root"), v("b", 4, "a"), v("c", 3, "root")]), ("another layout of the same names", vec![v("a", 0, "root"), v("c", 4, "a"), v("b", 5, "c")]), ("a layout with a missing parent", vec![v("a", 0, "root"), v("b", 4, "x")])] {
            m.push(op(format!("build and flatten {}", n), move || layout(&vs)))
        }
        m.push(op("colours", || { let c = Color::from(0xff8a55d7); format!("{:?} {} {:?} {:?}", c, c.alpha(), c.rgb(), outcome(Color::parse_hex("12345678"))) }));
        m.push(op("a bad colour", || outcome(Color::parse_hex("12345g"))));
        m.push(op("fill a registry", || {
            let mut r = Resources::new_empty();
            let mut out = vec![];
            for (i, (id, t)) in [("a", ResourceType::Image), ("b", ResourceType::Sound), ("a", ResourceType::Font), ("c", ResourceType::Image)].into_iter().enumerate() { out.push(outcome(r.put_resource(ResourceId(id.into()), handle(i), t))) }
            out.push(format!("{:?}", r.remove_resource(&ResourceId("a".into()))));
            out.push(outcome(r.put_resource(ResourceId("a".into()), handle(9), ResourceType::Image)));
            out.push(format!("{:?}", r));
            out.join("\n")
        }));
        m.push(op("put an icon into a registry", || { let mut r = Resources::new_empty(); outcome(r.put_resource(ResourceId("a".into()), handle(1), ResourceType::CustomIcon)) }));
        m.push(op("a missing resource file", || outcome(ResourceFiles::try_from(vec![handle(1), W::Path("/nowhere/images/601/a.png".into())]).map(|_| ()))));
        m.push(op("default view", || format!("{:?}", View::from(super::views::mk_view(&v2("x")).unwrap()))));
        m
    })
}
fn v2(id: &str) -> Value { with(VIEW, &[("id", json!(id))]) }

/// what every operation of the menu gives when it is the only one of its process
pub fn solo() -> &'static Vec<String> {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| menu().iter().map(|o| { let o = o.clone(); match apart(move || Ok(run(&o))) { Ok(s) => s, Err(e) => format!("(alone: {})", e) } }).collect())
}
fn differs(what: &str, want: &str, got: &str) -> Result<(), String> {
    beat().fetch_add(1, SeqCst);
    if want == got { return Ok(()) }
    let at = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| { let mut b = at.saturating_sub(60); while !s.is_char_boundary(b.min(s.len())) { b -= 1 } trunc(&s[b.min(s.len())..], 300) };
    Err(format!("{} gives another result than alone, from byte {}: `{}` instead of `{}`", what, at, cut(got), cut(want)))
}
fn named(h: &[usize]) -> String { h.iter().map(|i| menu()[*i].name.clone()).collect::<Vec<_>>().join("; ") }

fn sequence(ch: &mut Ch, of: &[usize], len: usize) -> Result<(), String> {
    let s = solo();
    let h: Vec<usize> = (0..len).map(|_| *ch.free_of(of)).collect();
    ch.state(&h);
    ch.note(|| named(&h));
    ch.steps(len as u64);
    apart(|| { for (k, i) in h.iter().enumerate() { differs(&format!("operation {} of `{}`", k + 1, named(&h)), &s[*i], &run(&menu()[*i]))? } Ok(String::new()) }).map(|_| ())
}
fn all() -> Vec<usize> { (0..menu().len()).collect() }
/// without the large projects and files
fn quick_ones() -> Vec<usize> { let m = menu(); (0..m.len()).filter(|i| !["the large project", "with files", "with a file missing", " file in place", "a missing file", "the view file", "broken view", "the logic file", "broken logic"].iter().any(|w| m[*i].name.contains(w))).collect() }
/// a few that share names and ids, and fail in the middle
fn few() -> Vec<usize> {
    let m = menu();
    let f: Vec<usize> = ["load, convert and save a project", "load, convert and save the same names with other content", "convert a bad parameter in the last container", "load and save blocks", "load and save other blocks under the same ids", "load and save blocks with a bad argument", "parse a spec", "parse the same spec with other parameters", "build and flatten a layout", "build and flatten another layout of the same names", "save a placeholder", "encrypt and decrypt 16 bytes", "save a nest", "save another nest"]
        .iter().map(|n| m.iter().position(|o| o.name == *n).expect("menu")).collect();
    f
}
fn pairs(ch: &mut Ch) -> Result<(), String> { sequence(ch, &all(), 2) }
fn triples(ch: &mut Ch) -> Result<(), String> { sequence(ch, &quick_ones(), 3) }
fn few_triples(ch: &mut Ch) -> Result<(), String> { sequence(ch, &few(), 3) }
fn fours(ch: &mut Ch) -> Result<(), String> { sequence(ch, &few(), 4) }

/// the same operation many times, then any
fn repeated(ch: &mut Ch) -> Result<(), String> {
    let s = solo();
    let a = *ch.free_of(&all());
    // the large projects are repeated less often
    let ns: &[usize] = if quick_ones().contains(&a) { &[1100, 257, 129, 33] } else { &[130, 33] };
    let n = *ch.free_of(ns);
    let every = ch.free(2) == 1;
    ch.state(&(a, n, every));
    ch.note(|| format!("{} times `{}`, then everything{}", n, menu()[a].name, if every { ", each on a thread of its own" } else { "" }));
    ch.steps((n + menu().len()) as u64);
    apart(|| {
        for k in 0..n { differs(&format!("repetition {} of `{}`", k + 1, menu()[a].name), &s[a], &run(&menu()[a]))? }
        for (b, o) in menu().iter().enumerate() {
            let got = if every { let o = o.clone(); std::thread::Builder::new().stack_size(4 << 20).spawn(move || run(&o)).unwrap().join().unwrap() } else { run(o) };
            differs(&format!("`{}` after {} times `{}`", o.name, n, menu()[a].name), &s[b], &got)?
        }
        Ok(String::new())
    }).map(|_| ())
}

// ------------------------------------------------------------------ inputs that differ in one place

fn near(ch: &mut Ch, make: fn(&mut Ch) -> Option<Doc>) -> Result<(), String> {
    let d = match make(ch) { Some(d) if !ch.skipped => d, _ => { ch.skip(); return Ok(()) } };
    let base = make(&mut Ch::new(vec![], false)).unwrap();
    let (t, b) = (texts(&d), texts(&base));
    ch.state(&t);
    ch.note(|| doc_note(&t));
    ch.steps(7);
    let (t1, b1) = (t.clone(), b.clone());
    let alone = apart(move || Ok(guard(|| project(t1, None)).unwrap_or_else(|e| e)))?;
    static B: OnceLock<std::sync::Mutex<std::collections::HashMap<[String; 6], String>>> = OnceLock::new();
    let g = B.get_or_init(Default::default);
    let known = g.lock().unwrap().get(&b).cloned();
    let base_alone = match known { Some(x) => x, None => { let x = apart(move || Ok(guard(|| project(b1, None)).unwrap_or_else(|e| e)))?; g.lock().unwrap().insert(b.clone(), x.clone()); x } };
    apart(|| {
        for (i, which) in [0, 1, 0, 1, 1].into_iter().enumerate() {
            let got = guard(|| project(if which == 0 { b.clone() } else { t.clone() }, None)).unwrap_or_else(|e| e);
            differs(&format!("project {} in step {} of [base, variant, base, variant, variant]", if which == 0 { "base" } else { "variant" }, i + 1), if which == 0 { &base_alone } else { &alone }, &got)?
        }
        Ok(String::new())
    }).map(|_| ())
}
fn near_logic(ch: &mut Ch) -> Result<(), String> {
    near(ch, |ch| {
        let mut d = little();
        let mut s = ScreenDoc::rich();
        s.vary(ch);
        d.logic["MainActivity"] = s.doc()?;
        Some(d)
    })
}
fn near_views(ch: &mut Ch) -> Result<(), String> {
    near(ch, |ch| {
        let mut d = little();
        d.view["layouts"] = json!([["main", [with(VIEW, &[("id", json!("box")), ("type", json!(0))]), with(VIEW, &[("id", json!("leaf")), ("type", json!(4)), ("parent", json!("box"))])]]]);
        let mut v = d.view["layouts"][0][1][1].take();
        vary(ch, VIEW, &mut v, &["parent", "parentType"]);
        if v["id"] == "root" || v["id"] == "box" { return None }
        d.view["layouts"][0][1][1] = v;
        Some(d)
    })
}
fn near_settings(ch: &mut Ch) -> Result<(), String> {
    near(ch, |ch| {
        let mut d = little();
        for k in LIBS { d.library[*k] = sample_doc().library[*k].clone() }
        vary(ch, PROJECT, &mut d.project, &[]);
        let mut v = d.file["activity"][0].take(); vary(ch, FILE_ITEM, &mut v, &["fileName", "fileType"]); d.file["activity"][0] = v;
        enable(&mut d, ch);
        d.resource = sample_doc().resource;
        for k in ["images", "sounds", "fonts"] {
            let n = d.resource[k].as_array().unwrap().len();
            for i in 0..n { let mut v = d.resource[k][i].take(); vary(ch, RES_ITEM, &mut v, &["resType"]); d.resource[k][i] = v }
        }
        Some(d)
    })
}
/// the places of a document that hold a single value
fn leaves(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => for (i, x) in a.iter().enumerate() { leaves(x, format!("{}/{}", at, i), out) },
        Value::Object(o) => for (k, x) in o { leaves(x, format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out) },
        _ => out.push(at),
    }
}
const SLIGHTLY: usize = 9;
/// a value that is easily taken for the given one; None: there is no such one
fn slightly(v: &Value, how: usize) -> Option<Value> {
    match v {
        Value::Bool(b) => (how == 0).then(|| json!(!b)),
        Value::Null => (how == 0).then(|| json!("x")),
        Value::Number(n) => { let n = n.as_i64()?; Some(json!(match how { 0 => n + 1, 1 => n - 1, 2 => n + 256, 3 => n + 65536, 4 => n ^ (1 << 24), 5 => 0, _ => return None })) }
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            let mut d = c.clone();
            let n = d.len();
            if n == 0 && how != 4 && how != 5 { return None }
            match how {
                0 => d[n - 1] = if d[n - 1] == '9' { '8' } else { char::from_u32(d[n - 1] as u32 + 1)? },
                1 => d[0] = char::from_u32(d[0] as u32 + 1)?,
                2 => d[n / 2] = if d[n / 2] == '1' { '2' } else { '1' },
                3 => { let u = d[0].to_ascii_uppercase(); d[0] = if u == d[0] { d[0].to_ascii_lowercase() } else { u } }
                4 => d.push(' '),
                5 => d.push('0'),
                6 => { d.pop(); }
                7 => { d.remove(0); }
                _ => { if n < 2 { return None } d.swap(n - 1, n - 2) }
            }
            (d != c).then(|| json!(d.into_iter().collect::<String>()))
        }
        _ => None,
    }
}
fn part(d: &mut Doc, i: usize) -> &mut Value { [&mut d.project, &mut d.file, &mut d.library, &mut d.resource, &mut d.view, &mut d.logic].into_iter().nth(i).unwrap() }
/// a project and the same with one value changed slightly, wherever it stands
fn near_slight(ch: &mut Ch) -> Result<(), String> {
    near(ch, |ch| {
        let (base, docs) = slight_docs();
        let k = ch.free(docs.len() + 1);
        Some(if k > 0 { docs[k - 1].clone() } else { base.clone() })
    })
}
pub fn slight_docs() -> &'static (Doc, Vec<Doc>) {
    static P: OnceLock<(Doc, Vec<Doc>)> = OnceLock::new();
    P.get_or_init(|| {
        let mut d = little();
        let s = sample_doc();
        for k in LIBS { d.library[*k] = s.library[*k].clone() }
        d.resource = s.resource.clone();
        d.view["fabs"] = json!([["main", s.view["fabs"][0][1]]]);
        let mut p = vec![];
        for i in 0..6 {
            let mut l = vec![];
            leaves(part(&mut d, i), String::new(), &mut l);
            for x in l { let v = part(&mut d, i).pointer(&x).unwrap().clone(); for how in 0..SLIGHTLY { if let Some(w) = slightly(&v, how) { let mut e = d.clone(); *part(&mut e, i).pointer_mut(&x).unwrap() = w; p.push(e) } } }
        }
        (d, p)
    })
}
/// every ordered pair of specs with parameters, in one process per first one
fn near_specs(ch: &mut Ch) -> Result<(), String> {
    static L: OnceLock<(Vec<(String, Vec<String>)>, Vec<String>)> = OnceLock::new();
    let (l, s) = L.get_or_init(|| {
        let mut l: Vec<(String, Vec<String>)> = vec![];
        for t in ["%s", "%d", "%b", "%m.x", "%s.x", "a %s", "a %d", "%s a", "a  %s", "A %s", "%s.y", "%m.y", "a", "a ", " a", "aa", ""] {
            for p in ["x", "y", "1", "2", "true", "false", "", "@10", "@11", "@", " x", "x ", "1.5", "1,2", "1, 2", "1 2", "12", "[1]", "\"1\""] { l.push((t.into(), vec![p.into()])) }
            l.push((t.into(), vec![]));
            l.push((t.into(), vec!["1".into(), "2".into()]));
        }
        for (t, ps) in blocks::SPECS { l.push((t.to_string(), ps.iter().map(|p| p.to_string()).collect())) }
        let s = l.iter().map(|(t, ps)| { let ps: Vec<&str> = ps.iter().map(|p| p.as_str()).collect(); apart(|| Ok(guard(|| spec(t, &ps)).unwrap_or_else(|e| e))).unwrap() }).collect();
        (l, s)
    });
    let a = ch.free(l.len());
    ch.state(&a);
    ch.note(|| format!("{:?} before, after and between each of {} other specs", l[a], l.len()));
    ch.steps(2 * l.len() as u64);
    let get = |i: usize| { let ps: Vec<&str> = l[i].1.iter().map(|p| p.as_str()).collect(); guard(|| spec(&l[i].0, &ps)).unwrap_or_else(|e| e) };
    apart(|| {
        for b in 0..l.len() {
            differs(&format!("{:?}, after {:?},", l[a], l[b.saturating_sub(1)]), &s[a], &get(a))?;
            differs(&format!("{:?}, after {:?},", l[b], l[a]), &s[b], &get(b))?;
        }
        Ok(String::new())
    }).map(|_| ())
}

/// two byte strings of one length that differ at one place, encrypted and decrypted alternately
fn near_bytes(ch: &mut Ch) -> Result<(), String> {
    let ns: Vec<usize> = (1..=48).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 4097, 65536]).collect();
    let n = *ch.free_of(&ns);
    let places: Vec<usize> = if n <= 300 { (0..n).collect() } else { [0, 1, 15, 16, 17, 31, 32, 33, 64, 255, 256].into_iter().filter(|i| *i < n).flat_map(|i| [i, n - 1 - i]).chain([n / 2, n / 3]).collect() };
    ch.state(&n);
    ch.note(|| format!("byte strings of length {} that differ in one place, one after the other", n));
    ch.steps(6 * places.len() as u64);
    super::ways::enc(b"");
    apart(|| {
        let a: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        let c = super::ways::enc(&a);
        for p in &places { for bit in [1u8, 0x80] {
            let mut b = a.clone(); b[*p] ^= bit;
            let d = super::ways::enc(&b);
            for (what, plain, coded) in [("the first", &a, &c), ("the second", &b, &d), ("the first again", &a, &c)] {
                if &swrs::encrypt_sw(plain) != coded { return Err(format!("two strings of {} bytes that differ in byte {}: {} is encrypted as the other", n, p, what)) }
                if swrs::decrypt_sw_encrypted(coded).ok().as_ref() != Some(plain) { return Err(format!("two strings of {} bytes that differ in byte {}: {} is decrypted as something else", n, p, what)) }
            }
        } }
        Ok(String::new())
    }).map(|_| ())
}

// ------------------------------------------------------------------ many different inputs

/// the i-th input of a kind
fn numbered(kind: usize, i: usize) -> String {
    let l = |id: String, next: i64, op: String, sp: String, ps: Vec<String>| Raw { next, op, spec: sp, params: ps, ..blocks::raw(&id) };
    let v = |id: String, ty: i64, p: String| with(VIEW, &[("id", json!(id)), ("type", json!(ty)), ("parent", json!(p))]);
    match kind {
        0 => list_of(&[l("10".into(), 11, format!("op{}", i), "a %s".into(), vec!["x".into()]), l("11".into(), -1, "other".into(), "b".into(), vec![])]),
        1 => list_of(&[l(format!("{}", 10 + i), 11 + i as i64, "op".into(), format!("word{} %s", i), vec![format!("@{}", 12 + i)]), l(format!("{}", 12 + i), -1, "arg".into(), format!("%m.kind{}", i), vec![format!("value{}", i)]), l(format!("{}", 11 + i), -1, "op".into(), "%d".into(), vec![format!("{}", i)])]),
        2 => layout(&[v(format!("box{}", i), 0, "root".into()), v(format!("text{}", i), 4, format!("box{}", i))]),
        3 => { let mut d = little(); d.logic["MainActivity"]["var"] = json!([[i % 4, format!("name{}", i)]]); d.project["my_ws_name"] = json!(format!("Work {}", i)); d.project["sc_id"] = json!(format!("{}", 600 + i)); project(texts(&d), None) }
        4 => { let n = format!("Screen{}", i); let mut d = little(); d.file["activity"][0]["fileName"] = json!(format!("screen{}", i)); d.view["layouts"][0][0] = json!(format!("screen{}", i)); let l = d.logic["MainActivity"].take(); d.logic = json!({ format!("{}Activity", n): l }); project(texts(&d), None) }
        5 => { let c = Color::from(0x01010101u32.wrapping_mul(i as u32)); format!("{:?} {:?} {:?} {:?}", c, c.rgb(), outcome(Color::parse_hex(&format!("{:06x}", i * 331))), outcome(Color::parse_hex(&format!("{:08x}", i * 70001)))) }
        6 => { let e = swrs::encrypt_sw(format!("text number {}", i).as_bytes()); format!("{:?} {}", e, outcome(swrs::decrypt_sw_encrypted(&e))) }
        _ => { let mut r = Resources::new_empty(); let t = [ResourceType::Image, ResourceType::Sound, ResourceType::Font]; format!("{} {} {:?} {:?}", outcome(r.put_resource(ResourceId(format!("id{}", i)), handle(i), t[i % 3])), outcome(r.put_resource(ResourceId(format!("id{}", i)), handle(i + 1), t[(i + 1) % 3])), r.remove_resource(&ResourceId(format!("id{}", i + 1))), r) }
    }
}
/// one process that is given many different inputs of a kind, and then the same ones again
fn many(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.free(8);
    let back = ch.free(2) == 1;
    let n = if ch.wide { 4400 } else { 1100 };
    ch.state(&(kind, back));
    ch.note(|| format!("{} different inputs of kind {}{}, then the same ones again", n, kind, if back { ", the last one first" } else { "" }));
    ch.steps(2 * n as u64);
    static S: [OnceLock<Vec<String>>; 8] = [const { OnceLock::new() }; 8];
    let s = S[kind].get_or_init(|| (0..n).map(|i| apart(|| Ok(guard(|| numbered(kind, i)).unwrap_or_else(|e| e))).unwrap_or_else(|e| e)).collect());
    apart(|| {
        for k in 0..2 * n { let i = if back { 2 * n - 1 - k } else { k } % n; differs(&format!("input {} of kind {}, as number {} of its process,", i, kind, k + 1), &s[i], &guard(|| numbered(kind, i)).unwrap_or_else(|e| e))? }
        Ok(String::new())
    }).map(|_| ())
}

// ------------------------------------------------------------------ two threads

enum Msg { Run(usize, u64), Done(String) }
struct Worker { to: Sender<Msg>, from: Receiver<Msg> }
impl Worker {
    fn new(slot: usize) -> Worker {
        let (to, rx) = channel();
        let (tx, from) = channel();
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            SLOT.with(|s| s.set(slot));
            while let Ok(Msg::Run(i, pause)) = rx.recv() {
                LEFT.with(|l| l.set(pause));
                let r = guard(|| (menu()[i].run)());
                LEFT.with(|l| l.set(0));
                STATE[slot].store(3, SeqCst);
                let _ = tx.send(Msg::Done(match r { Ok(s) | Err(s) => s }));
            }
        }).expect("harness: thread");
        Worker { to, from }
    }
    fn start(&self, slot: usize, i: usize, pause: u64) { STATE[slot].store(0, SeqCst); self.to.send(Msg::Run(i, pause)).unwrap() }
    fn end(&self) -> String { match self.from.recv() { Ok(Msg::Done(s)) => s, _ => panic!("harness: worker ended") } }
    fn end_in(&self, ms: u64) -> Option<String> { match self.from.recv_timeout(Duration::from_millis(ms)) { Ok(Msg::Done(s)) => Some(s), _ => None } }
}
/// waits until the thread has stopped (true) or is done
fn stopped(slot: usize) -> bool { let mut n = 0u32; loop { match STATE[slot].load(SeqCst) { 1 => return true, 3 => return false, _ => { n += 1; if n > 200 { unsafe { libc::sched_yield(); } } std::hint::spin_loop() } } } }
fn stopped_in(slot: usize, ms: u64) -> Option<bool> {
    let t = Instant::now();
    loop { match STATE[slot].load(SeqCst) { 1 => return Some(true), 3 => return Some(false), _ => { unsafe { libc::sched_yield(); } if t.elapsed() > Duration::from_millis(ms) { return None } } } }
}
fn go(slot: usize) { STATE[slot].store(2, SeqCst) }

/// two threads with two operations each, in every order of the calls
fn calls_of(ch: &mut Ch, of: &[usize]) -> Result<(), String> {
    let s = solo();
    let h: Vec<usize> = (0..4).map(|_| *ch.free_of(of)).collect();
    let order = *ch.free_of(&[[0, 0, 1, 1], [0, 1, 0, 1], [0, 1, 1, 0]]);
    ch.state(&(&h, order));
    ch.note(|| format!("{} on threads {:?}", named(&h), order));
    ch.steps(4);
    apart(|| {
        let w = [Worker::new(0), Worker::new(1)];
        for k in 0..4 { w[order[k]].start(order[k], h[k], 0); differs(&format!("operation {} of `{}` on threads {:?}", k + 1, named(&h), order), &s[h[k]], &w[order[k]].end())? }
        Ok(String::new())
    }).map(|_| ())
}
fn calls(ch: &mut Ch) -> Result<(), String> { calls_of(ch, &few()[1..7]) }
fn calls_all(ch: &mut Ch) -> Result<(), String> { calls_of(ch, &few()) }

/// How long to wait for a thread that may be waiting for the other one, which is stopped. Too short only means that the stopped
/// one goes on early, so once many waits were in vain they get shorter, though never shorter than an operation takes.
struct Patience { vain: u32, most: Duration }
impl Patience {
    fn new() -> Patience { Patience { vain: 0, most: Duration::ZERO } }
    fn ms(&self) -> u64 { if self.vain < 10 { 100 } else { (4 * self.most.as_millis() as u64).clamp(4, 100) } }
    fn saw(&mut self, t: Instant, in_time: bool) { if in_time { self.most = self.most.max(t.elapsed()) } else { self.vain += 1 } }
}
/// A is stopped at its n-th allocation or release, B runs completely, A goes on
fn stop_at(w: &[Worker; 2], pt: &mut Patience, a: usize, b: usize, n: u64) -> Result<bool, String> {
    let s = solo();
    let what = |x: usize| format!("`{}`, with `{}` stopped at point {} while `{}` runs,", menu()[x].name, menu()[a].name, n, menu()[b].name);
    w[0].start(0, a, n);
    if !stopped(0) { differs(&what(a), &s[a], &w[0].end())?; return Ok(false) }
    w[1].start(1, b, 0);
    // B may wait for something that A holds
    let t = Instant::now();
    let early = w[1].end_in(pt.ms());
    pt.saw(t, early.is_some());
    go(0);
    let ra = w[0].end();
    let rb = match early { Some(r) => r, None => w[1].end() };
    differs(&what(a), &s[a], &ra)?;
    differs(&what(b), &s[b], &rb)?;
    Ok(true)
}
/// two threads that can be stopped at every allocation, release and access to a writable static of the library
fn two_threads() -> [Worker; 2] { watch(tick); [Worker::new(0), Worker::new(1)] }
fn sweep(ch: &mut Ch, of: &[usize], stride: u64) -> Result<(), String> {
    let (a, b) = (*ch.free_of(of), *ch.free_of(of));
    // the points are dealt out to several processes
    let first = ch.free(stride as usize) as u64 + 1;
    ch.note(|| format!("`{}` stopped at points {}, {}, ..., `{}` runs there", menu()[a].name, first, first + stride, menu()[b].name));
    solo();
    let n: u64 = apart(|| {
        let w = two_threads();
        let mut n = first;
        let mut pt = Patience::new();
        while stop_at(&w, &mut pt, a, b, n)? { n += stride }
        Ok(((n - first) / stride).to_string())
    })?.parse().unwrap();
    ch.steps(2 * n);
    ch.inner_states += n;
    Ok(())
}
fn preempt(ch: &mut Ch) -> Result<(), String> { let f = few(); let of: Vec<usize> = f[..1].iter().chain(&f[3..]).copied().collect(); sweep(ch, &of, 8) }
fn preempt_all(ch: &mut Ch) -> Result<(), String> { sweep(ch, &all(), 16) }
/// the same with a process of its own for every point
fn preempt_fresh_of(ch: &mut Ch, of: &[usize], max: usize) -> Result<(), String> {
    let (a, b) = (*ch.free_of(of), *ch.free_of(of));
    static N: OnceLock<Vec<OnceLock<usize>>> = OnceLock::new();
    // how many points the operation has
    let points = *N.get_or_init(|| menu().iter().map(|_| OnceLock::new()).collect())[a].get_or_init(|| apart(|| {
        watch(tick); LEFT.with(|l| l.set(u64::MAX)); let _ = guard(|| (menu()[a].run)()); let n = u64::MAX - LEFT.with(|l| l.replace(0)); Ok(n.to_string())
    }).unwrap().parse().unwrap());
    let n = ch.free(points.min(max)) as u64 + 1;
    solo();
    ch.state(&(a, b, n));
    ch.note(|| format!("`{}` stopped at point {} of {}, `{}` runs there", menu()[a].name, n, points, menu()[b].name));
    ch.steps(2);
    apart(|| { let w = two_threads(); stop_at(&w, &mut Patience::new(), a, b, n)?; Ok(String::new()) }).map(|_| ())
}
fn preempt_fresh(ch: &mut Ch) -> Result<(), String> { preempt_fresh_of(ch, &few()[3..], 400) }
fn preempt_fresh_all(ch: &mut Ch) -> Result<(), String> { preempt_fresh_of(ch, &few(), 4000) }
/// A stops at its n-th point, B at its m-th, A ends, B ends: two switches at any points
fn crossed_of(ch: &mut Ch, of: &[usize], max: u64) -> Result<(), String> {
    let (a, b) = (*ch.free_of(of), *ch.free_of(of));
    let s = solo();
    let (stride, first) = (6u64, ch.free(6) as u64 + 1);
    ch.note(|| format!("`{}` stopped at points {}, {}, ..., `{}` runs until anywhere, the first ends, the second ends", menu()[a].name, first, first + stride, menu()[b].name));
    let n: u64 = apart(|| {
        let w = two_threads();
        let mut count = 0u64;
        let mut pt = Patience::new();
        for n in (first..=max).step_by(stride as usize) {
            let mut more = false;
            for m in 1..=max {
                let what = |x: usize| format!("`{}`, with `{}` stopped at point {}, `{}` run to its point {}, the first one finished,", menu()[x].name, menu()[a].name, n, menu()[b].name, m);
                w[0].start(0, a, n);
                if !stopped(0) { differs(&what(a), &s[a], &w[0].end())?; break }
                more = true;
                count += 1;
                w[1].start(1, b, m);
                let t = Instant::now();
                let bs = stopped_in(1, pt.ms());
                pt.saw(t, bs.is_some());
                go(0);
                let t = Instant::now();
                let ended = w[0].end_in(pt.ms());
                pt.saw(t, ended.is_some());
                let ra = match ended { Some(r) => r, None => { // A waits for B
                    let mut bs2 = bs.or_else(|| stopped_in(1, pt.ms()));
                    if bs2 == Some(true) { go(1) }
                    let r = loop {
                        if let Some(r) = w[0].end_in(20) { break r }
                        if bs2.is_none() { bs2 = stopped_in(1, 0); if bs2 == Some(true) { go(1) } }
                    };
                    if bs2.is_none() { let at = stopped(1); if at { go(1) } bs2 = Some(at) }
                    let rb = w[1].end();
                    differs(&what(a), &s[a], &r)?; differs(&what(b), &s[b], &rb)?;
                    if bs2 == Some(false) { break } else { continue }
                } };
                // B may have been waiting for A and stop only now
                let at = match bs { Some(x) => x, None => stopped(1) };
                if at { go(1) }
                let rb = w[1].end();
                differs(&what(a), &s[a], &ra)?;
                differs(&what(b), &s[b], &rb)?;
                if !at { break }
            }
            if !more { break }
        }
        Ok(count.to_string())
    })?.parse().unwrap();
    ch.steps(2 * n);
    ch.inner_states += n;
    Ok(())
}
fn crossed(ch: &mut Ch) -> Result<(), String> { crossed_of(ch, &few()[3..], 60) }
fn crossed_all(ch: &mut Ch) -> Result<(), String> { crossed_of(ch, &few()[3..], 200) }

/// the watching of statics works, and how many there are
fn watching(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(2);
    ch.step();
    if n == 0 { apart(|| statics::self_test().and_then(|_| crate::world::self_test()).map(|_| String::new())).unwrap_or_else(|e| panic!("harness: {}", e)); return Ok(()) }
    let f = statics::found();
    ch.state(&f.names);
    ch.note(|| format!("writable statics of the library: {} {:?}", f.names.len(), f.names));
    Ok(())
}

// ------------------------------------------------------------------ what surrounds the process

/// operations over unusual values: every value of every attribute of every kind of entry, byte strings of many
/// lengths, projects with one value changed slightly
fn odd() -> &'static Vec<Op> {
    use crate::dom::{self, BLOCK, COMPONENT, EVENT, LIB_ITEM, PROJECT, RES_ITEM};
    static O: OnceLock<Vec<Op>> = OnceLock::new();
    O.get_or_init(|| {
        fn h(s: &str) -> u64 { use std::hash::{BuildHasher, BuildHasherDefault}; BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(s) }
        let mut m = vec![];
        type P = fn(&str) -> String;
        let kinds: [(&str, &'static [dom::Field], &str, P); 8] = [
            ("project", PROJECT, "", |t| parse_save::<Project>(t)), ("file entry", FILE_ITEM, "@activity\n", |t| parse_save::<File>(t)), ("library", LIB_ITEM, "", |t| parse_save::<Library>(t)),
            ("resource", RES_ITEM, "@images\n", |t| parse_save::<Resource>(t)), ("view", VIEW, "@main.xml\n", |t| parse_save::<view::View>(t)), ("event", EVENT, "@A.java_events\n", |t| parse_save::<Logic>(t)),
            ("component", COMPONENT, "@A.java_components\n", |t| parse_save::<Logic>(t)), ("block", BLOCK, "@A.java_onCreate_initializeLogic\n", |t| parse_save::<Logic>(t)),
        ];
        for (n, fields, head, parse) in kinds { m.push(op(format!("parse and save every value of every attribute of a {}", n), move || {
            let mut out = String::new();
            let t = dom::table(fields);
            for (path, small, big, _) in &t.fields { for (i, x) in small.iter().chain(big).enumerate() {
                if match x { Value::String(s) => s.len() > 5000, Value::Array(a) => a.len() > 100, _ => false } { continue }
                let mut v = dom::default(fields);
                dom::set(&mut v, path, x.clone());
                let r = parse(&format!("{}{}\n", head, dom::write(&v, 0)));
                out += &format!("{} {}: {:x}\n", path, i, h(&r));
            } }
            for i in 0..300 { let r = parse(&format!("{}{}\n", head, dom::write(&rich(fields, i, &[]), i % dom::STYLES))); out += &format!("mixture {}: {:x}\n", i, h(&r)); }
            out
        })) }
        m.push(op("encrypt and decrypt byte strings of many lengths", || {
            let mut out = String::new();
            for n in (0..300usize).chain([511, 512, 513, 1024, 4096, 4097, 65536, 70001]) {
                let b: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
                let e = swrs::encrypt_sw(&b);
                out += &format!("{} bytes: {:x} {:?} {:?} {:?}\n", n, h(&format!("{:?}", e)), swrs::decrypt_sw_encrypted(&e).map(|d| d == b).ok(), swrs::decrypt_sw_encrypted(&b).ok(), swrs::decrypt_sw_encrypted(&e[..e.len() - 1]).ok());
            }
            out
        }));
        m.push(op("load, convert and save projects with one value changed slightly", || {
            let (_, docs) = slight_docs();
            let k = (docs.len() / 400).max(1);
            docs.iter().step_by(k).enumerate().map(|(i, d)| format!("variant {}: {:x}\n", i * k, h(&project(texts(d), None)))).collect()
        }));
        m
    })
}
fn odd_solo() -> &'static Vec<String> {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| odd().iter().map(|o| { let o = o.clone(); match apart(move || Ok(run(&o))) { Ok(s) => s, Err(e) => format!("(alone: {})", e) } }).collect())
}
/// names in the source that could be those of files
fn file_names() -> &'static Vec<String> {
    static N: OnceLock<Vec<String>> = OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<String> = vec![];
        for t in &crate::dict::dict().texts { for t in [t.trim_start_matches("./").trim_start_matches('/'), t.rsplit('/').next().unwrap()] {
            if !t.is_empty() && t.len() <= 100 && t != "." && !t.contains("..") && !t.contains('\0') && !v.iter().any(|x| x == t) { v.push(t.into()) }
        } }
        v
    })
}

enum Around { Env(String, Option<String>), Bare, Cwd(u8), Umask(u32), Named(&'static str), Date(i64), Keys(u64), Cores(usize), Stack }
fn around() -> &'static Vec<(String, Around)> {
    static A: OnceLock<Vec<(String, Around)>> = OnceLock::new();
    A.get_or_init(|| {
        let mut a = vec![];
        for (n, vs) in [("TZ", &["UTC", "America/New_York", "Asia/Jakarta", "", "nonsense/zone", "EST5EDT", "<+14>-14"][..]), ("LANG", &["C", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.SJIS", ""]), ("LC_ALL", &["C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8"]), ("LC_NUMERIC", &["de_DE.UTF-8"]), ("LC_TIME", &["id_ID.UTF-8"]),
            ("HOME", &["", "/nowhere"]), ("PATH", &[""]), ("TMPDIR", &["/tmp/"]), ("USER", &["", "nobody"]), ("PWD", &["/nowhere"]), ("RUST_BACKTRACE", &["0", "1", "full"]), ("RUST_LOG", &["trace"]), ("DEBUG", &["1"]), ("CI", &["true"]), ("NO_COLOR", &["1"]), ("TERM", &["dumb"]), ("COLUMNS", &["20"]), ("RUST_MIN_STACK", &["65536"])] {
            for v in vs { a.push((format!("{}={}", n, v), Around::Env(n.into(), Some(v.to_string())))) }
            a.push((format!("no {}", n), Around::Env(n.into(), None)));
        }
        // names in the source that could be variables of the environment
        for t in &crate::dict::dict().texts {
            if t.len() > 2 && t.bytes().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == b'_') && !a.iter().any(|(n, _)| n.starts_with(&format!("{}=", t))) {
                for v in ["", "0", "1", "true"] { a.push((format!("{}={}", t, v), Around::Env(t.clone(), Some(v.into())))) }
            }
        }
        a.push(("an empty environment".into(), Around::Bare));
        for (i, n) in ["/", "another directory", "a directory that was removed", "a directory with files named as the ones of a project", "one with files of every name in the source", "one with directories of every name in the source"].iter().enumerate() { a.push((format!("working directory: {}", n), Around::Cwd(i as u8))) }
        for m in [0, 0o77, 0o777] { a.push((format!("umask {:o}", m), Around::Umask(m))) }
        for n in ["main", "swrs", ""] { a.push((format!("a thread named `{}`", n), Around::Named(n))) }
        for (n, t) in [("1970-01-01", 0), ("1980-01-01", 315532800), ("1999-12-31 23:59:59", 946684799), ("2000-02-29", 951782400), ("2021-09-19", 1632009600), ("2024-12-31", 1735603200), ("2025-02-28", 1740700800), ("2038-01-19 03:14:07", 2147483647), ("2038-01-19 03:14:08", 2147483648), ("2100-03-01", 4107542400), ("2106-02-07 06:28:16", 4294967296), ("9999-12-31", 253402214400), ("10001-01-01", 253433836800), ("1969-12-31", -86400), ("1900-01-01", -2208988800)] { a.push((format!("the date {}", n), Around::Date(t))) }
        for k in 0..24 { a.push((format!("hash map keys {}", k), Around::Keys(k))) }
        for n in [1, 2, 3] { a.push((format!("{} processors", n), Around::Cores(n))) }
        a.push(("a stack limit of 1 MiB".into(), Around::Stack));
        a
    })
}
fn in_world(o: &Op, w: &Around) -> String {
    let dir = Scratch::new();
    let mut name = None;
    match w {
        Around::Env(n, v) => crate::world::set_env(n, v.as_deref()),
        Around::Bare => crate::world::clear_env(),
        Around::Cwd(k) => {
            let to = if *k == 0 { std::path::PathBuf::from("/") } else { dir.0.clone() };
            if *k == 3 { for f in ["project", "file", "library", "resource", "view", "logic"] { std::fs::write(dir.0.join(f), f).unwrap(); } for d in ["images", "sounds", "fonts", "icons", "601"] { std::fs::create_dir(dir.0.join(d)).unwrap(); std::fs::write(dir.0.join(d).join("a.png"), "x").unwrap(); } }
            if *k >= 4 { for t in file_names() {
                let p = dir.0.join(t);
                if let Some(d) = p.parent() { let _ = std::fs::create_dir_all(d); }
                let _ = if *k == 4 { std::fs::write(p, "1") } else { std::fs::create_dir_all(p) };
            } }
            std::env::set_current_dir(to).unwrap();
            if *k == 2 { std::fs::remove_dir_all(&dir.0).unwrap() }
        }
        Around::Umask(m) => { unsafe { libc::umask(*m); } }
        Around::Named(n) => name = Some(*n),
        Around::Date(t) => crate::world::set_date(*t),
        Around::Keys(k) => crate::world::set_keys(*k),
        Around::Cores(n) => unsafe {
            let mut now: libc::cpu_set_t = std::mem::zeroed();
            libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut now);
            let mut to: libc::cpu_set_t = std::mem::zeroed();
            for c in (0..1024).filter(|c| libc::CPU_ISSET(*c, &now)).take(*n) { libc::CPU_SET(c, &mut to) }
            libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &to);
        },
        Around::Stack => unsafe {
            let mut l: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_STACK, &mut l);
            l.rlim_cur = (1 << 20).min(l.rlim_max);
            libc::setrlimit(libc::RLIMIT_STACK, &l);
        },
    }
    let o = o.clone();
    let b = std::thread::Builder::new().stack_size(8 << 20);
    let b = match name { Some(n) => b.name(n.into()), None => b };
    b.spawn(move || run(&o)).unwrap().join().unwrap()
}
fn surroundings(ch: &mut Ch) -> Result<(), String> {
    let (s, t) = (solo(), odd_solo());
    let (name, w) = ch.free_of(around());
    let i = ch.free(menu().len() + odd().len());
    let (o, want) = if i < menu().len() { (&menu()[i], &s[i]) } else { (&odd()[i - menu().len()], &t[i - menu().len()]) };
    ch.state(&(name, i));
    ch.note(|| format!("`{}` with {}", o.name, name));
    ch.step();
    apart(|| { differs(&format!("`{}` with {}", o.name, name), want, &in_world(o, w))?; Ok(String::new()) }).map(|_| ())
}
fn more_keys(ch: &mut Ch) -> Result<(), String> {
    let s = solo();
    let k = ch.free(256) as u64 + 24;
    let i = *ch.free_of(&quick_ones());
    ch.state(&(k, i));
    ch.note(|| format!("`{}` with hash map keys {}", menu()[i].name, k));
    ch.step();
    apart(|| { differs(&format!("`{}` with hash map keys {}", menu()[i].name, k), &s[i], &in_world(&menu()[i], &Around::Keys(k)))?; Ok(String::new()) }).map(|_| ())
}
/// an operation, then some time, then the same or another
fn time_passes_of(ch: &mut Ch, of: &[usize]) -> Result<(), String> {
    let s = solo();
    let (a, b) = (*ch.free_of(of), *ch.free_of(of));
    let (name, real, mono) = *ch.free_of(&[("a second", 1, 1), ("a minute", 61, 61), ("an hour", 3601, 3601), ("a day", 86401, 86401), ("forty years", 1262304000, 1262304000), ("the clock set back an hour", -3600, 1), ("the clock set back fifty years", -1577880000, 1)]);
    ch.state(&(a, b, real));
    ch.note(|| format!("`{}`, {}, `{}`, {}, `{}`", menu()[a].name, name, menu()[b].name, name, menu()[a].name));
    ch.steps(3);
    apart(|| {
        for (k, i) in [a, b, a].into_iter().enumerate() { if k > 0 { crate::world::pass(real, mono) } differs(&format!("operation {} of `{}` with {} between them", k + 1, named(&[a, b, a]), name), &s[i], &run(&menu()[i]))? }
        Ok(String::new())
    }).map(|_| ())
}
fn time_passes(ch: &mut Ch) -> Result<(), String> { time_passes_of(ch, &few()) }
fn time_passes_all(ch: &mut Ch) -> Result<(), String> { time_passes_of(ch, &quick_ones()) }

pub fn c22() -> Check {
    Check { id: "C22", rule: "every history runs in a forked process in which the library has never run before; the result of each of its operations equals the result that operation has when it is the only one of its process, also after failures, on other threads, and with another thread stopped in the middle of an operation",
        assumptions: &["the number of an automatically made resource handle, and the order in which attached files are listed, are not compared", "switches between threads happen at the calls and at every allocation, release and access to a writable static of the library"],
        scopes: vec![
            scope("statics", "the writable statics the library has in this build (the points below include every access to one), and a self-test of watching them", watching, ALL, ALL),
            scope("pairs", "every sequence of 2 operations of the whole menu", pairs, ALL, ALL),
            scope("triples", "every sequence of 3 operations of the menu without the large projects", triples, OFF, ALL),
            scope("few-triples", "every sequence of 3 of the 12 operations that share names, ids and failures", few_triples, ALL, OFF),
            scope("fours", "every sequence of 4 of them", fours, OFF, ALL),
            scope("repeated", "every operation up to 1100 times, then every operation, on the same or another thread", repeated, ALL, ALL),
            scope("near-specs", "every ordered pair of 370 specs with parameters", near_specs, ALL, ALL),
            scope("near-bytes", "byte strings of 67 lengths, every two that differ in one place of it, encrypted and decrypted alternately", near_bytes, ALL, ALL),
            scope("near-logic", "a project and variants of its logic that differ in up to the bound's number of places, alternating", near_logic, 1, 1),
            scope("near-views", "the same for a view", near_views, 1, 1),
            scope("near-settings", "the same for metadata, options, libraries and resources", near_settings, 1, 1),
            scope("near-slight", "a project and the same with one value anywhere in its six files changed slightly (a digit, a letter, its case, a blank, one more or less), alternating", near_slight, ALL, ALL),
            scope("many", "one process that is given 1100 different opcodes, specs, ids, names, colours, texts, resources or projects, and then the same again", many, ALL, OFF),
            wide("many-more", "the same with 4400", many, OFF, ALL),
            scope("surroundings", "every operation of the menu, and 10 over unusual values, under every one of about 110 surroundings: variables of the environment, working directories and what is in them, dates, processors, keys of hash maps, thread names", surroundings, ALL, ALL),
            scope("keys", "256 more keys of hash maps", more_keys, OFF, ALL),
            scope("time-passes", "two operations and the first again with seven amounts of time passing (or turned back) between them", time_passes, ALL, OFF),
            scope("time-passes-all", "the same over the menu without the large projects", time_passes_all, OFF, ALL),
            scope("calls", "two threads with two operations each, every order of the calls", calls, ALL, OFF),
            scope("calls-all", "the same over 12 operations", calls_all, OFF, ALL),
            scope("preempt", "one operation stopped at every allocation, release and access to a writable static of the library while another runs on another thread", preempt, ALL, OFF),
            scope("preempt-all", "the same over the whole menu", preempt_all, OFF, ALL),
            scope("preempt-fresh", "the same in a process of its own per point", preempt_fresh, ALL, OFF),
            scope("preempt-fresh-all", "the same over 12 operations", preempt_fresh_all, OFF, ALL),
            scope("crossed", "both operations stopped at any such point (first 60)", crossed, ALL, OFF),
            scope("crossed-all", "both operations stopped at any such point (first 200)", crossed_all, OFF, ALL),
        ] }
}

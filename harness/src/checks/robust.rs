//! C17: no input makes loading crash or hang
//!
//! The verdict of these models is only whether loading comes back: a panic, an abort (stack overflow)
//! and a call that does not return within the explorer's time limit are violations.
use super::projects::*;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::Raw;
use crate::{obs, Check};
use serde_json::{json, Value};
use std::sync::OnceLock;
use swrs::api::block::{BlockContent, Blocks};
use swrs::api::view::parse_raw_layout;
use swrs::api::SketchwareProject;
use swrs::parser::view::Layout;
use swrs::parser::{file, library, logic, project, resource, view, Parsable, RawSketchwareProject, SketchwareProject as Parsed};

const FILES: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];

/// loads one data file and everything that can be made of it; true: accepted
fn load_file(ch: &mut Ch, file: usize, t: &str) -> bool {
    ch.state(&(file, t));
    ch.note(|| format!("{} file: {:?}", FILES[file], trunc(t, 3000)));
    ch.step();
    match file {
        0 => project::Project::parse(t).is_ok(),
        1 => file::File::parse(t).is_ok(),
        2 => library::Library::parse(t).is_ok(),
        3 => resource::Resource::parse(t).is_ok(),
        4 => match view::View::parse(t) { Ok(v) => { for (_, l) in v.layouts { let _ = parse_raw_layout(l); ch.step() } for (_, f) in v.fabs { let _ = swrs::api::view::View::from(f); ch.step() } true } Err(e) => { let _ = format!("{} {:?}", e, e); false } },
        _ => match logic::Logic::parse(t) {
            Ok(l) => {
                for (_, s) in l.screens {
                    for (_, c) in s.block_containers { let _ = Blocks::try_from(c); ch.step() }
                    if let Some(m) = s.more_blocks { for (_, b) in m.0 { let _ = BlockContent::parse_wo_params(&b.spec); ch.step() } }
                }
                true
            }
            Err(e) => { let _ = format!("{} {:?}", e, e); false }
        },
    }
}
/// the sample project with one of its files replaced
fn load_all(ch: &mut Ch, file: usize, text: String) -> bool {
    let mut t = base().clone();
    ch.state(&(file, &text));
    ch.note(|| format!("{} file: {}", FILES[file], trunc(&text, 6000)));
    t[file] = text;
    ch.steps(1);
    match Parsed::parse_from(raw_of(t, None)) {
        Ok(p) => { ch.steps(6); match SketchwareProject::try_from(p) { Ok(p) => { ch.steps(1); let _: Result<swrs::parser::RawSketchwareProject, _> = std::convert::TryInto::try_into(p); true } Err(e) => { let _ = format!("{} {:?}", e, e); false } } }
        Err(e) => { let _ = format!("{} {:?}", e, e); false }
    }
}
fn base() -> &'static [String; 6] { static B: OnceLock<[String; 6]> = OnceLock::new(); B.get_or_init(|| sample_doc().texts(Style { after: 1, ..Style::default() })) }
fn item(t: &'static [Field]) -> String { write(&default(t), 0) }

// ------------------------------------------------------------------ texts out of tokens

fn alphabet(file: usize) -> &'static Vec<String> {
    static A: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    &A.get_or_init(|| {
        let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let mut all = vec![
            s(&["{", "}", "\"sc_id\":", "\"601\"", ",", "\"my_sc_reg_dt\":", "\"é\"", "null", " "]),
            s(&["@activity", "@customview", "\n", "@", "{", "x", "\r", "é"]),
            s(&["@firebaseDB", "@compat", "@admob", "@googleMap", "\n", "@", "{}", "é"]),
            s(&["@images", "@sounds", "@fonts", "\n", "@", "{}", "é"]),
            s(&["@main", ".xml", "_fab", "\n", "@", ".", "é", "{}"]),
            s(&["@", "Main", ".", "java_", "var", "func", "events", "components", "list", "\n", ":", "1", "é", "_moreBlock"]),
        ];
        all[1].push(item(FILE_ITEM)); all[2].push(item(LIB_ITEM)); all[3].push(item(RES_ITEM)); all[4].push(item(VIEW)); all[5].push(item(BLOCK));
        all
    })[file]
}
fn tokens(ch: &mut Ch, max: usize) -> Result<(), String> {
    let f = ch.free(6);
    let al = alphabet(f);
    let mut s = String::new();
    for _ in 0..max { let k = ch.free(al.len() + 1); if k == 0 { break } s.push_str(&al[k - 1]) }
    load_file(ch, f, &s);
    Ok(())
}
fn tokens5(ch: &mut Ch) -> Result<(), String> { tokens(ch, 5) }
fn tokens6(ch: &mut Ch) -> Result<(), String> { tokens(ch, 6) }
/// headings of the logic and view files character by character around their delimiters
fn heads(ch: &mut Ch) -> Result<(), String> {
    let file = 4 + ch.free(2);
    let suffixes: &[&str] = if file == 4 { &[".xml", ".xml_fab"] } else { &[".java_var", ".java_list", ".java_components", ".java_events", ".java_func", ".java_onCreate_initializeLogic", ".java_a_moreBlock", ".java_"] };
    let suf = *ch.free_of(suffixes);
    let name = *ch.free_of(&["", "M", "Main", "é", "漢", "😀", ".", "@", ".java_", "_", " "]);
    let cut = ch.free(suf.len() + 1); let from = ch.free(suf.len() + 1);
    let odd = *ch.free_of(&["", "é", "\r", " ", ".", "@", "x"]);
    let tail = *ch.free_of(&["", "\n", "\n\n", "\nx", "\n1:a\n", "\n{}\n"]);
    if from > cut { ch.skip(); return Ok(()) }
    let t = format!("@{}{}{}{}", name, &suf[from..cut], odd, tail);
    load_file(ch, file, &t);
    Ok(())
}
/// every entry parser on short texts
fn entry_texts(ch: &mut Ch) -> Result<(), String> {
    const AL: &[&str] = &["{", "}", "[", "\"", ":", ",", "1", "a", "é", " ", "@", "-", "\\", "."];
    let mut s = String::new();
    for _ in 0..4 { let k = ch.free(AL.len() + 1); if k == 0 { break } s.push_str(AL[k - 1]) }
    ch.state(&s); ch.note(|| format!("{:?}", s));
    use logic::{component::*, event::*, list_variable::*, more_block::*, variable::*};
    let _ = file::FileItem::parse(&s); let _ = library::LibraryItem::parse(&s); let _ = resource::ResourceItem::parse(&s); let _ = view::models::AndroidView::parse(&s); let _ = Layout::parse(&s);
    let _ = Variable::parse(&s); let _ = VariablePool::parse(&s); let _ = ListVariable::parse(&s); let _ = ListVariablePool::parse(&s); let _ = Component::parse(&s); let _ = ComponentPool::parse(&s);
    let _ = MoreBlock::parse(&s); let _ = MoreBlockPool::parse(&s); let _ = Event::parse(&s); let _ = EventPool::parse(&s); let _ = logic::BlockContainerHeader::parse(&s); let _ = logic::BlockContainer::parse(&s); let _ = logic::Block::parse(&s);
    let _ = swrs::color::Color::parse_hex(&s);
    ch.steps(19);
    Ok(())
}
/// specs and parameters
fn specs(ch: &mut Ch, max: usize) -> Result<(), String> {
    const AL: &[&str] = &["%", "s", "d", "b", "m", ".", " ", "é", "q", "@", "😀"];
    const PS: &[&[&str]] = &[&[], &["@1", "@", "@é", "@-1"], &["", "", "", ""], &["é", "1", "true", "@10"], &["@99999999999", "1e999", "nan", "-"]];
    let mut s = String::new();
    for _ in 0..max { let k = ch.free(AL.len() + 1); if k == 0 { break } s.push_str(AL[k - 1]) }
    ch.state(&s); ch.note(|| format!("{:?}", s));
    if let Ok(c) = BlockContent::parse_wo_params(&s) { for p in PS { let _ = c.clone().apply_args(p.iter().map(|x| x.to_string()).collect()); ch.step() } let _ = c.to_string(); ch.step() }
    for p in PS { let _ = BlockContent::parse(s.clone(), p.iter().map(|x| x.to_string()).collect()); ch.step() }
    Ok(())
}
fn specs5(ch: &mut Ch) -> Result<(), String> { specs(ch, 5) }
fn specs6(ch: &mut Ch) -> Result<(), String> { specs(ch, 6) }

// ------------------------------------------------------------------ valid projects, broken

const CHARS: &[&str] = &["\n", "@", "\"", "é", "{", "%", "0", ":", "\u{0}", "}", "-", ".", "_", " ", "\\"];
/// every truncation and single-character change of every file
fn mutate(ch: &mut Ch) -> Result<(), String> {
    let wide = ch.wide;
    let f = ch.free(6);
    let t = &small()[f];
    let at: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
    let p = at[ch.free(at.len())];
    let n = if wide { CHARS.len() } else { 7 };
    let k = ch.free(2 + 2 * n);
    let next = t[p..].chars().next().map(|c| c.len_utf8()).unwrap_or(0);
    let s = match k { 0 => t[..p].to_string(), 1 => format!("{}{}", &t[..p], &t[p + next..]), k if k < 2 + n => format!("{}{}{}", &t[..p], CHARS[k - 2], &t[p..]), k => format!("{}{}{}", &t[..p], CHARS[k - 2 - n], &t[p + next..]) };
    load_all(ch, f, s);
    Ok(())
}
/// the sample with fewer views
fn small() -> &'static [String; 6] {
    static B: OnceLock<[String; 6]> = OnceLock::new();
    B.get_or_init(|| { let mut d = sample_doc(); let v = d.view["layouts"][0][1].as_array_mut().unwrap(); v.truncate(2); d.view["layouts"][3][1] = json!([]); d.texts(Style { after: 1, ..Style::default() }) })
}
/// every attribute of every entry gets every odd value
fn values(ch: &mut Ch) -> Result<(), String> {
    let f = ch.free(6);
    let ls: Vec<&str> = base()[f].split('\n').collect();
    let es: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with('{')).collect();
    let e = *ch.free_of(&es);
    let v: Value = serde_json::from_str(ls[e]).unwrap();
    let mut paths: Vec<String> = vec![];
    for (k, x) in v.as_object().unwrap() { paths.push(k.clone()); if let Some(o) = x.as_object() { for k2 in o.keys() { paths.push(format!("{}.{}", k, k2)) } } }
    let p = ch.free_of(&paths).clone();
    let odd = odd();
    let x = ch.free_of(odd);
    let mut w = v.clone();
    match p.split_once('.') { Some((a, b)) => w[a][b] = x.clone(), None => w[p.as_str()] = x.clone() }
    let line = write(&w, 0);
    let mut out = ls.clone(); out[e] = &line;
    load_all(ch, f, out.join("\n"));
    Ok(())
}
/// every word of the files replaced by a long one in which every byte position lies inside a character for one of the variants
fn long_words(ch: &mut Ch) -> Result<(), String> {
    let f = ch.free(6);
    let t = &base()[f];
    let mut runs: Vec<(usize, usize)> = vec![];
    for under in [true, false] {
        let mut start = None;
        for (i, c) in t.char_indices().chain(std::iter::once((t.len(), ' '))) {
            match (c.is_ascii_alphanumeric() || (c == '_' && under), start) { (true, None) => start = Some(i), (false, Some(s)) => { runs.push((s, i)); start = None } _ => {} }
        }
    }
    runs.sort(); runs.dedup();
    let (from, to) = *ch.free_of(&runs);
    let unit = *ch.free_of(&["é", "漢", "😀"]);
    let shift = ch.free(unit.len());
    let end = ch.free(2);
    let n = *ch.free_of(&[300usize, 5000]) / unit.len();
    let w = "aaaa"[..shift].to_string() + &unit.repeat(n) + &"z"[..end];
    let out = t[..from].to_string() + &w + &t[to..];
    load_all(ch, f, out);
    Ok(())
}
fn odd() -> &'static Vec<Value> {
    static O: OnceLock<Vec<Value>> = OnceLock::new();
    O.get_or_init(|| {
        let mut v = vec![Value::Null, json!(true), json!(0), json!(-1), json!(1), json!(2), json!(3), json!(4), json!(10), json!(11), json!(12), json!(15), json!(16), json!(17), json!(18), json!(127), json!(128), json!(255), json!(256), json!(65536), json!(2147483647i64), json!(-2147483648i64), json!(2147483648i64), json!(4294967295i64), json!(u64::MAX), json!(i64::MIN), json!(1.5), json!(1e300), json!(-0.0), json!([]), json!({}), json!([[]]), json!(["a"]), json!([""]),
            json!(["@"]), json!(["@10"]), json!(["@11", "@11"]), json!(["@99999999999"]), json!(["@é"]), json!(["é", "", "", "", ""]), json!(["@12", "@13", "@14"])];
        v.extend(["", " ", "a", "b", "c", "e", "f", "h", "v", "p", "l", "s", "d", "é", "漢", "😀", "@", "@10", "10", "11", "-1", "+1", "00", "1x", "99999999999", "%", "%s", "%d", "%m", "%m.", "%s.", "%é", "%s.é", "%sé", "% ", "%b %b", "%%", ". %d.", "%d.😀", "true", "false", "root", "main", "onCreate", "_", "__", "_a", "a_", "é_é", "a_😀", "a__b", "linear1", "text1", "Map", "List", "List Map", "20220101000000", "00000000000000", "99999999999999", "2022é1010000", "éééé2022010100", "2022010100000é", "-2220101000000", "20220229000000", "20220101235960", "20220101250000", "            ", "Y", "y", "row", "second_screen", "\n", "a\nb", "\u{0}"].iter().map(|s| json!(s)));
        v
    })
}
/// lines left out, doubled, moved, cut in two
fn lines(ch: &mut Ch) -> Result<(), String> {
    let f = ch.free(6);
    let ls: Vec<&str> = base()[f].split('\n').collect();
    let i = ch.free(ls.len()); let j = ch.free(ls.len() + 4);
    let mut out: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
    let n = ls.len();
    match j { j if j < n => { let x = out.remove(i); out.insert(j, x) } j if j == n => { out.remove(i); } j if j == n + 1 => { out.insert(i, ls[i].into()) } j if j == n + 2 => { out.insert(i, String::new()) } _ => { out[i].push('\r') } }
    load_all(ch, f, out.join("\n"));
    Ok(())
}
/// two odd values at once, in the logic and view files
fn values2(ch: &mut Ch) -> Result<(), String> {
    let ids = ["", "10", "11", "12", "é", "-1", "@10"];
    let ptr = [-1i64, 10, 11, 12, 0, -2, 2147483647, -2147483648];
    let mut d = super::screens::empty();
    d.file["activity"] = json!([default(FILE_ITEM)]);
    let mut bs = vec![];
    for _ in 0..2 {
        let (spec, params) = ch.free_of(&[("x", json!([])), ("%s", json!(["@10"])), ("%b %d.é", json!(["@11", "@11"])), ("%m", json!(["@12"])), ("%", json!([]))]).clone();
        bs.push(with(BLOCK, &[("id", json!(ch.free_of(&ids))), ("nextBlock", json!(ch.free_of(&ptr))), ("subStack1", json!(ch.pick(8) as i64 * 2 - 1)), ("subStack2", json!(*ch.of(&ptr))), ("spec", json!(spec)), ("parameters", params), ("type", json!(*ch.of(&[" ", "b", "d", "s", "c", "e", "f", "h", "v", "p", "l", "", "é"])))]));
    }
    d.logic = json!({"MainActivity": {"containers": [["onCreate_initializeLogic", bs]]}});
    let t = d.texts(Style { after: 1, ..Style::default() });
    ch.state(&t[5]); ch.note(|| t[5].clone());
    let p = Parsed::parse_from(raw_of(t, None)).map_err(|e| format!("harness: {:?}", e))?;
    let _ = SketchwareProject::try_from(p);
    ch.steps(7);
    Ok(())
}
/// bytes that are not text, or not encrypted
fn bytes(ch: &mut Ch) -> Result<(), String> {
    let f = ch.free(6);
    let t = base();
    let mut parts: Vec<Vec<u8>> = t.iter().map(|s| s.as_bytes().to_vec()).collect();
    let kind = ch.free(4);
    let n = parts[f].len();
    let at = ch.free(n.min(600)) * n / n.min(600);
    if kind < 2 { let b = *ch.free_of(&[0xffu8, 0x80, 0xc3, 0xed]); if kind == 0 { parts[f][at] = b } else { parts[f].insert(at, b) } }
    let mut enc: Vec<Vec<u8>> = parts.iter().map(|p| swrs::encrypt_sw(p)).collect();
    match kind { 2 => enc[f].truncate(at), 3 => enc[f][at] ^= 0x55, _ => {} }
    ch.state(&(f, &enc[f])); ch.note(|| format!("{} file: kind {} at {}", FILES[f], kind, at));
    let [a, b, c, d, e, g]: [Vec<u8>; 6] = enc.try_into().unwrap();
    let r = RawSketchwareProject::from_encrypted_wo_res(a, b, c, d, e, g);
    ch.step();
    if kind < 2 && r.is_ok() { return Err("bytes that are not UTF-8 were accepted".into()) }
    if let Ok(r) = r { if let Ok(p) = Parsed::parse_from(r) { let _ = SketchwareProject::try_from(p); } }
    Ok(())
}

// ------------------------------------------------------------------ structures

/// every pointer graph
fn graph(ch: &mut Ch, n: usize, fields: usize, missing: bool) -> Result<(), String> {
    let mut list: Vec<Raw> = vec![];
    for i in 0..n {
        let mut r = super::blocks::raw(&(10 + i).to_string());
        for f in 0..fields {
            let v = ch.free(n + 1 + missing as usize) as i64;
            let p = if v == 0 { -1 } else { 9 + v };
            match f { 0 => r.next = p, 1 => r.ss1 = p, 2 => { if v > 0 { r.spec = "%s".into(); r.params = vec![format!("@{}", p)] } } _ => r.ss2 = p }
        }
        list.push(r);
    }
    ch.state(&super::blocks::raws(&list)); ch.note(|| super::blocks::raws(&list));
    let _ = Blocks::try_from(obs::mk_container(&list));
    ch.step();
    Ok(())
}
fn graph2(ch: &mut Ch) -> Result<(), String> { graph(ch, 2, 4, true) }
fn graph3(ch: &mut Ch) -> Result<(), String> { graph(ch, 3, 3, true) }
fn graph3f(ch: &mut Ch) -> Result<(), String> { graph(ch, 3, 4, false) }
fn graph4(ch: &mut Ch) -> Result<(), String> { graph(ch, 4, 2, true) }
/// every parent relation, with colliding ids
fn parents(ch: &mut Ch, n: usize) -> Result<(), String> {
    let v = view::models::AndroidView::new_empty("x", 0, "root", 0);
    let ids = ["a", "b", "c", "root", ""];
    let mut vs = vec![];
    for i in 0..n {
        let mut x = v.clone();
        x.id = ch.free_of(&ids[..]).to_string();
        let p = ch.free(6); x.parent = if p == 5 { None } else { Some(ids[p].into()) };
        x.r#type = [0, 2, 4, 255][(i + p) % 4];
        vs.push(x);
    }
    ch.state(&vs.iter().map(|v| (v.id.clone(), v.parent.clone())).collect::<Vec<_>>()); ch.note(|| format!("{:?}", vs.iter().map(|v| (v.id.clone(), v.parent.clone())).collect::<Vec<_>>()));
    let _ = parse_raw_layout(Layout(vs));
    ch.step();
    Ok(())
}
fn parents3(ch: &mut Ch) -> Result<(), String> { parents(ch, 3) }
fn parents4(ch: &mut Ch) -> Result<(), String> { parents(ch, 4) }
/// nesting up to 200 levels, long chains, nested JSON
fn deep(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.free(10); let n = ch.free(200) + 1;
    ch.state(&(kind, n)); ch.note(|| format!("kind {} depth {}", kind, n));
    let chain = |len: usize, f: fn(&mut Raw, i64)| (0..len).map(|i| { let mut r = super::blocks::raw(&(10 + i).to_string()); if i + 1 < len { f(&mut r, 11 + i as i64) } r }).collect::<Vec<Raw>>();
    let blocks = |l: &[Raw]| -> Result<(), String> { Blocks::try_from(obs::mk_container(l)).map(drop).map_err(|e| format!("refused: {:?}", e)) };
    match kind {
        0 => blocks(&chain(n, |r, i| r.ss1 = i))?,
        1 => blocks(&chain(n, |r, i| r.ss2 = i))?,
        2 => blocks(&chain(n, |r, i| { r.spec = "x %s".into(); r.params = vec![format!("@{}", i)] }))?,
        3 => blocks(&chain(n * 25, |r, i| r.next = i))?,
        4 => blocks(&chain(n, |r, i| match i % 3 { 0 => r.ss1 = i, 1 => r.ss2 = i, _ => { r.spec = "x %b".into(); r.params = vec![format!("@{}", i)] } }))?,
        5 => { let v: Vec<_> = (0..n).map(|i| view::models::AndroidView::new_empty(&format!("v{}", i), 0, &if i == 0 { "root".into() } else { format!("v{}", i - 1) }, 0)).collect(); parse_raw_layout(Layout(v)).map(drop).map_err(|e| format!("refused: {:?}", e))? }
        6 => { let j = format!("{}{}", "[".repeat(n * 50), "]".repeat(n * 50)); for f in 0..6 { let head = ["", "@activity\n", "@compat\n", "@images\n", "@m.xml\n", "@M.java_events\n"][f]; load_file(ch, f, &format!("{}{}", head, j)); } }
        7 => { let j = format!("{}1{}", "{\"a\":".repeat(n * 50), "}".repeat(n * 50)); for f in 0..6 { let head = ["", "@activity\n", "@compat\n", "@images\n", "@m.xml\n", "@M.java_x_y\n"][f]; load_file(ch, f, &format!("{}{}", head, j)); } }
        // a chain that bites its tail at every point
        8 => { let mut l = chain(200, |r, i| r.next = i); l[199].next = 9 + n as i64; if Blocks::try_from(obs::mk_container(&l)).is_ok() { return Err("a cyclic chain was accepted".into()) } }
        _ => { let mut l = chain(200, |r, i| r.ss1 = i); l[199].ss1 = 9 + n as i64; if Blocks::try_from(obs::mk_container(&l)).is_ok() { return Err("a cyclic nesting was accepted".into()) } }
    }
    ch.step();
    Ok(())
}
/// the same through a whole project
fn deep_project(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.free(3); let n = ch.free(20) * 10 + 10;
    let mut d = super::screens::empty();
    d.file["activity"] = json!([default(FILE_ITEM)]);
    ch.state(&(kind, n)); ch.note(|| format!("kind {} depth {}", kind, n));
    match kind {
        0 => d.view["layouts"] = json!([["main", (0..n).map(|i| with(VIEW, &[("id", json!(format!("v{}", i))), ("parent", json!(if i == 0 { "root".to_string() } else { format!("v{}", i - 1) }))])).collect::<Vec<_>>()]]),
        k => d.logic = json!({"MainActivity": {"containers": [["onCreate_initializeLogic", (0..n).map(|i| with(BLOCK, &[("id", json!((10 + i).to_string())), (if k == 1 { "subStack1" } else { "subStack2" }, json!(if i + 1 < n { 11 + i as i64 } else { -1 }))])).collect::<Vec<_>>()]]}}),
    }
    load(raw_of(d.texts(Style { after: 1, ..Style::default() }), None)).map(drop)?;
    ch.steps(7);
    Ok(())
}

pub fn c17() -> Check {
    Check { id: "C17", rule: "loading returns (a value or an error) on every explored input: a panic, an abort or a call that does not come back is a violation; cyclic chains and non-UTF-8 bytes are refused and nesting up to 200 levels is accepted",
        assumptions: &["a worker thread has 2 MB of stack, like Rust's default for threads", "a call that takes more than 60 s counts as a hang"],
        scopes: vec![
            scope("tokens-5", "every sequence of up to 5 tokens of each file's alphabet", tokens5, ALL, OFF), scope("tokens-6", "every sequence of up to 6 tokens", tokens6, OFF, ALL),
            scope("headings", "headings cut at every character, with odd names and tails", heads, ALL, ALL),
            scope("entries", "every entry parser on every text of up to 4 characters of an alphabet", entry_texts, ALL, ALL),
            scope("specs-5", "specs of up to 5 characters with odd parameters", specs5, ALL, OFF), scope("specs-6", "specs of up to 6 characters with odd parameters", specs6, OFF, ALL),
            scope("mutate", "every truncation, deletion, insertion and replacement of a character of the files of a sample project, loaded and converted", mutate, ALL, OFF), wide("mutate-wide", "the same with more characters", mutate, OFF, ALL),
            scope("values", "every attribute of every entry of a sample project replaced by every odd value, loaded and converted", values, ALL, ALL),
            scope("long-words", "every word of a sample project's files replaced by 300 or 5000 bytes of two, three and four byte characters in every alignment", long_words, ALL, ALL),
            scope("values-2", "two blocks with odd ids, pointers and specs, converted", values2, 0, 1),
            scope("lines", "lines of a sample project left out, doubled, moved anywhere", lines, ALL, ALL),
            scope("bytes", "bytes that are not text or not a ciphertext", bytes, ALL, ALL),
            scope("graphs-2", "every pointer graph of 2 blocks", graph2, ALL, ALL), scope("graphs-3", "every pointer graph of 3 blocks (next, first stack, argument, missing ids)", graph3, ALL, ALL),
            scope("graphs-3-full", "every pointer graph of 3 blocks with all references", graph3f, OFF, ALL), scope("graphs-4", "every pointer graph of 4 blocks (next, first stack)", graph4, ALL, ALL),
            scope("parents-3", "every parent relation of 3 views with colliding ids", parents3, ALL, OFF), scope("parents-4", "every parent relation of 4 views with colliding ids", parents4, OFF, ALL),
            scope("deep", "nesting up to 200 levels of every kind, chains up to 5000, cycles closing anywhere, nested JSON up to 10000", deep, ALL, ALL), scope("deep-project", "nesting through a whole project", deep_project, ALL, ALL),
        ] }
}

//! C25: a part of a data file that is read or written on its own is the one in its file
use super::faults;
use super::projects::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::want;
use crate::{obs, Check};
use serde_json::{json, Value};
use std::fmt::Debug;
use swrs::parser::file::FileItem;
use swrs::parser::library::LibraryItem;
use swrs::parser::logic::{component::*, event::*, list_variable::*, more_block::*, variable::*, Block, BlockContainer, BlockContainerHeader, Logic};
use swrs::parser::project::Project;
use swrs::parser::resource::ResourceItem;
use swrs::parser::view::{models::AndroidView, Layout, View};
use swrs::parser::Parsable;

fn var(v: &Variable) -> Value { json!([obs::vtype(v.r#type), v.name]) }
fn list(v: &ListVariable) -> Value { json!([obs::vtype(v.r#type), v.name]) }
fn func(m: &MoreBlock) -> Value { json!([m.id, m.spec]) }
fn pool<T>(it: swrs::LinkedHashMap<String, T>, f: fn(&T) -> Value, name: fn(&T) -> &str) -> Value { it.iter().map(|(k, v)| if k == name(v) { f(v) } else { json!(["key", k, f(v)]) }).collect() }
fn vars(p: &VariablePool) -> Value { pool(p.0.clone(), var, |v| &v.name) }
fn lists(p: &ListVariablePool) -> Value { pool(p.0.clone(), list, |v| &v.name) }
fn funcs(p: &MoreBlockPool) -> Value { pool(p.0.clone(), func, |v| &v.id) }
fn components(p: &ComponentPool) -> Value { p.0.iter().map(obs::component).collect() }
fn events(p: &EventPool) -> Value { p.0.iter().map(obs::event).collect() }
fn code(p: &BlockContainer) -> Value { p.0.iter().map(obs::block).collect() }
fn layout(p: &Layout) -> Value { p.0.iter().map(obs::view).collect() }

/// reads a part on its own, writes it and reads that again
fn alone<T>(ch: &mut Ch, text: &str, doc: &Value, observe: fn(&T) -> Value, read: fn(&str) -> Result<Value, String>) -> Result<T, String>
where T: Parsable + PartialEq + Clone, T::ParseError: Debug, T::ReconstructionError: Debug {
    let a = T::parse(text).map_err(|e| format!("on its own it is refused: {:?}", e))?;
    want("read on its own", doc, &observe(&a))?;
    let out = a.reconstruct().map_err(|e| format!("writing it on its own failed: {:?}", e))?;
    ch.steps(2);
    ch.note(|| format!("written: {}", out));
    want("written on its own", doc, &read(&out)?)?;
    let b = T::parse(&out).map_err(|e| format!("what was written on its own is refused: {:?}", e))?;
    if b != a { return Err(format!("what was written on its own is read as {}", observe(&b))) }
    if b.reconstruct().ok().as_ref() != Some(&out) { return Err("writing it twice gives different texts".into()) }
    ch.steps(2);
    Ok(a)
}
fn line(s: &str) -> Result<Value, String> { if s.contains('\n') { return Err(format!("is written over several lines: {:?}", s)) } crate::refm::json(s) }
fn typed(s: &str) -> Result<Value, String> { let (a, b) = s.split_once(':').ok_or("no colon is written")?; Ok(json!([a.parse::<i64>().map_err(|e| e.to_string())?, b])) }
fn named(s: &str) -> Result<Value, String> { let (a, b) = s.split_once(':').ok_or("no colon is written")?; Ok(json!([a, b])) }
fn many(s: &str, f: fn(&str) -> Result<Value, String>) -> Result<Value, String> {
    let s = s.strip_suffix('\n').unwrap_or(s);
    if s.is_empty() { return Ok(json!([])) }
    s.split('\n').map(f).collect::<Result<Vec<_>, _>>().map(Value::from)
}

// ------------------------------------------------------------------ entries

fn entry(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(7);
    let fs = [FILE_ITEM, LIB_ITEM, RES_ITEM, VIEW, EVENT, COMPONENT, BLOCK][k];
    let d = gen(ch, fs);
    let text = write(&d, ch.pick(STYLES));
    ch.state(&text);
    ch.note(|| text.clone());
    match k {
        0 => alone::<FileItem>(ch, &text, &d, obs::file_item, line).map(|_| ()),
        1 => alone::<LibraryItem>(ch, &text, &d, obs::lib_item, line).map(|_| ()),
        2 => alone::<ResourceItem>(ch, &text, &d, obs::res_item, line).map(|_| ()),
        3 => alone::<AndroidView>(ch, &text, &d, obs::view, line).map(|_| ()),
        4 => alone::<Event>(ch, &text, &d, obs::event, line).map(|_| ()),
        5 => alone::<Component>(ch, &text, &d, obs::component, line).map(|_| ()),
        _ => alone::<Block>(ch, &text, &d, obs::block, line).map(|_| ()),
    }
}
fn text_entry(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(3);
    let names = strs(ch.wide);
    if k < 2 {
        let t = ch.free(4);
        let n = ch.free_of(names);
        let (text, d) = (format!("{}:{}", t, n), json!([t, n]));
        ch.state(&(k, &text));
        ch.note(|| text.clone());
        return if k == 0 { alone::<Variable>(ch, &text, &d, var, typed).map(|_| ()) } else { alone::<ListVariable>(ch, &text, &d, list, typed).map(|_| ()) }
    }
    let (n, s) = (ch.pick(names.len()), ch.pick(names.len()));
    let (n, s) = (&names[n], &names[s]);
    if n.contains(':') { ch.skip(); return Ok(()) }
    let text = format!("{}:{}", n, s);
    ch.state(&(k, &text));
    ch.note(|| text.clone());
    alone::<MoreBlock>(ch, &text, &json!([n, s]), func, named).map(|_| ())
}
/// the heading of a section of the logic file
fn headings(ch: &mut Ch) -> Result<(), String> {
    let names = strs(ch.wide);
    let extra = [".java", "_", "java_", ".", "@", ".jav", "a.b", "_moreBlock", "var", "list", "func", "events", "components", "onCreate_initializeLogic", "button1_onClick"];
    let mut pick = |ch: &mut Ch| -> String { let i = ch.pick(extra.len() + names.len()); if i == 0 { "main".into() } else if i <= extra.len() { extra[i - 1].into() } else { names[i - extra.len()].clone() } };
    let (s, c) = (pick(ch), pick(ch));
    if s.contains(".java_") || c.contains(".java_") { ch.skip(); return Ok(()) }
    ch.state(&(&s, &c));
    ch.note(|| format!("screen {:?}, section {:?}", s, c));
    let h = BlockContainerHeader { screen_name: s.clone(), container_name: c.clone() };
    let text = h.reconstruct().map_err(|_| "writing the heading failed")?;
    ch.step();
    if text != format!("@{}.java_{}", s, c) { return Err(format!("the heading is written as {:?}", text)) }
    let again = BlockContainerHeader::parse(&text).map_err(|e| format!("the heading {:?} is refused: {:?}", text, e))?;
    ch.step();
    if again != h { return Err(format!("the heading {:?} is read as {:?}", text, again)) }
    // without its sign, without its section
    for bad in [&text[1..], &format!("@{}", s), &format!("@{}.java{}", s, c.trim_start_matches('_')), &format!(" {}", text)] {
        if bad.starts_with('@') && bad.contains(".java_") { continue }
        if let Ok(h) = BlockContainerHeader::parse(bad) { return Err(format!("the heading {:?} is taken for {:?}", bad, h)) }
        ch.step();
    }
    Ok(())
}

// ------------------------------------------------------------------ sections

/// layout, variables, lists, moreblocks, components, events, code
const KINDS: usize = 7;
const NAMES: [&str; KINDS] = ["xml", "var", "list", "func", "components", "events", "onCreate_initializeLogic"];
/// a read section
#[derive(Clone, PartialEq, Debug)]
enum Sec { Layout(Layout), Vars(VariablePool), Lists(ListVariablePool), Funcs(MoreBlockPool), Components(ComponentPool), Events(EventPool), Code(BlockContainer) }
fn seen(s: &Sec) -> Value { match s { Sec::Layout(x) => layout(x), Sec::Vars(x) => vars(x), Sec::Lists(x) => lists(x), Sec::Funcs(x) => funcs(x), Sec::Components(x) => components(x), Sec::Events(x) => events(x), Sec::Code(x) => code(x) } }

/// the i-th entry of a section
fn item(ch: &mut Ch, kind: usize, i: usize) -> Value {
    let n = format!("n{}", i);
    let name = |ch: &mut Ch, ok: fn(&str) -> bool| -> String { let s = strs(ch.wide); let j = ch.pick(s.len() + 1); if j == 0 || !ok(&s[j - 1]) { n.clone() } else { s[j - 1].clone() } };
    let mut of = |ch: &mut Ch, fs: &'static [Field], key: &str| { let mut v = with(fs, &[(key, json!(n))]); vary(ch, fs, &mut v, &[]); v };
    match kind {
        0 => of(ch, VIEW, "id"),
        1 | 2 => { let t = ch.pick(4); json!([t, name(ch, line_ok)]) }
        3 => { let a = name(ch, |s| mb_ok(s) && !s.contains('\n')); let b = name(ch, |s| !s.contains('\n')); json!([a, b]) }
        4 => of(ch, COMPONENT, "componentId"),
        5 => of(ch, EVENT, "targetId"),
        _ => of(ch, BLOCK, "id"),
    }
}
fn item_text(kind: usize, v: &Value, style: usize) -> String { match kind { 1 | 2 => format!("{}:{}", v[0], v[1].as_str().unwrap()), 3 => format!("{}:{}", v[0].as_str().unwrap(), v[1].as_str().unwrap()), _ => write(v, style) } }
fn item_name(kind: usize, v: &Value) -> String { match kind { 1 | 2 => v[1].to_string(), 3 => v[0].to_string(), _ => String::new() } }
fn read_alone(ch: &mut Ch, kind: usize, text: &str, d: &Value) -> Result<Sec, String> {
    Ok(match kind {
        0 => Sec::Layout(alone(ch, text, d, layout, |s| many(s, line))?),
        1 => Sec::Vars(alone(ch, text, d, vars, |s| many(s, typed))?),
        2 => Sec::Lists(alone(ch, text, d, lists, |s| many(s, typed))?),
        3 => Sec::Funcs(alone(ch, text, d, funcs, |s| many(s, named))?),
        4 => Sec::Components(alone(ch, text, d, components, |s| many(s, line))?),
        5 => Sec::Events(alone(ch, text, d, events, |s| many(s, line))?),
        _ => Sec::Code(alone(ch, text, d, code, |s| many(s, line))?),
    })
}
fn plain(kind: usize, text: &str) -> Result<Sec, String> {
    fn r<T, E: Debug>(x: Result<T, E>) -> Result<T, String> { x.map_err(|e| format!("{:?}", e)) }
    Ok(match kind {
        0 => Sec::Layout(r(Layout::parse(text))?), 1 => Sec::Vars(r(VariablePool::parse(text))?), 2 => Sec::Lists(r(ListVariablePool::parse(text))?), 3 => Sec::Funcs(r(MoreBlockPool::parse(text))?),
        4 => Sec::Components(r(ComponentPool::parse(text))?), 5 => Sec::Events(r(EventPool::parse(text))?), _ => Sec::Code(r(BlockContainer::parse(text))?),
    })
}
/// takes a section from a stream of lines
fn take<'a>(kind: usize, it: &mut impl Iterator<Item = &'a str>) -> Result<Sec, String> {
    fn r<T, E: Debug>(x: Result<T, E>) -> Result<T, String> { x.map_err(|e| format!("taken from a stream it is refused: {:?}", e)) }
    Ok(match kind {
        0 => Sec::Layout(r(Layout::parse_iter(it.by_ref()))?), 1 => Sec::Vars(r(VariablePool::parse_iter(it.by_ref()))?), 2 => Sec::Lists(r(ListVariablePool::parse_iter(it.by_ref()))?),
        3 => Sec::Funcs(r(MoreBlockPool::parse_iter(it.by_ref()))?), 4 => Sec::Components(r(ComponentPool::parse_iter(it.by_ref()))?), _ => Sec::Events(r(EventPool::parse_iter(it.by_ref()))?),
    })
}
/// the section as its data file has it
fn within(kind: usize, text: &str) -> Result<Sec, String> {
    if kind == 0 {
        let t = format!("@other.xml\n{}\n\n@main.xml\n{}\n\n@last.xml\n", write(&default(VIEW), 0), text);
        return View::parse(&t).map_err(|e| format!("the view file is refused: {:?}", e))?.layouts.get("main").cloned().map(Sec::Layout).ok_or("the view file has no such layout".into());
    }
    let t = format!("@A.java_var\n1:v\n\n@Main.java_{}\n{}\n\n@A.java_list\n1:l\n", NAMES[kind], text);
    let l = Logic::parse(&t).map_err(|e| format!("the logic file is refused: {:?}", e))?;
    let s = l.screens.get("Main").ok_or("the logic file has no such screen")?;
    match kind {
        1 => s.variables.clone().map(Sec::Vars), 2 => s.list_variables.clone().map(Sec::Lists), 3 => s.more_blocks.clone().map(Sec::Funcs), 4 => s.components.clone().map(Sec::Components), 5 => s.events.clone().map(Sec::Events),
        _ => s.block_containers.get(NAMES[6]).cloned().map(Sec::Code),
    }.ok_or("the logic file has no such section".into())
}
const REST: &[&[&str]] = &[&[], &[""], &["", "@next.xml", "x"], &["", ""], &["", "", "@a.java_var", "1:b"], &["", "x"], &["", " ", ""], &["", "{}"], &["", "1:v"]];

fn section(ch: &mut Ch, kind: usize, n: usize) -> Result<(), String> {
    let es: Vec<Value> = (0..n).map(|i| item(ch, kind, i)).collect();
    section_of(ch, kind, es)
}
fn section_of(ch: &mut Ch, kind: usize, es: Vec<Value>) -> Result<(), String> {
    let (n, style) = (es.len(), ch.pick(STYLES));
    if (1..4).contains(&kind) { for i in 0..n { for j in 0..i { if item_name(kind, &es[i]) == item_name(kind, &es[j]) { ch.skip(); return Ok(()) } } } }
    let ls: Vec<String> = es.iter().map(|e| item_text(kind, e, style)).collect();
    let text = ls.join("\n");
    let d = Value::from(es);
    let rest = REST[ch.pick(REST.len())];
    ch.state(&(kind, &text, rest));
    ch.note(|| format!("section {}, followed by {:?}:\n{}", NAMES[kind], rest, text));
    let a = read_alone(ch, kind, &text, &d)?;
    // with what follows it
    if !rest.is_empty() {
        let more = if n == 0 { rest.join("\n") } else { format!("{}\n{}", text, rest.join("\n")) };
        let b = plain(kind, &more).map_err(|e| format!("with the lines {:?} behind it it is refused: {}", rest, e))?;
        if b != a { return Err(format!("with the lines {:?} behind it it is read as {}", rest, seen(&b))) }
        ch.step();
    }
    if kind != 6 {
        let mut it = ls.iter().map(|s| s.as_str()).chain(rest.iter().copied());
        let b = take(kind, &mut it)?;
        if b != a { return Err(format!("taken from a stream it is {}", seen(&b))) }
        let left: Vec<&str> = it.collect();
        if left != rest.get(1..).unwrap_or(&[]) { return Err(format!("taking it from a stream leaves {:?}", left)) }
        ch.step();
    }
    let w = within(kind, &text)?;
    if w != a { return Err(format!("in its file it is {}", seen(&w))) }
    ch.step();
    Ok(())
}
fn sections(ch: &mut Ch) -> Result<(), String> { let k = ch.free(KINDS); let n = ch.free(4); section(ch, k, n) }
fn section_values(ch: &mut Ch) -> Result<(), String> { let k = ch.free(KINDS); let n = ch.free(2) + 1; section(ch, k, n) }
fn section_sizes(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(KINDS); let s = sizes(); let n = *ch.free_of(&s);
    let fs = match k { 0 => Some(VIEW), 4 => Some(COMPONENT), 5 => Some(EVENT), 6 => Some(BLOCK), _ => None };
    match fs { Some(fs) if ch.free(2) == 1 => { let es = (0..n).map(|i| rich(fs, i, &[])).collect(); section_of(ch, k, es) } _ => section(ch, k, n) }
}

/// several sections one after the other from the same stream
fn streams(ch: &mut Ch) -> Result<(), String> {
    let n = if ch.wide { 4 } else { 3 };
    let what: Vec<(usize, usize)> = (0..n).map(|_| { let k = ch.free(6); let m = ch.free(3); (k, m) }).collect();
    let mut ls: Vec<String> = vec![];
    let mut docs = vec![];
    for (j, (k, m)) in what.iter().enumerate() {
        let es: Vec<Value> = (0..*m).map(|i| match k { 1 | 2 => json!([(i + j) % 4, format!("n{}{}", j, i)]), 3 => json!([format!("n{}{}", j, i), "do %s.x "]),
            k => { let (fs, key) = match k { 0 => (VIEW, "id"), 4 => (COMPONENT, "componentId"), _ => (EVENT, "targetId") }; with(fs, &[(key, json!(format!("n{}{}", j, i)))]) } }).collect();
        ls.extend(es.iter().map(|e| item_text(*k, e, 0)));
        ls.push(String::new());
        docs.push(Value::from(es));
    }
    if ch.free(2) == 1 { ls.pop(); }
    ch.state(&ls);
    ch.note(|| ls.join("\n"));
    let mut it = ls.iter().map(|s| s.as_str());
    for (j, (k, _)) in what.iter().enumerate() {
        let s = take(*k, &mut it).map_err(|e| format!("section {}: {}", j, e))?;
        ch.step();
        want(&format!("section {}", j), &docs[j], &seen(&s))?;
    }
    let left: Vec<&str> = it.collect();
    if !left.is_empty() { return Err(format!("the lines {:?} are left", left)) }
    Ok(())
}

/// entries of the same name, in any order
fn namesakes(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(KINDS);
    let n = ch.free(4) + 1;
    let es: Vec<Value> = (0..n).map(|_| { let name = ["a", "b"][ch.free(2)]; let t = ch.free(2); match k { 1 | 2 => json!([t, name]), 3 => { let spec = ["x", "y %s.z "][t]; json!([name, spec]) }, k => {
        let (fs, key, other) = match k { 0 => (VIEW, "id", "type"), 4 => (COMPONENT, "componentId", "type"), 5 => (EVENT, "targetId", "targetType"), _ => (BLOCK, "id", "nextBlock") };
        with(fs, &[(key, json!(name)), (other, json!(t + 1))]) } } }).collect();
    let text = es.iter().map(|e| item_text(k, e, 0)).collect::<Vec<_>>().join("\n");
    ch.state(&(k, &text));
    ch.note(|| format!("section {}:\n{}", NAMES[k], text));
    let a = plain(k, &text)?;
    let w = within(k, &text)?;
    ch.steps(2);
    if a != w { return Err(format!("on its own it is {}, in its file {}", seen(&a), seen(&w))) }
    if !(1..4).contains(&k) { want("read on its own", &Value::from(es), &seen(&a))? }
    if k < 6 { let mut it = text.split('\n'); let b = take(k, &mut it)?; ch.step(); if b != a { return Err(format!("taken from a stream it is {}", seen(&b))) } }
    Ok(())
}

// ------------------------------------------------------------------ malformed entries

fn bad_entry(ch: &mut Ch) -> Result<(), String> {
    let (e, text) = faults::fault(ch);
    ch.state(&(e.file, &e.heading, e.index, &text));
    ch.note(|| format!("an entry of {:?}: {}", e.heading, text));
    let kind = e.heading.rsplit_once(".java_").map(|x| x.1).unwrap_or("");
    let taken = match (e.file, kind) {
        (0, _) => Project::parse(&text).is_ok(), (1, _) => FileItem::parse(&text).is_ok(), (2, _) => LibraryItem::parse(&text).is_ok(), (3, _) => ResourceItem::parse(&text).is_ok(), (4, _) => AndroidView::parse(&text).is_ok(),
        (_, "components") => Component::parse(&text).is_ok(), (_, "events") => Event::parse(&text).is_ok(),
        (_, "func") => match MoreBlock::parse(&text) { Ok(_) => true, Err(MoreBlockParseError::MalformedMoreBlock { content }) => { if content != text { return Err(format!("the error gives the text {:?}", content)) } false } },
        (_, "var") => match Variable::parse(&text) { Ok(_) => true, Err(err) => {
            let right = match (&err, text.split_once(':')) { (VariableParseError::MalformedVariable { content }, None) => *content == text, (VariableParseError::MalformedVariableType { content, .. }, Some((t, _))) => content == t && t.parse::<u8>().is_err(),
                (VariableParseError::InvalidVariableType(x), Some((t, _))) => t.parse() == Ok(x.value), _ => false };
            if !right { return Err(format!("the error is {:?}", err)) }
            false
        } },
        (_, "list") => match ListVariable::parse(&text) { Ok(_) => true, Err(err) => {
            let right = match (&err, text.split_once(':')) { (ListVariableParseError::MissingColon, None) => true, (ListVariableParseError::VariableTypeIsNotInt(_), Some((t, _))) => t.parse::<u8>().is_err(), (ListVariableParseError::InvalidVariableType(x), Some((t, _))) => t.parse() == Ok(x.value), _ => false };
            if !right { return Err(format!("the error is {:?}", err)) }
            false
        } },
        _ => Block::parse(&text).is_ok(),
    };
    ch.step();
    if taken { return Err(format!("malformed entry accepted on its own: {}", trunc(&text, 1500))) }
    Ok(())
}
/// a malformed entry anywhere in a section
fn bad_section(ch: &mut Ch) -> Result<(), String> { let n = ch.free(4) + 1; let at = ch.free(n); bad_in(ch, n, at) }
/// far behind in a large section
fn bad_far(ch: &mut Ch) -> Result<(), String> { let n = *ch.free_of(&[300, 1100]); let at = *ch.free_of(&super::faults::FAR.map(|p| p.min(n - 1))); bad_in(ch, n, at) }
fn bad_farther(ch: &mut Ch) -> Result<(), String> { let n = 70000; let at = *ch.free_of(&[4095, 9999, 32767, 32768, 65535, 65536, 65537, n - 1]); bad_in(ch, n, at) }
fn bad_in(ch: &mut Ch, n: usize, at: usize) -> Result<(), String> {
    let k = ch.free(KINDS);
    let two = ch.free(2) == 1 && at + 1 < n; // another one behind it
    let bad = *ch.free_of(if (1..4).contains(&k) { &["x", "x;a", "{}", " ", "é"][..] } else { &["x", "{}", "[]", "null", " ", "{\"id\":1}", "é"][..] });
    let es: Vec<Value> = (0..n).map(|i| match k { 1 | 2 => json!([i % 4, format!("n{}", i)]), 3 => json!([format!("n{}", i), "x %s.y"]),
        k => { let (fs, key) = match k { 0 => (VIEW, "id"), 4 => (COMPONENT, "componentId"), 5 => (EVENT, "targetId"), _ => (BLOCK, "id") }; with(fs, &[(key, json!(format!("n{}", i)))]) } }).collect();
    let ls: Vec<String> = es.iter().enumerate().map(|(i, e)| if i == at { bad.to_string() } else if two && i == n - 1 { "y".into() } else { item_text(k, e, 0) }).collect();
    let text = ls.join("\n");
    ch.state(&(k, &text));
    ch.note(|| format!("section {}:\n{}", NAMES[k], trunc(&text, 4000)));
    let place = |count: u32, content: Option<&str>| if count as usize != at { Err(format!("the error is about entry {} instead of {}", count, at)) } else if content.map_or(false, |c| c != bad) { Err(format!("the error gives the text {:?}", content)) } else { Ok(()) };
    ch.step();
    let it = || text.split('\n');
    for stream in [false, true] {
        let ok = || -> Result<(), String> { Err(format!("malformed entry {} accepted", at)) };
        match k {
            0 => match if stream { Layout::parse_iter(it().by_ref()) } else { Layout::parse(&text) } { Ok(_) => ok()?, Err(e) => {
                place(e.line, Some(&e.content))?;
                let before = e.view_before.as_ref().map(obs::view);
                if before.as_ref() != (if at > 0 { Some(&es[at - 1]) } else { None }) { return Err(format!("the error gives as the view before {:?}", before)) }
            } },
            1 => match if stream { VariablePool::parse_iter(it().by_ref()) } else { VariablePool::parse(&text) } { Ok(_) => ok()?, Err(e) => place(e.count, Some(&e.content))? },
            2 => match if stream { ListVariablePool::parse_iter(it().by_ref()) } else { ListVariablePool::parse(&text) } { Ok(_) => ok()?, Err(e) => place(e.count, Some(&e.content))? },
            3 => match if stream { MoreBlockPool::parse_iter(it().by_ref()) } else { MoreBlockPool::parse(&text) } { Ok(_) => ok()?, Err(e) => place(e.count, Some(&e.content))? },
            4 => match if stream { ComponentPool::parse_iter(it().by_ref()) } else { ComponentPool::parse(&text) } { Ok(_) => ok()?, Err(e) => place(e.count, Some(&e.content))? },
            5 => match if stream { EventPool::parse_iter(it().by_ref()) } else { EventPool::parse(&text) } { Ok(_) => ok()?, Err(e) => place(e.count, Some(&e.content))? },
            _ => match BlockContainer::parse(&text) { Ok(_) => ok()?, Err(e) => place(e.block_count, None)? },
        }
        ch.step();
    }
    Ok(())
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        rule: "A data file is made of entries and sections, and every one of them has a public `parse` (and `reconstruct`, and for sections `parse_iter`). Read on its own, an entry or a section has exactly the content of its text and equals what the whole file would hold; `parse_iter` takes the lines of the section and the blank line that ends it, and nothing more; what is written reads back as the same value; a malformed entry is refused, and the error names its place.",
        assumptions: &["names of variables, lists and moreblocks within a section are without line breaks and (variables and lists) without trailing white space", "screen and section names of headings are without `.java_`"],
        scopes: vec![
            wide("entries", "one entry of every kind, every value of every attribute of its wide domain, in every JSON style", entry, 1, 1),
            scope("entry-pairs", "the same with every pair of attributes over the small domains", entry, 2, 3),
            wide("text-entries", "variables, lists, moreblocks under every name of the wide domain", text_entry, 1, 2),
            wide("headings", "every pair of a screen name and a section name, one of them anything of the wide domain; and what is no heading", headings, 1, 2),
            scope("sections", "sections of every kind of 0 to 3 entries with what can follow them, alone, from a stream, and in their file", sections, 1, 2),
            wide("section-values", "sections of 1 and 2 entries over the wide domains", section_values, 1, 1),
            scope("section-sizes", "sections of every size worth distinguishing", section_sizes, 0, 0),
            scope("streams", "every sequence of three sections of 0 to 2 entries of six kinds, taken from one stream", streams, ALL, ALL),
            wide("streams-4", "every sequence of four sections", streams, OFF, ALL),
            scope("namesakes", "sections of 1 to 4 entries of two names, in every order", namesakes, ALL, ALL),
            scope("malformed", "every fault of every entry (the ones of C18), on its own", bad_entry, ALL, ALL),
            scope("malformed-sections", "a malformed entry at every place of sections of 1 to 4 entries, alone and followed by another", bad_section, ALL, ALL),
            scope("malformed-far", "the same among 300 or 1100 entries, at 17 places", bad_far, ALL, ALL), scope("malformed-farther", "among 70000, at 8 places", bad_farther, OFF, ALL),
        ],
    }
}

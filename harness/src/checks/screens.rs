//! C20, C21: which screen gets what, and what belongs to an event, moreblock or component
use super::projects::*;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm;
use crate::{obs, Check};
use serde_json::{json, Value};
use swrs::api::SketchwareProject;

const PLAIN: Style = Style { json: 0, before: 0, between: 0, after: 1 };

pub fn empty() -> Doc {
    let off = |i: usize| with(LIB_ITEM, &[("libType", json!(i)), ("useYn", json!("N"))]);
    Doc { project: default(PROJECT), file: json!({"activity": [], "customview": []}), library: json!({"firebaseDB": off(0), "compat": off(1), "admob": off(2), "googleMap": off(3)}),
        resource: json!({"images": [], "sounds": [], "fonts": []}), view: json!({"layouts": [], "fabs": []}), logic: json!({}) }
}
fn ids(v: &Value) -> Value { v.as_array().unwrap().iter().map(|x| json!([x[0]["id"], ids(&x[1])])).collect::<Vec<_>>().into() }
fn aids(v: &Value) -> Value { v.as_array().unwrap().iter().map(|x| json!([x["id"], aids(&x["children"])])).collect::<Vec<_>>().into() }

/// the screens a document describes
fn expected(d: &Doc) -> Result<Value, String> {
    let layout = |n: &Value| d.view["layouts"].as_array().unwrap().iter().find(|l| l[0] == *n).map(|l| tree(l[1].as_array().unwrap()).map(|t| ids(&t))).transpose();
    let mut screens = vec![];
    for a in d.file["activity"].as_array().unwrap() {
        let name = a["fileName"].as_str().unwrap();
        let java = refm::java_name(name);
        let l = d.logic.get(&java).cloned().unwrap_or_else(|| json!({"containers": []}));
        let list = |k: &str| l.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default();
        let code = |k: &str| -> Result<String, String> { match l["containers"].as_array().unwrap().iter().find(|c| c[0] == k) { Some(c) => program(c[1].as_array().unwrap()), None => Ok(String::new()) } };
        let mut events = vec![];
        if l["containers"].as_array().unwrap().iter().any(|c| c[0] == "onCreate_initializeLogic") { events.push(json!(["onCreate", [3], code("onCreate_initializeLogic")?])) }
        for e in list("events") {
            if e["eventType"] == 3 && e["eventName"] == "onCreate" { continue }
            let t = if e["eventType"] == 3 { json!([3]) } else { json!([e["eventType"], e["targetId"], e["targetType"]]) };
            events.push(json!([e["eventName"], t, code(&container_of(&e))?]));
        }
        screens.push(json!({"layoutName": name, "javaName": java, "layout": layout(&a["fileName"])?.unwrap_or_else(|| json!([])),
            "fab": d.view["fabs"].as_array().unwrap().iter().find(|f| f[0] == name).map(|f| f[1]["id"].clone()),
            "var": list("var").iter().map(|v| json!([v[1], v[0], v[1]])).collect::<Vec<_>>(), "list": list("list").iter().map(|v| json!([v[1], v[0], v[1]])).collect::<Vec<_>>(),
            "components": list("components").iter().map(|c| json!([c["componentId"], c["type"], c["param1"]])).collect::<Vec<_>>(),
            "func": list("func").iter().map(|f| Ok(json!([f[0], f[0], f[1], code(&format!("{}_moreBlock", f[0].as_str().unwrap()))?]))).collect::<Result<Vec<_>, String>>()?,
            "events": events, "options": a["options"], "orientation": a["orientation"], "theme": a["theme"], "keyboardSetting": a["keyboardSetting"]}));
    }
    let custom = d.file["customview"].as_array().unwrap().iter().map(|c| Ok(json!([c["fileName"], layout(&c["fileName"])?]))).collect::<Result<Vec<_>, String>>()?;
    Ok(json!({"screens": screens, "custom": custom}))
}
fn seen(p: &SketchwareProject) -> Value {
    let v = obs::aproject(p);
    let screens: Vec<Value> = v["screens"].as_array().unwrap().iter().map(|s| { let mut s = s.clone(); s["layout"] = aids(&s["layout"]); s["fab"] = s["fab"].get("id").cloned().unwrap_or(Value::Null); s }).collect();
    json!({"screens": screens, "custom": v["custom"].as_array().unwrap().iter().map(|c| json!([c[0], aids(&c[1])])).collect::<Vec<_>>()})
}
fn converts(ch: &mut Ch, d: &Doc) -> Result<SketchwareProject, String> { converts_as(ch, d, PLAIN) }
fn converts_as(ch: &mut Ch, d: &Doc, st: Style) -> Result<SketchwareProject, String> {
    let t = d.texts(st);
    ch.state(&t);
    ch.note(|| format!("file:\n{}\nview:\n{}\nlogic:\n{}", t[1], t[4], t[5]));
    let p = load(raw_of(t, None))?;
    ch.steps(7);
    refm::want("converted", &expected(d)?, &seen(&p))?;
    Ok(p)
}
fn refused(ch: &mut Ch, d: &Doc, names: &[&str]) -> Result<(), String> {
    let t = d.texts(PLAIN);
    ch.state(&t);
    ch.note(|| format!("file:\n{}\nview:\n{}\nlogic:\n{}", t[1], t[4], t[5]));
    ch.steps(7);
    let p = swrs::parser::SketchwareProject::parse_from(raw_of(t, None)).map_err(|e| format!("loading is refused: {:?}", e))?;
    match SketchwareProject::try_from(p) {
        Ok(p) => Err(format!("accepted as {}", trunc(&seen(&p).to_string(), 600))),
        Err(e) => {
            let m = format!("{:?} {}", e, e);
            for n in names { if !m.contains(n) { return Err(format!("the error does not name {}: {}", n, m)) } }
            Ok(())
        }
    }
}

/// adds a screen, everything in it marked with its name
fn add(d: &mut Doc, name: &str, k: usize, layout: usize, fab: bool, logic: usize) {
    let mark = format!("{}!{}", name, k);
    let v = |id: String, p: &str| with(VIEW, &[("id", json!(id)), ("type", json!(0)), ("parent", json!(p))]);
    d.file["activity"].as_array_mut().unwrap().push(with(FILE_ITEM, &[("fileName", json!(name)), ("options", json!((k * 7 + 1) % 16)), ("theme", json!(k as i64 % 4 - 1)), ("orientation", json!(k % 3)), ("keyboardSetting", json!((k + 1) % 3))]));
    match layout { 0 => d.view["layouts"].as_array_mut().unwrap().push(json!([name, [v(format!("top {}", mark), "root"), v(format!("in {}", mark), &format!("top {}", mark))]])), 1 => d.view["layouts"].as_array_mut().unwrap().push(json!([name, []])), _ => {} }
    if fab { d.view["fabs"].as_array_mut().unwrap().push(json!([name, with(VIEW, &[("id", json!(format!("fab {}", mark))), ("type", json!(16)), ("parent", Value::Null), ("parentType", json!(-1))])])) }
    let j = refm::java_name(name);
    match logic {
        0 => d.logic[j] = json!({"var": [[k % 4, format!("var {}", k)]], "list": [[1, format!("list {}", k)]], "components": [with(COMPONENT, &[("componentId", json!(mark)), ("type", json!(k % 21 + 1))])],
            "events": [with(EVENT, &[("targetId", json!(format!("e{}", k)))])], "func": [[format!("f{}", k), format!("f{} %s.x", k)]],
            "containers": [["onCreate_initializeLogic", [block("10", -1, &format!("create {}", mark), "x", json!([]))]], [format!("e{}_onClick", k), [block("10", -1, &format!("click {}", mark), "y", json!([]))]], [format!("f{}_moreBlock", k), [block("10", -1, &format!("more {}", mark), "z", json!([]))]]]}),
        1 => d.logic[j] = json!({"var": [[k % 4, format!("var {}", k)]], "containers": []}),
        _ => {}
    }
}
fn add_custom(d: &mut Doc, name: &str, k: usize, layout: bool) {
    d.file["customview"].as_array_mut().unwrap().push(with(FILE_ITEM, &[("fileName", json!(name)), ("fileType", json!(if name.starts_with("_drawer_") { 2 } else { 1 })), ("options", json!(0)), ("orientation", json!(2))]));
    if layout { d.view["layouts"].as_array_mut().unwrap().push(json!([name, (0..k).map(|i| with(VIEW, &[("id", json!(format!("{} {}", name, i))), ("parent", json!("root"))])).collect::<Vec<_>>()])) }
}

fn letters(ch: &mut Ch, max: usize, abc: &[&str]) -> String { let n = ch.free(max + 1); (0..n).map(|_| *ch.free_of(abc)).collect() }
fn one_name(ch: &mut Ch, max: usize) -> Result<(), String> {
    let n = letters(ch, max, &["a", "_", "B", "1", "é"]);
    let mut d = empty();
    add(&mut d, &n, 3, 0, true, 0);
    if n != "main" { add(&mut d, "main", 4, 0, false, 1) }
    if refm::java_name(&n) == "MainActivity" { ch.skip(); return Ok(()) }
    converts(ch, &d).map(|_| ())
}
fn name5(ch: &mut Ch) -> Result<(), String> { one_name(ch, 5) }
fn name7(ch: &mut Ch) -> Result<(), String> { one_name(ch, 7) }
fn two_names(ch: &mut Ch) -> Result<(), String> {
    let abc: &[&str] = if ch.wide { &["a", "b", "A", "_", "1"] } else { &["a", "b", "_"] };
    let (x, y) = (letters(ch, 3, abc), letters(ch, 3, abc));
    if x == y || refm::java_name(&x) == refm::java_name(&y) { ch.skip(); return Ok(()) }
    let kind = ch.free(3);
    let mut d = empty();
    match kind {
        0 => { add(&mut d, &x, 0, 0, true, 0); add(&mut d, &y, 1, 0, true, 0) }
        1 => { add(&mut d, &x, 0, 2, false, 2); add(&mut d, &y, 1, 0, true, 0) }
        _ => { add(&mut d, &x, 0, 0, true, 0); add(&mut d, &y, 1, 2, false, 2) }
    }
    converts(ch, &d).map(|_| ())
}
fn wide_names(ch: &mut Ch) -> Result<(), String> {
    let s: Vec<String> = strings_wide().into_iter().filter(|s| line_ok(s) && !s.contains('.')).collect();
    let n = ch.free_of(&s).clone();
    let pre = *ch.free_of(&["", "x_", "_drawer_", "x"]);
    let name = format!("{}{}", pre, n);
    if name == "main" || refm::java_name(&name) == "MainActivity" { ch.skip(); return Ok(()) }
    let mut d = empty();
    add(&mut d, "main", 1, 0, true, 0);
    add(&mut d, &name, 2, 0, true, 0);
    converts(ch, &d).map(|_| ())
}
fn presence(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    let n = ch.free(4);
    for i in 0..n { let (l, f, g) = (ch.free(3), ch.free(2) == 1, ch.free(3)); add(&mut d, SCREENS[i], i, l, f, g) }
    for i in 0..ch.free(3) { let k = ch.free(3); add_custom(&mut d, CUSTOM[i], k, true) }
    converts(ch, &d).map(|_| ())
}
fn orders(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    for i in 0..3 { add(&mut d, SCREENS[i], i, 0, true, 0) }
    add_custom(&mut d, "row", 2, true);
    fn perm(ch: &mut Ch, v: &mut Value) { let mut rest = std::mem::take(v.as_array_mut().unwrap()); let mut out = vec![]; while !rest.is_empty() { let i = ch.free(rest.len()); out.push(rest.remove(i)) } *v = json!(out) }
    perm(ch, &mut d.file["activity"]); perm(ch, &mut d.view["layouts"]); perm(ch, &mut d.view["fabs"]);
    let st = Style { json: ch.free(2), ..PLAIN };
    converts_as(ch, &d, st).map(|_| ())
}
fn options(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    add(&mut d, "main", 0, 0, true, 0); add(&mut d, "other", 1, 0, false, 0);
    let at = ch.free(2);
    let v = with(FILE_ITEM, &[("fileName", json!(["main", "other"][at])), ("keyboardSetting", json!(ch.free(3))), ("options", json!(ch.free(16))), ("orientation", json!(ch.free(3))), ("theme", json!(ch.free(4) as i64 - 1))]);
    d.file["activity"][at] = v;
    converts(ch, &d).map(|_| ())
}
fn missing_custom(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    for i in 0..ch.free(2) { add(&mut d, SCREENS[i], i, 0, true, 0) }
    let n = 1 + ch.free(3);
    let mut gone = vec![];
    for i in 0..n { let has = ch.free(2) == 0; add_custom(&mut d, CUSTOM[i], i, has); if !has { gone.push(CUSTOM[i]) } }
    // the layout of a missing one exists under another name
    if ch.free(2) == 1 { d.view["layouts"].as_array_mut().unwrap().push(json!(["Row", []])) }
    if gone.is_empty() { return converts(ch, &d).map(|_| ()) }
    refused(ch, &d, &gone[..1])
}
fn many(ch: &mut Ch) -> Result<(), String> {
    let s: Vec<usize> = sizes().into_iter().filter(|n| *n <= 130).collect();
    let n = *ch.free_of(&s);
    let mut d = empty();
    for i in 0..n { add(&mut d, &format!("screen_{}", i), i, i % 3, i % 2 == 0, i % 3) }
    for i in 0..n / 2 { add_custom(&mut d, &format!("custom_{}", i), i % 4, true) }
    converts(ch, &d).map(|_| ())
}
/// two names easily mistaken for each other, with every combination of contents
fn kin_names(ch: &mut Ch) -> Result<(), String> {
    let (x, y) = ch.free_of(crate::dict::pairs()).clone();
    let how = ch.free(3);
    let mut d = empty();
    let ok = |s: &str| line_ok(s) && !s.contains('.');
    if !ok(&x) || !ok(&y) || (how == 0 && refm::java_name(&x) == refm::java_name(&y)) { ch.skip(); return Ok(()) }
    let mut screen = |ch: &mut Ch, d: &mut Doc, n: &str, k: usize| { let (l, f, g) = (ch.free(2) * 2, ch.free(2) == 1, ch.free(2) * 2); add(d, n, k, l, f, g) };
    match how {
        0 => { screen(ch, &mut d, &x, 1); screen(ch, &mut d, &y, 2) }
        1 => { screen(ch, &mut d, &x, 1); let has = ch.free(2) == 0; add_custom(&mut d, &y, 2, has); if !has { return refused(ch, &d, &[&format!("{:?}", y)]) } }
        _ => {
            let (p, q) = (ch.free(2) == 0, ch.free(2) == 0);
            add_custom(&mut d, &x, 1, p); add_custom(&mut d, &y, 2, q);
            if !p || !q { return refused(ch, &d, &[&format!("{:?}", if p { &y } else { &x })]) }
        }
    }
    converts(ch, &d).map(|_| ())
}
pub fn c20() -> Check {
    Check { id: "C20", rule: "the screens and custom views of the converted project are exactly those the documents describe: matched by file name and by the independently computed class name, in order, with their options; a custom view without a layout is refused with an error naming it",
        assumptions: &["file names are distinct and so are the class names derived from them", "letters beyond ASCII are not upper-cased"],
        scopes: vec![
            scope("names-5", "every name of up to 5 characters over {a, _, B, 1, é}", name5, ALL, OFF), scope("names-7", "every name of up to 7 characters over {a, _, B, 1, é}", name7, OFF, ALL),
            scope("pairs", "every pair of names of up to 3 characters over {a, b, _}, with and without contents", two_names, ALL, ALL), wide("pairs-5", "the same over {a, b, A, _, 1}", two_names, OFF, ALL),
            scope("wide-names", "single characters, lengths and keywords as names", wide_names, ALL, ALL),
            scope("kin", "two screens, or a screen and a custom view, or two custom views, with names easily mistaken for each other, each combination of contents", kin_names, ALL, ALL),
            scope("presence", "0..3 screens with every combination of full/empty/absent layout, FAB, full/little/absent logic; 0..2 custom views", presence, ALL, ALL),
            scope("orders", "3 screens listed in every order in each file", orders, ALL, ALL), scope("options", "every combination of options, orientation, theme and keyboard", options, ALL, ALL),
            scope("missing", "every subset of missing custom view layouts", missing_custom, ALL, ALL), scope("sizes", "0..129 screens", many, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ C21

/// converts a screen with this logic, and back
fn there_and_back(ch: &mut Ch, l: Value) -> Result<(), String> {
    let mut d = empty();
    add(&mut d, "main", 0, 1, false, 2);
    d.logic = json!({"MainActivity": l});
    let p = converts(ch, &d)?;
    let r = save(p)?;
    ch.steps(2);
    let s = Doc::read(texts_of(&r))?;
    ch.note(|| format!("saved:\n{}", r.logic));
    // onCreate is only listed as code
    let mut want = d.clone();
    if let Some(e) = want.logic["MainActivity"].get_mut("events") { e.as_array_mut().unwrap().retain(|e| !(e["eventType"] == 3 && e["eventName"] == "onCreate")) }
    refm::want("saved", &want.canon()?, &s.canon()?)?;
    // every event has its container
    let got = s.logic["MainActivity"]["containers"].as_array().cloned().unwrap_or_default();
    for e in s.logic["MainActivity"].get("events").and_then(|e| e.as_array()).cloned().unwrap_or_default() {
        if !got.iter().any(|c| c[0] == container_of(&e)) { return Err(format!("no code container is saved for the event {}", e)) }
    }
    let p2 = load(r.clone())?;
    refm::want("converted again", &expected(&want)?, &seen(&p2)).or_else(|m| {
        // an onCreate without code may come back as an empty one
        let strip = |mut v: Value| { for s in v["screens"].as_array_mut().unwrap() { s["events"].as_array_mut().unwrap().retain(|e| !(e[0] == "onCreate" && e[1] == json!([3]) && e[2] == "")) } v };
        if refm::same(&strip(expected(&want)?), &strip(seen(&p2))) { Ok(()) } else { Err(m) }
    })?;
    Ok(())
}
fn code(ch: &mut Ch, tag: &str) -> Option<Value> {
    let b = block;
    match ch.pick(5) {
        0 => Some(json!([b("10", -1, &format!("op {}", tag), "Toast %s", json!([tag]))])),
        1 => Some(json!([])),
        2 => None,
        3 => Some(json!([b("10", 11, &format!("first {}", tag), "x", json!([])), b("11", -1, &format!("second {}", tag), "y %s", json!(["@12"])), b("12", -1, &format!("arg {}", tag), "z", json!([]))])),
        _ => { let mut o = b("30", -1, "if", "if %b", json!(["true"])); o["subStack1"] = json!(20); o["type"] = json!("c"); Some(json!([o, b("20", -1, &format!("in {}", tag), "x", json!([]))])) }
    }
}
fn universe() -> Vec<Value> {
    let mut u = vec![];
    for n in ["onClick", "onCreate", "x", "x_y"] {
        for t in ["a", "b", "onCreate"] { for ty in [1, 2] { u.push(with(EVENT, &[("eventName", json!(n)), ("eventType", json!(ty)), ("targetId", json!(t)), ("targetType", json!(ty * 5 - 2))])) } }
        u.push(with(EVENT, &[("eventName", json!(n)), ("eventType", json!(3)), ("targetId", json!(n)), ("targetType", json!(0))]));
    }
    u
}
fn screen_events(ch: &mut Ch, n: usize) -> Result<(), String> {
    let u = universe();
    let create = ch.free(3);
    let mut cs = vec![];
    if create > 0 { cs.push(json!(["onCreate_initializeLogic", if create == 1 { json!([]) } else { json!([block("10", -1, "created", "x", json!([]))]) }])) }
    let mut ev = vec![];
    for i in 0..n {
        let e = ch.free_of(&u).clone();
        let k = container_of(&e);
        let listed = e["eventType"] == 3 && e["eventName"] == "onCreate";
        if listed { if create == 0 { ch.skip(); return Ok(()) } }
        else {
            if k == "onCreate_initializeLogic" || cs.iter().any(|c| c[0] == k) || ev.iter().any(|f| container_of(f) == k) { ch.skip(); return Ok(()) }
            if let Some(c) = code(ch, &format!("{} {}", i, k)) { cs.push(json!([k, c])) }
        }
        if ev.contains(&e) { ch.skip(); return Ok(()) }
        ev.push(e);
    }
    // containers in another order than the events
    if ch.free(2) == 1 { cs.reverse() }
    let mut l = json!({"containers": cs});
    if n > 0 || ch.free(2) == 1 { l["events"] = json!(ev) }
    there_and_back(ch, l)
}
fn ev0(ch: &mut Ch) -> Result<(), String> { screen_events(ch, 0) }
fn ev1(ch: &mut Ch) -> Result<(), String> { screen_events(ch, 1) }
fn ev2(ch: &mut Ch) -> Result<(), String> { screen_events(ch, 2) }
fn ev3(ch: &mut Ch) -> Result<(), String> { screen_events(ch, 3) }
fn more(ch: &mut Ch) -> Result<(), String> {
    let names = ["f", "g", "onCreate", "f_moreBlock", "é x", "_"];
    let specs = ["f", "f %s.a", "%d.n %b.t %m.list ", "", "x  y "];
    let n = ch.free(4);
    let (mut fs, mut cs): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    for i in 0..n {
        let name = *ch.free_of(&names);
        if fs.iter().any(|f| f[0] == name) { ch.skip(); return Ok(()) }
        let spec = *ch.of(&specs);
        fs.push(json!([name, spec]));
        if let Some(c) = code(ch, &format!("{} {}", i, name)) { cs.push(json!([format!("{}_moreBlock", name), c])) }
    }
    if ch.free(2) == 1 { cs.reverse() }
    // next to an event and onCreate
    let mut l = json!({"func": fs});
    match ch.free(3) {
        1 => { l["events"] = json!([with(EVENT, &[("targetId", json!("f"))])]); cs.push(json!(["f_onClick", [block("10", -1, "clicked", "x", json!([]))]])) }
        2 => cs.insert(0, json!(["onCreate_initializeLogic", [block("10", -1, "created", "x", json!([]))]])),
        _ => {}
    }
    l["containers"] = json!(cs);
    there_and_back(ch, l)
}
const PATHS: [i64; 4] = [2, 6, 14, 16];
fn component_types(ch: &mut Ch) -> Result<(), String> {
    let t = ch.free(256) as i64;
    let before = ch.free(2);
    let mut c: Vec<Value> = (0..before).map(|i| with(COMPONENT, &[("componentId", json!(format!("first{}", i))), ("type", json!(5))])).collect();
    let param = if PATHS.contains(&t) { *ch.free_of(&["", "p", "é/\"x\\", " a b ", "/p", "p/", "/p/", "//p", "/", "*", "*/*", "image/*", ".", "../p", "p//q", "0", "null", "http://a.b/c", "A", "p\n", "{}"]) } else { "" };
    c.push(with(COMPONENT, &[("componentId", json!("the_component")), ("type", json!(t)), ("param1", json!(param))]));
    c.push(with(COMPONENT, &[("componentId", json!("last")), ("type", json!(2)), ("param1", json!("other"))]));
    let l = json!({"components": c, "containers": []});
    if (1..=21).contains(&t) { return there_and_back(ch, l) }
    let mut d = empty(); add(&mut d, "main", 0, 1, false, 2); d.logic = json!({"MainActivity": l});
    refused(ch, &d, &["the_component", &t.to_string()])
}
fn component_lists(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(4);
    let mut c = vec![];
    let strs = strings_small();
    for i in 0..n {
        let t = if n == 3 { *ch.free_of(&[1i64, 2, 5, 6, 14, 16, 21]) } else { ch.free(21) as i64 + 1 };
        let id = ch.pick(strs.len() + 1); let id = if id == 0 { format!("c{}", i) } else { strs[id - 1].to_string() };
        if c.iter().any(|x: &Value| x["componentId"] == id) { ch.skip(); return Ok(()) }
        c.push(with(COMPONENT, &[("componentId", json!(id)), ("type", json!(t)), ("param1", json!(if PATHS.contains(&t) { format!("path{}", i) } else { "".into() }))]));
    }
    there_and_back(ch, json!({"components": c, "containers": []}))
}
/// components that are equal in all but the id
fn alike_components(ch: &mut Ch) -> Result<(), String> {
    let kinds: Vec<(i64, &str)> = (1..=21).flat_map(|t| if PATHS.contains(&t) { vec![(t, "p"), (t, "q"), (t, "")] } else { vec![(t, "")] }).collect();
    let a = ch.free_of(&kinds);
    let b = ch.free_of(&kinds);
    let ids = ch.free_of(&[["c", "d", "e"], ["c1", "c", "c11"], ["p", "q", "c"]]);
    let third = ch.free(3);
    let mut c: Vec<(&(i64, &str), &str)> = vec![(a, ids[0]), (b, ids[1])];
    if third > 0 { c.push((if third == 1 { a } else { b }, ids[2])) }
    let c: Vec<Value> = c.iter().map(|((t, p), id)| with(COMPONENT, &[("componentId", json!(id)), ("type", json!(t)), ("param1", json!(p))])).collect();
    there_and_back(ch, json!({"components": c, "containers": []}))
}
/// moreblocks that are equal in all but the name, and events whose code is equal
fn alike_code(ch: &mut Ch) -> Result<(), String> {
    let specs = ["", "do it", "do %s.a", "do %d.a"];
    let codes = [json!([]), json!([block("10", -1, "op", "x", json!([]))]), json!([block("10", -1, "op", "x %s", json!(["a"]))])];
    let n = ch.free(2) + 2;
    let (mut l, names) = (json!({"func": [], "events": [], "containers": []}), ["f", "g", "h"]);
    for i in 0..n {
        let (s, c, has) = (*ch.free_of(&specs), ch.free(4), ch.free(2) == 1);
        l["func"].as_array_mut().unwrap().push(json!([names[i], s]));
        if has { l["events"].as_array_mut().unwrap().push(with(EVENT, &[("eventName", json!("onClick")), ("eventType", json!(1)), ("targetId", json!(names[i])), ("targetType", json!(4))])) }
        if c > 0 { for (k, on) in [("moreBlock", true), ("onClick", has)] { if on { l["containers"].as_array_mut().unwrap().push(json!([format!("{}_{}", names[i], k), codes[c - 1]])) } } }
    }
    there_and_back(ch, l)
}
fn event_types(ch: &mut Ch) -> Result<(), String> {
    let t = ch.free(256) as i64;
    let tt = if t == 3 { 0 } else { *ch.free_of(&[0i64, 1, 255]) };
    let e = with(EVENT, &[("eventName", json!("the_event")), ("eventType", json!(t)), ("targetId", json!(if t == 3 { "the_event" } else { "tgt" })), ("targetType", json!(tt))]);
    let l = json!({"events": [with(EVENT, &[("targetId", json!("first"))]), e], "containers": [["first_onClick", []]]});
    if (1..=3).contains(&t) { return there_and_back(ch, l) }
    let mut d = empty(); add(&mut d, "main", 0, 1, false, 2); d.logic = json!({"MainActivity": l});
    refused(ch, &d, &["the_event", &t.to_string()])
}
fn target_types(ch: &mut Ch) -> Result<(), String> {
    let (t, tt) = (ch.free(2) + 1, ch.free(256));
    let e = with(EVENT, &[("eventName", json!("onX")), ("eventType", json!(t)), ("targetId", json!("tgt")), ("targetType", json!(tt))]);
    there_and_back(ch, json!({"events": [e], "containers": [["tgt_onX", [block("10", -1, "op", "x", json!([]))]]]}))
}
fn wide_event_names(ch: &mut Ch) -> Result<(), String> {
    let s: Vec<String> = strings_wide().into_iter().filter(|s| line_ok(s) && !s.contains(".java_")).collect();
    let n = ch.free_of(&s).clone();
    let what = ch.free(5);
    let blk = |t: &str| json!([block("10", -1, &format!("op {}", t), "x %s", json!([t]))]);
    let ev = |name: &str, ty: i64, id: &str| with(EVENT, &[("eventName", json!(name)), ("eventType", json!(ty)), ("targetId", json!(id)), ("targetType", json!(if ty == 3 { 0 } else { 4 }))]);
    let mut l = json!({"events": [ev("onClick", 1, "other")], "containers": [["other_onClick", blk("other")]]});
    let mut add = |e: Value| { let k = container_of(&e); l["events"].as_array_mut().unwrap().push(e); l["containers"].as_array_mut().unwrap().push(json!([k, blk("this")])) };
    match what {
        0 => add(ev(&n, 1, "t")), 1 => add(ev("onX", 1, &n)), 2 => add(ev("onX", 2, &n)),
        3 => { if n == "onCreate" { ch.skip(); return Ok(()) } add(ev(&n, 3, &n)) }
        _ => { if n.contains(':') || n.starts_with('@') { ch.skip(); return Ok(()) } l["func"] = json!([[n, "spec %s.a "]]); l["containers"].as_array_mut().unwrap().push(json!([format!("{}_moreBlock", n), blk("this")])) }
    }
    let cs = l["containers"].as_array().unwrap();
    if cs.len() > 1 && cs[0][0] == cs[1][0] { ch.skip(); return Ok(()) }
    there_and_back(ch, l)
}
fn sizes21(ch: &mut Ch) -> Result<(), String> {
    let s: Vec<usize> = sizes().into_iter().filter(|n| *n <= 300).collect();
    let n = *ch.free_of(&s);
    let ev: Vec<Value> = (0..n).map(|i| with(EVENT, &[("eventName", json!(format!("on{}", i % 7))), ("eventType", json!(i % 2 + 1)), ("targetId", json!(format!("t{}", i))), ("targetType", json!(i % 256))])).collect();
    // every so many of them without code
    let gap = [usize::MAX, 2, 3, 64][ch.free(4)];
    let mut cs: Vec<Value> = ev.iter().enumerate().filter(|(i, _)| (i + 1) % gap != 0).map(|(_, e)| json!([container_of(e), [block("10", -1, &format!("op {}", container_of(e)), "x", json!([]))]])).collect();
    let fs: Vec<Value> = (0..n).map(|i| json!([format!("f{}", i), format!("f{} %s.a", i)])).collect();
    for i in 0..n { if (i + 1) % gap == 0 { continue } cs.push(json!([format!("f{}_moreBlock", i), [block("10", -1, &format!("mb{}", i), "x", json!([]))]])) }
    there_and_back(ch, json!({"events": ev, "func": fs, "containers": cs}))
}
/// two events or moreblocks with names easily mistaken for each other
fn kin_logic(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = ch.free_of(crate::dict::pairs()).clone();
    let what = ch.free(8);
    let blk = |t: &str| json!([block("10", -1, &format!("op {}", t), "x %s", json!([t]))]);
    let ev = |name: &str, ty: i64, id: &str| with(EVENT, &[("eventName", json!(name)), ("eventType", json!(ty)), ("targetId", json!(id)), ("targetType", json!(if ty == 3 { 0 } else { 4 }))]);
    if !key_ok(&a) || !key_ok(&b) || (what == 4 && (!mb_ok(&a) || !mb_ok(&b))) { ch.skip(); return Ok(()) }
    let mut l = json!({"events": [], "containers": []});
    let pair = match what {
        0 => vec![ev("onX", 1, &a), ev("onX", 1, &b)], 1 => vec![ev("onX", 2, &a), ev("onX", 1, &b)], 2 => vec![ev(&a, 1, "t"), ev(&b, 1, "t")], 3 => vec![ev(&a, 3, &a), ev(&b, 3, &b)],
        4 => { l["func"] = json!([[a, "one %s.a "], [b, "two %d.b"]]); for (n, t) in [(&a, "1"), (&b, "2")] { l["containers"].as_array_mut().unwrap().push(json!([format!("{}_moreBlock", n), blk(t)])) } vec![] }
        5 => vec![ev(&a, 3, &a), ev(&a, 1, &b)], 6 => vec![ev(&a, 1, &b), ev(&b, 1, &a)],
        _ => {
            let c = |n: &str, t: i64, p: &str| with(COMPONENT, &[("componentId", json!(n)), ("type", json!(t)), ("param1", json!(p))]);
            l["components"] = json!([c(&a, 2, &b), c(&b, 5, "")]); vec![]
        }
    };
    for (i, e) in pair.iter().enumerate() {
        let k = container_of(e);
        if k == "onCreate_initializeLogic" || (e["eventType"] == 3 && e["eventName"] == "onCreate") || l["containers"].as_array().unwrap().iter().any(|c| c[0] == k) { ch.skip(); return Ok(()) }
        l["containers"].as_array_mut().unwrap().push(json!([k, blk(&i.to_string())]));
    }
    l["events"] = json!(pair);
    if ch.free(2) == 1 { l["containers"].as_array_mut().unwrap().reverse() }
    // only one of them has code
    match ch.free(3) { 0 => {} k => { let c = l["containers"].as_array_mut().unwrap(); if c.len() < 2 { ch.skip(); return Ok(()) } c.remove(k - 1); } }
    there_and_back(ch, l)
}
pub fn c21() -> Check {
    Check { id: "C21", rule: "the events, moreblocks and components of the converted screen are exactly those listed (plus onCreate when it has code), each with the program of its own container; converting back saves the same entries, specs and containers, onCreate only as code; unknown event and component types are refused with an error naming the entry",
        assumptions: &["two entries never share a code container (the format cannot tell them apart)", "activity events carry their own name as target and target type 0, as Sketchware writes them", "component parameters other than the path are empty, as Sketchware writes them"],
        scopes: vec![
            scope("events-0", "no listed event", ev0, ALL, ALL), scope("events-1", "every event of the universe, every kind of code", ev1, ALL, ALL), scope("events-2", "every pair of events, code kinds", ev2, 1, ALL), scope("events-3", "every triple of events", ev3, 0, 1),
            scope("moreblocks", "0..3 moreblocks with names, specs and code", more, 1, 2), scope("component-types", "all 256 component types with parameters", component_types, ALL, ALL),
            scope("components", "lists of 0..3 components, ids", component_lists, 1, 2), scope("event-types", "all 256 event types", event_types, ALL, ALL), scope("target-types", "all 256 target types", target_types, ALL, ALL),
            scope("wide-names", "wide names of events, targets and moreblocks", wide_event_names, ALL, ALL), scope("kin", "two events, moreblocks or components with names easily mistaken for each other, with and without code", kin_logic, ALL, ALL),
            scope("alike", "2 or 3 components of every two types, equal in type, parameter or both", alike_components, ALL, ALL), scope("alike-code", "2 or 3 moreblocks and events with equal and different specs and code", alike_code, ALL, ALL), scope("sizes", "size ladder to 300", sizes21, ALL, ALL),
        ] }
}

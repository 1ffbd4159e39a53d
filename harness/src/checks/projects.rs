//! C13, C20, C21: whole projects through the editable form
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm;
use crate::{obs, Check};
use serde_json::{json, Value};
use std::sync::OnceLock;
use swrs::api::SketchwareProject;
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper, ResourceType, SketchwareProject as Parsed};

pub type Files = Option<Vec<ResourceFileWrapper>>;

pub fn raw_of(t: [String; 6], files: Files) -> RawSketchwareProject {
    let [p, f, l, r, v, g] = t;
    match files { Some(fs) => RawSketchwareProject::new(p, f, l, r, v, g, fs), None => RawSketchwareProject::new_wo_res(p, f, l, r, v, g) }
}
pub fn texts_of(r: &RawSketchwareProject) -> [&str; 6] { [&r.project, &r.file, &r.library, &r.resource, &r.view, &r.logic] }
pub fn load(r: RawSketchwareProject) -> Result<SketchwareProject, String> {
    let p = Parsed::parse_from(r).map_err(|e| format!("loading the files is refused: {:?}", e))?;
    SketchwareProject::try_from(p).map_err(|e| format!("the conversion is refused: {:?}", e))
}
pub fn save(p: SketchwareProject) -> Result<RawSketchwareProject, String> { p.try_into().map_err(|e| format!("saving failed: {:?}", e)) }
pub fn file_set(f: &Files) -> Value {
    match f { None => Value::Null, Some(v) => { let mut s: Vec<String> = v.iter().map(|w| obs::wrapper(w).to_string()).collect(); s.sort(); json!(s) } }
}
/// the editable project without the numbers of automatically made handles
pub fn aproj(p: &SketchwareProject, auto: bool) -> Value {
    let mut v = obs::aproject(p);
    if auto {
        fn strip(w: &mut Value) { if let Some(o) = w.as_object_mut() { o.remove("number"); } }
        strip(&mut v["icon"]);
        for k in ["images", "sounds", "fonts"] { for e in v[k].as_array_mut().unwrap() { strip(&mut e[1]) } }
    }
    v
}

/// one handle per resource entry, and the icon if the project says so
pub fn handles(d: &Doc, numbers: bool) -> Vec<ResourceFileWrapper> {
    let mut out = vec![];
    let mut add = |name: &str, t: ResourceType, i: usize| out.push(if numbers { ResourceFileWrapper::U32Id { id: 1000 + i as u32, res_full_name: name.into(), res_type: t } }
        else { ResourceFileWrapper::StringId { id: format!("h{}", i), res_full_name: name.into(), res_type: t } });
    let (mut i, mut seen) = (0, std::collections::HashSet::new());
    if d.project["custom_icon"] == true { add("icon.png", ResourceType::CustomIcon, 999) }
    for (k, t) in [("images", ResourceType::Image), ("sounds", ResourceType::Sound), ("fonts", ResourceType::Font)] {
        for e in d.resource[k].as_array().unwrap() { let n = e["resFullName"].as_str().unwrap(); if seen.insert((k, n.to_string())) { add(n, t, i) } i += 1 }
    }
    out
}

pub fn doc_note(t: &[String; 6]) -> String { ["project", "file", "library", "resource", "view", "logic"].iter().zip(t).map(|(n, x)| format!("--- {}\n{}", n, x)).collect::<Vec<_>>().join("\n") }

/// through the editable form and back, twice
pub fn through(ch: &mut Ch, d: &Doc, st: Style, files: Files) -> Result<Value, String> {
    let t = d.texts(st);
    ch.state(&t); ch.state(&file_set(&files).to_string());
    ch.note(|| doc_note(&t));
    let auto = files.is_none();
    let r0 = raw_of(t, files.clone());
    let parsed = Parsed::parse_from(r0).map_err(|e| format!("loading the files is refused: {:?}", e))?;
    ch.steps(6);
    let want = d.canon().map_err(|e| format!("harness: the document is not well-formed: {}", e))?;
    // without the editable form in between
    let plain: RawSketchwareProject = parsed.clone().try_into().map_err(|e| format!("saving the loaded files failed: {:?}", e))?;
    ch.steps(6);
    refm::want("saved without converting", &want, &Doc::read(texts_of(&plain))?.canon()?)?;
    refm::want("files attached without converting", &file_set(&files), &file_set(&plain.resource_files))?;

    let a1 = SketchwareProject::try_from(parsed).map_err(|e| format!("the conversion is refused: {:?}", e))?;
    let seen = aproj(&a1, auto);
    let r1 = save(a1.clone())?;
    ch.steps(2);
    ch.note(|| format!("saved:\n{}", doc_note(&texts_of(&r1).map(|s| s.to_string()))));
    let d1 = Doc::read(texts_of(&r1))?;
    let got = d1.canon().map_err(|e| format!("what was saved is not well-formed: {}", e))?;
    refm::want("saved", &want, &got)?;
    refm::want("attached files", &file_set(&files), &file_set(&r1.resource_files))?;
    let a2 = load(r1.clone())?;
    refm::want("converted again", &seen, &aproj(&a2, auto))?;
    let r2 = save(a2)?;
    ch.steps(8);
    for (i, n) in ["project", "file", "library", "resource", "view", "logic"].iter().enumerate() {
        if texts_of(&r1)[i] != texts_of(&r2)[i] { return Err(format!("saving a second time changes the `{}` file: {:?} became {:?}", n, trunc(texts_of(&r1)[i], 1500), trunc(texts_of(&r2)[i], 1500))) }
    }
    refm::want("files attached the second time", &file_set(&files), &file_set(&r2.resource_files))?;
    Ok(got)
}

// ------------------------------------------------------------------ generating projects

pub fn strs(wide: bool) -> &'static Vec<String> {
    static S: OnceLock<[Vec<String>; 2]> = OnceLock::new();
    &S.get_or_init(|| [strings_small().iter().map(|s| s.to_string()).collect(), strings_wide()])[wide as usize]
}
pub fn line_ok(s: &str) -> bool { !s.contains('\n') && !s.contains('\r') && s.trim_end() == s }
pub fn head_ok(s: &str) -> bool { line_ok(s) && !s.contains('.') }
pub fn key_ok(s: &str) -> bool { line_ok(s) && !s.contains(".java_") }
pub fn mb_ok(s: &str) -> bool { key_ok(s) && !s.contains(':') && !s.starts_with('@') }
pub fn any_ok(_: &str) -> bool { true }
/// a name: the default or one of the enumerated strings
fn word(ch: &mut Ch, def: &str, ok: fn(&str) -> bool) -> String {
    let s = strs(ch.wide);
    let k = ch.pick(s.len() + 1);
    if k == 0 { def.into() } else if ok(&s[k - 1]) { s[k - 1].clone() } else { ch.skip(); def.into() }
}

pub fn block(id: &str, next: i64, op: &str, spec: &str, params: Value) -> Value {
    with(BLOCK, &[("id", json!(id)), ("nextBlock", json!(next)), ("opCode", json!(op)), ("spec", json!(spec)), ("parameters", params)])
}
fn vary_block(ch: &mut Ch, b: &mut Value, arg: bool) {
    let cs = colors_small();
    let c = ch.pick(cs.len() + 1); if c > 0 { b["color"] = json!(cs[c - 1]) }
    let op = word(ch, b["opCode"].as_str().unwrap(), any_ok); b["opCode"] = json!(op);
    let tys = super::blocks::TYPES;
    let t = ch.pick(tys.len() + 1);
    if t > 0 { b["type"] = json!(tys[t - 1].0); b["typeName"] = json!(tys[t - 1].1) }
    if b["type"] == "b" && (op == "true" || op == "false") && arg { b["opCode"] = json!("and") }
    let refs = b["parameters"].as_array().unwrap().iter().any(|p| p.as_str().unwrap().starts_with('@'));
    let sp = super::blocks::SPECS;
    let s = ch.pick(sp.len() + 1);
    if s > 0 && !refs { b["spec"] = json!(sp[s - 1].0); b["parameters"] = json!(sp[s - 1].1) }
    else if ch.wide && !refs && b["spec"] == "Toast %s" {
        let w = word(ch, "lit", any_ok);
        if !w.starts_with('@') { b["parameters"] = json!([w]) }
    }
}
const MB_SPECS: &[&str] = &["greet %s.who %d.times ", "", "x", "%b.on", "a %m.varInt b", "%s", "two  spaces  ", "é漢 %d.ü"];

/// the logic of a screen from its parts; None: two containers of the same name
pub struct ScreenDoc { pub var: Vec<Value>, pub list: Vec<Value>, pub components: Vec<Value>, pub events: Vec<(Value, Vec<Value>)>, pub func: Vec<(String, String, Vec<Value>)>, pub create: Option<Vec<Value>> }
pub fn container_of(e: &Value) -> String {
    let (n, t) = (e["eventName"].as_str().unwrap(), e["targetId"].as_str().unwrap());
    if e["eventType"] == 3 { format!("{}_{}", n, n) } else { format!("{}_{}", t, n) }
}
impl ScreenDoc {
    pub fn doc(&self) -> Option<Value> {
        let mut cs: Vec<Value> = vec![];
        if let Some(c) = &self.create { cs.push(json!(["onCreate_initializeLogic", c])) }
        for (e, c) in &self.events {
            let k = container_of(e);
            if k == "onCreate_initializeLogic" || (e["eventType"] == 3 && e["eventName"] == "onCreate") { return None }
            cs.push(json!([k, c]));
        }
        for (n, _, c) in &self.func { cs.push(json!([format!("{}_moreBlock", n), c])) }
        for i in 0..cs.len() { for j in 0..i { if cs[i][0] == cs[j][0] { return None } } }
        let dup = |v: &Vec<Value>, f: &dyn Fn(&Value) -> Value| { let k: Vec<Value> = v.iter().map(|x| f(x)).collect(); (0..k.len()).any(|i| k[..i].contains(&k[i])) };
        if dup(&self.var, &|v| v[1].clone()) || dup(&self.list, &|v| v[1].clone()) || dup(&self.components, &|v| v["componentId"].clone()) { return None }
        if (0..self.func.len()).any(|i| self.func[..i].iter().any(|f| f.0 == self.func[i].0)) { return None }
        Some(json!({"var": self.var, "list": self.list, "components": self.components, "events": self.events.iter().map(|e| e.0.clone()).collect::<Vec<_>>(),
            "func": self.func.iter().map(|f| json!([f.0, f.1])).collect::<Vec<_>>(), "containers": cs}))
    }
    pub fn rich() -> ScreenDoc {
        let b = block;
        let mut iff = b("10", 14, "ifElse", "if %b then", json!(["@11"]));
        iff["subStack1"] = json!(12); iff["subStack2"] = json!(13); iff["type"] = json!("e");
        let mut cond = b("11", -1, "<", "%d < %d", json!(["1", "2.5"])); cond["type"] = json!("b");
        let e = |n: &str, t: i64, id: &str, tt: i64| with(EVENT, &[("eventName", json!(n)), ("eventType", json!(t)), ("targetId", json!(id)), ("targetType", json!(tt))]);
        let c = |n: &str, t: i64, p: &str| with(COMPONENT, &[("componentId", json!(n)), ("type", json!(t)), ("param1", json!(p))]);
        ScreenDoc {
            var: vec![json!([1, "count"]), json!([2, "name"]), json!([0, "flag"]), json!([3, "map"])], list: vec![json!([1, "nums"]), json!([2, "strs"])],
            components: vec![c("intent", 1, ""), c("sp", 2, "data"), c("timer", 5, "")],
            events: vec![(e("onClick", 1, "button1", 3), vec![b("10", 11, "doToast", "Toast %s", json!(["@12"])), b("12", -1, "getVar", "name", json!([])), b("11", -1, "setVarInt", "set %m.varInt to %d", json!(["count", "3"]))]),
                (e("onBackPressed", 3, "onBackPressed", 0), vec![]), (e("onTick", 2, "timer", 5), vec![b("10", -1, "doToast", "Toast %s", json!(["tick"]))])],
            func: vec![("greet".into(), "greet %s.who %d.times ".into(), vec![b("10", -1, "doToast", "Toast %s", json!(["@11"])), b("11", -1, "getArg", "who", json!([]))]), ("noop".into(), "noop".into(), vec![])],
            create: Some(vec![iff, cond, b("12", -1, "doToast", "Toast %s", json!(["yes"])), b("13", -1, "doToast", "Toast %s", json!(["no"])), b("14", -1, "finish", "finish", json!([]))]),
        }
    }
    pub fn vary(&mut self, ch: &mut Ch) {
        for l in [&mut self.var, &mut self.list] { for v in l.iter_mut() {
            let t = ch.pick(5); if t > 0 { v[0] = json!(t - 1) }
            let n = word(ch, v[1].as_str().unwrap(), line_ok); v[1] = json!(n);
        } }
        for c in self.components.iter_mut() {
            let t = ch.pick(22); if t > 0 { c["type"] = json!(t) }
            let n = word(ch, c["componentId"].as_str().unwrap(), any_ok); c["componentId"] = json!(n);
            if [2, 6, 14, 16].contains(&c["type"].as_i64().unwrap()) { let p = word(ch, c["param1"].as_str().unwrap(), any_ok); c["param1"] = json!(p) } else { c["param1"] = json!("") }
        }
        for (e, _) in self.events.iter_mut() {
            let t = ch.pick(4); if t > 0 { e["eventType"] = json!(t) }
            let n = word(ch, e["eventName"].as_str().unwrap(), key_ok); e["eventName"] = json!(n);
            if e["eventType"] == 3 { e["targetId"] = json!(n); e["targetType"] = json!(0) }
            else {
                let n = word(ch, e["targetId"].as_str().unwrap(), key_ok); e["targetId"] = json!(n);
                let tt = [0, 1, 3, 4, 16, 18, 127, 128, 255]; let t = ch.pick(tt.len() + 1); if t > 0 { e["targetType"] = json!(tt[t - 1]) }
            }
        }
        for f in self.func.iter_mut() {
            f.0 = word(ch, &f.0, mb_ok);
            let s = ch.pick(MB_SPECS.len() + 1); if s > 0 { f.1 = MB_SPECS[s - 1].into() }
        }
        let codes: Vec<&mut Vec<Value>> = self.create.iter_mut().chain(self.events.iter_mut().map(|e| &mut e.1)).chain(self.func.iter_mut().map(|f| &mut f.2)).collect();
        for c in codes { for b in c.iter_mut() { let arg = b["id"] == "11" || b["id"] == "12"; vary_block(ch, b, arg) } }
        // another order, or without an entry
        match ch.pick(11) {
            0 => {}
            1 => self.var.reverse(), 2 => self.list.reverse(), 3 => self.components.reverse(), 4 => self.events.reverse(), 5 => self.func.reverse(),
            6 => { self.var.pop(); } 7 => { self.list.clear(); } 8 => { self.components.remove(0); } 9 => { self.events.remove(1); } _ => { self.func.remove(0); }
        }
        match ch.pick(3) { 0 => {} 1 => self.create = Some(vec![]), _ => self.create = None }
    }
}
pub fn enable(d: &mut Doc, ch: &mut Ch) {
    let fields: [&[&str]; 4] = [&["data", "reserved1", "reserved2", "reserved3"], &[], &["adUnits", "testDevices"], &["data"]];
    for (i, k) in LIBS.iter().enumerate() {
        if ch.flag() { d.library[*k] = with(LIB_ITEM, &[("libType", json!(i)), ("useYn", json!("N"))]); continue }
        let mut v = d.library[*k].take();
        let skip: Vec<&str> = table(LIB_ITEM).fields.iter().map(|f| f.0).filter(|f| !fields[i].contains(f)).collect();
        vary(ch, LIB_ITEM, &mut v, &skip);
        d.library[*k] = v;
    }
}
fn base() -> &'static Doc { static D: OnceLock<Doc> = OnceLock::new(); D.get_or_init(sample) }
pub fn sample_doc() -> Doc { base().clone() }

fn files_mode(ch: &mut Ch, d: &Doc) -> Files { match ch.pick(3) { 0 => None, 1 => Some(handles(d, false)), _ => Some(handles(d, true)) } }

/// every combination of what a project has and has not
fn presence(ch: &mut Ch) -> Result<(), String> {
    let s = sample_doc();
    let mut d = if ch.free(2) == 0 { s.clone() } else { super::screens::empty() };
    d.project["custom_icon"] = json!(ch.free(2) == 0);
    for k in ["images", "sounds", "fonts"] { d.resource[k] = if ch.free(2) == 0 { json!([s.resource[k][0]]) } else { json!([]) } }
    for (i, k) in LIBS.iter().enumerate() { d.library[*k] = if ch.free(2) == 0 { s.library[*k].clone() } else { with(LIB_ITEM, &[("libType", json!(i)), ("useYn", json!("N"))]) } }
    let f = match ch.free(3) { 0 => None, 1 => Some(handles(&d, false)), _ => Some(handles(&d, true)) };
    through(ch, &d, Style { json: 0, after: 1, ..Style::default() }, f).map(|_| ())
}
/// every combination of empty and filled settings of a library
fn libraries(ch: &mut Ch) -> Result<(), String> {
    let mut d = if ch.free(2) == 0 { sample_doc() } else { super::screens::empty() };
    let i = ch.free(4);
    let mut v = with(LIB_ITEM, &[("libType", json!(i)), ("useYn", json!("Y"))]);
    let text = |ch: &mut Ch| ["", "x", " ", "N"][ch.free(4)];
    match i {
        0 => for k in ["data", "reserved1", "reserved2", "reserved3"] { v[k] = json!(text(ch)) },
        1 => {}
        2 => {
            let unit = |i: usize, e: usize| json!({"id": if e & 1 == 0 { format!("u{}", i) } else { String::new() }, "name": if e & 2 == 0 { format!("n{}", i) } else { String::new() }});
            v["adUnits"] = (0..ch.free(3)).map(|i| unit(i, ch.free(4))).collect();
            v["testDevices"] = (0..ch.free(3)).map(|i| json!(["d", ""][ch.free(2)].to_string() + &"x".repeat(i))).collect();
        }
        _ => v["data"] = json!(text(ch)),
    }
    d.library[LIBS[i]] = v;
    let f = match ch.free(2) { 0 => None, _ => Some(handles(&d, false)) };
    through(ch, &d, Style { json: 0, after: 1, ..Style::default() }, f).map(|_| ())
}
/// everything but the code and views
fn settings(ch: &mut Ch) -> Result<(), String> {
    let mut d = sample_doc();
    let json = ch.pick(STYLES);
    vary(ch, PROJECT, &mut d.project, &[]);
    for i in 0..2 { let mut v = d.file["activity"][i].take(); vary(ch, FILE_ITEM, &mut v, &["fileName", "fileType"]); d.file["activity"][i] = v }
    enable(&mut d, ch);
    for k in ["images", "sounds", "fonts"] {
        let n = d.resource[k].as_array().unwrap().len();
        for i in 0..n { let mut v = d.resource[k][i].take(); vary(ch, RES_ITEM, &mut v, &["resType"]); d.resource[k][i] = v }
        match ch.pick(4) { 0 => {} 1 => { d.resource[k] = json!([]) } 2 => { d.resource[k].as_array_mut().unwrap().reverse() } _ => { let x = json!({"resFullName": "zz.bin", "resName": "zz", "resType": 1}); d.resource[k].as_array_mut().unwrap().push(x) } }
        let a = d.resource[k].as_array().unwrap();
        for i in 0..a.len() { for j in 0..i { if a[i]["resName"] == a[j]["resName"] { ch.skip(); return Ok(()) } } }
    }
    let f = files_mode(ch, &d);
    through(ch, &d, Style { json, after: 1, ..Style::default() }, f).map(|_| ())
}
fn views(ch: &mut Ch) -> Result<(), String> { some_views(ch, false) }
fn views_one(ch: &mut Ch) -> Result<(), String> { some_views(ch, true) }
fn some_views(ch: &mut Ch, one: bool) -> Result<(), String> {
    let mut d = sample_doc();
    let json = ch.pick(STYLES);
    for l in 0..4 {
        let n = d.view["layouts"][l][1].as_array().unwrap().len();
        for i in 0..n {
            if one && (l, i) != (0, 1) { continue }
            let mut v = d.view["layouts"][l][1][i].take();
            let parent = ["linear1", "linear2"].contains(&v["id"].as_str().unwrap());
            let mut skip = vec!["parent", "parentType", "id"]; if parent { skip.push("type") }
            vary(ch, VIEW, &mut v, &skip);
            if !parent { let w = word(ch, v["id"].as_str().unwrap(), any_ok); v["id"] = json!(w) }
            if v["id"] == "root" { ch.skip(); return Ok(()) }
            d.view["layouts"][l][1][i] = v;
        }
    }
    let mut v = d.view["fabs"][0][1].take();
    vary(ch, VIEW, &mut v, &["parent", "parentType", "type"]);
    d.view["fabs"][0][1] = v;
    through(ch, &d, Style { json, after: 1, ..Style::default() }, None).map(|_| ())
}
fn logic(ch: &mut Ch) -> Result<(), String> {
    let mut d = sample_doc();
    let json = ch.pick(STYLES);
    let mut s = ScreenDoc::rich();
    s.vary(ch);
    match s.doc() { Some(x) => d.logic["MainActivity"] = x, None => { ch.skip(); return Ok(()) } }
    through(ch, &d, Style { json, after: 1, ..Style::default() }, None).map(|_| ())
}
/// names of screens and custom views, everything else named after them
fn names(ch: &mut Ch) -> Result<(), String> {
    let old = ["main", "second_screen", "row", "_drawer_second_screen"];
    let mut new: Vec<String> = vec![];
    for o in old { let n = word(ch, o, head_ok); new.push(n) }
    if ch.skipped { return Ok(()) }
    let (d, ok) = renamed(&sample_doc(), &old, &new);
    if !ok { ch.skip(); return Ok(()) }
    let f = files_mode(ch, &d);
    through(ch, &d, Style { json: 0, after: 1, ..Style::default() }, f).map(|_| ())
}
pub fn renamed(base: &Doc, old: &[&str], new: &[String]) -> (Doc, bool) {
    let mut d = base.clone();
    let ren = |v: &mut Value| { if let Some(i) = old.iter().position(|o| *v == *o) { *v = json!(new[i]) } };
    for k in ["activity", "customview"] { for e in d.file[k].as_array_mut().unwrap() { ren(&mut e["fileName"]); } }
    for e in d.file["customview"].as_array_mut().unwrap() { e["fileType"] = json!(if e["fileName"].as_str().unwrap().starts_with("_drawer_") { 2 } else { 1 }) }
    for k in ["layouts", "fabs"] { for e in d.view[k].as_array_mut().unwrap() { ren(&mut e[0]) } }
    let mut l = json!({});
    let acts: Vec<String> = d.file["activity"].as_array().unwrap().iter().map(|a| a["fileName"].as_str().unwrap().to_string()).collect();
    for (i, a) in base.file["activity"].as_array().unwrap().iter().enumerate() {
        if let Some(x) = base.logic.get(refm::java_name(a["fileName"].as_str().unwrap())) { l[refm::java_name(&acts[i])] = x.clone() }
    }
    let ok = (0..new.len()).all(|i| !new[..i].contains(&new[i])) && (0..acts.len()).all(|i| !acts[..i].iter().any(|x| refm::java_name(x) == refm::java_name(&acts[i])));
    d.logic = l;
    (d, ok)
}
/// things of different kinds with one name, and screens that are alike
fn namesakes(ch: &mut Ch) -> Result<(), String> {
    let x = *ch.free_of(&["x", "main", "greet", "onCreate", "a b"]);
    let mut d = super::screens::empty();
    let mut name = |ch: &mut Ch, own: &str| if ch.free(2) == 1 { x.to_string() } else { own.to_string() };
    let screen = if x == "a b" || x == "onCreate" { "other".into() } else { name(ch, "other") };
    let (var, list, comp, target, mb, view, res, file) = (name(ch, "v"), name(ch, "l"), name(ch, "c"), name(ch, "t"), name(ch, "m"), name(ch, "w"), name(ch, "i"), name(ch, "f.bin"));
    let arg = name(ch, "arg");
    let event = |n: &str, t: i64, id: &str, tt: i64| with(EVENT, &[("eventName", json!(n)), ("eventType", json!(t)), ("targetId", json!(id)), ("targetType", json!(tt))]);
    let code = |w: &str| vec![block("10", 11, "doToast", "Toast %s", json!([w])), block("11", -1, "getVar", w, json!([]))];
    let s = ScreenDoc {
        var: vec![json!([1, var]), json!([2, "z"])], list: vec![json!([2, "z"]), json!([1, list])], components: vec![with(COMPONENT, &[("componentId", json!(comp)), ("type", json!(2)), ("param1", json!(arg))])],
        events: vec![(event("onClick", 1, &target, 3), code(&var)), (event("onX", 2, &comp, 5), code(&arg)), (event(&arg, 3, &arg, 0), vec![])],
        func: vec![(mb.clone(), "mb %s.z".into(), code(&mb))], create: Some(code(x)),
    };
    let Some(l) = s.doc() else { ch.skip(); return Ok(()) };
    // the second screen: without anything, the same as the first, the same without its code
    let second = ch.free(3);
    let mut names = vec!["first".to_string()];
    names.push(screen);
    for (i, n) in names.iter().enumerate() {
        let has = i == 0 || second > 0;
        d.file["activity"].as_array_mut().unwrap().push(with(FILE_ITEM, &[("fileName", json!(n)), ("options", json!(1))]));
        let v = |id: &str, parent: &str, pt: i64| with(VIEW, &[("id", json!(id)), ("parent", json!(parent)), ("parentType", json!(pt)), ("preId", json!(id)), ("type", json!(0))]);
        d.view["layouts"].as_array_mut().unwrap().push(json!([n, if has { json!([v(&view, "root", 0), v("inner", &view, 0)]) } else { json!([]) }]));
        if has { d.view["fabs"].as_array_mut().unwrap().push(json!([n, sample_doc().view["fabs"][0][1]])) }
        let mut l = if has { l.clone() } else { json!({"containers": []}) };
        if i == 1 && second == 2 { l["func"] = json!([]); l["events"] = json!([]); l["containers"] = json!([]) }
        d.logic[refm::java_name(n)] = l;
    }
    for k in ["images", "sounds", "fonts"] { d.resource[k] = json!([{"resFullName": file, "resName": res, "resType": 1}]) }
    let f = match ch.free(3) { 0 => None, 1 => Some(handles(&d, false)), _ => Some(handles(&d, true)) };
    through(ch, &d, Style { json: 0, after: 1, ..Style::default() }, f).map(|_| ())
}
/// how many screens and custom views there are, and what each has
fn shapes(ch: &mut Ch) -> Result<(), String> {
    let d = shape_doc(ch);
    let f = if ch.free(2) == 0 { None } else { Some(handles(&d, false)) };
    through(ch, &d, Style { json: 0, after: 1, ..Style::default() }, f).map(|_| ())
}
pub const SCREENS: [&str; 4] = ["main", "second_screen", "a", "x_y_z"];
pub const CUSTOM: [&str; 3] = ["row", "_drawer_main", "cell_2"];
fn shape_doc(ch: &mut Ch) -> Doc {
    let mut d = sample_doc();
    let v = |id: &str, ty: i64, p: &str| with(VIEW, &[("id", json!(id)), ("type", json!(ty)), ("parent", json!(p))]);
    let (n, m) = (ch.free(if ch.wide { 4 } else { 3 }), ch.free(3));
    let (mut act, mut cus, mut lay, mut fabs, mut log) = (vec![], vec![], vec![], vec![], json!({}));
    for i in 0..n {
        let s = SCREENS[i];
        act.push(with(FILE_ITEM, &[("fileName", json!(s)), ("options", json!((i * 5 + 1) % 16)), ("theme", json!(i as i64 - 1)), ("orientation", json!(i % 3)), ("keyboardSetting", json!((i + 1) % 3))]));
        // layout: a tree, empty, absent; fab; logic: full, little, empty sections, absent
        match ch.free(3) { 0 => lay.push(json!([s, [v(&format!("l{}", i), 0, "root"), v(&format!("t{}", i), 4, &format!("l{}", i)), v("same", 5, "root")]])), 1 => lay.push(json!([s, []])), _ => {} }
        if ch.free(2) == 1 { let mut f = sample_doc().view["fabs"][0][1].take(); f["id"] = json!(format!("_fab{}", i)); fabs.push(json!([s, f])) }
        let full = { let mut r = ScreenDoc::rich(); r.var[0][1] = json!(format!("only{}", i)); r.doc().unwrap() };
        match ch.free(4) {
            0 => { log[refm::java_name(s)] = full }
            1 => { log[refm::java_name(s)] = json!({"list": [[2, format!("l{}", i)]], "containers": []}) }
            2 => { log[refm::java_name(s)] = json!({"var": [], "events": [], "components": [], "func": [], "containers": [["onCreate_initializeLogic", []]]}) }
            _ => {}
        }
    }
    for i in 0..m {
        let s = CUSTOM[i];
        cus.push(with(FILE_ITEM, &[("fileName", json!(s)), ("fileType", json!(if s.starts_with("_drawer_") { 2 } else { 1 })), ("options", json!(0)), ("orientation", json!(2))]));
        lay.push(if ch.free(2) == 0 { json!([s, [v(&format!("c{}", i), 3, "root")]]) } else { json!([s, []]) });
    }
    d.file = json!({"activity": act, "customview": cus});
    d.view = json!({"layouts": lay, "fabs": fabs});
    d.logic = log;
    d
}
fn styles(ch: &mut Ch) -> Result<(), String> {
    let d = sample_doc();
    let st = Style { json: ch.free(STYLES), before: ch.free(3), between: ch.free(3), after: ch.free(3) };
    through(ch, &d, st, None).map(|_| ())
}
fn sizes_p(ch: &mut Ch) -> Result<(), String> {
    let s: Vec<usize> = sizes().into_iter().filter(|n| *n <= 300).collect();
    let mut d = sample_doc();
    let what = ch.free(9);
    let n = *ch.free_of(&s);
    let full = ch.free(2) == 1;
    let plain = |f, _: usize, over: &[(&str, Value)]| with(f, over);
    ch.note(|| format!("what {} size {} rich {}", what, n, full));
    let mut r = ScreenDoc::rich();
    match what {
        0 => r.var = (0..n).map(|i| json!([i % 4, format!("v{}", i)])).collect(),
        1 => r.components = (0..n).map(|i| with(COMPONENT, &[("componentId", json!(format!("c{}", i))), ("type", json!(i % 21 + 1)), ("param1", json!(if [2, 6, 14, 16].contains(&(i % 21 + 1)) { format!("p{}", i) } else { String::new() }))])).collect(),
        2 => r.events = (0..n).map(|i| (with(EVENT, &[("targetId", json!(format!("t{}", i))), ("targetType", json!(i % 19))]), vec![block("10", -1, &format!("op{}", i), "Toast %s", json!([i.to_string()]))])).collect(),
        3 => r.func = (0..n).map(|i| (format!("m{}", i), format!("m{} %s.a ", i), vec![block("10", -1, &format!("op{}", i), "x", json!([]))])).collect(),
        4 if full => r.create = Some((0..n).map(|i| {
            let (sp, ty) = (super::blocks::SPECS[i % super::blocks::SPECS.len()], super::blocks::TYPES[i % 7 % super::blocks::TYPES.len()]);
            let mut b = block(&(10 + i).to_string(), if i + 1 < n { 11 + i as i64 } else { -1 }, &format!("op{}", i), sp.0, json!(sp.1));
            b["color"] = rich(BLOCK, i, &[])["color"].clone(); b["type"] = json!(ty.0); b["typeName"] = json!(ty.1);
            b
        }).collect()),
        4 => r.create = Some((0..n).map(|i| block(&(10 + i).to_string(), if i + 1 < n { 11 + i as i64 } else { -1 }, &format!("op{}", i), "x", json!([]))).collect()),
        5 => { for k in ["images", "sounds", "fonts"] { d.resource[k] = (0..n).map(|i| json!({"resFullName": format!("{}{}.x", k, i), "resName": format!("r{}", i), "resType": 1})).collect() } }
        6 => { d.view["layouts"][0][1] = (0..n).map(|i| (if full { rich } else { plain })(VIEW, i, &[("id", json!(format!("v{}", i))), ("type", json!(if i % 3 == 0 { 0 } else { 4 })), ("parent", json!(if i < 3 { "root".to_string() } else { format!("v{}", i / 9 * 3) })), ("parentType", json!(0))])).collect() }
        7 => {
            for i in 0..n {
                let s = format!("scr_{}", i);
                let e = if full { rich(FILE_ITEM, i, &[("fileName", json!(s)), ("fileType", json!(0))]) } else { with(FILE_ITEM, &[("fileName", json!(s)), ("options", json!(i % 16))]) };
                d.file["activity"].as_array_mut().unwrap().push(e);
                d.view["layouts"].as_array_mut().unwrap().push(json!([s, [with(VIEW, &[("id", json!(s))])]]));
                d.logic[refm::java_name(&s)] = json!({"var": [[0, s]], "containers": []});
            }
        }
        _ => {
            for i in 0..n {
                let s = format!("cv_{}", i);
                let e = with(FILE_ITEM, &[("fileName", json!(s)), ("fileType", json!(1)), ("options", json!(0)), ("orientation", json!(2))]);
                d.file["customview"].as_array_mut().unwrap().push(e);
                d.view["layouts"].as_array_mut().unwrap().push(json!([s, [with(VIEW, &[("id", json!(s))])]]));
            }
        }
    }
    d.logic["MainActivity"] = r.doc().unwrap();
    let f = if what == 5 && ch.free(2) == 1 { Some(handles(&d, true)) } else { None };
    through(ch, &d, Style { json: 0, after: 1, ..Style::default() }, f).map(|_| ())
}
/// the two inputs known to lose content (listed in known-findings.txt)
fn pinned(ch: &mut Ch) -> Result<(), String> {
    let mut d = sample_doc();
    let mut lossy = sample_doc();
    let (key, what) = if ch.free(2) == 0 {
        for k in ["data", "reserved1", "reserved2", "reserved3"] { d.library["admob"][k] = json!(format!("kept {}", k)); }
        ("admob-settings", "data, reserved1, reserved2 and reserved3 of an enabled AdMob library are lost through the editable project")
    } else {
        d.resource["images"][0]["resType"] = json!(0);
        lossy.resource["images"][0]["resType"] = json!(1);
        ("resource-type", "a resource entry of type 0 is saved with type 1 after passing through the editable project")
    };
    ch.state(&key);
    ch.note(|| what.to_string());
    let t = d.texts(Style { json: 0, after: 1, ..Style::default() });
    let r = save(load(raw_of(t, None))?)?;
    ch.steps(3);
    let got = Doc::read(texts_of(&r))?.canon()?;
    if refm::same(&got, &d.canon()?) { return Ok(()) }
    if crate::is_known("C13", key) && refm::same(&got, &lossy.canon()?) { ch.finding = Some(what.into()); return Ok(()) }
    refm::want("saved", &d.canon()?, &got)
}

pub fn c13() -> Check {
    Check { id: "C13", rule: "a generated project, loaded, converted and converted back, is saved with the same content (compared after reading the six files independently; blocks and views as the trees they describe); the editable project loaded from that is the same, and saving again writes byte-identical files and the same set of attached files",
        assumptions: &["listing order of layouts, of views that are not siblings and of logic sections is not content", "custom view entries carry the defaults Sketchware writes for them; settings of disabled libraries are not content", "names are unique, a class name belongs to one screen"],
        scopes: vec![
            scope("shapes", "0..2 screens x 0..2 custom views, every combination of present, empty and absent layout, FAB and logic, with and without files", shapes, ALL, OFF),
            wide("shapes3", "0..3 screens x 0..2 custom views, the same combinations", shapes, OFF, ALL),
            scope("presence", "every combination of icon, images, sounds, fonts, each library and code, with and without files", presence, ALL, ALL),
            scope("libraries", "every combination of empty and filled settings of a library that is on", libraries, ALL, ALL),
            scope("settings", "metadata, screen options, libraries, resources and attached files", settings, 1, 2),
            wide("settings-wide", "the same over wide domains", settings, 1, 1),
            scope("views", "every attribute of every view and the FAB", views, 1, OFF),
            wide("views-one", "every attribute of one view and the FAB over wide domains", views_one, 1, OFF),
            wide("views-wide", "the same over wide domains", views, OFF, 1),
            scope("logic", "every entry and block attribute of a screen's logic, orders and absences", logic, 1, 2),
            wide("logic-wide", "the same over wide domains", logic, 1, 1),
            scope("names", "names of screens and custom views", names, 2, 3), wide("names-wide", "wide names", names, 1, 1),
            scope("namesakes", "every combination of a screen, variable, list, component, event, target, moreblock, view, resource and file being named alike, next to an empty, equal or almost equal second screen", namesakes, ALL, ALL),
            scope("styles", "JSON writing styles and blank lines", styles, ALL, ALL),
            scope("sizes", "size ladder to 300 of every kind of list", sizes_p, ALL, ALL),
            scope("findings", "the inputs of the known findings", pinned, ALL, ALL),
        ] }
}

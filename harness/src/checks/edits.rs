//! C14: histories of edits on the editable project, against a model that is edited alongside
use super::projects::*;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::{self, Item, Node, Val};
use crate::{obs, Check};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use swrs::api::block::{ArgValue, Argument, Block, Blocks};
use swrs::api::component::ComponentKind as K;
use swrs::api::library::{AdMob, Firebase, GoogleMap};
use swrs::api::screen::{Event, EventType, MoreBlock, Screen};
use swrs::api::view::{View, ViewType};
use swrs::api::{Colors, CustomView, Libraries, Metadata, ResourceId, Resources, SketchwareProject as P};
use swrs::parser::file::{KeyboardSetting, Orientation, Theme};
use swrs::parser::logic::list_variable::ListVariable;
use swrs::parser::logic::variable::{Variable, VariableType};
use swrs::parser::{RawSketchwareProject, ResourceFileWrapper, ResourceType};

/// the model: the six documents, with the code of every container as a program and the attached files
#[derive(Clone)]
struct M { d: Doc, code: BTreeMap<(String, String), Vec<Node>>, files: Option<Vec<ResourceFileWrapper>> }

impl M {
    fn of(d: &Doc, files: Files) -> M {
        let mut m = M { d: d.clone(), code: BTreeMap::new(), files };
        for (j, s) in m.d.logic.as_object_mut().unwrap() {
            for c in s["containers"].as_array().unwrap() {
                let raws: Vec<_> = c[1].as_array().unwrap().iter().map(|b| obs::json_raw(b).unwrap()).collect();
                m.code.insert((j.clone(), c[0].as_str().unwrap().into()), refm::saved_list(&raws).unwrap());
            }
            s["containers"] = json!([]);
        }
        m
    }
    fn canon(&self) -> Result<Value, String> {
        let mut v = self.d.canon()?;
        for ((j, c), p) in &self.code {
            let t = refm::show(&refm::norm(p));
            if !t.is_empty() { v["logic"].as_object_mut().unwrap().entry(j.clone()).or_insert_with(|| json!({})).as_object_mut().unwrap().entry("code").or_insert_with(|| json!({}))[c] = json!(t) }
        }
        Ok(v)
    }
    fn name(&self, i: usize) -> Option<String> { self.d.file["activity"].as_array().unwrap().get(i).map(|a| a["fileName"].as_str().unwrap().to_string()) }
    fn java(&self, i: usize) -> Option<String> { self.name(i).map(|n| refm::java_name(&n)) }
    fn list(&mut self, i: usize, k: &str) -> &mut Vec<Value> {
        let j = self.java(i).unwrap();
        let s = self.d.logic.as_object_mut().unwrap().entry(j).or_insert_with(|| json!({"containers": []}));
        s.as_object_mut().unwrap().entry(k).or_insert_with(|| json!([])).as_array_mut().unwrap()
    }
    fn code(&mut self, i: usize, c: &str) -> &mut Vec<Node> { let j = self.java(i).unwrap(); self.code.entry((j, c.into())).or_default() }
    fn layout(&mut self, name: &str) -> &mut Vec<Value> {
        let l = self.d.view["layouts"].as_array_mut().unwrap();
        let i = match l.iter().position(|x| x[0] == name) { Some(i) => i, None => { l.push(json!([name, []])); l.len() - 1 } };
        l[i][1].as_array_mut().unwrap()
    }
    fn drop_layout(&mut self, name: &str) { self.d.view["layouts"].as_array_mut().unwrap().retain(|l| l[0] != name); self.d.view["fabs"].as_array_mut().unwrap().retain(|l| l[0] != name) }
}

// ------------------------------------------------------------------ pieces

fn word(w: &str) -> Item { Item::Word(w.into()) }
fn toast(t: &str) -> Node { Node { color: -7711273, op: "doToast".into(), items: vec![word("Toast"), Item::Arg('s', None, Val::Text(t.into()))], ty: " ".into(), tn: "".into(), ss1: None, ss2: None } }
fn repeat(inner: Vec<Node>) -> Node {
    Node { color: -1990868, op: "repeat".into(), items: vec![word("repeat"), Item::Arg('d', Some("times".into()), Val::Num(10.0))], ty: "c".into(), tn: "".into(), ss1: Some(inner), ss2: None }
}
fn both(a: Vec<Node>, b: Vec<Node>) -> Node {
    let cond = Node { color: -16740915, op: "not".into(), items: vec![word("not"), Item::Arg('b', None, Val::Bool(false))], ty: "b".into(), tn: "".into(), ss1: None, ss2: None };
    Node { color: -1990868, op: "ifElse".into(), items: vec![word("if"), Item::Arg('b', None, Val::Tree(Box::new(cond))), word("then")], ty: "e".into(), tn: "".into(), ss1: Some(a), ss2: Some(b) }
}
fn name_block() -> Node { Node { color: -1147626, op: "getVar".into(), items: vec![word("name")], ty: "s".into(), tn: "".into(), ss1: None, ss2: None } }
fn mk(n: Vec<Node>) -> Blocks { obs::mk_nodes(&n) }

fn view_doc(id: &str, ty: i64, parent: &str, pt: i64) -> Value {
    with(VIEW, &[("id", json!(id)), ("type", json!(ty)), ("parent", json!(parent)), ("parentType", json!(pt)), ("text.text", json!(format!("text of {}", id))), ("image.resName", json!("pic"))])
}
fn mk_view(d: &Value) -> View { View::from(super::views::mk_view(d).unwrap()) }
fn find<'a>(p: &'a mut P, i: usize, id: &str) -> Option<&'a mut View> { p.screens.get_mut(i)?.layout.iter_mut().find_map(|v| v.find_id_mut(id)) }
fn cut(vs: &mut Vec<View>, id: &str) -> Option<View> {
    if let Some(i) = vs.iter().position(|v| v.id == id) { return Some(vs.remove(i)) }
    vs.iter_mut().find_map(|v| cut(&mut v.children, id))
}
/// the entries of a view and everything below it
fn cut_docs(l: &mut Vec<Value>, id: &str) -> Vec<Value> {
    let mut gone = vec![id.to_string()];
    let mut out = vec![];
    let mut rest = vec![];
    for v in l.drain(..) {
        let vid = v["id"].as_str().unwrap().to_string();
        if vid == id || gone.contains(&v["parent"].as_str().unwrap().to_string()) { gone.push(vid); out.push(v) } else { rest.push(v) }
    }
    *l = rest;
    out
}
fn fab_doc(id: &str, img: &str) -> Value { with(VIEW, &[("id", json!(id)), ("type", json!(16)), ("parent", Value::Null), ("parentType", json!(-1)), ("preId", Value::Null), ("image.resName", json!(img))]) }
fn set_fab(m: &mut M, i: usize, f: Option<Value>) {
    let n = m.name(i).unwrap();
    let fabs = m.d.view["fabs"].as_array_mut().unwrap();
    match f { None => fabs.retain(|x| x[0] != *n), Some(f) => match fabs.iter_mut().find(|x| x[0] == *n) { Some(x) => x[1] = f, None => fabs.push(json!([n, f])) } }
}
fn code_of<'a>(p: &'a mut P, i: usize, c: &str) -> Option<&'a mut Blocks> {
    let s = p.screens.get_mut(i)?;
    let e = s.events.iter().position(|e| e.get_block_container_id() == c);
    if let Some(e) = e { return Some(&mut s.events[e].code) }
    s.more_blocks.iter_mut().find(|(k, _)| format!("{}_moreBlock", k) == c).map(|x| &mut x.1.code)
}
/// edits the same program on both sides
fn recode(p: &mut P, m: &mut M, i: usize, c: &str, f: fn(&mut Vec<Block>), g: fn(&mut Vec<Node>)) { if let Some(b) = code_of(p, i, c) { f(&mut b.0); g(m.code(i, c)) } }

fn add_screen(p: &mut P, m: &mut M, name: &str) {
    if m.d.file["activity"].as_array().unwrap().iter().any(|a| a["fileName"] == name) { return }
    let j = refm::java_name(name);
    let at = m.d.file["activity"].as_array().unwrap().len();
    m.d.file["activity"].as_array_mut().unwrap().push(with(FILE_ITEM, &[("fileName", json!(name)), ("options", json!(10)), ("orientation", json!(2)), ("theme", json!(1)), ("keyboardSetting", json!(1))]));
    let (a, b) = (view_doc("box", 0, "root", 0), view_doc("leaf", 4, "box", 0));
    *m.layout(name) = vec![a.clone(), b.clone()];
    set_fab(m, at, Some(fab_doc("_fab", "plus")));
    m.list(at, "var").push(json!([3, "settings"]));
    m.list(at, "list").push(json!([2, "items"]));
    m.list(at, "components").push(with(COMPONENT, &[("componentId", json!("db")), ("type", json!(6)), ("param1", json!("users"))]));
    m.list(at, "events").push(with(EVENT, &[("eventName", json!("onClick")), ("eventType", json!(1)), ("targetId", json!("leaf")), ("targetType", json!(4))]));
    m.list(at, "func").push(json!(["go", "go %s.where"]));
    *m.code(at, "onCreate_initializeLogic") = vec![toast("made")];
    *m.code(at, "leaf_onClick") = vec![both(vec![toast("a")], vec![])];
    *m.code(at, "go_moreBlock") = vec![repeat(vec![toast("b"), toast("c")])];
    let mut top = mk_view(&a);
    top.children.push(mk_view(&b));
    let var = Variable { name: "settings".into(), r#type: VariableType::HashMap };
    let list = ListVariable { name: "items".into(), r#type: VariableType::String };
    p.screens.push(Screen {
        layout_name: name.into(), java_name: j, layout: vec![top], variables: [("settings".to_string(), var)].into_iter().collect(), list_variables: [("items".to_string(), list)].into_iter().collect(),
        more_blocks: [("go".to_string(), MoreBlock { name: "go".into(), spec: obs::mk_items(&[word("go"), Item::Arg('s', Some("where".into()), Val::Unset)]), code: mk(vec![repeat(vec![toast("b"), toast("c")])]) })].into_iter().collect(),
        components: [("db".to_string(), K::FirebaseDatabase { path: "users".into() })].into_iter().collect(),
        events: vec![Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: mk(vec![toast("made")]) },
            Event { name: "onClick".into(), event_type: EventType::ViewEvent { id: "leaf".into(), view_type: 4 }, code: mk(vec![both(vec![toast("a")], vec![])]) }],
        fab: Some(mk_view(&fab_doc("_fab", "plus"))), fullscreen_enabled: true, toolbar_enabled: false, drawer_enabled: false, fab_enabled: true,
        orientation: Orientation::Both, theme: Theme::Actionbar, keyboard_setting: KeyboardSetting::Visible,
    });
}
fn drop_screen(p: &mut P, m: &mut M, i: usize) {
    let Some(n) = m.name(i) else { return };
    let j = refm::java_name(&n);
    m.drop_layout(&n);
    m.d.logic.as_object_mut().unwrap().remove(&j);
    m.code.retain(|k, _| k.0 != j);
    m.d.file["activity"].as_array_mut().unwrap().remove(i);
    p.screens.remove(i);
}
fn rename_screen(p: &mut P, m: &mut M, i: usize, to: &str) {
    let Some(n) = m.name(i) else { return };
    if m.d.file["activity"].as_array().unwrap().iter().any(|a| a["fileName"] == to) { return }
    let (j, nj) = (refm::java_name(&n), refm::java_name(to));
    m.d.file["activity"][i]["fileName"] = json!(to);
    for k in ["layouts", "fabs"] { for l in m.d.view[k].as_array_mut().unwrap() { if l[0] == *n { l[0] = json!(to) } } }
    if let Some(l) = m.d.logic.as_object_mut().unwrap().remove(&j) { m.d.logic[&nj] = l }
    let c = std::mem::take(&mut m.code);
    m.code = c.into_iter().map(|((a, b), v)| ((if a == j { nj.clone() } else { a }, b), v)).collect();
    p.screens[i].layout_name = to.into();
    p.screens[i].java_name = nj;
}
fn opt(p: &mut P, m: &mut M, i: usize, f: fn(&mut Screen), bit: i64) {
    if i >= p.screens.len() { return }
    f(&mut p.screens[i]);
    let o = m.d.file["activity"][i]["options"].as_i64().unwrap() ^ bit;
    m.d.file["activity"][i]["options"] = json!(o);
}
fn add_event(p: &mut P, m: &mut M, i: usize, name: &str, ty: i64, id: &str, tt: u8, code: Vec<Node>) {
    if i >= p.screens.len() { return }
    let et = match ty { 1 => EventType::ViewEvent { id: id.into(), view_type: tt }, 2 => EventType::ComponentEvent { id: id.into(), component_type: tt }, _ => EventType::ActivityEvent };
    let e = Event { name: name.into(), event_type: et, code: mk(code.clone()) };
    let (target, tt) = if ty == 3 { (name, 0) } else { (id, tt) };
    let ed = with(EVENT, &[("eventName", json!(name)), ("eventType", json!(ty)), ("targetId", json!(target)), ("targetType", json!(tt))]);
    let c = container_of(&ed);
    if m.list(i, "events").iter().any(|x| container_of(x) == c) { return }
    m.list(i, "events").push(ed);
    *m.code(i, &c) = code;
    p.screens[i].events.push(e);
}
fn drop_event(p: &mut P, m: &mut M, i: usize, c: &str) {
    if i >= p.screens.len() { return }
    let j = m.java(i).unwrap();
    m.list(i, "events").retain(|e| container_of(e) != c);
    m.code.remove(&(j, c.to_string()));
    p.screens[i].events.retain(|e| e.get_block_container_id() != c);
}
fn add_res(p: &mut P, m: &mut M, k: &str, t: ResourceType, id: &str, file: &str) {
    // a second entry for a file refers to the same file
    let known = match t { ResourceType::Image => p.resources.get_images(), ResourceType::Sound => p.resources.get_sounds(), _ => p.resources.get_fonts() }.values().find(|w| w.get_full_name() == file).cloned();
    let shared = known.is_some();
    let w = known.unwrap_or_else(|| ResourceFileWrapper::StringId { id: format!("file of {}", id), res_full_name: file.into(), res_type: t });
    let taken = ["images", "sounds", "fonts"].iter().any(|k| m.d.resource[*k].as_array().unwrap().iter().any(|e| e["resName"] == id));
    let r = p.resources.put_resource(ResourceId(id.into()), w.clone(), t);
    assert!(r.is_ok() != taken, "put_resource gave {:?} for an id that is{} taken", r, if taken { "" } else { " not" });
    if taken { return }
    m.d.resource[k].as_array_mut().unwrap().push(json!({"resFullName": file, "resName": id, "resType": 1}));
    if let Some(f) = &mut m.files { if !shared { f.push(w) } }
}
fn drop_res(p: &mut P, m: &mut M, k: &str, id: &str) {
    let t = match k { "images" => ResourceType::Image, "sounds" => ResourceType::Sound, _ => ResourceType::Font };
    let e = m.d.resource[k].as_array().unwrap().iter().find(|e| e["resName"] == id).cloned();
    let r = p.resources.remove_resource(&ResourceId(id.into()));
    assert_eq!(r.is_some(), e.is_some(), "remove_resource({})", id);
    let Some(e) = e else { return };
    m.d.resource[k].as_array_mut().unwrap().retain(|x| x["resName"] != id);
    if m.d.resource[k].as_array().unwrap().iter().any(|x| x["resFullName"] == e["resFullName"]) { return }
    if let Some(f) = &mut m.files {
        f.retain(|w| match w { ResourceFileWrapper::StringId { res_full_name, res_type, .. } => !(*res_type == t && e["resFullName"] == *res_full_name), _ => true })
    }
}
fn icon(p: &mut P, m: &mut M, on: bool) {
    let w = ResourceFileWrapper::StringId { id: "the icon".into(), res_full_name: "icon.png".into(), res_type: ResourceType::CustomIcon };
    m.d.project["custom_icon"] = json!(on);
    if let Some(f) = &mut m.files {
        f.retain(|w| !matches!(w, ResourceFileWrapper::StringId { res_type: ResourceType::CustomIcon, .. }));
        if on { f.push(w.clone()) }
    }
    p.custom_icon = if on { Some(w) } else { None };
}
fn add_custom(p: &mut P, m: &mut M, name: &str, views: Vec<Value>) {
    if m.d.file["customview"].as_array().unwrap().iter().any(|a| a["fileName"] == name) { return }
    m.d.file["customview"].as_array_mut().unwrap().push(with(FILE_ITEM, &[("fileName", json!(name)), ("fileType", json!(if name.starts_with("_drawer_") { 2 } else { 1 })), ("options", json!(0)), ("orientation", json!(2))]));
    *m.layout(name) = views.clone();
    p.custom_views.push(CustomView { res_name: name.into(), layout: views.iter().map(mk_view).collect() });
}
/// a view's attribute: on the editable view and in the document
fn edit_view(p: &mut P, m: &mut M, i: usize, id: &str, f: fn(&mut View), g: fn(&mut Value)) {
    let Some(v) = find(p, i, id) else { return };
    f(v);
    let n = m.name(i).unwrap();
    for d in m.layout(&n).iter_mut() { if d["id"] == id { g(d) } }
}

type Op = (&'static str, fn(&mut P, &mut M));
/// the alphabet of edits; those marked with * are combined to greater depth
static OPS: &[Op] = &[
    ("*app name", |p, m| { p.metadata.name = "New \"name\" é".into(); m.d.project["my_app_name"] = json!("New \"name\" é") }),
    ("workspace name", |p, m| { p.metadata.workspace_name = "".into(); m.d.project["my_ws_name"] = json!("") }),
    ("package", |p, m| { p.metadata.package_name = "com.x.y".into(); m.d.project["my_sc_pkg_name"] = json!("com.x.y") }),
    ("local id", |p, m| { p.metadata.local_id = 65535; m.d.project["sc_id"] = json!("65535") }),
    ("version", |p, m| { p.metadata.version_code = 7; p.metadata.version_name = "7.0".into(); m.d.project["sc_ver_code"] = json!("7"); m.d.project["sc_ver_name"] = json!("7.0") }),
    ("time", |p, m| { p.metadata.time_created = 951827696; m.d.project["my_sc_reg_dt"] = json!("20000229123456") }),
    ("sketchware version", |p, m| { p.metadata.sketchware_version = 255; m.d.project["sketchware_ver"] = json!(255) }),
    ("primary colour", |p, m| { p.colors.color_primary = obs::mk_color(-1); m.d.project["color_primary"] = json!(-1) }),
    ("primary dark colour", |p, m| { p.colors.color_primary_dark = obs::mk_color(1); m.d.project["color_primary_dark"] = json!(1) }),
    ("*accent colour", |p, m| { p.colors.color_accent = obs::mk_color(0x12345678); m.d.project["color_accent"] = json!(0x12345678) }),
    ("control normal colour", |p, m| { p.colors.color_control_normal = obs::mk_color(-2147483648); m.d.project["color_control_normal"] = json!(-2147483648i64) }),
    ("control highlight colour", |p, m| { p.colors.color_control_highlight = obs::mk_color(0); m.d.project["color_control_highlight"] = json!(0) }),
    ("*icon", |p, m| icon(p, m, true)), ("no icon", |p, m| icon(p, m, false)),
    // libraries
    ("no firebase", |p, m| { p.libraries.firebase = None; m.d.library["firebaseDB"] = with(LIB_ITEM, &[]) }),
    ("*firebase", |p, m| { p.libraries.firebase = Some(Firebase { project_id: "P".into(), app_id: "A".into(), api_key: "K".into(), storage_bucket: "B".into() });
        m.d.library["firebaseDB"] = with(LIB_ITEM, &[("useYn", json!("Y")), ("data", json!("P")), ("reserved1", json!("A")), ("reserved2", json!("K")), ("reserved3", json!("B"))]) }),
    ("firebase key", |p, m| { if let Some(f) = &mut p.libraries.firebase { f.api_key = "other".into(); m.d.library["firebaseDB"]["reserved2"] = json!("other") } }),
    ("compat on", |p, m| { p.libraries.app_compat_enabled = true; m.d.library["compat"]["useYn"] = json!("Y") }), ("*compat off", |p, m| { p.libraries.app_compat_enabled = false; m.d.library["compat"]["useYn"] = json!("N") }),
    ("no admob", |p, m| { p.libraries.ad_mob = None; m.d.library["admob"] = with(LIB_ITEM, &[("libType", json!(2))]) }),
    ("admob", |p, m| { p.libraries.ad_mob = Some(AdMob { ad_units: vec![], test_devices: vec!["d1".into(), "d2".into()] }); m.d.library["admob"] = with(LIB_ITEM, &[("libType", json!(2)), ("useYn", json!("Y")), ("testDevices", json!(["d1", "d2"]))]) }),
    ("ad unit", |p, m| { if let Some(a) = &mut p.libraries.ad_mob { a.ad_units.push(swrs::parser::library::AdUnit { id: "u9".into(), name: "nine".into() }); m.d.library["admob"]["adUnits"].as_array_mut().unwrap().push(json!({"id": "u9", "name": "nine"})) } }),
    ("no map", |p, m| { p.libraries.google_map = None; m.d.library["googleMap"] = with(LIB_ITEM, &[("libType", json!(3))]) }),
    ("map", |p, m| { p.libraries.google_map = Some(GoogleMap { api_key: "MK".into() }); m.d.library["googleMap"] = with(LIB_ITEM, &[("libType", json!(3)), ("useYn", json!("Y")), ("data", json!("MK"))]) }),
    // screens
    ("*add screen", |p, m| add_screen(p, m, "settings_page")), ("add another screen", |p, m| add_screen(p, m, "about")),
    ("*remove first screen", |p, m| drop_screen(p, m, 0)), ("remove second screen", |p, m| drop_screen(p, m, 1)),
    ("*swap screens", |p, m| if p.screens.len() > 1 { p.screens.swap(0, 1); m.d.file["activity"].as_array_mut().unwrap().swap(0, 1) }),
    ("rename first screen", |p, m| rename_screen(p, m, 0, "new_name")), ("*rename second screen", |p, m| rename_screen(p, m, 1, "other_x")),
    ("toolbar", |p, m| opt(p, m, 0, |s| s.toolbar_enabled = !s.toolbar_enabled, 1)), ("fullscreen", |p, m| opt(p, m, 0, |s| s.fullscreen_enabled = !s.fullscreen_enabled, 2)),
    ("drawer", |p, m| opt(p, m, 1, |s| s.drawer_enabled = !s.drawer_enabled, 4)), ("fab option", |p, m| opt(p, m, 1, |s| s.fab_enabled = !s.fab_enabled, 8)),
    ("orientation", |p, m| if let Some(s) = p.screens.get_mut(0) { s.orientation = Orientation::Landscape; m.d.file["activity"][0]["orientation"] = json!(1) }),
    ("theme", |p, m| if let Some(s) = p.screens.get_mut(0) { s.theme = Theme::Fullscreen; m.d.file["activity"][0]["theme"] = json!(2) }),
    ("keyboard", |p, m| if let Some(s) = p.screens.get_mut(1) { s.keyboard_setting = KeyboardSetting::Hidden; m.d.file["activity"][1]["keyboardSetting"] = json!(2) }),
    // variables
    ("*add variable", |p, m| if p.screens.len() > 0 && !p.screens[0].variables.contains_key("added") { p.screens[0].variables.insert("added".into(), Variable { name: "added".into(), r#type: VariableType::Boolean }); m.list(0, "var").push(json!([0, "added"])) }),
    ("variable type", |p, m| if let Some(v) = p.screens.get_mut(0).and_then(|s| s.variables.get_mut("name")) { v.r#type = VariableType::HashMap; for v in m.list(0, "var").iter_mut() { if v[1] == "name" { v[0] = json!(3) } } }),
    ("remove variable", |p, m| if p.screens.len() > 0 { p.screens[0].variables.remove("count"); m.list(0, "var").retain(|v| v[1] != "count") }),
    ("add variable to the second", |p, m| if p.screens.len() > 1 && !p.screens[1].variables.contains_key("count") { p.screens[1].variables.insert("count".into(), Variable { name: "count".into(), r#type: VariableType::String }); m.list(1, "var").push(json!([2, "count"])) }),
    ("add list", |p, m| if p.screens.len() > 0 && !p.screens[0].list_variables.contains_key("added") { p.screens[0].list_variables.insert("added".into(), ListVariable { name: "added".into(), r#type: VariableType::HashMap }); m.list(0, "list").push(json!([3, "added"])) }),
    ("remove lists", |p, m| if p.screens.len() > 0 { p.screens[0].list_variables.clear(); m.list(0, "list").clear() }),
    // components
    ("*add component", |p, m| if p.screens.len() > 0 && !p.screens[0].components.contains_key("pick") { p.screens[0].components.insert("pick".into(), K::FilePicker { mime_type: "image/*".into() }); m.list(0, "components").push(with(COMPONENT, &[("componentId", json!("pick")), ("type", json!(16)), ("param1", json!("image/*"))])) }),
    ("component kind", |p, m| if let Some(c) = p.screens.get_mut(0).and_then(|s| s.components.get_mut("sp")) { *c = K::Camera; for c in m.list(0, "components").iter_mut() { if c["componentId"] == "sp" { c["type"] = json!(15); c["param1"] = json!("") } } }),
    ("remove component", |p, m| if p.screens.len() > 0 { p.screens[0].components.remove("intent"); m.list(0, "components").retain(|v| v["componentId"] != "intent") }),
    // events
    ("*add view event", |p, m| add_event(p, m, 0, "onLongClick", 1, "text1", 4, vec![toast("long")])), ("add component event", |p, m| add_event(p, m, 0, "onResponse", 2, "net", 17, vec![both(vec![toast("x")], vec![repeat(vec![])])])),
    ("add activity event", |p, m| add_event(p, m, 1, "onPause", 3, "", 0, vec![toast("pause")])), ("add empty event", |p, m| add_event(p, m, 0, "onStart", 3, "", 0, vec![])),
    ("*remove event", |p, m| drop_event(p, m, 0, "button1_onClick")), ("remove activity event", |p, m| drop_event(p, m, 0, "onBackPressed_onBackPressed")),
    ("*remove onCreate", |p, m| drop_event(p, m, 0, "onCreate_initializeLogic")),
    ("add onCreate", |p, m| if p.screens.len() > 0 && code_of(p, 0, "onCreate_initializeLogic").is_none() { p.screens[0].events.insert(0, Event { name: "onCreate".into(), event_type: EventType::ActivityEvent, code: mk(vec![toast("created")]) }); *m.code(0, "onCreate_initializeLogic") = vec![toast("created")] }),
    // code
    ("*append block", |p, m| recode(p, m, 0, "onCreate_initializeLogic", |b| b.push(obs::mk_node(&toast("appended"))), |n| n.push(toast("appended")))),
    ("prepend block", |p, m| recode(p, m, 0, "onCreate_initializeLogic", |b| b.insert(0, obs::mk_node(&repeat(vec![toast("p")]))), |n| n.insert(0, repeat(vec![toast("p")])))),
    ("remove first block", |p, m| recode(p, m, 0, "onCreate_initializeLogic", |b| { if !b.is_empty() { b.remove(0); } }, |n| { if !n.is_empty() { n.remove(0); } })),
    ("clear code", |p, m| recode(p, m, 0, "onCreate_initializeLogic", |b| b.clear(), |n| n.clear())),
    ("append in nested stack", |p, m| recode(p, m, 0, "onCreate_initializeLogic", |b| for x in b.iter_mut() { if let Some(s) = &mut x.sub_stack1 { s.0.push(obs::mk_node(&repeat(vec![]))) } }, |n| for x in n.iter_mut() { if let Some(s) = &mut x.ss1 { s.push(repeat(vec![])) } })),
    ("*second stack", |p, m| recode(p, m, 0, "button1_onClick", |b| for x in b.iter_mut() { x.sub_stack2 = Some(mk(vec![both(vec![toast("1")], vec![toast("2"), toast("3")])])) }, |n| for x in n.iter_mut() { x.ss2 = Some(vec![both(vec![toast("1")], vec![toast("2"), toast("3")])]) })),
    ("block opcode and colour", |p, m| recode(p, m, 0, "button1_onClick", |b| if let Some(x) = b.last_mut() { x.op_code = "changed".into(); x.color = obs::mk_color(255) }, |n| if let Some(x) = n.last_mut() { x.op = "changed".into(); x.color = 255 })),
    ("literal argument", |p, m| recode(p, m, 0, "timer_onTick", |b| for x in b.iter_mut() { for a in x.content.get_args_mut() { if let Argument::String { value, .. } = a { *value = ArgValue::Value("edited %s".into()) } } },
        |n| for x in n.iter_mut() { for a in x.items.iter_mut() { if let Item::Arg('s', _, v) = a { *v = Val::Text("edited %s".into()) } } })),
    ("*block argument", |p, m| recode(p, m, 0, "timer_onTick", |b| for x in b.iter_mut() { for a in x.content.get_args_mut() { if let Argument::String { value, .. } = a { *value = ArgValue::Block(obs::mk_node(&name_block())) } } },
        |n| for x in n.iter_mut() { for a in x.items.iter_mut() { if let Item::Arg('s', _, v) = a { *v = Val::Tree(Box::new(name_block())) } } })),
    ("code of the second screen", |p, m| recode(p, m, 1, "onCreate_initializeLogic", |b| *b = mk(vec![toast("s1"), both(vec![], vec![toast("s2")]), toast("s3")]).0, |n| *n = vec![toast("s1"), both(vec![], vec![toast("s2")]), toast("s3")])),
    // moreblocks
    ("*add moreblock", |p, m| if p.screens.len() > 0 && !p.screens[0].more_blocks.contains_key("mb") {
        let items = vec![word("mb"), Item::Arg('b', Some("on".into()), Val::Unset), word("")];
        p.screens[0].more_blocks.insert("mb".into(), MoreBlock { name: "mb".into(), spec: obs::mk_items(&items), code: mk(vec![toast("in mb")]) }); m.list(0, "func").push(json!(["mb", "mb %b.on "])); *m.code(0, "mb_moreBlock") = vec![toast("in mb")] }),
    ("moreblock spec", |p, m| if let Some(b) = p.screens.get_mut(0).and_then(|s| s.more_blocks.get_mut("greet")) { b.spec = obs::mk_items(&[word("hello"), Item::Arg('m', Some("list".into()), Val::Unset)]); for f in m.list(0, "func").iter_mut() { if f[0] == "greet" { f[1] = json!("hello %m.list") } } }),
    ("moreblock code", |p, m| recode(p, m, 0, "noop_moreBlock", |b| b.push(obs::mk_node(&toast("op"))), |n| n.push(toast("op")))),
    ("*remove moreblock", |p, m| if p.screens.len() > 0 { p.screens[0].more_blocks.remove("greet"); m.list(0, "func").retain(|f| f[0] != "greet"); let j = m.java(0).unwrap(); m.code.remove(&(j, "greet_moreBlock".into())); }),
    // views
    ("*add view", |p, m| { let n = m.name(0); if let (Some(n), None) = (n, find(p, 0, "added")) { if let Some(v) = find(p, 0, "linear1") { let d = view_doc("added", 6, "linear1", 0); v.children.push(mk_view(&d)); m.layout(&n).push(d) } } }),
    ("add top view", |p, m| { let n = m.name(0); if let (Some(n), None) = (n, find(p, 0, "top")) { let d = view_doc("top", 14, "root", 0); p.screens[0].layout.insert(0, mk_view(&d)); m.layout(&n).insert(0, d) } }),
    ("remove view", |p, m| { if let Some(n) = m.name(0) { cut(&mut p.screens[0].layout, "text1"); cut_docs(m.layout(&n), "text1"); } }),
    ("*remove container view", |p, m| { if let Some(n) = m.name(0) { cut(&mut p.screens[0].layout, "linear1"); cut_docs(m.layout(&n), "linear1"); } }),
    ("*move view", |p, m| if let Some(n) = m.name(0) { if find(p, 0, "linear1").is_some() { if let Some(mut v) = cut(&mut p.screens[0].layout, "list1") {
        v.raw.parent = None; find(p, 0, "linear1").unwrap().children.push(v); let mut d = cut_docs(m.layout(&n), "list1"); d[0]["parent"] = json!("linear1"); d[0]["parentType"] = json!(0); m.layout(&n).append(&mut d) } } }),
    ("view size and colour", |p, m| edit_view(p, m, 0, "text1", |v| { v.width = obs::mk_size(120); v.background_color = obs::mk_color(77); v.weight = 3 }, |d| { set(d, "layout.width", json!(120)); set(d, "layout.backgroundColor", json!(77)); set(d, "layout.weight", json!(3)) })),
    ("view padding and margin", |p, m| edit_view(p, m, 0, "linear1", |v| { v.padding.left = 1; v.padding.top = 2; v.margin.right = 3; v.margin.bottom = 4 }, |d| { set(d, "layout.paddingLeft", json!(1)); set(d, "layout.paddingTop", json!(2)); set(d, "layout.marginRight", json!(3)); set(d, "layout.marginBottom", json!(4)) })),
    ("*view text", |p, m| edit_view(p, m, 0, "text1", |v| if let Ok(ViewType::TextView { text, .. }) = &mut v.view { *text = "typed".into() }, |d| if d["type"] == 4 { set(d, "text.text", json!("typed")) })),
    ("view kind", |p, m| edit_view(p, m, 0, "button1", |v| v.view = Ok(ViewType::Spinner { spinner_mode: swrs::parser::view::models::SpinnerMode::Dialog }), |d| { d["type"] = json!(10); d["spinnerMode"] = json!(0) })),
    ("raw attribute", |p, m| edit_view(p, m, 0, "button1", |v| { v.raw.alpha = 0.5; v.raw.enabled = false }, |d| { d["alpha"] = json!(0.5); d["enabled"] = json!(0) })),
    ("*view id", |p, m| if find(p, 0, "linear9").is_none() { let n = m.name(0); if let (Some(n), Some(v)) = (n, find(p, 0, "linear1")) { v.id = "linear9".into(); for d in m.layout(&n).iter_mut() { if d["id"] == "linear1" { d["id"] = json!("linear9") } if d["parent"] == "linear1" { d["parent"] = json!("linear9") } } } }),
    // fabs
    ("no fab", |p, m| if p.screens.len() > 0 { p.screens[0].fab = None; set_fab(m, 0, None) }),
    ("*fab", |p, m| if p.screens.len() > 1 { let f = fab_doc("_fab", "star"); p.screens[1].fab = Some(mk_view(&f)); set_fab(m, 1, Some(f)) }),
    ("fab image", |p, m| if let Some(f) = p.screens.get_mut(0).and_then(|s| s.fab.as_mut()) { f.view = Ok(ViewType::Fab { image_res_name: "edit".into() }); f.layout_gravity.0 = 85; let n = m.name(0).unwrap(); for f in m.d.view["fabs"].as_array_mut().unwrap() { if f[0] == *n { set(&mut f[1], "image.resName", json!("edit")); set(&mut f[1], "layout.layoutGravity", json!(85)) } } }),
    // custom views
    ("*add custom view", |p, m| add_custom(p, m, "cell", vec![view_doc("cell_text", 4, "root", 0), view_doc("cell_img", 6, "root", 0)])), ("add drawer", |p, m| add_custom(p, m, "_drawer_main", vec![])),
    ("remove custom view", |p, m| if !p.custom_views.is_empty() { let c = p.custom_views.remove(0); m.d.file["customview"].as_array_mut().unwrap().remove(0); m.drop_layout(&c.res_name) }),
    ("rename custom view", |p, m| if let Some(c) = p.custom_views.iter_mut().find(|c| c.res_name == "row") { c.res_name = "line".into(); for e in m.d.file["customview"].as_array_mut().unwrap() { if e["fileName"] == "row" { e["fileName"] = json!("line") } } for l in m.d.view["layouts"].as_array_mut().unwrap() { if l[0] == "row" { l[0] = json!("line") } } }),
    ("view in custom view", |p, m| if let Some(c) = p.custom_views.iter_mut().find(|c| c.res_name == "row") { if c.layout.len() < 3 { let d = view_doc(&format!("new{}", c.layout.len()), 5, "root", 0); c.layout.push(mk_view(&d)); m.layout("row").push(d) } }),
    // resources
    ("*add image", |p, m| add_res(p, m, "images", ResourceType::Image, "new_img", "new_img.png")), ("add font", |p, m| add_res(p, m, "fonts", ResourceType::Font, "new_font", "new.ttf")), ("add sound under a taken id", |p, m| add_res(p, m, "sounds", ResourceType::Sound, "new_img", "new_img.png")),
    ("second name for an image", |p, m| add_res(p, m, "images", ResourceType::Image, "img again", "img.png")), ("second name for a sound", |p, m| add_res(p, m, "sounds", ResourceType::Sound, "again", "s.mp3")),
    ("*remove image", |p, m| drop_res(p, m, "images", "img")), ("remove sound", |p, m| drop_res(p, m, "sounds", "snd")),
];

struct Start { p: P, m: M }
fn starts() -> &'static [Start] {
    static S: OnceLock<Vec<Start>> = OnceLock::new();
    S.get_or_init(|| {
        let mut out = vec![];
        for files in [false, true] {
            let d = sample_doc();
            let f = if files { Some(handles(&d, false)) } else { None };
            let p = guard(|| super::projects::load(raw_of(d.texts(Style { after: 1, ..Style::default() }), f.clone()))).and_then(|r| r).expect("the sample project");
            out.push(Start { p, m: M::of(&d, f) });
        }
        // a project made from nothing
        let c = |v: i64| obs::mk_color(v);
        let p = P::new(Metadata { local_id: 601, name: "n".into(), workspace_name: "w".into(), package_name: "p".into(), time_created: 0, sketchware_version: 150, version_name: "1.0".into(), version_code: 1 },
            Colors { color_primary: c(1), color_primary_dark: c(2), color_accent: c(3), color_control_normal: c(4), color_control_highlight: c(5) }, vec![], vec![],
            Libraries { app_compat_enabled: false, firebase: None, ad_mob: None, google_map: None }, Resources::new_empty());
        let off = |i: usize| with(LIB_ITEM, &[("libType", json!(i))]);
        let d = Doc { project: with(PROJECT, &[("sc_id", json!("601")), ("my_app_name", json!("n")), ("my_ws_name", json!("w")), ("my_sc_pkg_name", json!("p")), ("my_sc_reg_dt", json!("19700101000000")), ("sketchware_ver", json!(150)),
                ("color_primary", json!(1)), ("color_primary_dark", json!(2)), ("color_accent", json!(3)), ("color_control_normal", json!(4)), ("color_control_highlight", json!(5))]),
            file: json!({"activity": [], "customview": []}), library: json!({"firebaseDB": off(0), "compat": off(1), "admob": off(2), "googleMap": off(3)}),
            resource: json!({"images": [], "sounds": [], "fonts": []}), view: json!({"layouts": [], "fabs": []}), logic: json!({}) };
        out.push(Start { p, m: M::of(&d, Some(vec![])) });
        out
    })
}

/// the editable project without what loading without files cannot know
fn seen(p: &P, auto: bool) -> Value {
    let mut v = obs::aproject(p);
    if auto {
        v["icon"] = json!(!v["icon"].is_null());
        for k in ["images", "sounds", "fonts"] { for e in v[k].as_array_mut().unwrap() { for h in ["number", "string"] { e[1].as_object_mut().unwrap().remove(h); } } }
    }
    v
}
fn encrypted(r: &RawSketchwareProject) -> Result<RawSketchwareProject, String> {
    let e = |s: &str| swrs::encrypt_sw(s.as_bytes());
    let (a, b, c, d, f, g) = (e(&r.project), e(&r.file), e(&r.library), e(&r.resource), e(&r.view), e(&r.logic));
    match &r.resource_files { Some(fs) => RawSketchwareProject::from_encrypted(a, b, c, d, f, g, fs.clone()), None => RawSketchwareProject::from_encrypted_wo_res(a, b, c, d, f, g) }.map_err(|e| format!("the encrypted files are refused: {:?}", e))
}

fn history(ch: &mut Ch, ops: &[usize], starts_from: usize, depth: usize) -> Result<(), String> {
    let s = &starts()[starts_from];
    let (mut p, mut m) = (s.p.clone(), s.m.clone());
    let mut names = vec![];
    for _ in 0..depth {
        let k = ch.free(ops.len() + 1);
        // (0: the history ends)
        if k == 0 { break }
        let op = &OPS[ops[k - 1]];
        names.push(op.0);
        (op.1)(&mut p, &mut m);
        ch.step();
    }
    ch.state(&starts_from); ch.state(&names);
    ch.note(|| format!("{}: {}", ["sample without files", "sample with files", "from nothing"][starts_from], names.join("; ")));
    verify(ch, p, m)
}
fn verify(ch: &mut Ch, p: P, m: M) -> Result<(), String> {
    let auto = m.files.is_none();
    let want = m.canon()?;
    let before = seen(&p, auto);
    let r1 = save(p)?;
    ch.steps(1);
    refm::want("saved", &want, &Doc::read(texts_of(&r1))?.canon()?)?;
    refm::want("attached files", &file_set(&m.files), &file_set(&r1.resource_files))?;
    let p2 = super::projects::load(encrypted(&r1)?)?;
    refm::want("loaded again", &before, &seen(&p2, auto))?;
    let r2 = save(p2)?;
    ch.steps(14);
    for i in 0..6 { if texts_of(&r1)[i] != texts_of(&r2)[i] { return Err(format!("saving again writes another file: {:?} became {:?}", trunc(texts_of(&r1)[i], 1500), trunc(texts_of(&r2)[i], 1500))) } }
    refm::want("files attached the second time", &file_set(&m.files), &file_set(&r2.resource_files))
}
fn all_ops() -> Vec<usize> { (0..OPS.len()).collect() }
fn core_ops() -> Vec<usize> { (0..OPS.len()).filter(|i| OPS[*i].0.starts_with('*')).collect() }
fn deep_ops() -> Vec<usize> { (0..OPS.len()).filter(|i| ["*add screen", "*remove first screen", "*swap screens", "*rename second screen", "*add variable", "*remove onCreate", "*append block", "*move view", "*view id", "*fab"].contains(&OPS[*i].0)).collect() }
fn d1(ch: &mut Ch) -> Result<(), String> { let s = ch.free(3); history(ch, &all_ops(), s, 1) }
fn d2(ch: &mut Ch) -> Result<(), String> { history(ch, &all_ops(), 0, 2) }
fn d2f(ch: &mut Ch) -> Result<(), String> { history(ch, &all_ops(), 1, 2) }
fn d2n(ch: &mut Ch) -> Result<(), String> { history(ch, &all_ops(), 2, 2) }
fn d3(ch: &mut Ch) -> Result<(), String> { history(ch, &all_ops(), 0, 3) }
fn d3n(ch: &mut Ch) -> Result<(), String> { history(ch, &all_ops(), 2, 3) }
fn c3(ch: &mut Ch) -> Result<(), String> { history(ch, &core_ops(), 0, 3) }
fn c3f(ch: &mut Ch) -> Result<(), String> { history(ch, &core_ops(), 1, 3) }
fn e4(ch: &mut Ch) -> Result<(), String> { history(ch, &deep_ops(), 1, 4) }
fn e5(ch: &mut Ch) -> Result<(), String> { history(ch, &deep_ops(), 1, 5) }
/// save and reload between the edits
fn sessions(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let ops = core_ops();
    let k = ch.free(2);
    let s = &starts()[k];
    let (mut p, mut m) = (s.p.clone(), s.m.clone());
    let mut names = vec![];
    for i in 0..depth {
        if i > 0 { p = super::projects::load(encrypted(&save(p)?)?)?; ch.steps(14) }
        let op = &OPS[*ch.free_of(&ops)];
        names.push(op.0);
        (op.1)(&mut p, &mut m);
    }
    ch.state(&k); ch.state(&names);
    ch.note(|| format!("edits with a save and reload in between: {}", names.join("; ")));
    verify(ch, p, m)
}
fn s2(ch: &mut Ch) -> Result<(), String> { sessions(ch, 2) }
fn s3(ch: &mut Ch) -> Result<(), String> { sessions(ch, 3) }

// ------------------------------------------------------------------ edits over wide values

/// things that have a name: they can be added, removed and renamed under any name
const THINGS: usize = 14;
const THING: [&str; THINGS] = ["variable", "list", "component", "view event", "component event", "event", "activity event", "moreblock", "screen", "custom view", "view", "image", "sound", "font"];
fn thing_ok(k: usize) -> fn(&str) -> bool { match k { 0 | 1 => line_ok, 2 | 10..=13 => any_ok, 3..=6 => key_ok, 7 => mb_ok, _ => |s| line_ok(s) && !s.contains('.') } }
fn event_key(k: usize, w: &str) -> String { match k { 3 | 4 => format!("{}_onThing", w), 5 => format!("button1_{}", w), _ => format!("{}_{}", w, w) } }
const CAT: [(&str, ResourceType); 3] = [("images", ResourceType::Image), ("sounds", ResourceType::Sound), ("fonts", ResourceType::Font)];
fn layout_names(m: &M) -> Vec<String> { ["activity", "customview"].iter().flat_map(|k| m.d.file[*k].as_array().unwrap().iter().map(|a| a["fileName"].as_str().unwrap().to_string())).collect() }
fn screen_free(m: &M, w: &str) -> bool { !layout_names(m).iter().any(|n| n == w) && !m.d.file["activity"].as_array().unwrap().iter().any(|a| refm::java_name(a["fileName"].as_str().unwrap()) == refm::java_name(w)) }
/// whether a project stays well-formed with one more thing of this name
fn room(p: &P, m: &M, k: usize, w: &str) -> bool {
    let s = &p.screens[0];
    let code = |c: &str| c != "onCreate_initializeLogic" && !m.code.contains_key(&(s.java_name.clone(), c.to_string())) && !s.events.iter().any(|e| e.get_block_container_id() == c) && !s.more_blocks.keys().any(|k| format!("{}_moreBlock", k) == c);
    match k {
        0 => !s.variables.contains_key(w), 1 => !s.list_variables.contains_key(w), 2 => !s.components.contains_key(w),
        3..=6 => code(&event_key(k, w)) && !(k == 6 && w == "onCreate"), 7 => code(&format!("{}_moreBlock", w)),
        8 => screen_free(m, w), 9 => !layout_names(m).iter().any(|n| n == w),
        10 => { fn has(v: &[View], w: &str) -> bool { v.iter().any(|v| v.id == w || v.id == format!("{} kid", w) || has(&v.children, w)) } w != "root" && !has(&s.layout, w) && !has(&s.layout, &format!("{} kid", w)) }
        _ => !["images", "sounds", "fonts"].iter().any(|c| m.d.resource[*c].as_array().unwrap().iter().any(|e| e["resName"] == w)),
    }
}
fn thing_code(tag: &str) -> Vec<Node> { vec![toast(tag), repeat(vec![toast("in")])] }
fn put(p: &mut P, m: &mut M, k: usize, w: &str, n: i64) {
    let tag = format!("tag {}", n);
    match k {
        0 => { p.screens[0].variables.insert(w.into(), Variable { name: w.into(), r#type: if n % 2 == 0 { VariableType::Integer } else { VariableType::HashMap } }); m.list(0, "var").push(json!([if n % 2 == 0 { 1 } else { 3 }, w])) }
        1 => { p.screens[0].list_variables.insert(w.into(), ListVariable { name: w.into(), r#type: if n % 2 == 0 { VariableType::Integer } else { VariableType::HashMap } }); m.list(0, "list").push(json!([if n % 2 == 0 { 1 } else { 3 }, w])) }
        2 => { p.screens[0].components.insert(w.into(), K::FirebaseDatabase { path: tag.clone() }); m.list(0, "components").push(with(COMPONENT, &[("componentId", json!(w)), ("type", json!(6)), ("param1", json!(tag))])) }
        3 => add_event(p, m, 0, "onThing", 1, w, n as u8, thing_code(&tag)), 4 => add_event(p, m, 0, "onThing", 2, w, n as u8, thing_code(&tag)),
        5 => add_event(p, m, 0, w, 1, "button1", n as u8, thing_code(&tag)), 6 => add_event(p, m, 0, w, 3, "", 0, thing_code(&tag)),
        7 => {
            let items = [word("does"), Item::Arg('s', Some(format!("t{}", n)), Val::Unset)];
            p.screens[0].more_blocks.insert(w.into(), MoreBlock { name: w.into(), spec: obs::mk_items(&items), code: mk(thing_code(&tag)) });
            m.list(0, "func").push(json!([w, format!("does %s.t{}", n)]));
            *m.code(0, &format!("{}_moreBlock", w)) = thing_code(&tag);
        }
        8 => add_screen(p, m, w), 9 => add_custom(p, m, w, vec![view_doc(&tag, 4, "root", 0)]),
        10 => {
            let name = m.name(0).unwrap();
            let (a, b) = (view_doc(w, 0, "root", 0), view_doc(&format!("{} kid", w), 4, w, 0));
            let mut v = mk_view(&a); v.children.push(mk_view(&b)); p.screens[0].layout.push(v);
            m.layout(&name).extend([a, b]);
        }
        // (the file has another name than the entry, or the same)
        _ => { let c = CAT[k - 11]; add_res(p, m, c.0, c.1, w, &if n % 2 == 0 { w.to_string() } else { format!("f{}.x", n) }) }
    }
}
fn take(p: &mut P, m: &mut M, k: usize, w: &str) {
    let j = m.java(0).unwrap();
    match k {
        0 => { p.screens[0].variables.remove(w); m.list(0, "var").retain(|v| v[1] != *w) } 1 => { p.screens[0].list_variables.remove(w); m.list(0, "list").retain(|v| v[1] != *w) }
        2 => { p.screens[0].components.remove(w); m.list(0, "components").retain(|v| v["componentId"] != *w) }
        3..=6 => drop_event(p, m, 0, &event_key(k, w)),
        7 => { p.screens[0].more_blocks.remove(w); m.list(0, "func").retain(|f| f[0] != *w); m.code.remove(&(j, format!("{}_moreBlock", w))); }
        8 => if let Some(i) = p.screens.iter().position(|s| s.layout_name == w) { drop_screen(p, m, i) },
        9 => if let Some(i) = p.custom_views.iter().position(|c| c.res_name == w) { p.custom_views.remove(i); m.d.file["customview"].as_array_mut().unwrap().remove(i); m.drop_layout(w) },
        10 => { let n = m.name(0).unwrap(); cut(&mut p.screens[0].layout, w); cut_docs(m.layout(&n), w); }
        _ => drop_res(p, m, CAT[k - 11].0, w),
    }
}
/// gives a thing another name where it stands
fn rename(p: &mut P, m: &mut M, k: usize, w: &str, to: &str) -> bool {
    match k {
        8 => { let Some(i) = p.screens.iter().position(|s| s.layout_name == w) else { return false }; rename_screen(p, m, i, to); true }
        9 => {
            let Some(c) = p.custom_views.iter_mut().find(|c| c.res_name == w) else { return false };
            c.res_name = to.into();
            for e in m.d.file["customview"].as_array_mut().unwrap() { if e["fileName"] == *w { e["fileName"] = json!(to); e["fileType"] = json!(if to.starts_with("_drawer_") { 2 } else { 1 }) } }
            for l in m.d.view["layouts"].as_array_mut().unwrap() { if l[0] == *w { l[0] = json!(to) } }
            true
        }
        10 => {
            let Some(v) = find(p, 0, w) else { return false };
            v.id = to.into();
            let n = m.name(0).unwrap();
            for d in m.layout(&n).iter_mut() { for f in ["id", "parent"] { if d[f] == *w { d[f] = json!(to) } } }
            true
        }
        3..=6 => {
            let c = event_key(k, w);
            let Some(e) = p.screens[0].events.iter_mut().find(|e| e.get_block_container_id() == c) else { return false };
            if k >= 5 { e.name = to.into() } else if let EventType::ViewEvent { id, .. } | EventType::ComponentEvent { id, .. } = &mut e.event_type { *id = to.into() }
            for e in m.list(0, "events").iter_mut() { if container_of(e) == c { if k >= 5 { e["eventName"] = json!(to) } if k != 5 { e["targetId"] = json!(to) } } }
            let j = m.java(0).unwrap();
            if let Some(v) = m.code.remove(&(j.clone(), c)) { m.code.insert((j, event_key(k, to)), v); }
            true
        }
        _ => false,
    }
}
/// single texts and lists of texts; false: not a value that belongs there
const TEXTS: usize = 24;
fn set_text(p: &mut P, m: &mut M, k: usize, w: &str) -> bool {
    let s = w.to_string();
    let j = json!(w);
    let lib = |m: &mut M, k: &str, f: &str, v: Value| { m.d.library[k][f] = v; true };
    match k {
        0 => { p.metadata.name = s; m.d.project["my_app_name"] = j; true } 1 => { p.metadata.workspace_name = s; m.d.project["my_ws_name"] = j; true }
        2 => { p.metadata.package_name = s; m.d.project["my_sc_pkg_name"] = j; true } 3 => { p.metadata.version_name = s; m.d.project["sc_ver_name"] = j; true }
        4..=7 => { let Some(f) = &mut p.libraries.firebase else { return false }; *[&mut f.project_id, &mut f.app_id, &mut f.api_key, &mut f.storage_bucket][k - 4] = s; lib(m, "firebaseDB", ["data", "reserved1", "reserved2", "reserved3"][k - 4], j) }
        8 => { p.libraries.google_map = Some(GoogleMap { api_key: s }); m.d.library["googleMap"] = with(LIB_ITEM, &[("libType", json!(3)), ("useYn", json!("Y")), ("data", j)]); true }
        9..=11 => {
            let Some(a) = &mut p.libraries.ad_mob else { return false };
            let l = match k { 9 => vec![s], 10 => vec![s.clone(), s], _ => vec!["x".into(), s.clone(), "a".into(), s] };
            a.test_devices = l.clone();
            lib(m, "admob", "testDevices", json!(l))
        }
        12..=13 => {
            let Some(a) = &mut p.libraries.ad_mob else { return false };
            let l = if k == 12 { vec![(s.clone(), "n".to_string()), ("b".into(), s)] } else { vec![(s.clone(), s.clone()), ("b".into(), "a".into()), (s.clone(), s)] };
            a.ad_units = l.iter().map(|(i, n)| swrs::parser::library::AdUnit { id: i.clone(), name: n.clone() }).collect();
            lib(m, "admob", "adUnits", json!(l.iter().map(|(i, n)| json!({"id": i, "name": n})).collect::<Vec<_>>()))
        }
        14..=17 => {
            let t = [2, 6, 14, 16][k - 14];
            p.screens[0].components.insert("one".into(), match t { 2 => K::SharedPreferences { path: s }, 6 => K::FirebaseDatabase { path: s }, 14 => K::FirebaseStorage { path: s }, _ => K::FilePicker { mime_type: s } });
            m.list(0, "components").push(with(COMPONENT, &[("componentId", json!("one")), ("type", json!(t)), ("param1", j)])); true
        }
        18 => {
            if w.starts_with('@') { return false }
            let n = Node { items: vec![word("Toast"), Item::Arg('s', None, Val::Text(s))], ..toast("") };
            let c = "onCreate_initializeLogic";
            let Some(b) = code_of(p, 0, c) else { return false };
            b.0.push(obs::mk_node(&n)); m.code(0, c).push(n); true
        }
        19 => {
            let n = Node { op: s, ..toast("t") };
            let c = "button1_onClick";
            let Some(b) = code_of(p, 0, c) else { return false };
            b.0.insert(0, obs::mk_node(&n)); m.code(0, c).insert(0, n); true
        }
        20 => {
            let name = m.name(0).unwrap();
            let Some(v) = find(p, 0, "text1") else { return false };
            let Ok(ViewType::TextView { text, .. }) = &mut v.view else { return false };
            *text = s;
            for d in m.layout(&name).iter_mut() { if d["id"] == "text1" { set(d, "text.text", j.clone()) } } true
        }
        21 => {
            let Some(f) = p.screens[0].fab.as_mut() else { return false };
            f.view = Ok(ViewType::Fab { image_res_name: s });
            let name = m.name(0).unwrap();
            for f in m.d.view["fabs"].as_array_mut().unwrap() { if f[0] == *name { set(&mut f[1], "image.resName", j.clone()) } } true
        }
        22 => {
            let name = m.name(0).unwrap();
            let Some(v) = find(p, 0, "text1") else { return false };
            v.raw.pre_id = Some(s.clone()); v.raw.pre_parent = Some(s);
            for d in m.layout(&name).iter_mut() { if d["id"] == "text1" { d["preId"] = j.clone(); d["preParent"] = j.clone() } } true
        }
        _ => { let c = CAT[w.len() % 3]; if !room(p, m, 11, w) { return false } add_res(p, m, c.0, c.1, "entry", w); true }
    }
}
/// one edit, its name or text any of the enumerated strings
fn values(ch: &mut Ch) -> Result<(), String> {
    let start = if ch.wide { ch.free(2) } else { 1 };
    let what = ch.free(TEXTS + 2 * THINGS);
    let w = ch.free_of(strs(true)).clone();
    let (mut p, mut m) = (starts()[start].p.clone(), starts()[start].m.clone());
    ch.state(&(start, what, &w));
    ch.note(|| format!("{} {:?}", if what < TEXTS { format!("text {}", what) } else { format!("{} {}", if what < TEXTS + THINGS { "add" } else { "rename" }, THING[(what - TEXTS) % THINGS]) }, w));
    if what < TEXTS { if !set_text(&mut p, &mut m, what, &w) { ch.skip(); return Ok(()) } }
    else {
        let k = (what - TEXTS) % THINGS;
        if !thing_ok(k)(&w) || !room(&p, &m, k, &w) { ch.skip(); return Ok(()) }
        if what < TEXTS + THINGS { put(&mut p, &mut m, k, &w, w.len() as i64 % 100) }
        else { put(&mut p, &mut m, k, "old_name", 1); if !rename(&mut p, &mut m, k, "old_name", &w) { ch.skip(); return Ok(()) } }
    }
    ch.step();
    verify(ch, p, m)
}
/// two things of a kind whose names are easily mistaken for each other
fn kin(ch: &mut Ch) -> Result<(), String> {
    let start = if ch.wide { ch.free(2) } else { 1 };
    let (k, how) = (ch.free(THINGS), ch.free(6));
    let (a, b) = ch.free_of(crate::dict::pairs()).clone();
    let (mut p, mut m) = (starts()[start].p.clone(), starts()[start].m.clone());
    ch.state(&(start, k, how, &a, &b));
    ch.note(|| format!("{}: {:?} and {:?}, {}", THING[k], a, b, ["add both", "add both, remove the first", "add both, remove the second", "add one, rename it to the other", "add both, then rename the first", "add one, save, add the other"][how]));
    let ok = thing_ok(k);
    if !ok(&a) || !ok(&b) || !room(&p, &m, k, &a) { ch.skip(); return Ok(()) }
    put(&mut p, &mut m, k, &a, 1);
    if !room(&p, &m, k, &b) { ch.skip(); return Ok(()) }
    if how == 3 { if !rename(&mut p, &mut m, k, &a, &b) { ch.skip(); return Ok(()) } }
    else {
        if how == 5 { p = super::projects::load(encrypted(&save(p)?)?)?; ch.steps(14) }
        put(&mut p, &mut m, k, &b, 2);
        match how { 1 => take(&mut p, &mut m, k, &a), 2 => take(&mut p, &mut m, k, &b), 4 => { if !room(&p, &m, k, "third") || !rename(&mut p, &mut m, k, &a, "third") { ch.skip(); return Ok(()) } } _ => {} }
    }
    ch.steps(3);
    verify(ch, p, m)
}
/// things of different kinds with the same name
fn namesakes(ch: &mut Ch) -> Result<(), String> {
    let start = ch.free(2);
    let (k, l) = (ch.free(THINGS), ch.free(THINGS));
    let w = *ch.free_of(&["x", "thing", "onCreate", "main_x", "go", "button1", "linear1", "name", "img", "MainActivity", "a b", "é"]);
    let off = ch.free(3);
    if k == l { ch.skip(); return Ok(()) }
    let (mut p, mut m) = (starts()[start].p.clone(), starts()[start].m.clone());
    ch.state(&(start, k, l, w, off));
    ch.note(|| format!("{} and {} named {:?}{}", THING[k], THING[l], w, ["", ", the first removed", ", the second removed"][off]));
    if !thing_ok(k)(w) || !thing_ok(l)(w) || !room(&p, &m, k, w) { ch.skip(); return Ok(()) }
    put(&mut p, &mut m, k, w, 1);
    if !room(&p, &m, l, w) { ch.skip(); return Ok(()) }
    put(&mut p, &mut m, l, w, 2);
    match off { 1 => take(&mut p, &mut m, k, w), 2 => take(&mut p, &mut m, l, w), _ => {} }
    ch.steps(3);
    verify(ch, p, m)
}

pub fn c14() -> Check {
    Check { id: "C14", rule: "after every history of edits, applied to the editable project and to a model alongside: what is saved (read independently) is what the model says and nothing else changed; loading the encrypted files gives the edited project back; saving that writes byte-identical files",
        assumptions: &["edits keep a project well-formed: unique names, class names derived from layout names, onCreate first among the events", "the raw copy inside a view is not compared where the editable attributes override it"],
        scopes: vec![
            scope("values", "every named thing added and renamed under, and every text set to, each string of the wide domain", values, ALL, OFF), wide("values-both", "the same with and without attached files", values, OFF, ALL),
            scope("kin", "two things of a kind with names easily mistaken for each other, added, removed, renamed, saved in between", kin, ALL, OFF), wide("kin-both", "the same with and without attached files", kin, OFF, ALL),
            scope("namesakes", "two things of different kinds with the same name", namesakes, ALL, ALL),
            scope("single", "every edit alone, on three starting projects", d1, ALL, ALL),
            scope("pairs", "every history of up to 2 edits of the whole alphabet, on the sample project without files", d2, ALL, OFF), scope("pairs-files", "the same with attached files", d2f, OFF, ALL), scope("pairs-new", "the same on a project made from nothing", d2n, ALL, OFF),
            scope("core-3", "every history of up to 3 edits of the core alphabet, with files", c3f, OFF, ALL), scope("core-3-auto", "the same without files", c3, OFF, ALL),
            scope("deep-4", "every history of up to 4 structural edits", e4, OFF, OFF), scope("deep-5", "every history of up to 5 structural edits", e5, OFF, ALL),
            scope("triples", "every history of up to 3 edits of the whole alphabet", d3, OFF, ALL), scope("triples-new", "the same on a project made from nothing", d3n, OFF, ALL),
            scope("sessions-2", "2 edits with a save and reload in between", s2, ALL, ALL), scope("sessions-3", "3 edits with saves and reloads in between", s3, OFF, ALL),
        ] }
}

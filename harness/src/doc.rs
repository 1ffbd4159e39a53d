//! The data files as documents: writing them in the format of Sketchware, and reading what the
//! library wrote the way Sketchware does (independently of the library).
use crate::dom;
use crate::obs;
use crate::refm::{self, json, sections};
use serde_json::{json, Value};

pub const LOGIC_SECTIONS: &[&str] = &["var", "list", "components", "events", "func"];
pub const LIBS: &[&str] = &["firebaseDB", "compat", "admob", "googleMap"];

fn arr(v: &Value) -> &Vec<Value> { v.as_array().expect("array") }

/// how a document is written
#[derive(Clone, Copy, Default)]
pub struct Style { pub json: usize, pub before: usize, pub between: usize, pub after: usize }

fn stitch(secs: &[(String, Vec<String>)], st: Style, min_between: usize) -> String {
    let mut out = "\n".repeat(st.before);
    for (i, (h, ls)) in secs.iter().enumerate() {
        if i > 0 { out.push_str(&"\n".repeat(st.between + min_between)) }
        out.push('@'); out.push_str(h); out.push('\n');
        for l in ls { out.push_str(l); out.push('\n') }
    }
    // the last line break is optional
    if st.after == 0 { if out.ends_with('\n') { out.pop(); } } else { out.push_str(&"\n".repeat(st.after - 1)) }
    out
}
fn lines(v: &Value, st: Style) -> Vec<String> { arr(v).iter().map(|x| dom::write(x, st.json)).collect() }

pub fn file_text(d: &Value, st: Style) -> String {
    stitch(&[("activity".into(), lines(&d["activity"], st)), ("customview".into(), lines(&d["customview"], st))], st, 0)
}
pub fn resource_text(d: &Value, st: Style) -> String {
    stitch(&["images", "sounds", "fonts"].iter().map(|k| (k.to_string(), lines(&d[*k], st))).collect::<Vec<_>>(), st, 0)
}
pub fn library_text(d: &Value, order: &[usize], st: Style) -> String {
    stitch(&order.iter().map(|i| (LIBS[*i].to_string(), vec![dom::write(&d[LIBS[*i]], st.json)])).collect::<Vec<_>>(), st, 0)
}
pub fn view_text(d: &Value, fabs_inline: bool, st: Style) -> String {
    let mut s: Vec<(String, Vec<String>)> = vec![];
    let mut late = vec![];
    let fabs = arr(&d["fabs"]);
    for l in arr(&d["layouts"]) {
        s.push((format!("{}.xml", l[0].as_str().unwrap()), lines(&l[1], st)));
        if fabs_inline { for f in fabs.iter().filter(|f| f[0] == l[0]) { s.push((format!("{}.xml_fab", f[0].as_str().unwrap()), vec![dom::write(&f[1], st.json)])) } }
    }
    for f in fabs {
        if fabs_inline && arr(&d["layouts"]).iter().any(|l| l[0] == f[0]) { continue }
        late.push((format!("{}.xml_fab", f[0].as_str().unwrap()), vec![dom::write(&f[1], st.json)]));
    }
    s.extend(late);
    stitch(&s, st, 1)
}

/// by_kind: all variable sections first and so on (as Sketchware does); otherwise screen by screen
pub fn logic_text(d: &Value, by_kind: bool, st: Style) -> String {
    let mut s: Vec<(String, Vec<String>)> = vec![];
    let scr = d.as_object().unwrap();
    let pool = |name: &str, v: &Value, k: &str| -> Option<(String, Vec<String>)> {
        let p = v.get(k)?;
        let ls = arr(p).iter().map(|e| match k {
            "var" | "list" => format!("{}:{}", e[0], e[1].as_str().unwrap()),
            "func" => format!("{}:{}", e[0].as_str().unwrap(), e[1].as_str().unwrap()),
            _ => dom::write(e, st.json),
        }).collect();
        Some((format!("{}.java_{}", name, k), ls))
    };
    let code = |name: &str, v: &Value| -> Vec<(String, Vec<String>)> {
        arr(&v["containers"]).iter().map(|c| (format!("{}.java_{}", name, c[0].as_str().unwrap()), lines(&c[1], st))).collect()
    };
    if by_kind {
        for k in LOGIC_SECTIONS { for (n, v) in scr { s.extend(pool(n, v, k)) } }
        for (n, v) in scr { s.extend(code(n, v)) }
    } else {
        for (n, v) in scr { s.extend(code(n, v)); for k in LOGIC_SECTIONS.iter().rev() { s.extend(pool(n, v, k)) } }
    }
    stitch(&s, st, 1)
}

// ------------------------------------------------------------------ reading

fn jsons(ls: &[String]) -> Result<Value, String> { ls.iter().map(|l| json(l)).collect::<Result<Vec<_>, _>>().map(Value::from) }

fn keyed(text: &str, keys: &[&str]) -> Result<Value, String> {
    let mut o = serde_json::Map::new();
    for (h, ls) in sections(text)? {
        if !keys.contains(&h.as_str()) { return Err(format!("unknown heading @{}", h)) }
        if o.insert(h.clone(), jsons(&ls)?).is_some() { return Err(format!("heading @{} twice", h)) }
    }
    for k in keys { if !o.contains_key(*k) { return Err(format!("heading @{} is missing", k)) } }
    Ok(Value::Object(o))
}
pub fn read_file(t: &str) -> Result<Value, String> { keyed(t, &["activity", "customview"]) }
pub fn read_resource(t: &str) -> Result<Value, String> { keyed(t, &["images", "sounds", "fonts"]) }
pub fn read_library(t: &str) -> Result<Value, String> {
    let mut v = keyed(t, LIBS)?;
    for k in LIBS { let a = arr(&v[*k]); if a.len() != 1 { return Err(format!("{} entries under @{}", a.len(), k)) } let x = a[0].clone(); v[*k] = x }
    Ok(v)
}
pub fn read_view(t: &str) -> Result<Value, String> {
    let (mut layouts, mut fabs): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    for (h, ls) in sections(t)? {
        if let Some(n) = h.strip_suffix(".xml") {
            if layouts.iter().any(|l| l[0] == n) { return Err(format!("layout {} twice", n)) }
            layouts.push(json!([n, jsons(&ls)?]));
        } else if let Some(n) = h.strip_suffix(".xml_fab") {
            if fabs.iter().any(|l| l[0] == n) { return Err(format!("fab {} twice", n)) }
            if ls.len() != 1 { return Err(format!("{} entries in the fab of {}", ls.len(), n)) }
            fabs.push(json!([n, json(&ls[0])?]));
        } else { return Err(format!("unknown heading @{}", h)) }
    }
    Ok(json!({"layouts": layouts, "fabs": fabs}))
}
pub fn read_logic(t: &str) -> Result<Value, String> {
    let mut o = json!({});
    for (h, ls) in sections(t)? {
        let (n, k) = h.split_once(".java_").ok_or_else(|| format!("unknown heading @{}", h))?;
        let s = o.as_object_mut().unwrap().entry(n.to_string()).or_insert_with(|| json!({"containers": []}));
        let split = |l: &String| l.split_once(':').map(|(a, b)| (a.to_string(), b.to_string())).ok_or_else(|| format!("entry `{}` under @{}", l, h));
        if LOGIC_SECTIONS.contains(&k) {
            if s.get(k).is_some() { return Err(format!("heading @{} twice", h)) }
            s[k] = match k {
                "var" | "list" => ls.iter().map(|l| { let (a, b) = split(l)?; Ok(json!([a.parse::<i64>().map_err(|e| e.to_string())?, b])) }).collect::<Result<Vec<_>, String>>()?.into(),
                "func" => ls.iter().map(|l| { let (a, b) = split(l)?; Ok(json!([a, b])) }).collect::<Result<Vec<_>, String>>()?.into(),
                _ => jsons(&ls)?,
            };
        } else {
            let cs = s["containers"].as_array_mut().unwrap();
            if cs.iter().any(|c| c[0] == k) { return Err(format!("heading @{} twice", h)) }
            cs.push(json!([k, jsons(&ls)?]));
        }
    }
    Ok(o)
}

// ------------------------------------------------------------------ whole projects

#[derive(Clone, Debug)]
pub struct Doc { pub project: Value, pub file: Value, pub library: Value, pub resource: Value, pub view: Value, pub logic: Value }


impl Doc {
    pub fn texts(&self, st: Style) -> [String; 6] {
        [dom::write(&self.project, st.json), file_text(&self.file, st), library_text(&self.library, &[0, 1, 2, 3], st), resource_text(&self.resource, st),
            view_text(&self.view, st.json % 2 == 0, st), logic_text(&self.logic, st.json % 2 == 0, st)]
    }
    pub fn read(t: [&str; 6]) -> Result<Doc, String> {
        let at = |n: &str, r: Result<Value, String>| r.map_err(|e| format!("saved `{}` file: {}", n, e));
        Ok(Doc { project: at("project", json(t[0]))?, file: at("file", read_file(t[1]))?, library: at("library", read_library(t[2]))?,
            resource: at("resource", read_resource(t[3]))?, view: at("view", read_view(t[4]))?, logic: at("logic", read_logic(t[5]))? })
    }
    /// the content, disregarding what does not matter: listing order of unrelated views, of layouts
    /// and of screens' logic, block ids, absent versus empty sections, settings of disabled libraries
    pub fn canon(&self) -> Result<Value, String> {
        let mut layouts = serde_json::Map::new();
        for l in arr(&self.view["layouts"]) {
            let n = l[0].as_str().unwrap();
            layouts.insert(n.into(), tree(arr(&l[1])).map_err(|e| format!("layout {}: {}", n, e))?);
        }
        // an activity without a layout has an empty one
        for a in arr(&self.file["activity"]) { if let Some(n) = a["fileName"].as_str() { layouts.entry(n).or_insert_with(|| json!([])); } }
        let fabs: serde_json::Map<String, Value> = arr(&self.view["fabs"]).iter().map(|f| (f[0].as_str().unwrap().to_string(), f[1].clone())).collect();
        let mut logic = serde_json::Map::new();
        for (n, s) in self.logic.as_object().unwrap() {
            let mut o = serde_json::Map::new();
            for k in LOGIC_SECTIONS { if let Some(p) = s.get(*k) { if !arr(p).is_empty() { o.insert(k.to_string(), p.clone()); } } }
            let mut code = serde_json::Map::new();
            for c in arr(&s["containers"]) {
                let cn = c[0].as_str().unwrap();
                let p = program(arr(&c[1])).map_err(|e| format!("{} {}: {}", n, cn, e))?;
                if !p.is_empty() { code.insert(cn.into(), p.into()); }
            }
            if !code.is_empty() { o.insert("code".into(), Value::Object(code)); }
            if !o.is_empty() { logic.insert(n.clone(), Value::Object(o)); }
        }
        let mut library = self.library.clone();
        for k in LIBS { if library[*k]["useYn"] == "N" { library[*k] = json!("disabled") } }
        Ok(json!({"project": self.project, "file": self.file, "library": library, "resource": self.resource, "layouts": layouts, "fabs": fabs, "logic": logic}))
    }
}

pub fn program(blocks: &[Value]) -> Result<String, String> {
    let raws = blocks.iter().map(|b| obs::json_raw(b).ok_or_else(|| format!("malformed block {}", b))).collect::<Result<Vec<_>, _>>()?;
    let p = refm::saved_list(&raws)?;
    Ok(refm::show(&refm::norm(&p)))
}

/// the views of a layout as a tree, from the parents they name
pub fn tree(views: &[Value]) -> Result<Value, String> {
    fn kids(views: &[Value], p: &str, left: &mut usize, depth: usize) -> Vec<Value> {
        views.iter().filter(|v| v["parent"] == p).map(|v| {
            *left = left.saturating_sub(1);
            let id = v["id"].as_str().unwrap_or("").to_string();
            json!([v, if depth > 300 { vec![] } else { kids(views, &id, left, depth + 1) }])
        }).collect()
    }
    let mut ids: Vec<&str> = vec![];
    for v in views {
        let p = v["parent"].as_str().ok_or("view without parent")?;
        if p != "root" && !ids.contains(&p) { return Err(format!("parent {} of view {} is not listed before it", p, v["id"])) }
        let id = v["id"].as_str().ok_or("view without id")?;
        if ids.contains(&id) { return Err(format!("view id {} twice", id)) }
        ids.push(id);
    }
    let mut left = views.len();
    Ok(Value::from(kids(views, "root", &mut left, 0)))
}

/// a small project with every kind of content
pub fn sample() -> Doc {
    use crate::dom::*;
    let v = |id: &str, ty: i64, parent: &str, pt: i64| with(VIEW, &[("id", json!(id)), ("type", json!(ty)), ("parent", json!(parent)), ("parentType", json!(pt))]);
    let b = |id: &str, next: i64, op: &str, spec: &str, params: Value| with(BLOCK, &[("id", json!(id)), ("nextBlock", json!(next)), ("opCode", json!(op)), ("spec", json!(spec)), ("parameters", params)]);
    let fab = with(VIEW, &[("id", json!("_fab")), ("type", json!(16)), ("parent", Value::Null), ("parentType", json!(-1)), ("preId", Value::Null), ("image.resName", json!("img"))]);
    let mut iff = b("10", 14, "ifElse", "if %b then", json!(["@11"]));
    iff["subStack1"] = json!(12); iff["subStack2"] = json!(13); iff["type"] = json!("e");
    let mut cond = b("11", -1, "<", "%d < %d", json!(["1", "2.5"])); cond["type"] = json!("b");
    Doc {
        project: default(PROJECT),
        file: json!({"activity": [with(FILE_ITEM, &[("options", json!(9))]), with(FILE_ITEM, &[("fileName", json!("second_screen")), ("orientation", json!(1)), ("theme", json!(2)), ("options", json!(4)), ("keyboardSetting", json!(2))])],
            "customview": [with(FILE_ITEM, &[("fileName", json!("row")), ("fileType", json!(1)), ("options", json!(0)), ("orientation", json!(2))]),
                with(FILE_ITEM, &[("fileName", json!("_drawer_second_screen")), ("fileType", json!(2)), ("options", json!(0)), ("orientation", json!(2))])]}),
        library: json!({"firebaseDB": with(LIB_ITEM, &[("useYn", json!("Y")), ("data", json!("proj")), ("reserved1", json!("app")), ("reserved2", json!("key")), ("reserved3", json!("bucket"))]),
            "compat": with(LIB_ITEM, &[("libType", json!(1)), ("useYn", json!("Y"))]),
            "admob": with(LIB_ITEM, &[("libType", json!(2)), ("useYn", json!("Y")), ("adUnits", json!([{"id": "u1", "name": "n1"}])), ("testDevices", json!(["dev"]))]),
            "googleMap": with(LIB_ITEM, &[("libType", json!(3)), ("useYn", json!("Y")), ("data", json!("mapkey"))])}),
        resource: json!({"images": [{"resFullName": "img.png", "resName": "img", "resType": 1}, {"resFullName": "b.jpg", "resName": "b", "resType": 1}],
            "sounds": [{"resFullName": "s.mp3", "resName": "snd", "resType": 1}], "fonts": [{"resFullName": "f.ttf", "resName": "fnt", "resType": 1}]}),
        view: json!({"layouts": [["main", [v("linear1", 0, "root", 0), v("text1", 4, "linear1", 0), v("list1", 9, "root", 0), v("button1", 3, "linear1", 0)]],
                ["second_screen", []], ["row", [v("img1", 3, "root", 0)]], ["_drawer_second_screen", [v("linear2", 0, "root", 0), v("check1", 11, "linear2", 0)]]],
            "fabs": [["main", fab]]}),
        logic: json!({
            "MainActivity": {"var": [[1, "count"], [2, "name"], [0, "flag"], [3, "map"]], "list": [[1, "nums"], [2, "strs"]],
                "components": [with(COMPONENT, &[("componentId", json!("intent")), ("type", json!(1))]), with(COMPONENT, &[("componentId", json!("sp")), ("type", json!(2)), ("param1", json!("data"))]),
                    with(COMPONENT, &[("componentId", json!("timer")), ("type", json!(5))])],
                "events": [with(EVENT, &[("targetId", json!("button1")), ("targetType", json!(3))]),
                    with(EVENT, &[("eventName", json!("onBackPressed")), ("eventType", json!(3)), ("targetId", json!("onBackPressed"))]),
                    with(EVENT, &[("eventName", json!("onTick")), ("eventType", json!(2)), ("targetId", json!("timer")), ("targetType", json!(5))])],
                "func": [["greet", "greet %s.who %d.times "], ["noop", "noop"]],
                "containers": [["onCreate_initializeLogic", [iff, cond, b("12", -1, "doToast", "Toast %s", json!(["yes"])), b("13", -1, "doToast", "Toast %s", json!(["no"])), b("14", -1, "finish", "finish", json!([]))]],
                    ["button1_onClick", [b("10", 11, "doToast", "Toast %s", json!(["@12"])), b("12", -1, "getVar", "name", json!([])), b("11", -1, "setVarInt", "set %m.varInt to %d", json!(["count", "3"]))]],
                    ["onBackPressed_onBackPressed", []], ["timer_onTick", [b("10", -1, "doToast", "Toast %s", json!(["tick"]))]],
                    ["greet_moreBlock", [b("10", -1, "doToast", "Toast %s", json!(["@11"])), b("11", -1, "getArg", "who", json!([]))]], ["noop_moreBlock", []]]},
            "SecondScreenActivity": {"var": [[2, "other"]], "events": [], "containers": [["onCreate_initializeLogic", [b("10", -1, "doToast", "Toast %s", json!([""]))]]]}}),
    }
}

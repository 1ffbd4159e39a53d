//! C11, C12: view trees and view kinds
use crate::dom::*;
use crate::engine::*;
use crate::refm;
use crate::{obs, Check};
use serde_json::{json, Value};
use swrs::api::view::{flatten_views, parse_raw_layout, SidesValue, View, ViewType};
use swrs::parser::view::models::AndroidView;
use swrs::parser::view::Layout;
use swrs::parser::Parsable;

pub fn mk_view(d: &Value) -> Result<AndroidView, String> { AndroidView::parse(&write(d, 0)).map_err(|e| format!("view refused: {} in {}", e, d)) }
fn layout(ds: &[Value]) -> Result<Layout, String> { Ok(Layout(ds.iter().map(mk_view).collect::<Result<_, _>>()?)) }
fn vid(i: usize) -> String { format!("view_{}", i) }

/// what a tree of views says: id, raw attributes but for the position, children
fn sees(v: &View) -> Value {
    let mut raw = obs::view(&v.raw);
    for k in ["parent", "parentType"] { raw.as_object_mut().unwrap().remove(k); }
    json!({"view": obs::aview(&View { children: vec![], ..v.clone() }), "raw": raw, "children": v.children.iter().map(sees).collect::<Vec<_>>()})
}
/// the same from documents and a parent assignment (indices; n: the root)
fn tree_of(ds: &[Value], parent: &[usize], p: usize) -> Value {
    (0..ds.len()).filter(|i| parent[*i] == p).map(|i| json!([ds[i]["id"], tree_of(ds, parent, i)])).collect::<Vec<_>>().into()
}
fn ids_tree(vs: &[View]) -> Value { vs.iter().map(|v| json!([v.id, ids_tree(&v.children)])).collect::<Vec<_>>().into() }

static LEAF: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
fn doc(i: usize, ty: i64, parent: Value) -> Value {
    let mut d = LEAF.get_or_init(|| default(VIEW)).clone();
    set(&mut d, "id", json!(vid(i))); set(&mut d, "type", json!(ty)); set(&mut d, "parent", parent); set(&mut d, "parentType", json!(0)); set(&mut d, "index", json!(i)); set(&mut d, "text.text", json!(format!("text {}", i)));
    d
}

/// every parent assignment, good or bad
fn parents(ch: &mut Ch, n: usize) -> Result<(), String> {
    let mut ds = vec![];
    let mut par: Vec<usize> = vec![];
    let mut bad: Vec<usize> = vec![];
    for i in 0..n {
        // 0 root, 1 absent, 2 a name nobody has, 3.. view k
        let k = ch.free(n + 3);
        let p = match k { 0 => json!("root"), 1 => Value::Null, 2 => json!("nowhere"), k => json!(vid(k - 3)) };
        ds.push(doc(i, [0, 12, 4, 2, 9, 0][i % 6], p));
        match k { 0 => par.push(n), k if k >= 3 && k - 3 < i => par.push(k - 3), _ => { par.push(usize::MAX); bad.push(i) } }
    }
    ch.state(&par); ch.state(&ds.iter().map(|d| d["parent"].to_string()).collect::<Vec<_>>());
    ch.note(|| ds.iter().map(|d| format!("{} under {}", d["id"], d["parent"])).collect::<Vec<_>>().join(", "));
    let l = layout(&ds)?;
    ch.step();
    match parse_raw_layout(l) {
        Ok(t) if bad.is_empty() => refm::want("tree", &tree_of(&ds, &par, n), &ids_tree(&t)),
        Ok(t) => Err(format!("{} has no listed parent, but the layout was accepted as {}", vid(bad[0]), ids_tree(&t))),
        Err(e) if bad.is_empty() => Err(format!("refused: {:?}", e)),
        Err(e) => {
            let t = format!("{:?} {}", e, e);
            if bad.iter().any(|b| t.contains(&vid(*b))) { Ok(()) } else { Err(format!("the error does not identify the view ({}): {}", vid(bad[0]), t)) }
        }
    }
}
fn p1(ch: &mut Ch) -> Result<(), String> { parents(ch, 1) }
fn p2(ch: &mut Ch) -> Result<(), String> { parents(ch, 2) }
fn p3(ch: &mut Ch) -> Result<(), String> { parents(ch, 3) }
fn p4(ch: &mut Ch) -> Result<(), String> { parents(ch, 4) }
fn p5(ch: &mut Ch) -> Result<(), String> { parents(ch, 5) }
fn p6(ch: &mut Ch) -> Result<(), String> { parents(ch, 6) }

/// flattens a tree and checks what is listed; returns the list
fn flat_ok(ch: &mut Ch, tree: &[View], top: (&str, i64), flat: &[AndroidView]) -> Result<(), String> {
    let docs: Vec<Value> = flat.iter().map(obs::view).collect();
    // (id, parent, parent type) of every view, in order of the tree
    fn walk(vs: &[View], p: &str, pt: i64, out: &mut Vec<(String, String, i64, Value)>) {
        for v in vs {
            let mut raw = obs::view(&v.raw);
            for k in ["parent", "parentType"] { raw.as_object_mut().unwrap().remove(k); }
            out.push((v.id.clone(), p.to_string(), pt, raw));
            let ty = match &v.view { Ok(k) => TYPE_IDS.iter().find(|(_, n)| *n == kind_key(k)).map(|x| x.0).unwrap_or(-1), Err(_) => v.raw.r#type as i64 };
            walk(&v.children, &v.id, ty, out);
        }
    }
    let mut all = vec![];
    walk(tree, top.0, top.1, &mut all);
    if all.len() != docs.len() { return Err(format!("{} views flattened into {}", all.len(), docs.len())) }
    ch.step();
    let mut seen: Vec<&str> = vec![top.0];
    for d in &docs {
        let p = d["parent"].as_str().ok_or_else(|| format!("view {} saved without parent", d["id"]))?;
        if !seen.contains(&p) { return Err(format!("view {} is listed before its parent {}", d["id"], p)) }
        let id = d["id"].as_str().unwrap();
        if seen.contains(&id) { return Err(format!("view {} listed twice", id)) }
        seen.push(id);
    }
    for (id, p, pt, raw) in &all {
        let d = docs.iter().find(|d| d["id"] == *id).ok_or_else(|| format!("view {} is missing", id))?;
        if d["parent"] != *p { return Err(format!("view {} saved under {}, expected {}", id, d["parent"], p)) }
        if d["parentType"] != *pt { return Err(format!("view {} saved with parent type {}, its parent {} is of type {}", id, d["parentType"], p, pt)) }
        let mut d = d.clone();
        for k in ["parent", "parentType"] { d.as_object_mut().unwrap().remove(k); }
        refm::want(&format!("attributes of {}", id), raw, &d)?;
    }
    Ok(())
}
fn round(ch: &mut Ch, t: Vec<View>) -> Result<(), String> {
    let before: Vec<Value> = t.iter().map(sees).collect();
    let flat = flatten_views(t.clone(), None, None);
    flat_ok(ch, &t, ("root", 0), &flat)?;
    let again = parse_raw_layout(Layout(flat.clone())).map_err(|e| format!("the flattened layout is refused: {:?}", e))?;
    ch.steps(2);
    refm::want("rebuilt", &json!(before), &json!(again.iter().map(sees).collect::<Vec<_>>()))?;
    if flatten_views(again, None, None) != flat { return Err("flattening again gives another list".into()) }
    Ok(())
}
fn find(ch: &mut Ch, t: &mut Vec<View>, n: usize) -> Result<(), String> {
    fn at<'a>(vs: &'a [View], id: &str) -> Option<&'a View> { for v in vs { if v.id == id { return Some(v) } if let Some(x) = at(&v.children, id) { return Some(x) } } None }
    for i in 0..n {
        let id = vid(i);
        let want = at(t, &id).map(sees).ok_or("harness: lost view")?;
        for r in 0..t.len() {
            ch.steps(2);
            let inside = at(&t[r..r + 1], &id).is_some();
            match (inside, t[r].find_id(&id)) { (true, Some(v)) => refm::want("found", &want, &sees(v))?, (false, None) => {}
                (true, None) => return Err(format!("{} is not found under {}", id, t[r].id)), (false, Some(v)) => return Err(format!("looking for {} under {} gives {}", id, t[r].id, v.id)) }
            match (inside, t[r].find_id_mut(&id)) { (true, Some(v)) => { refm::want("found", &want, &sees(v))?; v.weight += 7; } (false, None) => {}
                _ => return Err(format!("find_id_mut({}) under {} is wrong", id, t[r].id)) }
            if inside { let v = t[r].find_id_mut(&id).unwrap(); if v.weight < 7 { return Err(format!("editing {} through find_id_mut has no effect", id)) } v.weight -= 7 }
        }
    }
    for x in ["", "root", "view_", "view_99", "VIEW_0"] { if t.iter().any(|r| r.find_id(x).is_some()) { return Err(format!("found a view with id {:?}", x)) } }
    Ok(())
}
fn forest(ch: &mut Ch, n: usize, types: bool) -> Result<(), String> {
    let mut ds = vec![]; let mut par = vec![];
    for i in 0..n {
        let k = ch.free(i + 1);
        let p = if k == 0 { json!("root") } else { json!(vid(k - 1)) };
        par.push(if k == 0 { n } else { k - 1 });
        let ty = if types { *ch.of(&[0i64, 2, 12, 4, 9, 1, 6, 99, 18, 127]) } else { 0 };
        ds.push(doc(i, ty, p));
    }
    ch.state(&ds.iter().map(|d| format!("{}{}", d["parent"], d["type"])).collect::<Vec<_>>());
    ch.note(|| ds.iter().map(|d| format!("{}({}) under {}", d["id"], d["type"], d["parent"])).collect::<Vec<_>>().join(", "));
    let mut t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    ch.step();
    refm::want("tree", &tree_of(&ds, &par, n), &ids_tree(&t))?;
    find(ch, &mut t, n)?;
    round(ch, t)
}
fn f4(ch: &mut Ch) -> Result<(), String> { let n = ch.free(5); forest(ch, n, true) }
fn f5(ch: &mut Ch) -> Result<(), String> { forest(ch, 5, true) }
fn f6(ch: &mut Ch) -> Result<(), String> { forest(ch, 6, false) }
fn f7(ch: &mut Ch) -> Result<(), String> { forest(ch, 7, false) }
fn f8(ch: &mut Ch) -> Result<(), String> { forest(ch, 8, false) }

/// a view is moved under another parent (or to the top, or removed) before saving
fn moves(ch: &mut Ch, n: usize) -> Result<(), String> {
    let mut ds = vec![];
    for i in 0..n { let k = ch.free(i + 1); ds.push(doc(i, [0, 2, 12, 0, 11, 3][i % 6], if k == 0 { json!("root") } else { json!(vid(k - 1)) })) }
    let mut t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    fn cut(vs: &mut Vec<View>, id: &str) -> Option<View> {
        if let Some(i) = vs.iter().position(|v| v.id == id) { return Some(vs.remove(i)) }
        vs.iter_mut().find_map(|v| cut(&mut v.children, id))
    }
    for _ in 0..1 {
        let what = vid(ch.free(n));
        let to = ch.free(n + 2);
        let Some(v) = cut(&mut t, &what) else { ch.skip(); return Ok(()) };
        let front = ch.free(2) == 1;
        if to == n { if front { t.insert(0, v) } else { t.push(v) } }
        else if to < n {
            match t.iter_mut().find_map(|r| r.find_id_mut(&vid(to))) { Some(p) => if front { p.children.insert(0, v) } else { p.children.push(v) }, None => { ch.skip(); return Ok(()) } }
        }
    }
    if ch.flag() { t.reverse() }
    if let Some(v) = t.first_mut() { match ch.pick(3) { 1 => v.id = "renamed".into(), 2 => v.children.reverse(), _ => {} } }
    for v in t.iter_mut() { v.raw.id = v.id.clone() }
    ch.state(&ids_tree(&t).to_string());
    ch.note(|| format!("moved: {}", ids_tree(&t)));
    round(ch, t)
}
fn m3(ch: &mut Ch) -> Result<(), String> { moves(ch, 3) }
fn m4(ch: &mut Ch) -> Result<(), String> { moves(ch, 4) }
fn m5(ch: &mut Ch) -> Result<(), String> { moves(ch, 5) }

/// kinds are replaced and raw ids, parents and parent types tampered with before saving
fn kinds(ch: &mut Ch, n: usize) -> Result<(), String> {
    let mut ds = vec![]; let mut par = vec![];
    for i in 0..n {
        let k = ch.free(i + 1);
        par.push(if k == 0 { n } else { k - 1 });
        ds.push(doc(i, *ch.of(&[0i64, 2, 12, 4, 11, 1]), if k == 0 { json!("root") } else { json!(vid(k - 1)) }));
    }
    let mut t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    let mut types = vec![];
    for i in 0..n {
        let v = t.iter_mut().find_map(|r| r.find_id_mut(&vid(i))).ok_or("harness: lost view")?;
        let mut ty = ds[i]["type"].as_i64().unwrap();
        let to = *ch.of(&[-1i64, 0, 2, 12, 3, 7, 18]);
        if to >= 0 { ty = to; v.view = View::from(mk_view(&doc(i, to, json!("root")))?).view; if v.view.is_err() { return Err(format!("type {} is not known", to)) } }
        match ch.pick(5) {
            1 => v.raw.id = "tampered".into(),
            2 => v.raw.parent = None,
            3 => { v.raw.parent = Some(vid(i)); v.raw.parent_type = 77 }
            4 => if to >= 0 { v.raw.r#type = 99 },
            _ => {}
        }
        types.push(ty);
    }
    ch.state(&(ds.iter().map(|d| format!("{}{}", d["parent"], d["type"])).collect::<Vec<_>>(), &types, t.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>()));
    ch.note(|| format!("{}; types when saved: {:?}", ds.iter().map(|d| format!("{}({}) under {}", d["id"], d["type"], d["parent"])).collect::<Vec<_>>().join(", "), types));
    let flat = flatten_views(t.clone(), None, None);
    ch.steps(2);
    if flat.len() != n { return Err(format!("{} views flattened into {}", n, flat.len())) }
    for i in 0..n {
        let f = flat.iter().find(|f| f.id == vid(i)).ok_or_else(|| format!("{} is missing", vid(i)))?;
        let want = if par[i] == n { ("root".to_string(), 0) } else { (vid(par[i]), types[par[i]]) };
        if f.parent.as_deref() != Some(&want.0) || f.parent_type as i64 != want.1 || f.r#type as i64 != types[i] {
            return Err(format!("{} of type {} is saved as type {} under {:?} of type {}, expected under {} of type {}", vid(i), types[i], f.r#type, f.parent, f.parent_type, want.0, want.1));
        }
    }
    let again = parse_raw_layout(Layout(flat.clone())).map_err(|e| format!("the flattened layout is refused: {:?}", e))?;
    refm::want("rebuilt", &ids_tree(&t), &ids_tree(&again))?;
    if flatten_views(again, None, None) != flat { return Err("flattening again gives another list".into()) }
    Ok(())
}
fn k3(ch: &mut Ch) -> Result<(), String> { let n = 1 + ch.free(3); kinds(ch, n) }
fn k4(ch: &mut Ch) -> Result<(), String> { kinds(ch, 4) }

fn under(ch: &mut Ch) -> Result<(), String> {
    let parent = *ch.free_of(&["box", "root", "", "é"]);
    let ty = *ch.free_of(&[0u8, 2, 12, 99, 127]);
    let n = ch.free(4);
    let ds: Vec<Value> = (0..n).map(|i| { let k = ch.free(i + 1); doc(i, 0, if k == 0 { json!("root") } else { json!(vid(k - 1)) }) }).collect();
    ch.state(&(parent, ty, ds.iter().map(|d| d["parent"].to_string()).collect::<Vec<_>>()));
    let t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    let flat = flatten_views(t.clone(), Some(parent.to_string()), Some(ty));
    ch.steps(2);
    flat_ok(ch, &t, (parent, ty as i64), &flat)
}
fn tree_ladder(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.free(4);
    let mut ns: Vec<usize> = (0..=70).collect(); ns.extend([100, 127, 128, 129, 150, 200]);
    if kind != 0 { ns.extend([255, 256, 257, 400]) }
    let n = *ch.free_of(&ns);
    let full = ch.free(2) == 1;
    let doc = |i: usize, ty: i64, p: Value| if full { rich(VIEW, i, &[("id", json!(vid(i))), ("type", json!(ty)), ("parent", p), ("parentType", json!(0))]) } else { doc(i, ty, p) };
    let ds: Vec<Value> = (0..n).map(|i| doc(i, 0, if i == 0 { json!("root") } else { match kind { 0 => json!(vid(i - 1)), 1 => json!("root"), 2 => json!(vid(0)), _ => json!(vid((i - 1) / 2)) } })).collect();
    ch.state(&(kind, n, full));
    ch.note(|| format!("{} of {} views", ["nest", "row", "row in one view", "binary tree"][kind], n));
    let t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    ch.step();
    let par: Vec<usize> = (0..n).map(|i| if i == 0 || kind == 1 { n } else { match kind { 0 => i - 1, 2 => 0, _ => (i - 1) / 2 } }).collect();
    if n <= 130 { refm::want("tree", &tree_of(&ds, &par, n), &ids_tree(&t))? }
    round(ch, t)
}
fn names(ch: &mut Ch) -> Result<(), String> {
    let strs: Vec<String> = strings_wide().into_iter().filter(|s| s != "root" && s != "inner").collect();
    let id = ch.free_of(&strs).clone();
    let mut ds = vec![doc(0, 0, json!("root")), doc(1, 0, json!(id)), doc(2, 0, json!("inner"))];
    ds[0]["id"] = json!(id); ds[1]["id"] = json!("inner");
    ch.state(&id);
    ch.note(|| format!("parent id {:?}", id));
    let t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    refm::want("tree", &json!([[id, [["inner", [[vid(2), []]]]]]]), &ids_tree(&t))?;
    if t[0].find_id(&id).is_none() || t[0].find_id(&vid(2)).is_none() { return Err(format!("view {:?} is not found", id)) }
    round(ch, t)
}
/// two views whose ids are easily mistaken for each other, and two views under either
fn kin_ids(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = ch.free_of(crate::dict::pairs()).clone();
    let how = ch.free(3);
    if [&a, &b].iter().any(|s| *s == "root" || *s == "view_1" || *s == "view_3") { ch.skip(); return Ok(()) }
    let ids = [&a, &b];
    let (k, l) = (ch.free(2), ch.free(2));
    let mut ds = vec![doc(0, 0, json!("root")), doc(1, 4, json!(ids[k])), doc(2, 12, if how == 0 { json!(a) } else { json!("root") }), doc(3, 6, json!(ids[l]))];
    ds[0]["id"] = json!(a); ds[2]["id"] = json!(b);
    ch.state(&(&a, &b, how, k, l));
    ch.note(|| format!("ids {:?} and {:?}", a, b));
    if how == 2 {
        // the other view is not there
        ds.remove(2);
        ch.step();
        return match (parse_raw_layout(layout(&ds)?), k == 0 && l == 0) {
            (Ok(t), true) => refm::want("tree", &json!([[a, [["view_1", []], ["view_3", []]]]]), &ids_tree(&t)),
            (Ok(t), false) => Err(format!("a view under {:?} was accepted as {}", b, ids_tree(&t))),
            (Err(e), true) => Err(format!("refused: {:?}", e)),
            (Err(e), false) => { let t = format!("{:?} {}", e, e); if (k == 1 && t.contains("view_1")) || (l == 1 && t.contains("view_3")) { Ok(()) } else { Err(format!("the error does not identify the view: {}", t)) } }
        };
    }
    // (views under the second are listed after it)
    if k == 1 { let v = ds.remove(1); ds.insert(2, v) }
    let t = parse_raw_layout(layout(&ds)?).map_err(|e| format!("refused: {:?}", e))?;
    ch.step();
    let mut kids = [vec![], vec![]];
    if how == 0 && k == 1 { kids[0].push(json!(null)) }
    kids[k].push(json!(["view_1", []]));
    if how == 0 && k == 0 { kids[0].push(json!(null)) }
    kids[l].push(json!(["view_3", []]));
    let second = json!([b, kids[1]]);
    for x in kids[0].iter_mut() { if x.is_null() { *x = second.clone() } }
    let want = if how == 0 { json!([[a, kids[0]]]) } else { json!([[a, kids[0]], second]) };
    refm::want("tree", &want, &ids_tree(&t))?;
    for id in [&a, &b] {
        for (i, r) in t.iter().enumerate() {
            let here = how == 0 || i == (*id == b) as usize;
            match r.find_id(id) { Some(v) if v.id == *id && here => {} None if !here => {} o => return Err(format!("looking for {:?} under {:?} gives {:?}", id, r.id, o.map(|v| v.id.clone()))) }
        }
    }
    round(ch, t)
}
pub fn c11() -> Check {
    Check { id: "C11", rule: "the tree built from a layout is the one given by the parents named (independently computed); bad parents are refused with an error naming the view; a flattened tree lists every view once after its parent with parent id and type, all other attributes unchanged, and rebuilds to the same tree; every view is found by id",
        assumptions: &["view ids in a layout are distinct and not `root`", "view types of parents are below 128 (the parent type is a signed byte)"],
        scopes: vec![
            scope("parents-1", "1 view: root, absent, unknown or own parent", p1, ALL, ALL), scope("parents-2", "every parent assignment of 2 views", p2, ALL, ALL), scope("parents-3", "every parent assignment of 3 views", p3, ALL, ALL),
            scope("parents-4", "every parent assignment of 4 views over {root, absent, unknown, every view}", p4, ALL, ALL), scope("parents-5", "every parent assignment of 5 views", p5, ALL, ALL), scope("parents-6", "every parent assignment of 6 views", p6, OFF, ALL),
            scope("forests-4", "every ordered forest of 0..4 views, view types with 2 deviations", f4, 2, ALL), scope("forests-5", "every ordered forest of 5 views, view types", f5, 1, 3), scope("forests-6", "every ordered forest of 6 views", f6, ALL, ALL),
            scope("forests-7", "every ordered forest of 7 views", f7, ALL, ALL), scope("forests-8", "every ordered forest of 8 views", f8, OFF, ALL),
            scope("moves-3", "every forest of 3 views with every view moved to every place", m3, ALL, ALL), scope("moves-4", "the same with 4 views", m4, ALL, ALL), scope("moves-5", "the same with 5 views", m5, OFF, ALL),
            scope("kinds-3", "every forest of 1..3 views, types, replaced kinds and tampered raw ids and parents deviating", k3, 3, 5), scope("kinds-4", "the same with 4 views", k4, 2, 4),
            scope("under", "flattening below a given parent", under, ALL, ALL),
            scope("ladder", "nests to depth 200, rows and binary trees to 400 views", tree_ladder, ALL, ALL),
            scope("names", "every id of the wide domain as a parent", names, ALL, ALL),
            scope("kin", "two views with ids easily mistaken for each other, beside and inside each other, and views below either or below one that is missing", kin_ids, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ C12

/// type id, kind and its attributes by raw name
pub static KINDS: &[(i64, &str, &[&str])] = &[
    (0, "LinearLayout", &["layout.orientation", "layout.gravity"]), (2, "ScrollView", &["layout.gravity"]), (3, "Button", &["text.text", "text.textColor", "text.textSize", "text.textType"]),
    (4, "TextView", &["text.text", "text.textColor", "text.textSize", "text.singleLine", "text.textFont", "text.textType", "text.line"]),
    (5, "EditText", &["text.text", "text.textColor", "text.textSize", "text.singleLine", "text.textFont", "text.textType", "text.line", "text.hint", "text.hintColor", "text.imeOption", "text.inputType"]),
    (6, "ImageView", &["image.resName", "image.scaleType"]), (7, "WebView", &[]), (8, "ProgressBar", &["max", "progress", "indeterminate", "progressStyle"]), (9, "ListView", &["dividerHeight", "customView"]),
    (10, "Spinner", &["spinnerMode"]), (11, "CheckBox", &["checked", "text.text", "text.textColor", "text.textSize", "text.textFont", "text.textType"]), (12, "ScrollView", &["layout.gravity"]),
    (13, "Switch", &["checked", "text.text", "text.textColor", "text.textSize", "text.textFont", "text.textType"]), (14, "SeekBar", &["max", "progress"]), (15, "CalendarView", &["firstDayOfWeek"]), (16, "Fab", &["image.resName"]),
    (17, "AdView", &["adSize"]), (18, "MapView", &[]),
];
static TYPE_IDS: &[(i64, &str)] = &[(0, "LinearLayout"), (2, "ScrollView-1"), (12, "ScrollView1"), (3, "Button"), (4, "TextView"), (5, "EditText"), (6, "ImageView"), (7, "WebView"), (8, "ProgressBar"), (9, "ListView"), (10, "Spinner"), (11, "CheckBox"),
    (13, "Switch"), (14, "SeekBar"), (15, "CalendarView"), (16, "Fab"), (17, "AdView"), (18, "MapView")];
fn kind_key(k: &ViewType) -> String { let j = obs::kind(k); format!("{}{}", j["kind"].as_str().unwrap(), if j["scroll"].is_null() { String::new() } else { j["scroll"].to_string() }) }
static COMMON: &[&str] = &["layout.backgroundColor", "layout.height", "layout.width", "layout.paddingTop", "layout.paddingRight", "layout.paddingBottom", "layout.paddingLeft", "layout.marginTop", "layout.marginRight", "layout.marginBottom",
    "layout.marginLeft", "layout.weight", "layout.weightSum", "layout.layoutGravity"];

/// the kind a raw view is presented as, "none" if it has no kind
fn kind_of(d: &Value) -> Value {
    let Some((ty, name, paths)) = KINDS.iter().find(|k| d["type"] == k.0) else { return json!("none") };
    if paths.contains(&"image.resName") && get(d, "image.resName").is_null() { return json!("none") }
    let mut o = json!({"kind": name});
    for p in *paths { o[*p] = get(d, p).clone() }
    if *ty == 2 { o["scroll"] = json!(-1) }
    if *ty == 12 { o["scroll"] = json!(1) }
    o
}
/// a kind from its description; inverse of `obs::kind`
pub fn mk_kind(k: &Value) -> ViewType {
    use swrs::parser::view::models as vm;
    let s = |p: &str| k[p].as_str().unwrap().to_string();
    let u = |p: &str| k[p].as_u64().unwrap() as u32;
    let c = |p: &str| obs::mk_color(k[p].as_i64().unwrap());
    let b = |p: &str| k[p] == 1 || k[p] == "true";
    let tt = || match k["text.textType"].as_i64().unwrap() { 0 => vm::text::TextType::Normal, 1 => vm::text::TextType::Bold, 2 => vm::text::TextType::Italic, _ => vm::text::TextType::BoldItalic };
    let ori = |p: &str| match k[p].as_i64().unwrap() { 1 => vm::layout::Orientation::Vertical, 0 => vm::layout::Orientation::Unspecified, _ => vm::layout::Orientation::Horizontal };
    let grav = || vm::layout::gravity::Gravity(u("layout.gravity") as u8);
    match k["kind"].as_str().unwrap() {
        "LinearLayout" => ViewType::LinearLayout { orientation: ori("layout.orientation"), gravity: grav() },
        "ScrollView" => ViewType::ScrollView { orientation: ori("scroll"), gravity: grav() },
        "Button" => ViewType::Button { text: s("text.text"), text_color: c("text.textColor"), text_size: u("text.textSize"), text_style: tt() },
        "TextView" => ViewType::TextView { text: s("text.text"), text_color: c("text.textColor"), text_size: u("text.textSize"), single_line: b("text.singleLine"), text_font: s("text.textFont"), text_style: tt(), lines: u("text.line") },
        "EditText" => ViewType::EditText { text: s("text.text"), text_color: c("text.textColor"), text_size: u("text.textSize"), single_line: b("text.singleLine"), text_font: s("text.textFont"), text_style: tt(), lines: u("text.line"),
            hint: s("text.hint"), hint_color: c("text.hintColor"),
            ime_option: { use vm::text::ImeOption::*; [Normal, None, Go, Search, Send, Next, Done][u("text.imeOption") as usize] },
            input_type: { use vm::text::InputType::*; match u("text.inputType") { 8194 => NumberDecimal, 4098 => NumberSigned, 12290 => NumberSignedDecimal, 129 => Password, 3 => Phone, _ => Text } } },
        "ImageView" => ViewType::ImageView { image_res_name: s("image.resName"), image_scale_type: { use vm::image::ImageScaleType::*;
            match k["image.scaleType"].as_str().unwrap() { "CENTER" => Center, "FIT_XY" => FitXy, "FIT_START" => FitStart, "FIT_CENTER" => FitCenter, "FIT_END" => FitEnd, "CENTER_CROP" => CenterCrop, _ => CenterInside } } },
        "WebView" => ViewType::WebView,
        "ProgressBar" => ViewType::ProgressBar { max_progress: u("max"), progress: u("progress"), indeterminate: b("indeterminate"), progress_style: s("progressStyle") },
        "ListView" => ViewType::ListView { divider_height: u("dividerHeight"), custom_view: s("customView") },
        "Spinner" => ViewType::Spinner { spinner_mode: if k["spinnerMode"] == 0 { vm::SpinnerMode::Dialog } else { vm::SpinnerMode::Dropdown } },
        "CheckBox" => ViewType::CheckBox { checked: b("checked"), text: s("text.text"), text_color: c("text.textColor"), text_size: u("text.textSize"), text_font: s("text.textFont"), text_style: tt() },
        "Switch" => ViewType::Switch { checked: b("checked"), text: s("text.text"), text_color: c("text.textColor"), text_size: u("text.textSize"), text_font: s("text.textFont"), text_style: tt() },
        "SeekBar" => ViewType::SeekBar { max_progress: u("max"), progress: u("progress") },
        "CalendarView" => ViewType::CalendarView { first_day_of_week: u("firstDayOfWeek") as u8 },
        "Fab" => ViewType::Fab { image_res_name: s("image.resName") },
        "AdView" => ViewType::AdView { adview_size: s("adSize") },
        _ => ViewType::MapView,
    }
}
pub fn edit_common(v: &mut View, path: &str, x: &Value) {
    use swrs::parser::view::models::layout::gravity::Gravity;
    let n = x.as_i64().unwrap();
    match path {
        "layout.backgroundColor" => v.background_color = obs::mk_color(n), "layout.height" => v.height = obs::mk_size(n), "layout.width" => v.width = obs::mk_size(n),
        "layout.paddingTop" => v.padding.top = n as u32, "layout.paddingRight" => v.padding.right = n as u32, "layout.paddingBottom" => v.padding.bottom = n as u32, "layout.paddingLeft" => v.padding.left = n as u32,
        "layout.marginTop" => v.margin.top = n as u32, "layout.marginRight" => v.margin.right = n as u32, "layout.marginBottom" => v.margin.bottom = n as u32, "layout.marginLeft" => v.margin.left = n as u32,
        "layout.weight" => v.weight = n as u32, "layout.weightSum" => v.weight_sum = n as u32, "layout.layoutGravity" => v.layout_gravity = Gravity(n as u8),
        p => panic!("harness: {}", p),
    }
}
fn presented(d: &Value) -> Value {
    let l = |p: &str| get(d, p).clone();
    json!({"id": d["id"], "kind": kind_of(d), "layout.backgroundColor": l("layout.backgroundColor"), "layout.height": l("layout.height"), "layout.width": l("layout.width"),
        "padding": [l("layout.paddingTop"), l("layout.paddingRight"), l("layout.paddingBottom"), l("layout.paddingLeft")], "margin": [l("layout.marginTop"), l("layout.marginRight"), l("layout.marginBottom"), l("layout.marginLeft")],
        "layout.weight": l("layout.weight"), "layout.weightSum": l("layout.weightSum"), "layout.layoutGravity": l("layout.layoutGravity"), "children": []})
}
/// presents a raw view, checks it, and returns it
fn present(ch: &mut Ch, d: &Value) -> Result<View, String> {
    let a = mk_view(d)?;
    ch.step();
    let v = View::from(a);
    refm::want("presented", &presented(d), &obs::aview(&v))?;
    refm::want("raw", d, &obs::view(&v.raw))?;
    // the kind taken from the raw view directly
    ch.step();
    let (direct, shown) = (ViewType::from_view(&v.raw), &v.view);
    match (&direct, shown) { (Ok(a), Ok(b)) if a == b => {} (Err(_), Err(_)) => {} _ => return Err(format!("the kind of the view is {:?}, presented {:?}", direct, shown)) }
    Ok(v)
}
fn saved(ch: &mut Ch, v: View, expected: &Value) -> Result<(), String> {
    let mut want = expected.clone();
    set(&mut want, "parent", json!("root")); set(&mut want, "parentType", json!(0));
    let flat = flatten_views(vec![v], None, None);
    ch.step();
    if flat.len() != 1 { return Err(format!("one view saved as {}", flat.len())) }
    refm::want("saved", &want, &obs::view(&flat[0]))?;
    // the saved view is presented as what was saved
    let w = View::from(flat.into_iter().next().unwrap());
    ch.step();
    refm::want("presented again", &presented(&want), &obs::aview(&w))
}
/// a view with marked attribute values, so that mixed-up attributes show
fn marked(ty: i64) -> Value {
    let mut d = default(VIEW);
    for (p, x) in [("layout.paddingTop", 1), ("layout.paddingRight", 2), ("layout.paddingBottom", 3), ("layout.paddingLeft", 4), ("layout.marginTop", 5), ("layout.marginRight", 6), ("layout.marginBottom", 7), ("layout.marginLeft", 8),
        ("layout.weight", 9), ("layout.weightSum", 10), ("layout.layoutGravity", 11), ("layout.gravity", 12), ("layout.height", 13), ("layout.width", 14), ("max", 15), ("progress", 16), ("dividerHeight", 17), ("firstDayOfWeek", 18), ("index", 19),
        ("text.line", 20), ("text.textSize", 21), ("text.textColor", 22), ("text.hintColor", 23), ("layout.backgroundColor", 24), ("preIndex", 25), ("image.rotate", 26)] { set(&mut d, p, json!(x)) }
    for (p, x) in [("image.resName", "pic"), ("text.text", "label"), ("text.hint", "hint"), ("text.textFont", "font"), ("customView", "custom"), ("adSize", "size"), ("adUnitId", "unit"), ("progressStyle", "style")] { set(&mut d, p, json!(x)) }
    set(&mut d, "type", json!(ty));
    d
}
fn all_types(ch: &mut Ch) -> Result<(), String> {
    let ty = ch.free(256) as i64;
    let mut d = if ch.free(2) == 0 { marked(ty) } else { with(VIEW, &[("type", json!(ty))]) };
    vary(ch, VIEW, &mut d, &["type", "id", "parent", "parentType"]);
    ch.state(&d.to_string());
    ch.note(|| d.to_string());
    let v = present(ch, &d)?;
    saved(ch, v, &d)
}
fn known_types(ch: &mut Ch) -> Result<(), String> {
    let ty = *ch.free_of(&[0i64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 1, 19]);
    let mut d = marked(ty);
    vary(ch, VIEW, &mut d, &["type", "parent", "parentType"]);
    ch.state(&d.to_string());
    ch.note(|| d.to_string());
    let v = present(ch, &d)?;
    saved(ch, v, &d)
}
fn values(path: &str, wide: bool) -> &'static Vec<Value> {
    let f = table(VIEW).fields.iter().find(|f| f.0 == path).expect("attribute");
    if wide { &f.2 } else { &f.1 }
}
/// one or more attributes are edited through the API
fn edits(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free_of(KINDS);
    let mut d = marked(k.0);
    let mut v = present(ch, &d)?;
    let mut kind = kind_of(&d);
    let wide = ch.wide;
    let mut done = vec![];
    for p in COMMON { let vals = values(p, wide); let i = ch.pick(vals.len() + 1); if i > 0 { edit_common(&mut v, p, &vals[i - 1]); set(&mut d, p, vals[i - 1].clone()); done.push(format!("{} = {}", p, vals[i - 1])) } }
    for p in k.2 {
        let vals: Vec<&Value> = values(p, wide).iter().filter(|x| !x.is_null()).collect();
        let i = ch.pick(vals.len() + 1);
        if i > 0 { kind[*p] = vals[i - 1].clone(); set(&mut d, p, vals[i - 1].clone()); done.push(format!("{} = {}", p, vals[i - 1])) }
    }
    if k.1 == "ScrollView" && ch.flag() { let o = if k.0 == 2 { 1 } else { -1 }; kind["scroll"] = json!(o); set(&mut d, "type", json!(if o == 1 { 12 } else { 2 })); done.push("turned".into()) }
    if ch.flag() { v.id = "other_id".into(); set(&mut d, "id", json!("other_id")) }
    v.view = Ok(mk_kind(&kind));
    ch.state(&(k.0, d.to_string()));
    ch.note(|| format!("{} {}: {}", k.1, k.0, done.join(", ")));
    saved(ch, v, &d)
}
/// the kind is replaced by another one
fn replace(ch: &mut Ch) -> Result<(), String> {
    let from = ch.free(21) as i64; // 1, 19 and 20 have no kind
    let to = ch.free_of(KINDS);
    let mut d = marked(from);
    if ch.flag() { set(&mut d, "image.resName", Value::Null) }
    let mut v = present(ch, &d)?;
    let mut kind = json!({"kind": to.1});
    for p in to.2 {
        let vals: Vec<&Value> = values(p, false).iter().filter(|x| !x.is_null()).collect();
        let i = ch.pick(vals.len());
        kind[*p] = vals[i].clone();
        set(&mut d, p, vals[i].clone());
    }
    if to.1 == "ScrollView" { kind["scroll"] = json!(if to.0 == 2 { -1 } else { 1 }) }
    set(&mut d, "type", json!(to.0));
    let k = mk_kind(&kind);
    if k.get_type_id() as i64 != to.0 { return Err(format!("{} has type id {}, expected {}", kind, k.get_type_id(), to.0)) }
    // written into a raw view directly: nothing but the kind's attributes (whether the type is, too, is not judged)
    let mut raw = v.raw.clone();
    ch.step();
    k.clone().apply_values_to_view(&mut raw);
    let mut got = obs::view(&raw);
    got["type"] = d["type"].clone();
    refm::want("applied", &d, &got)?;
    if ch.flag() { v.padding = SidesValue { top: 31, right: 32, bottom: 33, left: 34 }; for (p, x) in [("Top", 31), ("Right", 32), ("Bottom", 33), ("Left", 34)] { set(&mut d, &format!("layout.padding{}", p), json!(x)) } }
    v.view = Ok(k.clone());
    ch.state(&(from, to.0, d.to_string()));
    ch.note(|| format!("type {} becomes {}", from, kind));
    // children keep pointing at it, with its new type
    let mut child = present(ch, &doc(5, 4, json!("x")))?;
    child.raw.parent_type = 77;
    let mut with_child = v.clone();
    with_child.children.push(child);
    let flat = flatten_views(vec![with_child], None, None);
    if flat.len() != 2 || flat[1].parent_type as i64 != to.0 || flat[1].parent.as_deref() != Some(d["id"].as_str().unwrap()) { return Err(format!("the child of a view that became {} has parent {:?} of type {}", to.1, flat.get(1).map(|c| c.parent.clone()), flat.get(1).map_or(-9, |c| c.parent_type))) }
    saved(ch, v, &d)
}
/// raw attributes that are not exposed are edited in the raw view
fn raw_edits(ch: &mut Ch) -> Result<(), String> {
    let ty = *ch.free_of(&[0i64, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 1, 200]);
    let mut d = marked(ty);
    let mut v = present(ch, &d)?;
    let own: Vec<&str> = KINDS.iter().find(|k| k.0 == ty).map(|k| k.2.to_vec()).unwrap_or_default();
    let mut skip: Vec<&str> = vec!["id", "type", "parent", "parentType"];
    skip.extend(COMMON); skip.extend(own);
    vary(ch, VIEW, &mut d, &skip);
    v.raw = mk_view(&d)?;
    ch.state(&d.to_string());
    ch.note(|| d.to_string());
    let mut want = d.clone();
    set(&mut want, "parent", json!("root")); set(&mut want, "parentType", json!(0));
    let flat = flatten_views(vec![v], None, None);
    ch.step();
    refm::want("saved", &want, &obs::view(&flat[0]))
}
pub fn c12() -> Check {
    Check { id: "C12", rule: "every raw view is presented as the kind of its type with that kind's attributes (own table); saving writes back precisely the raw view with the edited attributes and, for a replaced kind, its type id",
        assumptions: &["numeric attribute values outside the enumerated domains behave like those in it", "two edits interact at most pairwise (all pairs of edits are explored)"],
        scopes: vec![
            scope("types", "every type id 0..255, any one attribute deviating", all_types, 1, 1),
            scope("kinds", "the known types, every pair of attributes deviating", known_types, 1, 2),
            wide("kinds-wide", "the known types over wide value domains", known_types, 1, 1),
            scope("edits", "every kind, every pair of edited attributes", edits, 2, 2),
            wide("edits-wide", "every kind, every edit over wide value domains", edits, 1, 1),
            scope("replace", "every pair of types, new attributes deviating", replace, 1, 2),
            scope("raw-edits", "attributes that only exist in the raw view", raw_edits, 1, 1),
        ] }
}

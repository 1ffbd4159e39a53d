//! C03-C07: the list-like data files
use super::round_trip;
use crate::dom::*;
use crate::doc::*;
use crate::engine::*;
use crate::{dict, obs, Check};
use serde_json::{json, Value};
use swrs::parser::{file::File, library::Library, logic::Logic, resource::Resource, view::View, Parsable};

fn style(ch: &mut Ch) -> Style {
    let json = ch.pick(STYLES);
    let before = ch.pick(3);
    let between = ch.pick(4);
    let after = *ch.of(&[1usize, 0, 2, 3]);
    Style { json, before, between, after }
}
const PLAIN: Style = Style { json: 0, before: 0, between: 0, after: 1 };

/// names a heading can carry
fn head_names(wide: bool) -> Vec<String> {
    let mut v: Vec<String> = ["main", "a", "second_screen", "_drawer_main", "x y", "é漢", "Main", "main_fab", "xml", "main2", "", "@x", "a-b", "0", "fab", "xml_fab"].iter().map(|s| s.to_string()).collect();
    if wide {
        for s in strings_wide() { if !s.contains(['\n', '\r', '.']) && !v.contains(&s) { v.push(s) } }
        for n in 0..3 { for c in ["xml", "_fab", "java", "var", "list"] { v.push(format!("{}{}", "_".repeat(n), c)) } }
    }
    v
}

// ------------------------------------------------------------------ file

fn file_rt(ch: &mut Ch, d: &Value, t: &str) -> Result<(), String> { ch.state(&t); round_trip::<File>(ch, t, d, obs::file, read_file) }

fn file_lists(ch: &mut Ch) -> Result<(), String> {
    let (a, c) = (ch.free(4), ch.free(4));
    let st = style(ch);
    let mut l = |ch: &mut Ch, n: usize, ty: i64| -> Vec<Value> { (0..n).map(|i| {
        let mut v = with(FILE_ITEM, &[("fileName", json!(format!("n{}", i))), ("fileType", json!(ty)), ("options", json!(i))]);
        vary(ch, FILE_ITEM, &mut v, &[]);
        v
    }).collect() };
    let d = json!({"activity": l(ch, a, 0), "customview": l(ch, c, 1)});
    file_rt(ch, &d, &file_text(&d, st))
}
fn file_options(ch: &mut Ch) -> Result<(), String> {
    let sec = ch.free(2);
    let (ty, kb, op, or, th) = (ch.free(3), ch.free(3), ch.free(16), ch.free(3), ch.free(4) as i64 - 1);
    let v = with(FILE_ITEM, &[("fileType", json!(ty)), ("keyboardSetting", json!(kb)), ("options", json!(op)), ("orientation", json!(or)), ("theme", json!(th))]);
    let d = if sec == 0 { json!({"activity": [v], "customview": []}) } else { json!({"activity": [], "customview": [v]}) };
    file_rt(ch, &d, &file_text(&d, PLAIN))
}
fn file_sizes(ch: &mut Ch) -> Result<(), String> {
    let s = sizes();
    let (a, c) = (*ch.of(&s), *ch.of(&s));
    let full = ch.free(2) == 1;
    let l = |n: usize, ty: i64| (0..n).map(|i| if full { rich(FILE_ITEM, i, &[("fileName", json!(format!("name_{}", i)))]) } else { with(FILE_ITEM, &[("fileName", json!(format!("name_{}", i))), ("fileType", json!(ty)), ("options", json!(i % 16)), ("theme", json!(i as i64 % 4 - 1))]) }).collect::<Vec<_>>();
    let d = json!({"activity": l(a, 0), "customview": l(c, 1)});
    file_rt(ch, &d, &file_text(&d, PLAIN))
}
/// a heading can be absent or come in the other order
fn file_headings(ch: &mut Ch) -> Result<(), String> {
    let which = ch.free(5);
    let (a, c) = (ch.free(3), ch.free(3));
    let blank = ch.free(4);
    let l = |n: usize, p: &str| (0..n).map(|i| with(FILE_ITEM, &[("fileName", json!(format!("{}{}", p, i)))])).collect::<Vec<_>>();
    let (mut av, mut cv) = (l(a, "a"), l(c, "c"));
    let sec = |h: &str, v: &[Value]| format!("@{}\n{}", h, v.iter().map(|x| write(x, 0) + "\n").collect::<String>());
    let sep = "\n".repeat(blank);
    let t = match which {
        0 => sec("activity", &av) + &sep + &sec("customview", &cv),
        1 => sec("customview", &cv) + &sep + &sec("activity", &av),
        2 => { cv.clear(); sec("activity", &av) + &sep }
        3 => { av.clear(); sec("customview", &cv) + &sep }
        _ => { av.clear(); cv.clear(); sep.clone() }
    };
    let d = json!({"activity": av, "customview": cv});
    file_rt(ch, &d, &t)
}
/// blank lines between the entries of a section
fn file_blanks(ch: &mut Ch) -> Result<(), String> {
    let v = |n: &str| write(&with(FILE_ITEM, &[("fileName", json!(n))]), 0);
    let lines = ["@activity".to_string(), v("a"), v("b"), "@customview".to_string(), v("c"), v("d")];
    let mut t = String::new();
    for (i, l) in lines.iter().enumerate() {
        t.push_str(&"\n".repeat(ch.free(3)));
        t.push_str(l);
        if i + 1 < lines.len() || ch.free(2) == 1 { t.push('\n') }
    }
    let e = |n: &str| with(FILE_ITEM, &[("fileName", json!(n))]);
    let d = json!({"activity": [e("a"), e("b")], "customview": [e("c"), e("d")]});
    file_rt(ch, &d, &t)
}

/// two names easily mistaken for each other, or equal
fn two(ch: &mut Ch) -> (String, String) {
    let (a, b) = ch.free_of(dict::pairs()).clone();
    if ch.free(2) == 1 { (a.clone(), a) } else { (a, b) }
}
fn file_kin(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = two(ch);
    let (sa, sb) = (ch.free(2), ch.free(2));
    if sa == sb && a == b { ch.skip(); return Ok(()) }
    let mut d = json!({"activity": [], "customview": []});
    for (i, (s, n)) in [(sa, &a), (sb, &b)].into_iter().enumerate() { d[["activity", "customview"][s]].as_array_mut().unwrap().push(with(FILE_ITEM, &[("fileName", json!(n)), ("fileType", json!(s)), ("options", json!(5 + i)), ("theme", json!(i))])) }
    file_rt(ch, &d, &file_text(&d, PLAIN))
}
/// 0..4 entries, each the first, one like it in all but one attribute, or another: equal and alike entries next to and apart from each other
fn repeats(ch: &mut Ch, first: Value, alike: Value, other: Value) -> Vec<Value> { let n = ch.free(5); (0..n).map(|_| [&first, &alike, &other][ch.free(3)].clone()).collect() }
fn file_repeats(ch: &mut Ch) -> Result<(), String> {
    let sec = ch.free(2);
    let e = |n: &str, o: i64| with(FILE_ITEM, &[("fileName", json!(n)), ("fileType", json!(sec)), ("options", json!(o))]);
    let l = repeats(ch, e("a", 5), e("a", 4), e("b", 5));
    let d = if sec == 0 { json!({"activity": l, "customview": [e("a", 5)]}) } else { json!({"activity": [e("a", 5)], "customview": l}) };
    file_rt(ch, &d, &file_text(&d, PLAIN))
}
pub fn c03() -> Check {
    Check { id: "C03", rule: "a generated screen list loads to exactly its entries; what is saved, read independently, is the same list; loading and saving that again changes nothing",
        assumptions: &["file names beyond the enumerated value domains behave like those in it", "option bits above the four known ones are outside the format"],
        scopes: vec![
            scope("lists", "0..3 entries in each section, every attribute and writing style, 2 deviations", file_lists, 2, 3),
            wide("wide", "the same over wide value domains, 1 deviation", file_lists, 1, 1),
            scope("kin", "two entries with names easily mistaken for each other (or equal in different sections)", file_kin, ALL, ALL),
            scope("repeats", "0..4 entries of a section, each equal to, alike or unlike the others", file_repeats, ALL, ALL),
            scope("options", "every combination of type, keyboard, options, orientation and theme in either section", file_options, ALL, ALL),
            scope("sizes", "list size ladder to 1025 in each section", file_sizes, 1, 2),
            scope("headings", "headings in either order or missing", file_headings, ALL, ALL),
            scope("blanks", "0..2 blank lines before every line", file_blanks, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ library

fn lib_doc(ch: &mut Ch) -> Value {
    let mut d = json!({});
    for (i, k) in LIBS.iter().enumerate() {
        let mut v = with(LIB_ITEM, &[("libType", json!(i)), ("data", json!(format!("data{}", i))), ("reserved1", json!(format!("one{}", i))), ("reserved2", json!(format!("two{}", i))), ("reserved3", json!(format!("three{}", i)))]);
        vary(ch, LIB_ITEM, &mut v, &[]);
        d[*k] = v;
    }
    d
}
fn lib_rt(ch: &mut Ch, d: &Value, t: &str) -> Result<(), String> { ch.state(&t); round_trip::<Library>(ch, t, d, obs::library, read_library) }
fn lib_fields(ch: &mut Ch) -> Result<(), String> {
    let st = style(ch);
    let d = lib_doc(ch);
    lib_rt(ch, &d, &library_text(&d, &[0, 1, 2, 3], st))
}
fn perm(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    (0..n).map(|_| { let i = ch.free(left.len()); left.remove(i) }).collect()
}
fn lib_orders(ch: &mut Ch) -> Result<(), String> {
    let p = perm(ch, 4);
    let st = style(ch);
    let d = lib_doc(ch);
    lib_rt(ch, &d, &library_text(&d, &p, st))
}
fn lib_repeats(ch: &mut Ch) -> Result<(), String> {
    let mut d = json!({});
    for k in LIBS { d[k] = default(LIB_ITEM) }
    let k = LIBS[ch.free(4)];
    if ch.free(2) == 0 {
        let u = |i: &str, n: &str| json!({"id": i, "name": n});
        let alike = [u("1", "b"), u("2", "a"), u("1", "")][ch.free(3)].clone();
        d[k]["adUnits"] = Value::Array(repeats(ch, u("1", "a"), alike, u("3", "c")));
    } else {
        let alike = ["A", "", "a "][ch.free(3)];
        d[k]["testDevices"] = Value::Array(repeats(ch, json!("a"), json!(alike), json!("c")));
    }
    lib_rt(ch, &d, &library_text(&d, &[0, 1, 2, 3], PLAIN))
}
fn lib_missing(ch: &mut Ch) -> Result<(), String> {
    let p = perm(ch, 4);
    let mask = ch.free(16);
    let between = ch.free(3);
    let d = json!({"firebaseDB": default(LIB_ITEM), "compat": default(LIB_ITEM), "admob": default(LIB_ITEM), "googleMap": default(LIB_ITEM)});
    let kept: Vec<usize> = p.iter().copied().filter(|i| mask & (1 << i) == 0).collect();
    let t = library_text(&d, &kept, Style { between, ..PLAIN });
    if mask == 0 { return lib_rt(ch, &d, &t) }
    ch.state(&t);
    ch.note(|| t.clone());
    ch.step();
    match Library::parse(&t) {
        Ok(_) => Err(format!("a file without {:?} was accepted", (0..4).filter(|i| mask & (1 << i) != 0).map(|i| LIBS[i]).collect::<Vec<_>>())),
        Err(e) => {
            let s = format!("{} {:?}", e, e);
            if (0..4).any(|i| mask & (1 << i) != 0 && s.contains(LIBS[i])) { Ok(()) } else { Err(format!("the error does not name a missing section: {}", s)) }
        }
    }
}
pub fn c04() -> Check {
    Check { id: "C04", rule: "generated library files load to exactly their settings, under any heading order; what is saved, read independently, has the same settings; a missing section is refused and named",
        assumptions: &["a blank line between a heading and its entry is outside the format"],
        scopes: vec![
            scope("fields", "every attribute of every section, writing styles, 2 deviations", lib_fields, 2, 3),
            wide("wide", "wide value domains, ad unit and device lists up to 1025", lib_fields, 1, 1),
            scope("orders", "all 24 heading orders, with 1 (2) deviations", lib_orders, 1, 2),
            scope("repeats", "0..4 ad units or test devices, each equal to, alike or unlike the others", lib_repeats, ALL, ALL),
            scope("missing", "all orders of all subsets of the sections", lib_missing, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ resource

const RES: [&str; 3] = ["images", "sounds", "fonts"];
fn res_rt(ch: &mut Ch, d: &Value, t: &str) -> Result<(), String> { ch.state(&t); round_trip::<Resource>(ch, t, d, obs::resource, read_resource) }
fn res_lists(ch: &mut Ch) -> Result<(), String> {
    let n = [ch.free(4), ch.free(4), ch.free(4)];
    let st = style(ch);
    let mut d = json!({});
    for (k, n) in RES.iter().zip(n) {
        d[*k] = (0..n).map(|i| { let mut v = json!({"resFullName": format!("{}{}.x", k, i), "resName": format!("r{}", i), "resType": 1}); vary(ch, RES_ITEM, &mut v, &[]); v }).collect();
    }
    res_rt(ch, &d, &resource_text(&d, st))
}
fn res_types(ch: &mut Ch) -> Result<(), String> {
    let k = *ch.free_of(&RES);
    let ty = ch.free(256);
    let mut d = json!({"images": [], "sounds": [], "fonts": []});
    d[k] = json!([{"resFullName": "f.x", "resName": "n", "resType": ty}]);
    res_rt(ch, &d, &resource_text(&d, PLAIN))
}
fn res_sizes(ch: &mut Ch) -> Result<(), String> {
    let s = sizes();
    let mut d = json!({});
    let full = ch.free(2) == 1;
    for k in RES { let n = *ch.of(&s); d[k] = (0..n).map(|i| if full { rich(RES_ITEM, i, &[]) } else { json!({"resFullName": format!("{}{}.x", k, i), "resName": format!("r{}", i), "resType": 1}) }).collect() }
    res_rt(ch, &d, &resource_text(&d, PLAIN))
}
fn res_headings(ch: &mut Ch) -> Result<(), String> {
    let p = perm(ch, 3);
    let mask = ch.free(8);
    let blank = ch.free(3);
    let n = [ch.free(3), ch.free(3), ch.free(3)];
    let mut d = json!({});
    let mut t = String::new();
    for k in 0..3 { d[RES[k]] = if mask & (1 << k) != 0 { json!([]) } else { (0..n[k]).map(|i| json!({"resFullName": format!("{}{}.x", RES[k], i), "resName": format!("r{}", i), "resType": 1})).collect() } }
    for k in p {
        if mask & (1 << k) != 0 { continue }
        t.push_str(&"\n".repeat(blank));
        t.push_str(&format!("@{}\n", RES[k]));
        for e in d[RES[k]].as_array().unwrap() { t.push_str(&write(e, 0)); t.push('\n') }
    }
    res_rt(ch, &d, &t)
}
fn res_blanks(ch: &mut Ch) -> Result<(), String> {
    let e = |n: &str| json!({"resFullName": format!("{}.x", n), "resName": n, "resType": 1});
    let lines = ["@images".to_string(), write(&e("a"), 0), write(&e("b"), 0), "@sounds".into(), write(&e("c"), 0), "@fonts".into(), write(&e("d"), 0)];
    let mut t = String::new();
    for (i, l) in lines.iter().enumerate() {
        t.push_str(&"\n".repeat(ch.free(3)));
        t.push_str(l);
        if i + 1 < lines.len() || ch.free(2) == 1 { t.push('\n') }
    }
    let d = json!({"images": [e("a"), e("b")], "sounds": [e("c")], "fonts": [e("d")]});
    res_rt(ch, &d, &t)
}
fn res_kin(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = two(ch);
    let (k, l, what) = (ch.free(3), ch.free(3), ch.free(3));
    let mut d = json!({"images": [], "sounds": [], "fonts": []});
    for (i, (k, n)) in [(k, &a), (l, &b)].into_iter().enumerate() {
        let (id, f) = match what { 0 => (n.clone(), format!("f{}.x", i)), 1 => (format!("r{}", i), n.clone()), _ => if i == 0 { (n.clone(), b.clone()) } else { (n.clone(), a.clone()) } };
        d[RES[k]].as_array_mut().unwrap().push(json!({"resFullName": f, "resName": id, "resType": 1 + i}));
    }
    res_rt(ch, &d, &resource_text(&d, PLAIN))
}
fn res_repeats(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(3);
    let e = |n: &str, f: &str| json!({"resFullName": f, "resName": n, "resType": 1});
    let mut d = json!({"images": [e("a", "f.x")], "sounds": [e("a", "f.x")], "fonts": [e("a", "f.x")]});
    let alike = [e("a", "g.x"), e("b", "f.x")][ch.free(2)].clone();
    d[RES[k]] = Value::Array(repeats(ch, e("a", "f.x"), alike, e("c", "h.x")));
    res_rt(ch, &d, &resource_text(&d, PLAIN))
}
pub fn c05() -> Check {
    Check { id: "C05", rule: "a generated resource list loads to exactly its entries by category; what is saved, read independently, is the same; loading and saving again changes nothing",
        assumptions: &["names beyond the enumerated value domains behave like those in it"],
        scopes: vec![
            scope("lists", "0..3 entries in each of the three sections, attributes and writing styles, 2 deviations", res_lists, 2, 2),
            wide("wide", "wide value domains, 1 deviation", res_lists, 1, 1),
            scope("kin", "two entries whose ids or files have names easily mistaken for each other (or equal), in every two sections", res_kin, ALL, ALL),
            scope("repeats", "0..4 entries of a section, each equal to, alike or unlike the others", res_repeats, ALL, ALL),
            scope("types", "every type number in every section", res_types, ALL, ALL),
            scope("sizes", "list size ladder to 1025 in each section", res_sizes, 1, 2),
            scope("headings", "all heading orders and missing headings, 0..2 entries, 0..2 blank lines", res_headings, ALL, ALL),
            scope("blanks", "0..2 blank lines before every line", res_blanks, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ view

fn view_rt(ch: &mut Ch, d: &Value, t: &str) -> Result<(), String> { ch.state(&t); round_trip::<View>(ch, t, d, obs::view_file, read_view) }
fn simple_view(id: &str, ty: i64) -> Value { with(VIEW, &[("id", json!(id)), ("type", json!(ty))]) }
fn simple_fab(id: &str) -> Value { with(VIEW, &[("id", json!(id)), ("type", json!(16)), ("parent", Value::Null), ("parentType", json!(-1)), ("image.resName", json!("img"))]) }
const LN: [&str; 5] = ["main", "second", "_drawer_main", "row", "main_fab"];

fn view_shapes(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(if ch.wide { 6 } else { 5 });
    let inline = ch.free(2) == 0;
    let (mut layouts, mut fabs) = (vec![], vec![]);
    for i in 0..n {
        let k = ch.free(4);
        layouts.push(json!([LN[i], (0..k).map(|j| simple_view(&format!("v{}_{}", i, j), j as i64)).collect::<Vec<_>>()]));
        if ch.free(2) == 1 { fabs.push(json!([LN[i], simple_fab(&format!("_fab{}", i))])) }
    }
    let d = json!({"layouts": layouts, "fabs": fabs});
    view_rt(ch, &d, &view_text(&d, inline, PLAIN))
}
/// FABs in another order than the layouts, and without a layout
fn view_fab_orders(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(4);
    let layouts: Vec<Value> = (0..n).map(|i| json!([LN[i], [simple_view("a", 0)]])).collect();
    let p = perm(ch, 4);
    let m = ch.free(5);
    let fabs: Vec<Value> = p.iter().take(m).map(|i| json!([LN[*i], simple_fab(&format!("f{}", i))])).collect();
    let d = json!({"layouts": layouts, "fabs": fabs});
    view_rt(ch, &d, &view_text(&d, false, PLAIN))
}
fn view_styles(ch: &mut Ch) -> Result<(), String> {
    let d = json!({"layouts": [["main", [simple_view("a", 0), simple_view("b\n\"é", 4)]], ["empty", []], ["second", [simple_view("c", 3)]]], "fabs": [["main", simple_fab("f")], ["second", simple_fab("g")]]});
    let inline = ch.free(2) == 0;
    let st = Style { json: ch.free(STYLES), before: ch.free(4), between: ch.free(4), after: ch.free(4) };
    view_rt(ch, &d, &view_text(&d, inline, st))
}
fn view_attrs(ch: &mut Ch) -> Result<(), String> {
    let place = ch.free(3);
    let mut v = if place == 2 { simple_fab("_fab") } else { default(VIEW) };
    if place == 1 {
        // a view in which every attribute differs from every other
        for (k, (p, small, _, dm)) in table(VIEW).fields.iter().enumerate() {
            let x = match dm { Dom::Str | Dom::Opt => json!(format!("s{}", k)), Dom::Int(_, hi) => json!((20 + k as i64).min(*hi)), Dom::Color => json!(1000000 + k), _ => small[small.len() - 1].clone() };
            set(&mut v, p, x);
        }
    }
    let before = v.clone();
    vary(ch, VIEW, &mut v, &[]);
    let json = ch.pick(STYLES);
    let d = if place == 2 { json!({"layouts": [["main", [simple_view("x", 0)]]], "fabs": [["main", v]]}) } else { json!({"layouts": [["main", [simple_view("x", 0), v, simple_view("y", 4)]]], "fabs": []}) };
    let _ = before;
    view_rt(ch, &d, &view_text(&d, true, Style { json, ..PLAIN }))
}
fn view_names(ch: &mut Ch) -> Result<(), String> {
    let names = head_names(ch.wide);
    let (a, b) = (ch.free(names.len()), ch.free(if ch.wide { 3 } else { names.len() }));
    if names[a] == names[b] { ch.skip(); return Ok(()) }
    let fab = ch.free(4);
    let mut fabs = vec![];
    if fab & 1 == 1 { fabs.push(json!([names[a], simple_fab("f")])) }
    if fab & 2 == 2 { fabs.push(json!([names[b], simple_fab("g")])) }
    let d = json!({"layouts": [[names[a], [simple_view("x", 0)]], [names[b], []]], "fabs": fabs});
    view_rt(ch, &d, &view_text(&d, true, PLAIN))
}
fn view_sizes(ch: &mut Ch) -> Result<(), String> {
    let s = sizes();
    let (n, m) = (*ch.of(&s), *ch.of(&s));
    let full = ch.free(2) == 1;
    let one = |i: usize, id: &str| if full { rich(VIEW, i, &[]) } else { simple_view(id, i as i64 % 19) };
    let layouts: Vec<Value> = (0..n).map(|i| json!([format!("l{}", i), [one(i, "v")]])).chain(std::iter::once(json!(["big", (0..m).map(|i| one(i, &format!("v{}", i))).collect::<Vec<_>>()]))).collect();
    let fabs: Vec<Value> = (0..n).filter(|i| i % 2 == 0).map(|i| json!([format!("l{}", i), if full { rich(VIEW, i + 3, &[]) } else { simple_fab("f") }])).collect();
    let d = json!({"layouts": layouts, "fabs": fabs});
    view_rt(ch, &d, &view_text(&d, true, PLAIN))
}
fn view_kin(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = two(ch);
    let what = ch.free(2);
    if what == 1 {
        // ids of two views of a layout, or a view and the fab
        let d = if ch.free(2) == 0 { json!({"layouts": [["main", [simple_view(&a, 0), with(VIEW, &[("id", json!(b)), ("type", json!(4)), ("parent", json!(a))])]]], "fabs": []}) } else { json!({"layouts": [["main", [simple_view(&a, 0)]], ["x", [simple_view(&b, 1)]]], "fabs": [["main", simple_fab(&b)]]}) };
        return view_rt(ch, &d, &view_text(&d, true, PLAIN));
    }
    let ok = |s: &str| line_ok(s) && !s.contains('.');
    if a == b || !ok(&a) || !ok(&b) { ch.skip(); return Ok(()) }
    let (has, fab) = (ch.free(4), ch.free(4));
    // (next to its layout only where both have one: the order of FABs is that of the file)
    let inline = has == 0 && ch.free(2) == 1;
    let mut d = json!({"layouts": [], "fabs": []});
    for (i, n) in [&a, &b].into_iter().enumerate() {
        if has & (1 << i) == 0 { d["layouts"].as_array_mut().unwrap().push(json!([n, [simple_view(&format!("v{}", i), 0)]])) }
        if fab & (1 << i) == 0 { d["fabs"].as_array_mut().unwrap().push(json!([n, simple_fab(&format!("f{}", i))])) }
    }
    view_rt(ch, &d, &view_text(&d, inline, PLAIN))
}
/// some of the sections, in any order
fn some_in_any_order<T: Clone>(ch: &mut Ch, all: &[T]) -> Vec<T> {
    let mut left: Vec<T> = all.iter().filter(|_| ch.free(2) == 0).cloned().collect();
    let mut out = vec![];
    while !left.is_empty() { let i = ch.free(left.len()); out.push(left.remove(i)) }
    out
}
fn joined(parts: &[String]) -> String { parts.iter().map(|p| p.trim_end_matches('\n')).collect::<Vec<_>>().join("\n\n") + "\n" }
fn view_orders(ch: &mut Ch) -> Result<(), String> {
    let all: Vec<(usize, bool)> = (0..if ch.wide { 4 } else { 3 }).flat_map(|i| [(i, false), (i, true)]).collect();
    let o = some_in_any_order(ch, &all);
    let mut d = json!({"layouts": [], "fabs": []});
    let mut parts = vec![];
    for (i, fab) in o {
        let one = if fab { json!({"layouts": [], "fabs": [[LN[i], simple_fab(&format!("f{}", i))]]}) } else { json!({"layouts": [[LN[i], (0..i).map(|j| simple_view(&format!("v{}", j), j as i64)).collect::<Vec<_>>()]], "fabs": []}) };
        for k in ["layouts", "fabs"] { d[k].as_array_mut().unwrap().extend(one[k].as_array().unwrap().iter().cloned()) }
        parts.push(view_text(&one, true, PLAIN));
    }
    view_rt(ch, &d, &joined(&parts))
}
fn view_repeats(ch: &mut Ch) -> Result<(), String> {
    let alike = match ch.free(3) { 0 => with(VIEW, &[("id", json!("a")), ("type", json!(4)), ("text.text", json!("t"))]), 1 => with(VIEW, &[("id", json!("a")), ("type", json!(4)), ("index", json!(3))]), _ => with(VIEW, &[("id", json!("b")), ("type", json!(4))]) };
    let l = repeats(ch, simple_view("a", 4), alike, simple_view("c", 0));
    let d = json!({"layouts": [["main", l.clone()], ["second", if ch.free(2) == 0 { l } else { vec![simple_view("a", 4)] }]], "fabs": [["main", simple_fab("f")], ["second", simple_fab("f")]]});
    view_rt(ch, &d, &view_text(&d, true, PLAIN))
}
pub fn c06() -> Check {
    Check { id: "C06", rule: "a generated view file loads to exactly its layouts, views and FABs with every attribute; what is saved, read independently, is the same; loading and saving again changes nothing",
        assumptions: &["layout names contain no dot (the format cannot express it)", "attribute values beyond the enumerated domains behave like those in it"],
        scopes: vec![
            scope("shapes", "0..4 layouts of 0..3 views, every subset of FABs, FABs next to their layout or at the end", view_shapes, ALL, OFF),
            wide("shapes5", "0..5 layouts", view_shapes, OFF, ALL),
            scope("fab_orders", "FABs in every order, with and without a layout", view_fab_orders, ALL, ALL),
            scope("orders", "every order of every subset of 3 layouts and their 3 FABs", view_orders, ALL, OFF),
            wide("orders-4", "every order of every subset of 4 layouts and their 4 FABs", view_orders, OFF, ALL),
            scope("styles", "JSON writing styles and 0..3 blank lines before, between and after", view_styles, ALL, ALL),
            scope("attributes", "every attribute of a view or FAB, 2 deviations from two base views", view_attrs, 2, 2),
            wide("wide", "every attribute over its wide domain", view_attrs, 1, 1),
            scope("names", "pairs of layout names with all FAB subsets", view_names, ALL, ALL),
            wide("names_wide", "wide layout names", view_names, ALL, ALL),
            scope("kin", "two layouts with names easily mistaken for each other, every presence of layout and FAB; view ids alike", view_kin, ALL, ALL),
            scope("repeats", "0..4 views of a layout, each equal to, alike or unlike the others; the same in two layouts", view_repeats, ALL, ALL),
            scope("sizes", "number of layouts and of views up to 1025", view_sizes, 1, 1),
        ] }
}

// ------------------------------------------------------------------ logic

fn logic_rt(ch: &mut Ch, d: &Value, t: &str) -> Result<(), String> { ch.state(&t); round_trip::<Logic>(ch, t, d, obs::logic, read_logic) }
fn entries(kind: &str, n: usize, tag: &str) -> Value {
    (0..n).map(|i| match kind {
        "var" | "list" => json!([(i + tag.len()) % 4, format!("{}{}{}", kind, tag, i)]),
        "func" => { let spec = ["mb%s.a %d.b ", "", "x %b.c", "y  "][i % 4]; json!([format!("mb{}{}", tag, i), spec]) }
        "components" => with(COMPONENT, &[("componentId", json!(format!("c{}{}", tag, i))), ("type", json!(i + 1))]),
        "events" => with(EVENT, &[("eventName", json!(format!("e{}{}", tag, i))), ("eventType", json!(i % 3 + 1))]),
        _ => json!([format!("k{}_onClick", i), (0..i).map(|j| with(BLOCK, &[("id", json!(format!("{}", 10 + j))), ("opCode", json!(format!("op{}{}", tag, j)))])).collect::<Vec<_>>()]),
    }).collect()
}
const SIX: [&str; 6] = ["var", "list", "components", "events", "func", "containers"];
/// state 0: section absent, 1: empty, k+1: k entries
fn put(s: &mut Value, kind: &str, state: usize, tag: &str) {
    if kind == "containers" {
        // containers of 0, 1, .. blocks, in both orders
        let mut c = entries(kind, state, tag);
        if state == 3 { c.as_array_mut().unwrap().reverse() }
        s[kind] = c;
    } else if state > 0 { s[kind] = entries(kind, state - 1, tag) }
}
fn absent(s: &Value) -> bool { s.as_object().unwrap().len() == 1 && s["containers"].as_array().unwrap().is_empty() }
fn logic_one(ch: &mut Ch) -> Result<(), String> {
    let mut s = json!({"containers": []});
    for k in SIX { let st = ch.free(4); put(&mut s, k, st, "") }
    let by_kind = ch.free(2) == 0;
    let d = if absent(&s) { json!({}) } else { json!({"MainActivity": s}) };
    logic_rt(ch, &d, &logic_text(&d, by_kind, PLAIN))
}
fn logic_two(ch: &mut Ch) -> Result<(), String> {
    let mut d = json!({});
    let by_kind = ch.free(2) == 0;
    for n in ["MainActivity", "SecondActivity"] {
        let mut s = json!({"containers": []});
        for k in SIX { let st = ch.free(3); put(&mut s, k, st, n) }
        if !absent(&s) { d[n] = s }
    }
    logic_rt(ch, &d, &logic_text(&d, by_kind, PLAIN))
}
fn logic_three(ch: &mut Ch) -> Result<(), String> {
    let mut d = json!({});
    let by_kind = ch.free(2) == 0;
    let base = ch.free(3);
    let st = style(ch);
    for n in ["MainActivity", "SecondActivity", "Main2Activity"] {
        let mut s = json!({"containers": []});
        for k in SIX { let st = (base + ch.pick(4)) % 4; put(&mut s, k, st, n) }
        if !absent(&s) { d[n] = s }
    }
    logic_rt(ch, &d, &logic_text(&d, by_kind, st))
}
use super::projects::line_ok;
fn logic_entries(ch: &mut Ch) -> Result<(), String> {
    let by_kind = ch.free(2) == 0;
    let what = ch.free(6);
    let mut s = json!({"var": [[0, "a"], [1, "b"]], "list": [[1, "l"], [2, "m"]], "components": entries("components", 2, ""), "events": entries("events", 2, ""), "func": [["f", "f %s.x "], ["g", "g"]], "containers": entries("containers", 3, "")});
    let names: Vec<String> = if ch.wide { strings_wide() } else { strings_small().iter().map(|s| s.to_string()).collect() }.into_iter().filter(|s| line_ok(s)).collect();
    match what {
        0 | 1 => {
            let k = ["var", "list"][what];
            for i in 0..2 { s[k][i][0] = json!(ch.pick(4)); let n = ch.pick(names.len() + 1); if n > 0 { s[k][i][1] = json!(names[n - 1]) } }
            if s[k][0][1] == s[k][1][1] { ch.skip(); return Ok(()) }
        }
        2 => for i in 0..2 { let mut e = s["components"][i].take(); vary(ch, COMPONENT, &mut e, &[]); s["components"][i] = e },
        3 => for i in 0..2 { let mut e = s["events"][i].take(); vary(ch, EVENT, &mut e, &[]); s["events"][i] = e },
        4 => {
            let specs = ["", " ", "  ", "f", "f ", "f  ", " f", "%s", "%s.x ", "f %m.varInt %d.n", "a:b", "\t", "f\t", "é ", "@x", "f %s.a  %b.c "];
            for i in 0..2 {
                let n = ch.pick(names.len() + 1);
                if n > 0 { s["func"][i][0] = json!(names[n - 1].replace(':', ";")) }
                let k = ch.pick(specs.len() + 1);
                if k > 0 { s["func"][i][1] = json!(specs[k - 1]) } else if ch.wide { let k = ch.pick(names.len() + 1); if k > 0 { s["func"][i][1] = json!(names[k - 1]) } }
            }
            let f0 = s["func"][0][0].as_str().unwrap();
            if f0 == s["func"][1][0].as_str().unwrap() || f0.starts_with('@') { ch.skip(); return Ok(()) }
            if s["func"][1][0].as_str().unwrap().starts_with('@') { ch.skip(); return Ok(()) }
        }
        _ => for i in 0..3 { for j in 0..i { let mut e = s["containers"][i][1][j].take(); vary(ch, BLOCK, &mut e, &[]); s["containers"][i][1][j] = e } },
    }
    let json = ch.pick(STYLES);
    let d = json!({"MainActivity": s});
    logic_rt(ch, &d, &logic_text(&d, by_kind, Style { json, ..PLAIN }))
}
fn logic_names(ch: &mut Ch) -> Result<(), String> {
    let screens = ["MainActivity", "java_varActivity", "VarActivity", "a_java_func", "A", "", "é漢Activity", "MainActivity2", "java", "@X", "x y"];
    let conts = ["onCreate_initializeLogic", "button1_onClick", "func_onClick", "java_list_onClick", "java_func", "var_onClick", "list", "var", "events_x", "a.b_onClick", "x_var", "x_list", "x_components", "x_events", "x_func", "", "é_moreBlock", "java_var", "varx", "function", "lists", "a b", "java"];
    let (a, b) = (ch.free(screens.len()), ch.free(screens.len()));
    let (c, e) = (*ch.free_of(&conts), *ch.free_of(&conts));
    if a == b || c == e || LOGIC_SECTIONS.contains(&c) || LOGIC_SECTIONS.contains(&e) { ch.skip(); return Ok(()) }
    let blk = |op: &str| with(BLOCK, &[("opCode", json!(op))]);
    let mut d = json!({});
    d[screens[a]] = json!({"var": [[0, "v"]], "func": [["q", "q"]], "containers": [[c, [blk("1")]], [e, []]]});
    d[screens[b]] = json!({"list": [[1, "w"]], "events": [], "components": entries("components", 1, ""), "containers": [[e, [blk("2")]], [c, [blk("3"), blk("4")]]]});
    logic_rt(ch, &d, &logic_text(&d, true, PLAIN))
}
fn logic_styles(ch: &mut Ch) -> Result<(), String> {
    let by_kind = ch.free(2) == 0;
    let st = Style { json: ch.free(STYLES), before: ch.free(4), between: ch.free(4), after: ch.free(4) };
    let d = sample().logic;
    logic_rt(ch, &d, &logic_text(&d, by_kind, st))
}
fn rich_entries(k: &str, n: usize) -> Value {
    (0..n).map(|i| match k { "components" => rich(COMPONENT, i, &[]), "events" => rich(EVENT, i, &[]), _ => entries(k, i + 1, "")[i].clone() }).collect()
}
fn numbered(m: usize) -> Vec<Value> { (0..m).map(|i| with(BLOCK, &[("id", json!(i.to_string()))])).collect() }
fn logic_sizes(ch: &mut Ch) -> Result<(), String> {
    let s = sizes();
    let mut o = json!({"containers": []});
    let full = ch.free(2) == 1;
    for k in LOGIC_SECTIONS { let n = *ch.of(&s); if full { o[*k] = rich_entries(k, n); continue } o[*k] = entries(k, n, ""); if *k == "events" || *k == "components" { for e in o[*k].as_array_mut().unwrap() { if e.get("type").is_some() { e["type"] = json!(1) } } } }
    let (n, m, q) = (*ch.of(&s), *ch.of(&s), *ch.of(&s));
    o["containers"] = (0..n).map(|i| json!([format!("v{}_onClick", i), [if full { rich(BLOCK, i, &[]) } else { default(BLOCK) }]])).chain(std::iter::once(json!(["onCreate_initializeLogic", if full { (0..m).map(|i| rich(BLOCK, i, &[])).collect() } else { numbered(m) }]))).collect();
    let mut d = json!({"MainActivity": o});
    for i in 0..q { d[format!("S{}Activity", i)] = json!({"var": [[i % 4, "v"]], "containers": [["onCreate_initializeLogic", [default(BLOCK)]]]}) }
    logic_rt(ch, &d, &logic_text(&d, true, PLAIN))
}
fn logic_kin(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = two(ch);
    let what = ch.free(8);
    let blk = |op: &str| with(BLOCK, &[("opCode", json!(op))]);
    let key = |s: &str| line_ok(s) && !s.contains(".java_");
    let ok = match what { 0 | 1 => line_ok(&a) && line_ok(&b) && a != b, 2 | 3 => true, 4 => [&a, &b].iter().all(|s| key(s) && !s.contains(':') && !s.starts_with('@')) && a != b, _ => key(&a) && key(&b) && a != b };
    if !ok || [&a, &b].iter().any(|s| what == 5 && LOGIC_SECTIONS.contains(&s.as_str())) { ch.skip(); return Ok(()) }
    let mut d = json!({"MainActivity": {"containers": []}});
    let s = &mut d["MainActivity"];
    match what {
        0 => s["var"] = json!([[1, a], [2, b]]), 1 => { s["list"] = json!([[1, a], [2, b]]); s["var"] = json!([[3, b], [0, a]]) }
        2 => s["components"] = json!([with(COMPONENT, &[("componentId", json!(a)), ("type", json!(2)), ("param1", json!(b))]), with(COMPONENT, &[("componentId", json!(b)), ("type", json!(3))])]),
        3 => s["events"] = json!([with(EVENT, &[("eventName", json!(a)), ("targetId", json!(b))]), with(EVENT, &[("eventName", json!(b)), ("eventType", json!(2)), ("targetId", json!(a)), ("targetType", json!(9))])]),
        4 => s["func"] = json!([[a, "one %s.x "], [b, "two"]]),
        5 => s["containers"] = json!([[a, [blk("1")]], [b, [blk("2"), blk("3")]]]),
        // in two screens, and as the screens' names
        6 => { s["containers"] = json!([[format!("{}_x", a), [blk("1")]]]); s["var"] = json!([[1, a]]); d["OtherActivity"] = json!({"containers": [[format!("{}_x", b), [blk("2")]], [format!("{}_x", a), []]], "var": [[2, b]]}) }
        _ => { let (x, y) = (format!("{}Activity", a), format!("{}Activity", b)); d = json!({}); d[x] = json!({"containers": [["k_x", [blk("1")]]], "var": [[1, "v"]]}); d[y] = json!({"containers": [["k_x", [blk("2")]]], "list": [[2, "v"]]}) }
    }
    let by_kind = ch.free(2) == 0;
    logic_rt(ch, &d, &logic_text(&d, by_kind, PLAIN))
}
fn logic_repeats(ch: &mut Ch) -> Result<(), String> {
    let what = ch.free(3);
    let cmp = |id: &str, t: i64, p: &str| with(COMPONENT, &[("componentId", json!(id)), ("type", json!(t)), ("param1", json!(p))]);
    let ev = |n: &str, t: &str| with(EVENT, &[("eventName", json!(n)), ("eventType", json!(1)), ("targetId", json!(t))]);
    let bl = |id: &str, op: &str| with(BLOCK, &[("id", json!(id)), ("opCode", json!(op))]);
    let l = match what {
        0 => { let alike = [cmp("c", 2, "q"), cmp("c", 6, "p"), cmp("d", 2, "p")][ch.free(3)].clone(); repeats(ch, cmp("c", 2, "p"), alike, cmp("e", 3, "")) }
        1 => { let alike = [ev("onClick", "b2"), ev("onLongClick", "b")][ch.free(2)].clone(); repeats(ch, ev("onClick", "b"), alike, ev("x", "y")) }
        _ => { let alike = [bl("10", "op2"), bl("11", "op")][ch.free(2)].clone(); repeats(ch, bl("10", "op"), alike, bl("12", "z")) }
    };
    let mut d = json!({"MainActivity": {"containers": []}, "OtherActivity": {"containers": []}});
    let both = ch.free(2) == 0;
    for s in ["MainActivity", "OtherActivity"].iter().take(1 + both as usize) {
        match what { 0 => d[*s]["components"] = json!(l), 1 => d[*s]["events"] = json!(l), _ => d[*s]["containers"] = json!([["a_onClick", l], ["b_onClick", l]]) }
    }
    if !both { d["OtherActivity"]["var"] = json!([[1, "v"]]) }
    let by_kind = ch.free(2) == 0;
    logic_rt(ch, &d, &logic_text(&d, by_kind, PLAIN))
}
/// sections of up to three screens in any order
fn logic_order(ch: &mut Ch, all: &[(&'static str, &'static str)]) -> Result<(), String> {
    let o = some_in_any_order(ch, all);
    let mut d = json!({});
    let mut parts = vec![];
    for (n, k) in o {
        let mut one = json!({"containers": []});
        match k {
            "code" => one["containers"] = json!([["b_onClick", [with(BLOCK, &[("opCode", json!(n))])]]]),
            "empty" => one["containers"] = json!([["empty_onClick", []]]),
            "more" => one["containers"] = json!([["onCreate_initializeLogic", [with(BLOCK, &[("opCode", json!("a"))]), with(BLOCK, &[("id", json!("11"))])]]]),
            _ => one[k] = entries(k, 1, n),
        }
        let mut w = json!({}); w[n] = one.clone();
        parts.push(logic_text(&w, true, PLAIN));
        if d.get(n).is_none() { d[n] = json!({"containers": []}) }
        let c = one["containers"].take();
        d[n]["containers"].as_array_mut().unwrap().extend(c.as_array().unwrap().iter().cloned());
        for (k, v) in one.as_object().unwrap() { if k != "containers" { d[n][k] = v.clone() } }
    }
    logic_rt(ch, &d, &joined(&parts))
}
const M: &str = "MainActivity";
const N: &str = "Main2Activity";
const O: &str = "AActivity";
fn logic_orders_1(ch: &mut Ch) -> Result<(), String> { logic_order(ch, &[(M, "var"), (M, "list"), (M, "components"), (M, "events"), (M, "func"), (M, "code"), (M, "empty")]) }
fn logic_orders_2(ch: &mut Ch) -> Result<(), String> { logic_order(ch, &[(M, "var"), (M, "events"), (M, "code"), (M, "more"), (N, "events"), (N, "func"), (N, "code")]) }
fn logic_orders_3(ch: &mut Ch) -> Result<(), String> { logic_order(ch, &[(M, "var"), (M, "code"), (N, "var"), (N, "code"), (N, "empty"), (O, "var"), (O, "code")]) }
fn logic_orders_8(ch: &mut Ch) -> Result<(), String> { logic_order(ch, &[(M, "var"), (M, "list"), (M, "code"), (M, "empty"), (N, "components"), (N, "func"), (N, "code"), (O, "code")]) }
pub fn c07() -> Check {
    Check { id: "C07", rule: "a generated logic file loads to exactly its screens, sections and entries; what is saved, read independently, is the same; loading and saving again changes nothing",
        assumptions: &["names are unique within their section; names do not contain line breaks, `.java_` or trailing blanks (the format cannot express it)", "blank lines only before, between and after sections"],
        scopes: vec![
            scope("one", "one screen: each of the six kinds of section absent, empty, with 1 or 2 entries; two section orders", logic_one, ALL, ALL),
            scope("two", "two screens: 3^12 section states, two section orders", logic_two, ALL, ALL),
            scope("three", "three screens, sections deviating from absent/empty/filled, writing styles", logic_three, 2, 3),
            scope("entries", "every attribute of every kind of entry, 2 deviations", logic_entries, 2, 2),
            wide("wide", "wide value domains, 1 deviation", logic_entries, 1, 1),
            scope("orders-1", "every order of every subset of 7 sections of one screen", logic_orders_1, ALL, ALL),
            scope("orders-2", "every order of every subset of 7 sections of two screens", logic_orders_2, ALL, ALL),
            scope("orders-3", "every order of every subset of 7 sections of three screens", logic_orders_3, ALL, ALL),
            scope("orders-8", "every order of every subset of 8 sections of three screens", logic_orders_8, ALL, ALL),
            scope("names", "pairs of screen names and container names that resemble other headings", logic_names, ALL, ALL),
            scope("kin", "entries, containers and screens with names easily mistaken for each other", logic_kin, ALL, ALL),
            scope("repeats", "0..4 components, events or blocks, each equal to, alike or unlike the others, in one screen or two", logic_repeats, ALL, ALL),
            scope("styles", "JSON writing styles and 0..3 blank lines before, between and after", logic_styles, ALL, ALL),
            scope("sizes", "size ladder to 1025 of every section", logic_sizes, 1, 1),
        ] }
}

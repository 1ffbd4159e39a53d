//! C18: malformed entries
use super::projects::*;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::Check;
use serde_json::{json, Value};
use std::sync::OnceLock;
use swrs::api::SketchwareProject;
use swrs::parser::{file::FileParseError, library::LibraryParseError, logic::LogicParseError, resource::ResourceParseError, resource::ResourceSection, view::ViewParseError};
use swrs::parser::{SketchwareProject as Parsed, SketchwareProjectParseError as E};

const FILES: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];

/// an entry line of a data file
#[derive(Clone, Debug)]
pub struct Entry { pub file: usize, pub line: usize, pub heading: String, pub index: usize, pub text: String }
fn entries(t: &[String; 6]) -> Vec<Entry> {
    let mut out = vec![Entry { file: 0, line: 0, heading: String::new(), index: 0, text: t[0].clone() }];
    for f in 1..6 {
        let (mut heading, mut index) = (String::new(), 0);
        for (line, l) in t[f].split('\n').enumerate() {
            if let Some(h) = l.strip_prefix('@') { heading = h.into(); index = 0 }
            else if !l.is_empty() { out.push(Entry { file: f, line, heading: heading.clone(), index, text: l.into() }); index += 1 }
        }
    }
    out
}
fn fields(e: &Entry) -> Option<&'static [Field]> {
    Some(match e.file { 0 => PROJECT, 1 => FILE_ITEM, 2 => LIB_ITEM, 3 => RES_ITEM, 4 => VIEW,
        _ => match e.heading.rsplit_once(".java_").unwrap().1 { "var" | "list" | "func" => return None, "components" => COMPONENT, "events" => EVENT, _ => BLOCK } })
}
/// values that are not in the domain of an attribute; Null: the attribute is absent
fn wrong(d: Dom) -> Vec<Value> {
    let mut v = match d {
        Dom::Str => vec![json!(1), json!(true), json!([]), json!({}), json!(["a"]), json!(-1.5)],
        Dom::Opt => return vec![json!(1), json!(true), json!([]), json!({}), json!(0)],
        Dom::Int(lo, hi) => {
            let mut v = vec![json!("1"), json!(true), json!([]), json!({}), json!(1.5), json!(""), json!("x"), json!([1])];
            // options beyond the known flags are not judged
            if (lo, hi) != (0, 15) { v.extend([json!(lo - 1), json!(hi + 1), json!(lo - 1000), json!(hi * 2 + 2)]) } else { v.extend([json!(-1), json!(256), json!(1000)]) }
            v
        }
        Dom::Enum(xs) => {
            let mut v = vec![json!("1"), json!(true), json!([]), json!({}), json!(0.5), json!("x")];
            for i in (-5i64..=40).chain([127, 128, 129, 130, 255, 256, 257, 1000, 4097, 8193, 8195, 12289, 65536, 65537, -129, -256, 1 << 32, (1 << 32) + 1]) { if !xs.contains(&i) { v.push(json!(i)) } }
            v
        }
        Dom::Names(_) => vec![json!("center"), json!(""), json!("CENTER "), json!("MATRIX"), json!("FIT XY"), json!("Center"), json!(0), json!(true), json!([])],
        Dom::Bit => vec![json!("1"), json!("true"), json!([]), json!({}), json!(0.5), json!(-1), json!(256)],
        Dom::BitStr => vec![json!(true), json!(false), json!(0), json!(1), json!(""), json!("yes"), json!("TRUE"), json!("True"), json!(" true"), json!("0"), json!([])],
        Dom::Bool => vec![json!("true"), json!("false"), json!(0), json!(1), json!(""), json!([]), json!({})],
        Dom::Color => vec![json!("1"), json!("#ffffff"), json!(true), json!([]), json!({}), json!(1.5), json!(2147483648i64), json!(-2147483649i64), json!(4294967295i64), json!(4294967296i64), json!(1e20)],
        Dom::F32 => vec![json!("1.0"), json!(true), json!([]), json!({}), json!("")],
        Dom::NumStr => vec![json!(1), json!(""), json!("x"), json!("-1"), json!("65536"), json!("1.0"), json!(" 1"), json!("1 "), json!("0x1"), json!("99999999999999999999"), json!(true), json!([])],
        Dom::Date => vec![json!(20220131235959i64), json!(""), json!("2022"), json!("20221301000000"), json!("20220230000000"), json!("20220101240000"), json!("20220101006000"), json!("20220101000060"), json!("2022010100000"), json!("202201010000000"), json!("2022-01-01T000"), json!("éééé2022010100"), json!("20220001000000"), json!("20220100000000"), json!("+2022101000000")],
        Dom::Strs => vec![json!("a"), json!({}), json!([1]), json!(["a", null]), json!(["a", ["b"]]), json!(1), json!(true)],
        Dom::Units => vec![json!("a"), json!({}), json!([1]), json!(["a"]), json!([{"id": "a"}]), json!([{"name": "a"}]), json!([{"id": 1, "name": "a"}]), json!([{"id": "a", "name": "b"}, {"id": "a"}]), json!([{"id": "a", "name": null}])],
    };
    v.insert(0, Value::Null); // absent
    v.push(json!("<null>")); // replaced by a null below
    v
}
/// puts a value where `set` cannot (null)
fn put(v: &mut Value, path: &str, x: &Value) {
    if *x == json!("<null>") { match path.split_once('.') { Some((h, t)) => v[h][t] = Value::Null, None => v[path] = Value::Null } } else { set(v, path, x.clone()) }
}
fn junk(e: &Entry) -> Vec<String> {
    let t = &e.text;
    let mut v: Vec<String> = ["x", "{", "{}", "[]", "null", "0", "\"\"", "true", " ", "-", "[{}]", "{\"a\":1}", "é"].iter().map(|s| s.to_string()).collect();
    v.extend([format!("{}x", t), format!("{},", t), format!("{}}}", t), format!("{} {}", t, t), format!("x{}", t), format!("[{}]", t), format!("\"{}\"", t.replace('"', "\\\"")), t[1..].to_string(), t.replacen(':', "=", 1), t.replacen('"', "'", 2), t.replacen(',', ";", 1)]);
    v
}
fn text_faults(e: &Entry) -> Vec<String> {
    let kind = e.heading.rsplit_once(".java_").unwrap().1;
    if kind == "func" { return ["x", "", " ", "greet %s", "é"].iter().filter(|s| !s.is_empty()).map(|s| s.to_string()).collect() }
    ["x", ":", ":a", "x:a", "4:a", "5:a", "9:a", "10:a", "255:a", "256:a", "257:a", "-1:a", "1.0:a", "1 :a", " 1:a", "a:1", "1", "1;a", "true:a", "é:a", "99999999999:a", "1e0:a", "0x1:a", "{}", "\"1\":a"].iter().map(|s| s.to_string()).collect()
}
/// all faults of an entry
fn faults(e: &Entry) -> Vec<String> {
    let Some(fs) = fields(e) else { return text_faults(e) };
    let v: Value = serde_json::from_str(&e.text).unwrap();
    let mut out = junk(e);
    for (path, _, _, d) in &table(fs).fields {
        for w in wrong(*d) {
            // an absent optional attribute is fine
            let mut x = v.clone(); put(&mut x, path, &w);
            if x != v { out.push(write(&x, 0)) }
        }
    }
    // the groups of attributes of a view
    if e.file == 4 { for g in ["image", "layout", "text"] { for w in [Value::Null, json!({}), json!(1), json!("x"), json!([]), json!("<null>")] { let mut x = v.clone(); put(&mut x, g, &w); out.push(write(&x, 0)) } } }
    out.retain(|s| *s != e.text);
    out
}
type Base = ([String; 6], Vec<Entry>, Vec<Vec<String>>);
fn base_in(k: usize) -> &'static Base {
    static B: OnceLock<Vec<Base>> = OnceLock::new();
    &B.get_or_init(|| [Style { after: 1, before: 1, between: 1, json: 0 }, Style { after: 0, before: 0, between: 0, json: 1 }, Style { after: 3, before: 0, between: 2, json: 3 }].iter().map(|st| {
        let t = sample_doc().texts(*st);
        let es = entries(&t);
        let fs = es.iter().map(faults).collect();
        (t, es, fs)
    }).collect())[k]
}
fn base() -> &'static Base { base_in(0) }
fn planted(t: &mut [String; 6], e: &Entry, text: &str) {
    let mut ls: Vec<&str> = t[e.file].split('\n').collect();
    if e.file == 0 { t[0] = text.into(); return }
    ls[e.line] = text;
    t[e.file] = ls.join("\n");
}
/// does the error say where the entry is
fn names(err: &E, e: &Entry, text: &str) -> Result<(), String> {
    let bad = |what: &str, want: &str, got: &str| Err(format!("the error gives the {} {:?} instead of {:?}: {:?}", what, got, want, err));
    let eq = |what: &str, want: &str, got: &str| if want == got { Ok(()) } else { bad(what, want, got) };
    match (e.file, err) {
        (0, E::ProjectParseError(_)) => Ok(()),
        (1, E::FileParseError(FileParseError::FileItemParseError { line, content, .. })) => { eq("text", text, content)?; eq("line", &e.line.to_string(), &line.to_string()) }
        (2, E::LibraryParseError(LibraryParseError::LibraryItemParseError { header, .. })) => eq("heading", &e.heading, header.trim_start_matches('@')),
        (3, E::ResourceParseError(ResourceParseError::ResourceItemParseError { section, line, .. })) => {
            let s = match section { ResourceSection::Images => "images", ResourceSection::Sounds => "sounds", ResourceSection::Fonts => "fonts", ResourceSection::None => "none" };
            eq("category", &e.heading, s)?; eq("line", &e.line.to_string(), &line.to_string())
        }
        (4, E::ViewParseError(ViewParseError::LayoutParseError { screen_name, container_name, source })) => {
            eq("screen", e.heading.strip_suffix(".xml").unwrap_or("?"), screen_name)?; eq("kind", "xml", container_name)?;
            eq("text", text, &source.content)?; eq("index", &e.index.to_string(), &source.line.to_string())?;
            if e.index == 0 && source.view_before.is_some() { return bad("view before", "none", "some") }
            Ok(())
        }
        (4, E::ViewParseError(ViewParseError::FabParseError { screen_name, content, .. })) => { eq("screen", e.heading.strip_suffix(".xml_fab").unwrap_or("?"), screen_name)?; eq("text", text, content) }
        (5, E::LogicParseError(l)) => {
            let (screen, kind) = e.heading.rsplit_once(".java_").unwrap();
            let i = e.index.to_string();
            let check = |k: &str, s: &str, count: u32, content: &str| { eq("section", kind, k)?; eq("screen", screen, s)?; eq("index", &i, &count.to_string())?; eq("text", text, content) };
            match l {
                LogicParseError::VariablePoolParseError { screen_name, source, .. } => check("var", screen_name, source.count, &source.content),
                LogicParseError::ListVariablePoolParseError { screen_name, source, .. } => check("list", screen_name, source.count, &source.content),
                LogicParseError::ComponentPoolParseError { screen_name, source, .. } => check("components", screen_name, source.count, &source.content),
                LogicParseError::EventPoolParseError { screen_name, source, .. } => check("events", screen_name, source.count, &source.content),
                LogicParseError::MoreBlockPoolParseError { screen_name, source, .. } => check("func", screen_name, source.count, &source.content),
                LogicParseError::BlockContainerParseError { screen_name, container_name, source, .. } => { eq("section", kind, container_name)?; eq("screen", screen, screen_name)?; eq("index", &i, &source.block_count.to_string()) }
                _ => Err(format!("the error is about a heading: {:?}", err)),
            }
        }
        _ => Err(format!("a fault in the {} file gives {:?}", FILES[e.file], err)),
    }
}
fn parse(t: &[String; 6]) -> Result<Parsed, E> { Parsed::parse_from(raw_of(t.clone(), None)) }
fn fault_at(ch: &mut Ch, es: &[Entry], fs: &[Vec<String>]) -> (Entry, String) {
    let k = ch.free(es.len());
    let f = ch.free(fs[k].len());
    (es[k].clone(), fs[k][f].clone())
}
/// any fault of any entry of the base project
pub fn fault(ch: &mut Ch) -> (Entry, String) { let (_, es, fs) = base_in(ch.free(3)); fault_at(ch, es, fs) }
fn single(ch: &mut Ch) -> Result<(), String> {
    let (t, es, fs) = base_in(ch.free(3));
    let (e, text) = fault_at(ch, es, fs);
    judge(ch, t, &[(e, text)])
}
fn judge(ch: &mut Ch, t: &[String; 6], planted_faults: &[(Entry, String)]) -> Result<(), String> {
    let mut t = t.clone();
    for (e, text) in planted_faults { planted(&mut t, e, text) }
    ch.state(&t);
    ch.note(|| planted_faults.iter().map(|(e, x)| format!("{} file, @{} entry {}: {}", FILES[e.file], e.heading, e.index, x)).collect::<Vec<_>>().join("\n"));
    let r = parse(&t);
    ch.step();
    let err = match r { Ok(_) => return Err(format!("malformed entry accepted: {} file @{} entry {}: {}", FILES[planted_faults[0].0.file], planted_faults[0].0.heading, planted_faults[0].0.index, trunc(&planted_faults[0].1, 1500))), Err(e) => e };
    let mut last = Ok(());
    for (e, text) in planted_faults { last = names(&err, e, text); if last.is_ok() { break } }
    last
}
/// every truncation of every entry
fn cut(ch: &mut Ch) -> Result<(), String> {
    let (t, es, _) = base();
    let js: Vec<&Entry> = es.iter().filter(|e| fields(e).is_some()).collect();
    let e = *ch.free_of(&js);
    let cuts: Vec<usize> = (1..e.text.len()).filter(|i| e.text.is_char_boundary(*i)).collect();
    let k = ch.free(cuts.len().min(1500));
    judge(ch, t, &[(e.clone(), e.text[..cuts[k]].to_string())])
}
/// two faults: the error is about one of them
fn pairs(ch: &mut Ch) -> Result<(), String> {
    let (t, es, _) = base();
    fn few(n: usize) -> Vec<Vec<String>> { base().2.iter().map(|f| (0..n).map(|i| f[i * (f.len() - 1) / (n - 1)].clone()).collect()).collect() }
    static SMALL: OnceLock<[Vec<Vec<String>>; 2]> = OnceLock::new();
    let small = &SMALL.get_or_init(|| [few(4), few(20)])[ch.wide as usize];
    let a = fault_at(ch, es, small); let b = fault_at(ch, es, small);
    if (a.0.file, a.0.line) >= (b.0.file, b.0.line) { ch.skip(); return Ok(()) }
    judge(ch, t, &[a, b])
}
/// a faulty entry among n good ones, anywhere
fn among(ch: &mut Ch) -> Result<(), String> { let n = ch.free(12) + 1; let pos = ch.free(n); among_of(ch, n, pos) }
/// far behind in a large section
fn far(ch: &mut Ch) -> Result<(), String> { let n = *ch.free_of(&[300, 1100]); let pos = *ch.free_of(&FAR.map(|p| p.min(n - 1))); among_of(ch, n, pos) }
fn farther(ch: &mut Ch) -> Result<(), String> { let n = 70000; let pos = *ch.free_of(&[4095, 9999, 32767, 32768, 65535, 65536, 65537, n - 1]); among_of(ch, n, pos) }
pub const FAR: [usize; 17] = [0, 9, 15, 16, 31, 63, 64, 99, 100, 127, 128, 254, 255, 256, 257, 1023, 1099];
fn among_of(ch: &mut Ch, n: usize, pos: usize) -> Result<(), String> {
    let which = ch.free(14);
    let mut d = super::screens::empty();
    let many = |mut v: Value, key: &str| -> Vec<Value> { (0..n).map(|i| { set(&mut v, key, json!(format!("n{}", i))); v.clone() }).collect() };
    let blocks = || (0..n).map(|i| with(BLOCK, &[("id", json!((10 + i).to_string())), ("nextBlock", json!(if i + 1 < n { 11 + i as i64 } else { -1 }))])).collect::<Vec<_>>();
    let named = |t: i64| (0..n).map(|i| json!([t, format!("n{}", i)])).collect::<Vec<_>>();
    let (file, heading) = match which {
        0 | 1 => { let k = ["activity", "customview"][which]; d.file[k] = json!(many(default(FILE_ITEM), "fileName")); (1, k.to_string()) }
        2 | 3 | 4 => { let k = ["images", "sounds", "fonts"][which - 2]; d.resource[k] = json!(many(default(RES_ITEM), "resName")); (3, k.to_string()) }
        5 | 6 => { let k = ["main", "other"][which - 5]; d.view["layouts"] = json!([[k, many(default(VIEW), "id")]]); (4, format!("{}.xml", k)) }
        7 => { d.logic = json!({"MainActivity": {"var": named(1), "containers": []}}); (5, "MainActivity.java_var".into()) }
        8 => { d.logic = json!({"MainActivity": {"list": named(2), "containers": []}}); (5, "MainActivity.java_list".into()) }
        9 => { d.logic = json!({"MainActivity": {"components": many(default(COMPONENT), "componentId"), "containers": []}}); (5, "MainActivity.java_components".into()) }
        10 => { d.logic = json!({"MainActivity": {"events": many(default(EVENT), "targetId"), "containers": []}}); (5, "MainActivity.java_events".into()) }
        11 => { d.logic = json!({"MainActivity": {"func": (0..n).map(|i| json!([format!("n{}", i), "x"])).collect::<Vec<_>>(), "containers": []}}); (5, "MainActivity.java_func".into()) }
        12 => { d.logic = json!({"MainActivity": {"containers": [["onCreate_initializeLogic", blocks()]]}}); (5, "MainActivity.java_onCreate_initializeLogic".into()) }
        _ => { d.logic = json!({"MainActivity": {"containers": [["a_onClick", []], ["b_onClick", blocks()], ["c_onClick", blocks()]]}}); (5, "MainActivity.java_b_onClick".into()) }
    };
    let t = d.texts(Style { after: 1, ..Style::default() });
    let e = entries(&t).into_iter().find(|e| e.file == file && e.heading == heading && e.index == pos).ok_or("harness: no such entry")?;
    judge(ch, &t, &[(e, "x".into())])
}
/// headings whose entry is not there, or that are broken
fn headings(ch: &mut Ch) -> Result<(), String> {
    let cases: &[(usize, &str, &str)] = &[(4, "@main.xml_fab", "main"), (4, "@main.xml_fab\n\n", "main"), (4, "@main.xml_fab\n\n@other.xml\n", "main"), (4, "@main", "main"), (4, "@", ""), (4, "@main\n{}\n", "main"),
        (2, "@firebaseDB", "@firebaseDB"), (2, "@compat", "@compat"), (2, "@admob", "@admob"), (2, "@googleMap", "@googleMap"), (5, "@MainActivity", ""), (5, "@", ""), (5, "@MainActivity.java", "")];
    let k = ch.free(cases.len()); let after = ch.free(2) == 1;
    let (file, text, name) = cases[k];
    let mut t = super::screens::empty().texts(Style { after: 1, ..Style::default() });
    if file == 2 {
        // the heading is the last line
        let keep: Vec<String> = t[2].split("@").filter(|s| !s.is_empty() && !s.starts_with(&text[1..])).map(|s| format!("@{}", s)).collect();
        t[2] = format!("{}{}", keep.join(""), text);
        if after { t[2].push('\n') }
    } else { t[file] = if after { format!("{}\n{}", if file == 4 { "@first.xml\n" } else { "@FirstActivity.java_var\n1:a\n" }, text) } else { text.to_string() } }
    ch.state(&t[file]); ch.note(|| t[file].clone());
    ch.step();
    match parse(&t) {
        Ok(_) => Err(format!("accepted: {:?}", t[file])),
        Err(e) => { let s = format!("{:?}", e); if s.contains(name) { Ok(()) } else { Err(format!("the error does not name {:?}: {}", name, s)) } }
    }
}

// ------------------------------------------------------------------ what only the conversion can see

/// (name, change, what the error has to mention)
type Fault = (&'static str, fn(&mut Value), &'static str);
const BLOCK_FAULTS: &[Fault] = &[
    ("type zz", |b| b["type"] = json!("zz"), "zz"), ("type B", |b| b["type"] = json!("B"), "\"B\""), ("empty type", |b| b["type"] = json!(""), ""), ("type bb", |b| b["type"] = json!("bb"), "bb"),
    ("unknown placeholder", |b| { b["spec"] = json!("x %q y"); b["parameters"] = json!(["1"]) }, "q"), ("no parameters", |b| { b["spec"] = json!("x %s y"); b["parameters"] = json!([]) }, ""),
    ("one parameter of two", |b| { b["spec"] = json!("%s %m.view"); b["parameters"] = json!(["1"]) }, ""), ("bad number", |b| { b["spec"] = json!("n %d"); b["parameters"] = json!(["12x"]) }, "12x"),
    ("bad boolean", |b| { b["spec"] = json!("n %b"); b["parameters"] = json!(["yes"]) }, "yes"), ("dangling argument", |b| { b["spec"] = json!("n %s"); b["parameters"] = json!(["@777"]) }, "777"),
    ("malformed reference", |b| { b["spec"] = json!("n %s"); b["parameters"] = json!(["@7x7"]) }, "7x7"), ("dangling next", |b| b["nextBlock"] = json!(778), "778"), ("dangling stack", |b| b["subStack1"] = json!(779), "779"), ("dangling second stack", |b| b["subStack2"] = json!(780), "780"),
    ("own stack", |b| { let i: i64 = b["id"].as_str().unwrap().parse().unwrap(); b["subStack1"] = json!(i) }, ""), ("malformed id", |b| b["id"] = json!("1o"), "1o"), ("empty id", |b| b["id"] = json!(""), ""),
];
fn conversion(ch: &mut Ch) -> Result<(), String> {
    let mut d = sample_doc();
    let mut want: Vec<String> = vec![];
    match ch.free(8) {
        0 => {
            let k = ch.free(4); let v = *ch.free_of(&["", "y", "n", "X", "YES", " Y", "true", "YN", "é"]);
            d.library[LIBS[k]]["useYn"] = json!(v);
            want = vec![["firebase", "compat", "admob", "map"][k].into(), format!("{:?}", v)];
        }
        1 => { let k = ch.free(3); let v = *ch.free_of(&[0, 4, 5, 6, 100, 255]); let e = &mut d.logic["MainActivity"]["events"][k]; e["eventType"] = json!(v); want = vec![e["eventName"].as_str().unwrap().into(), v.to_string(), "main".into()] }
        2 => { let k = ch.free(3); let v = *ch.free_of(&[0, 22, 23, 100, 255]); let e = &mut d.logic["MainActivity"]["components"][k]; e["type"] = json!(v); want = vec![e["componentId"].as_str().unwrap().into(), v.to_string(), "main".into()] }
        3 => { let k = ch.free(2); let v = *ch.free_of(&["%q", "x %q.name", "x %s.a %z", "%é"]); d.logic["MainActivity"]["func"][k][1] = json!(v); want = vec![["greet", "noop"][k].into(), "main".into()] }
        4 => {
            let screens = ["MainActivity", "SecondScreenActivity"]; let s = ch.free(2);
            let cs = d.logic[screens[s]]["containers"].as_array_mut().unwrap();
            let full: Vec<usize> = (0..cs.len()).filter(|i| !cs[*i][1].as_array().unwrap().is_empty()).collect();
            let c = *ch.free_of(&full); let name = cs[c][0].as_str().unwrap().to_string();
            let n = cs[c][1].as_array().unwrap().len();
            let b = ch.free(n);
            let (what, f, says) = ch.free_of(BLOCK_FAULTS);
            ch.note(|| format!("{} of block {} of {} of {}", what, b, name, screens[s]));
            // an argument's successor is not looked at
            let args: Vec<String> = cs[c][1].as_array().unwrap().iter().flat_map(|b| b["parameters"].as_array().unwrap().iter().map(|p| p.as_str().unwrap().trim_start_matches('@').to_string())).collect();
            let blk = &mut cs[c][1][b];
            let is_arg = args.contains(&blk["id"].as_str().unwrap().to_string());
            if is_arg && *what == "dangling next" { ch.skip(); return Ok(()) }
            f(blk);
            // (what is wrong with an argument block is not part of the error)
            if what.ends_with("id") && b == 0 || is_arg { want = vec![["main", "second_screen"][s].into(), name] } else if what.ends_with("id") { want = vec![["main", "second_screen"][s].into(), name] } else { want = vec![["main", "second_screen"][s].into(), name, says.to_string()] }
        }
        5 => { let k = ch.free(4); let v = *ch.free_of(&["nowhere", "text9", "", "Root", "linear11"]); let x = &mut d.view["layouts"][0][1][k]; x["parent"] = json!(v); want = vec![x["id"].as_str().unwrap().into(), "main".into()] }
        6 => { let k = ch.free(2); let (l, id) = [(2, "img1"), (3, "check1")][k]; let i = if k == 0 { 0 } else { 1 }; let x = &mut d.view["layouts"][l][1][i]; let v = *ch.free_of(&["nowhere", "", "linear1"]); x["parent"] = json!(v); want = vec![id.into(), ["row", "_drawer_second_screen"][k].into()] }
        _ => { let k = ch.free(2); let id = ["row", "_drawer_second_screen"][k]; d.view["layouts"].as_array_mut().unwrap().retain(|l| l[0] != id); want = vec![id.into()] }
    }
    if ch.free(2) == 1 { for k in LIBS { if d.library[*k]["useYn"] == "Y" { d.library[*k]["useYn"] = json!("N") } } }
    let t = d.texts(Style { after: 1, ..Style::default() });
    ch.state(&t);
    let p = parse(&t).map_err(|e| format!("loading is refused: {:?}", e))?;
    ch.steps(7);
    match SketchwareProject::try_from(p) {
        Ok(_) => Err(format!("accepted, should be refused naming {:?}", want)),
        Err(e) => { let s = format!("{:?} {}", e, e); for w in &want { if !s.contains(w.as_str()) { return Err(format!("the error does not mention {:?}: {}", w, s)) } } Ok(()) }
    }
}

pub fn c18() -> Check {
    Check { id: "C18", rule: "a project with a malformed entry is refused, with an error about the data file, heading, screen and index or text of (one of) the malformed entries",
        assumptions: &["structures written as positional JSON arrays, enumerations written as objects, number notations (1.0 for 1), flag values other than 0/1 and option bits beyond the known four are not judged", "unknown attributes and unknown headings are not malformed entries", "the `line` of library and logic errors is not judged"],
        scopes: vec![
            scope("single", "every entry of a sample project x every fault: each attribute absent, null, of every wrong type, out of range or unknown; broken syntax; malformed variables", single, ALL, ALL),
            scope("cut", "every entry cut off at every character", cut, ALL, ALL),
            scope("among", "a malformed entry at every position among up to 12, in every kind of section", among, ALL, ALL),
            scope("far", "a malformed entry among 300 or 1100, at 17 places, in every kind of section", far, ALL, ALL), scope("farther", "among 70000, at 8 places", farther, OFF, ALL),
            scope("pairs", "two malformed entries anywhere, 4 faults each", pairs, ALL, OFF), wide("pairs-20", "two malformed entries anywhere, 20 faults each", pairs, OFF, ALL),
            scope("headings", "headings without their entry or without a name", headings, ALL, ALL),
            scope("conversion", "what only the conversion can see: library switches, event and component types, moreblock specs, block types, parameters, ids and references, parents, custom views", conversion, ALL, ALL),
        ] }
}

//! Value domains: for every attribute of every kind of entry, its default and the other values
//! that are enumerated; JSON writing styles; size ladders.
use crate::dict;
use crate::engine::Ch;
use serde_json::{json, Map, Value};
use std::sync::OnceLock;

#[derive(Clone, Copy)]
pub enum Dom {
    Str,
    /// absent or a string
    Opt,
    Int(i64, i64),
    Enum(&'static [i64]),
    Names(&'static [&'static str]),
    /// 0 or 1
    Bit,
    /// "true" or "false"
    BitStr,
    Bool,
    Color,
    F32,
    /// decimal string of an u16
    NumStr,
    Date,
    Strs,
    Units,
}
use Dom::*;

pub struct Field { pub path: &'static str, pub dom: Dom, pub def: &'static str }
const fn f(path: &'static str, dom: Dom, def: &'static str) -> Field { Field { path, dom, def } }

const U8: Dom = Int(0, 255);
const U32: Dom = Int(0, 4294967295);
const I8: Dom = Int(-128, 127);
const I32: Dom = Int(-2147483648, 2147483647);

pub static FILE_ITEM: &[Field] = &[
    f("fileName", Str, "\"main\""), f("fileType", Enum(&[0, 1, 2]), "0"), f("keyboardSetting", Enum(&[0, 1, 2]), "0"),
    f("options", Int(0, 15), "1"), f("orientation", Enum(&[0, 1, 2]), "0"), f("theme", Enum(&[-1, 0, 1, 2]), "-1"),
];
pub static LIB_ITEM: &[Field] = &[
    f("adUnits", Units, "[]"), f("data", Str, "\"\""), f("libType", U8, "0"), f("reserved1", Str, "\"\""), f("reserved2", Str, "\"\""),
    f("reserved3", Str, "\"\""), f("testDevices", Strs, "[]"), f("useYn", Str, "\"N\""),
];
pub static RES_ITEM: &[Field] = &[f("resFullName", Str, "\"a.png\""), f("resName", Str, "\"a\""), f("resType", U8, "1")];
pub static PROJECT: &[Field] = &[
    f("sc_id", NumStr, "\"601\""), f("my_app_name", Str, "\"App\""), f("my_ws_name", Str, "\"Ws\""), f("my_sc_pkg_name", Str, "\"com.my.app\""),
    f("sc_ver_code", NumStr, "\"1\""), f("sc_ver_name", Str, "\"1.0\""), f("my_sc_reg_dt", Date, "\"20220131235959\""), f("custom_icon", Bool, "false"),
    f("color_primary", Color, "-16740915"), f("color_primary_dark", Color, "-16743230"), f("color_accent", Color, "-16740914"),
    f("color_control_normal", Color, "-11026706"), f("color_control_highlight", Color, "536907213"), f("sketchware_ver", U8, "150"),
];
pub static VIEW: &[Field] = &[
    f("adSize", Str, "\"\""), f("adUnitId", Str, "\"\""), f("alpha", F32, "1.0"), f("checked", Bit, "0"), f("choiceMode", Enum(&[0, 1, 2]), "0"),
    f("clickable", Bit, "1"), f("customView", Str, "\"\""), f("dividerHeight", U32, "1"), f("enabled", Bit, "1"), f("firstDayOfWeek", U8, "1"),
    f("id", Str, "\"linear1\""),
    f("image.resName", Opt, "null"), f("image.rotate", Int(-32768, 32767), "0"),
    f("image.scaleType", Names(&["CENTER", "FIT_XY", "FIT_START", "FIT_CENTER", "FIT_END", "CENTER_CROP", "CENTER_INSIDE"]), "\"CENTER\""),
    f("indeterminate", BitStr, "\"false\""), f("index", U32, "0"),
    f("layout.backgroundColor", Color, "16777215"), f("layout.gravity", U8, "0"), f("layout.height", I32, "-2"), f("layout.layoutGravity", U8, "0"),
    f("layout.marginBottom", U32, "0"), f("layout.marginLeft", U32, "0"), f("layout.marginRight", U32, "0"), f("layout.marginTop", U32, "0"),
    f("layout.orientation", Enum(&[1, 0, -1]), "1"),
    f("layout.paddingBottom", U32, "8"), f("layout.paddingLeft", U32, "8"), f("layout.paddingRight", U32, "8"), f("layout.paddingTop", U32, "8"),
    f("layout.weight", U32, "0"), f("layout.weightSum", U32, "0"), f("layout.width", I32, "-1"),
    f("max", U32, "100"), f("parent", Opt, "\"root\""), f("parentType", I8, "0"), f("preId", Opt, "\"\""), f("preIndex", I32, "0"),
    f("preParent", Opt, "null"), f("preParentType", I8, "0"), f("progress", U32, "0"), f("progressStyle", Str, "\"?android:progressBarStyle\""),
    f("scaleX", F32, "1.0"), f("scaleY", F32, "1.0"), f("spinnerMode", Enum(&[0, 1]), "1"),
    f("text.hint", Str, "\"\""), f("text.hintColor", Color, "-10453621"), f("text.imeOption", Enum(&[0, 1, 2, 3, 4, 5, 6]), "0"),
    f("text.inputType", Enum(&[1, 3, 129, 4098, 8194, 12290]), "1"), f("text.line", U32, "0"), f("text.singleLine", Bit, "0"),
    f("text.text", Str, "\"\""), f("text.textColor", Color, "-16777216"), f("text.textFont", Str, "\"default_font\""), f("text.textSize", U32, "12"),
    f("text.textType", Enum(&[0, 1, 2, 3]), "0"),
    f("translationX", F32, "0.0"), f("translationY", F32, "0.0"), f("type", U8, "0"),
];
pub static EVENT: &[Field] = &[f("eventName", Str, "\"onClick\""), f("eventType", U8, "1"), f("targetId", Str, "\"linear1\""), f("targetType", U8, "0")];
pub static COMPONENT: &[Field] = &[
    f("componentId", Str, "\"cmp\""), f("param1", Str, "\"\""), f("param2", Str, "\"\""), f("param3", Str, "\"\""), f("type", U8, "1"),
];
pub static BLOCK: &[Field] = &[
    f("color", Color, "-7711273"), f("id", Str, "\"10\""), f("nextBlock", I32, "-1"), f("opCode", Str, "\"doToast\""), f("parameters", Strs, "[\"hi\"]"),
    f("spec", Str, "\"Toast %s\""), f("subStack1", I32, "-1"), f("subStack2", I32, "-1"), f("type", Str, "\" \""), f("typeName", Str, "\"\""),
];

// ------------------------------------------------------------------ values

pub fn strings_small() -> Vec<&'static str> {
    vec!["", "a", "Ab9_z", "a b", " x ", "q\"\\/", "é漢😀", "a:b.c,d", "@main.xml", "l1\nl2\r\t", "null", "{\"k\":[1]}", "%s"]
}

pub fn strings_wide() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in 0..0x180u32 { if let Some(c) = char::from_u32(c) { v.push(c.to_string()); } }
    for c in ['\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '漢', 'ﬁ', '\u{200b}', '\u{0301}'] {
        v.push(c.to_string()); v.push(format!("a{}b", c));
    }
    for n in lengths() { v.push("x".repeat(n)); if n > 0 && n < 400 { v.push("é".repeat(n)); } }
    for k in KEYWORDS { v.push(k.to_string()); }
    v.extend(dict::words().iter().cloned());
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}

pub static KEYWORDS: &[&str] = &["main", "MAIN", "Main", "root", "true", "false", "null", "None", "0", "1", "-1", "00", "01", "1.0", "1e3", "NaN", "Infinity",
    "Y", "N", "y", "n", "@activity", "@customview", "@images", "@sounds", "@fonts", "@firebaseDB", "@compat", "@admob", "@googleMap", "@main.xml", "@main.xml_fab",
    "@MainActivity.java_var", "@MainActivity.java_onCreate_initializeLogic", ".java_", "java_var", "onCreate", "_initializeLogic", "_moreBlock", "default_font",
    "\\n", "\\u0041", "\\\\", "//", "/*", "a\nb", "a\r\nb", "\n", "\n\n", "\n@activity\n", "a\tb", "'", "''", "\"\"", "{}", "[]", "{", "}", "%", "%%", "%s", "%d.name", "%m", "@", "@10", "a.png",
    "images", "_drawer_main", "  ", " a", "a ", "a  b", "\u{a0}x\u{a0}", "Hello, World!", "<b>&amp;</b>", "http://a.b/c?d=e&f=g", "C:\\x"];

pub fn lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=64).collect();
    v.extend([99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000]);
    v.extend(dict::counts(140_000));
    v.sort(); v.dedup();
    v
}

/// list sizes worth distinguishing
pub fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1025]);
    v.extend(dict::counts(1100));
    v.sort(); v.dedup();
    v
}

pub fn colors_small() -> Vec<i64> { vec![0, -1, 1, -2147483648, 2147483647, -16777216, 16777215, 0x12345678, -559038737, 255, 65280, 16711680] }

fn ints(lo: i64, hi: i64, wide: bool) -> Vec<i64> {
    let mut v = vec![lo, hi, -2, -1, 0, 1, 2, 10, 100];
    if wide {
        for k in 0..33u32 { let p = 1i64 << k; v.extend([p - 1, p, p + 1, -p - 1, -p, -p + 1]); }
        v.extend(-20..260);
        let mut p = 10; while p < 10_000_000_000 { v.extend([p - 1, p, p + 1, 3 * p + 7, -p]); p *= 10 }
        v.extend([lo + 1, hi - 1]);
        for n in &dict::dict().ints { if n.abs() < 1 << 60 { v.extend([n - 1, *n, n + 1, -n, 1 - n, -1 - n]) } }
    }
    let mut out = vec![];
    for x in v { if x >= lo && x <= hi && !out.contains(&x) { out.push(x) } }
    out
}

impl Dom {
    pub fn values(&self, wide: bool) -> Vec<Value> {
        let mut v: Vec<Value> = match self {
            Str | Opt => if wide { strings_wide().into_iter().map(Value::from).collect() } else { strings_small().into_iter().map(Value::from).collect() },
            Int(lo, hi) => ints(*lo, *hi, wide).into_iter().map(Value::from).collect(),
            Enum(xs) => xs.iter().map(|x| json!(x)).collect(),
            Names(xs) => xs.iter().map(|x| json!(x)).collect(),
            Bit => vec![json!(0), json!(1)],
            BitStr => vec![json!("false"), json!("true")],
            Bool => vec![json!(false), json!(true)],
            Color => if wide {
                let mut v: Vec<i64> = colors_small();
                for k in 0..32 { v.push((1u32 << k) as i32 as i64); v.push(!(1u32 << k) as i32 as i64); }
                for b in 0..=255u32 { v.push((0xff000000u32 | b << 16 | b << 8 | b) as i32 as i64); v.push((b << 24) as i32 as i64); }
                for n in &dict::dict().ints { v.push(*n as u32 as i32 as i64) }
                v.into_iter().map(Value::from).collect()
            } else { colors_small().into_iter().map(Value::from).collect() },
            F32 => {
                let mut v = vec![0.0, 1.0, 0.5, 0.1, -1.25, 100.0];
                if wide { v.extend([2.0, 0.3, 0.25, 1e-7, 3.4028235e38, -3.4028235e38, 1.1754944e-38, 16777216.0, 0.33333334, 12345.678, -0.1, 99.9]); v.extend(dict::dict().floats.iter().filter(|f| f.abs() < 1e9)); }
                v.into_iter().map(|x: f64| json!(x)).collect()
            }
            NumStr => if wide {
                let mut v: Vec<Value> = (0..300).map(|i| json!(i.to_string())).collect();
                v.extend(["600", "601", "999", "1000", "9999", "10000", "32767", "32768", "65534", "65535"].iter().map(|s| json!(s)));
                v
            } else { ["0", "1", "9", "10", "600", "999", "65535"].iter().map(|s| json!(s)).collect() },
            Date => ["19700101000000", "20220131235959", "19691231235959", "00000101000000", "99991231235959", "20000229000000", "20210709010203", "20301010101010", "16010101000001"]
                .iter().map(|s| json!(s)).collect(),
            Strs => {
                let mut v = vec![json!([]), json!(["a"]), json!(["", "b", "a"]), json!(["x", "x"]), json!(["é\n", "\"", "@10"])];
                if wide { for n in sizes() { v.push(Value::from((0..n).map(|i| format!("p{}", i)).collect::<Vec<_>>())) } for s in strings_wide() { v.push(json!([s])) } }
                v
            }
            Units => {
                let mut v = vec![json!([]), json!([{"id": "i", "name": "n"}]), json!([{"id": "b", "name": ""}, {"id": "a", "name": "é\""}, {"id": "b", "name": "x"}]), json!([{"id": "b", "name": "n"}, {"id": "c", "name": "n"}, {"id": "b", "name": "n"}])];
                if wide { for s in strings_wide() { v.push(json!([{"id": s, "name": "n"}, {"id": "i", "name": s}])) } }
                if wide { for n in sizes() { v.push(Value::from((0..n).map(|i| json!({"id": format!("i{}", i), "name": format!("n{}", i)})).collect::<Vec<_>>())) } }
                v
            }
        };
        if let Opt = self { v.insert(0, Value::Null) }
        v
    }
}

pub struct Table { pub fields: Vec<(&'static str, Vec<Value>, Vec<Value>, Dom)> }
static TABLES: OnceLock<Vec<(usize, Table)>> = OnceLock::new();

fn build(fields: &'static [Field]) -> Table {
    Table { fields: fields.iter().map(|fd| {
        let def: Value = serde_json::from_str(fd.def).unwrap();
        let list = |w: bool| { let mut v = vec![def.clone()]; for x in fd.dom.values(w) { if !v.contains(&x) { v.push(x) } } v };
        (fd.path, list(false), list(true), fd.dom)
    }).collect() }
}
pub fn table(fields: &'static [Field]) -> &'static Table {
    let all = TABLES.get_or_init(|| [FILE_ITEM, LIB_ITEM, RES_ITEM, PROJECT, VIEW, EVENT, COMPONENT, BLOCK].iter().map(|t| (t.as_ptr() as usize, build(t))).collect());
    &all.iter().find(|t| t.0 == fields.as_ptr() as usize).expect("table").1
}

/// sets a (possibly nested) attribute; Null removes it
pub fn set(v: &mut Value, path: &str, x: Value) {
    let m = v.as_object_mut().unwrap();
    match path.split_once('.') {
        Some((h, t)) => set(m.entry(h).or_insert_with(|| Value::Object(Map::new())), t, x),
        None => if x.is_null() { m.remove(path); } else { m.insert(path.to_string(), x); },
    }
}
pub fn get<'a>(v: &'a Value, path: &str) -> &'a Value {
    match path.split_once('.') { Some((h, t)) => get(&v[h], t), None => &v[path] }
}

pub fn default(fields: &'static [Field]) -> Value {
    let mut v = json!({});
    for (p, small, _, _) in &table(fields).fields { set(&mut v, p, small[0].clone()) }
    v
}
/// default with some attributes set
pub fn with(fields: &'static [Field], over: &[(&str, Value)]) -> Value {
    let mut v = default(fields);
    for (p, x) in over { set(&mut v, p, x.clone()) }
    v
}

/// the entry number `i` of a long list: every attribute has a value of its own kind's domain, and goes
/// through it from entry to entry (texts of a small domain, one attribute per entry of the wide one)
pub fn rich(fields: &'static [Field], i: usize, over: &[(&str, Value)]) -> Value {
    let mut v = json!({});
    let t = &table(fields).fields;
    for (j, (p, small, big, dom)) in t.iter().enumerate() {
        let of = if matches!(dom, Str | Opt | Strs | Units) && i % t.len() != j { small } else { big };
        let x = &of[(i + i / of.len() + j * 11) % of.len()];
        let long = match x { Value::String(s) => s.len() > 600, Value::Array(a) => a.len() > 40, _ => false };
        set(&mut v, p, if long { small[0].clone() } else { x.clone() });
    }
    for (p, x) in over { set(&mut v, p, x.clone()) }
    v
}

/// an entry: every attribute is a choice point
pub fn gen(ch: &mut Ch, fields: &'static [Field]) -> Value {
    let mut v = default(fields);
    vary(ch, fields, &mut v, &[]);
    v
}
pub fn vary(ch: &mut Ch, fields: &'static [Field], v: &mut Value, skip: &[&str]) {
    let wide = ch.wide;
    for (p, small, big, _) in &table(fields).fields {
        if skip.contains(p) { continue }
        let vals = if wide { big } else { small };
        // the first choice keeps the value
        let keep = *get(v, p) == vals[0];
        let i = ch.pick(vals.len() + !keep as usize);
        if i > 0 { set(v, p, vals[i - !keep as usize].clone()) }
    }
}

// ------------------------------------------------------------------ JSON writing styles

pub const STYLES: usize = 4;

/// 0 compact, 1 keys reversed and spaced, 2 every character of strings but letters and digits escaped, 3 floats
/// without a needless fraction, keys rotated
pub fn write(v: &Value, style: usize) -> String {
    let mut s = String::new();
    w(v, style, &mut s);
    s
}
fn w(v: &Value, style: usize, out: &mut String) {
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            if style == 1 { ks.reverse() }
            if style == 3 && ks.len() > 1 { let n = ks.len() / 2; ks.rotate_left(n) }
            out.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 { out.push_str(if style == 1 { " , " } else { "," }) }
                ws(k, if style == 2 { 0 } else { style }, out);
                out.push_str(if style == 1 { " : " } else { ":" });
                w(&m[*k], style, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { out.push_str(if style == 1 { " , " } else { "," }) } w(x, style, out) }
            out.push(']');
        }
        Value::String(s) => ws(s, style, out),
        Value::Number(n) if style == 3 && n.is_f64() && n.as_f64().unwrap().fract() == 0.0 && n.as_f64().unwrap().abs() < 1e9 => out.push_str(&(n.as_f64().unwrap() as i64).to_string()),
        x => out.push_str(&x.to_string()),
    }
}
fn ws(s: &str, style: usize, out: &mut String) {
    if style != 2 { out.push_str(&Value::from(s).to_string()); return }
    out.push('"');
    for c in s.chars() {
        if c.is_ascii_alphanumeric() { out.push(c) } else { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { out.push_str(&format!("\\u{:04x}", u)) } }
    }
    out.push('"');
}

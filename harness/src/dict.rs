//! A dictionary of the constants that occur in the library's current source: what a value-specific
//! branch of the code compares with is, nearly always, written there. They only extend the enumerated
//! value domains; what has to hold for a value does not depend on where it comes from.
use std::sync::OnceLock;

const SOURCE: &str = "/repo/src";

#[derive(Default)]
pub struct Dict { pub texts: Vec<String>, pub ints: Vec<i64>, pub floats: Vec<f64> }

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk(std::path::Path::new(SOURCE), &mut files);
        files.sort();
        let mut d = Dict::default();
        for f in files { if let Ok(t) = std::fs::read_to_string(&f) { scan(&t, &mut d) } }
        d.texts.sort(); d.texts.dedup();
        d.ints.sort(); d.ints.dedup();
        d.floats.sort_by(f64::total_cmp); d.floats.dedup();
        d
    })
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(r) = std::fs::read_dir(p) else { return };
    for e in r.flatten() {
        let p = e.path();
        if p.is_dir() { walk(&p, out) } else if p.extension().is_some_and(|x| x == "rs") { out.push(p) }
    }
}

/// a text literal without its `{..}` holes
fn text(lit: &str, d: &mut Dict) {
    let mut part = String::new();
    let mut depth = 0;
    let mut flush = |part: &mut String| {
        // prose is not a value
        if !part.is_empty() && part.chars().count() <= 24 && part.matches(' ').count() <= 2 { d.texts.push(part.clone()) }
        part.clear();
    };
    for c in lit.chars() {
        match c {
            '{' => { flush(&mut part); depth += 1 }
            '}' if depth > 0 => depth -= 1,
            c if depth == 0 => part.push(c),
            _ => {}
        }
    }
    flush(&mut part);
}

fn number(t: &str, d: &mut Dict) {
    let t = t.replace('_', "");
    let cut = |s: &str, radix: u32| { let e = s.find(|c: char| !c.is_digit(radix)).unwrap_or(s.len()); i128::from_str_radix(&s[..e], radix).ok() };
    let v = if let Some(h) = t.strip_prefix("0x") { cut(h, 16) } else if let Some(b) = t.strip_prefix("0b") { cut(b, 2) } else if let Some(o) = t.strip_prefix("0o") { cut(o, 8) }
        else if t.contains('.') || (t.contains('e') && !t.contains("size")) { if let Ok(f) = t.trim_end_matches("f32").trim_end_matches("f64").parse::<f64>() { d.floats.push(f) } None }
        else { if t.ends_with("f32") || t.ends_with("f64") { if let Ok(f) = t[..t.len() - 3].parse::<f64>() { d.floats.push(f) } } cut(&t, 10) };
    if let Some(v) = v { if v >= i64::MIN as i128 && v <= i64::MAX as i128 { d.ints.push(v as i64) } }
}

/// constants outside comments and attributes
fn scan(src: &str, d: &mut Dict) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut attr = 0usize; // depth of brackets inside an attribute
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' { while i < c.len() && c[i] != '\n' { i += 1 } continue }
        if x == '/' && at(i + 1) == '*' {
            let mut n = 1; i += 2;
            while i < c.len() && n > 0 { if c[i] == '/' && at(i + 1) == '*' { n += 1; i += 1 } else if c[i] == '*' && at(i + 1) == '/' { n -= 1; i += 1 } i += 1 }
            continue;
        }
        if x == '#' && (at(i + 1) == '[' || (at(i + 1) == '!' && at(i + 2) == '[')) { attr = 1; i += if at(i + 1) == '[' { 2 } else { 3 }; continue }
        if attr > 0 { if x == '[' { attr += 1 } if x == ']' { attr -= 1 } }
        if x.is_alphabetic() || x == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 }
            // raw text
            let w: String = c[s..i].iter().collect();
            if (w == "r" || w == "br") && (at(i) == '"' || (at(i) == '#' && (at(i + 1) == '"' || at(i + 1) == '#'))) {
                let mut h = 0; while at(i) == '#' { h += 1; i += 1 }
                if at(i) != '"' { continue }
                i += 1;
                let s = i;
                let end: Vec<char> = std::iter::once('"').chain(std::iter::repeat('#').take(h)).collect();
                while i < c.len() && !c[i..].starts_with(&end) { i += 1 }
                if attr == 0 { text(&c[s..i.min(c.len())].iter().collect::<String>(), d) }
                i += end.len();
            }
            continue;
        }
        if x.is_ascii_digit() {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '.' && at(i + 1).is_ascii_digit() && !c[s..i].contains(&'.'))) { i += 1 }
            if attr == 0 { number(&c[s..i].iter().collect::<String>(), d) }
            continue;
        }
        if x == '"' || x == '\'' {
            // a lifetime or a label
            if x == '\'' && at(i + 1) != '\\' && at(i + 2) != '\'' { i += 1; continue }
            i += 1;
            let mut t = String::new();
            while i < c.len() && c[i] != x {
                if c[i] != '\\' { t.push(c[i]); i += 1; continue }
                i += 1;
                match at(i) {
                    'n' => t.push('\n'), 't' => t.push('\t'), 'r' => t.push('\r'), '0' => t.push('\0'),
                    'x' => { if let Some(v) = u32::from_str_radix(&c[(i + 1).min(c.len())..(i + 3).min(c.len())].iter().collect::<String>(), 16).ok().and_then(char::from_u32) { t.push(v) } i += 2 }
                    'u' => {
                        let e = (i..c.len()).find(|k| c[*k] == '}').unwrap_or(i);
                        let h: String = c[i..e].iter().filter(|k| k.is_ascii_hexdigit()).collect();
                        if let Some(v) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { t.push(v) }
                        i = e;
                    }
                    '\n' => { while at(i + 1).is_whitespace() { i += 1 } }
                    o => t.push(o),
                }
                i += 1;
            }
            i += 1;
            if attr == 0 { if x == '\'' { d.texts.push(t) } else { text(&t, d) } }
            continue;
        }
        i += 1;
    }
}

/// the texts of the source, alone and as parts of longer names, in other cases; its numbers as texts
pub fn words() -> &'static Vec<String> {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let d = dict();
        let mut v = vec![];
        for t in d.texts.iter().flat_map(|t| [t.as_str(), t.trim_matches('\n')]).filter(|t| !t.is_empty()) {
            for x in [t.to_string(), format!("a{}", t), format!("{}a", t), format!("x{}y", t), t.to_uppercase(), t.to_lowercase(), format!("{}{}", t, t)] { v.push(x) }
        }
        for n in &d.ints { v.push(n.to_string()) }
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert(x.clone()));
        v
    })
}
/// lengths and numbers of entries around the source's numbers
pub fn counts(max: i64) -> Vec<usize> {
    let mut v = vec![];
    for n in &dict().ints { for k in n - 1..=n + 1 { if k >= 0 && k <= max { v.push(k as usize) } } }
    v.sort(); v.dedup();
    v
}

/// names that are easily mistaken for `s`
pub fn kin(s: &str) -> Vec<String> {
    let mut v = vec![s.to_uppercase(), s.to_lowercase(), format!(" {}", s), format!("_{}", s), format!("{}_", s), format!("{}0", s), format!("{}1", s), format!("{}2", s), format!("0{}", s), format!("{}{}", s, s),
        s.chars().rev().collect(), s.chars().skip(1).collect(), s.chars().take(s.chars().count().saturating_sub(1)).collect(), s.replace('_', ""), format!("{}é", s), format!("{}.x", s), format!("x.{}", s), format!("{}\u{0301}", s)];
    let mut f = s.chars();
    if let Some(c) = f.next() { v.push(c.to_uppercase().chain(f).collect()) }
    if let Some((a, b)) = s.rsplit_once('.') { v.push(a.into()); v.push(b.into()); v.push(format!("{}.{}", a, b.to_uppercase())); v.push(format!("{}.{}", a.to_uppercase(), b)); v.push(format!("{}_1.{}", a, b)) }
    for t in &dict().texts { v.push(format!("{}{}", s, t)); v.push(format!("{}{}", t, s)) }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| x != s && seen.insert(x.clone()));
    v
}
/// pairs of names that are easily mistaken for each other, in both orders
pub fn pairs() -> &'static Vec<(String, String)> {
    static P: OnceLock<Vec<(String, String)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        for b in ["main", "ab_c1", "Pic.png", "é x"] { for k in kin(b) { v.push((b.to_string(), k.clone())); v.push((k, b.to_string())) } }
        v
    })
}

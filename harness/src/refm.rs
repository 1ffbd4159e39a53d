//! Reference models, written from the file formats and not from the library: a Sketchware-like
//! reader of the data files, AES, calendar, naming, block specs and block graphs.
use serde_json::Value;
use std::collections::{BTreeMap, HashMap, HashSet};

// ------------------------------------------------------------------ data files

/// Reads the sections of a data file the way Sketchware does: blank lines mean nothing, a line
/// starting with @ opens a section, any other line is an entry of the open section.
pub fn sections(text: &str) -> Result<Vec<(String, Vec<String>)>, String> {
    let mut out: Vec<(String, Vec<String>)> = vec![];
    for l in text.split('\n') {
        if l.is_empty() { continue }
        if let Some(h) = l.strip_prefix('@') { out.push((h.to_string(), vec![])); continue }
        match out.last_mut() {
            Some(s) => s.1.push(l.to_string()),
            None => return Err(format!("entry `{}` before any heading", l)),
        }
    }
    Ok(out)
}

pub fn json(l: &str) -> Result<Value, String> { serde_json::from_str(l).map_err(|e| format!("not JSON ({}): {}", e, l)) }

/// numbers compare by value (1 and 1.0 are the same), everything else structurally
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if let (Some(p), Some(q)) = (x.as_i64(), y.as_i64()) { p == q }
            else if let (Some(p), Some(q)) = (x.as_u64(), y.as_u64()) { p == q }
            else { match (x.as_f64(), y.as_f64()) { (Some(p), Some(q)) => p == q || (p - q).abs() <= 1e-12 * p.abs(), _ => false } }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        _ => a == b,
    }
}

/// where two documents differ
pub fn diff(a: &Value, b: &Value) -> String {
    fn go(p: &str, a: &Value, b: &Value, out: &mut Vec<String>) {
        if out.len() > 6 || same(a, b) { return }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                let keys: std::collections::BTreeSet<&String> = x.keys().chain(y.keys()).collect();
                for k in keys {
                    match (x.get(k), y.get(k)) {
                        (Some(v), Some(w)) => go(&format!("{}.{}", p, k), v, w, out),
                        (Some(v), None) => out.push(format!("{}.{}: missing, expected {}", p, k, short(v))),
                        (None, Some(w)) => out.push(format!("{}.{}: unexpected {}", p, k, short(w))),
                        _ => {}
                    }
                }
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() { out.push(format!("{}: {} entries, expected {}", p, y.len(), x.len())) }
                for i in 0..x.len().min(y.len()) { go(&format!("{}[{}]", p, i), &x[i], &y[i], out) }
            }
            _ => out.push(format!("{}: got {}, expected {}", p, short(b), short(a))),
        }
    }
    let mut o = vec![];
    go("", a, b, &mut o);
    o.join("; ")
}
fn short(v: &Value) -> String { crate::engine::trunc(&v.to_string(), 160) }

pub fn want(what: &str, expected: &Value, got: &Value) -> Result<(), String> {
    if same(expected, got) { Ok(()) } else { Err(format!("{}: {}", what, diff(expected, got))) }
}

// ------------------------------------------------------------------ calendar

pub fn is_leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn month_len(y: i64, m: i64) -> i64 {
    match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, _ => if is_leap(y) { 29 } else { 28 } }
}
/// days since 1970-01-01 of the proleptic Gregorian calendar, by counting years
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    let before = |y: i64| -> i64 { // days in the years 0..y
        let n = y - 1; // years 0..=n
        if y == 0 { 0 } else { 365 * y + n / 4 - n / 100 + n / 400 + 1 }
    };
    let mut days = before(y) - before(1970);
    for k in 1..m { days += month_len(y, k) }
    days + d - 1
}

// ------------------------------------------------------------------ names

pub fn java_name(layout: &str) -> String {
    let mut out = String::new();
    for part in layout.split('_') {
        let mut cs = part.chars();
        if let Some(c) = cs.next() { out.push(if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c }); out.push_str(cs.as_str()) }
    }
    out + "Activity"
}

// ------------------------------------------------------------------ AES-128-CBC/PKCS#7, from FIPS 197

pub mod aes {
    fn xt(a: u8) -> u8 { (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 }) }
    fn mul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 == 1 { r ^= a } a = xt(a); b >>= 1 } r }
    fn sbox() -> [u8; 256] {
        let mut s = [0u8; 256];
        for x in 0..256usize {
            let mut inv = 0u8;
            if x != 0 { for y in 1..=255u8 { if mul(x as u8, y) == 1 { inv = y; break } } }
            let mut r = inv;
            for k in 1..5 { r ^= inv.rotate_left(k) }
            s[x] = r ^ 0x63;
        }
        s
    }
    pub struct Aes { rk: [[u8; 16]; 11], s: [u8; 256], si: [u8; 256], m: [[u8; 256]; 4] }
    impl Aes {
        pub fn new(key: &[u8; 16]) -> Aes {
            let s = sbox();
            let mut w = [[0u8; 4]; 44];
            for i in 0..4 { w[i].copy_from_slice(&key[4 * i..4 * i + 4]) }
            let mut rcon = 1u8;
            for i in 4..44 {
                let mut t = w[i - 1];
                if i % 4 == 0 {
                    t.rotate_left(1);
                    for b in t.iter_mut() { *b = s[*b as usize] }
                    t[0] ^= rcon; rcon = xt(rcon);
                }
                for k in 0..4 { w[i][k] = w[i - 4][k] ^ t[k] }
            }
            let mut rk = [[0u8; 16]; 11];
            for r in 0..11 { for c in 0..4 { for k in 0..4 { rk[r][4 * c + k] = w[4 * r + c][k] } } }
            let mut si = [0u8; 256];
            for x in 0..256 { si[s[x] as usize] = x as u8 }
            let mut m = [[0u8; 256]; 4];
            for (j, f) in [14u8, 11, 13, 9].into_iter().enumerate() { for x in 0..256 { m[j][x] = mul(x as u8, f) } }
            Aes { rk, s, si, m }
        }
        fn block(&self, b: &mut [u8; 16]) {
            for k in 0..16 { b[k] ^= self.rk[0][k] }
            for r in 1..11 {
                let mut t = [0u8; 16];
                for c in 0..4 { for k in 0..4 { t[4 * c + k] = self.s[b[4 * ((c + k) % 4) + k] as usize] } }
                if r < 10 {
                    for c in 0..4 {
                        let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                        for k in 0..4 { t[4 * c + k] = xt(a[k]) ^ (xt(a[(k + 1) % 4]) ^ a[(k + 1) % 4]) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4] }
                    }
                }
                for k in 0..16 { b[k] = t[k] ^ self.rk[r][k] }
            }
        }
        fn unblock(&self, b: &mut [u8; 16]) {
            let (si, m) = (&self.si, &self.m);
            for r in (1..11).rev() {
                for k in 0..16 { b[k] ^= self.rk[r][k] }
                if r < 10 {
                    for c in 0..4 {
                        let a = [b[4 * c], b[4 * c + 1], b[4 * c + 2], b[4 * c + 3]];
                        for k in 0..4 { b[4 * c + k] = (0..4).fold(0, |x, j| x ^ m[j][a[(k + j) % 4] as usize]) }
                    }
                }
                let mut t = [0u8; 16];
                for c in 0..4 { for k in 0..4 { t[4 * ((c + k) % 4) + k] = si[b[4 * c + k] as usize] } }
                *b = t;
            }
            for k in 0..16 { b[k] ^= self.rk[0][k] }
        }
        /// what the bytes decrypt to, if they are a ciphertext
        pub fn plain(&self, iv: &[u8; 16], data: &[u8]) -> Option<Vec<u8>> {
            if data.is_empty() || data.len() % 16 != 0 { return None }
            let mut out = Vec::with_capacity(data.len());
            let mut prev: &[u8] = iv;
            for ch in data.chunks(16) {
                let mut b: [u8; 16] = ch.try_into().unwrap();
                self.unblock(&mut b);
                for k in 0..16 { b[k] ^= prev[k] }
                out.extend_from_slice(&b);
                prev = ch;
            }
            let pad = *out.last().unwrap() as usize;
            if pad == 0 || pad > 16 || out[out.len() - pad..].iter().any(|b| *b as usize != pad) { return None }
            out.truncate(out.len() - pad);
            Some(out)
        }
        pub fn cbc_raw(&self, iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
            let mut prev = *iv;
            let mut out = Vec::with_capacity(data.len());
            for ch in data.chunks(16) {
                let mut b = prev;
                for k in 0..16 { b[k] ^= ch[k] }
                self.block(&mut b);
                out.extend_from_slice(&b);
                prev = b;
            }
            out
        }
        pub fn cbc(&self, iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
            let pad = 16 - data.len() % 16;
            let mut p = data.to_vec();
            p.extend(std::iter::repeat(pad as u8).take(pad));
            self.cbc_raw(iv, &p)
        }
    }
}

// ------------------------------------------------------------------ block specs

#[derive(Debug, Clone, PartialEq)]
pub enum Val { Text(String), Num(f64), Bool(bool), Ref(u32), Unset, Tree(Box<Node>) }

#[derive(Debug, Clone, PartialEq)]
pub enum Item { Word(String), Arg(char, Option<String>, Val) }

/// A block spec word by word. None: the word is not a placeholder this format knows.
pub fn spec_word(w: &str) -> Option<Item> {
    let cs: Vec<char> = w.chars().collect();
    if cs.is_empty() || cs[0] != '%' || cs.len() == 1 { return Some(Item::Word(w.to_string())) }
    let name = if cs.len() > 3 && cs[2] == '.' { Some(cs[3..].iter().collect::<String>()) } else { None };
    match cs[1] {
        's' | 'd' | 'b' => Some(Item::Arg(cs[1], name, Val::Unset)),
        'm' if name.is_some() => Some(Item::Arg('m', name, Val::Unset)),
        _ => None,
    }
}

/// is the word one whose placeholder form is defined (%x or %x.name, or plain text)?
pub fn spec_word_defined(w: &str) -> bool {
    let cs: Vec<char> = w.chars().collect();
    if cs.is_empty() || cs[0] != '%' || cs.len() <= 2 { return true }
    if !['s', 'd', 'b', 'm'].contains(&cs[1]) { return true }
    cs[2] == '.' && cs.len() > 3
}

pub fn spec(s: &str) -> Option<Vec<Item>> { s.split(' ').map(spec_word).collect() }

/// numbers in the plain decimal notation Sketchware writes
pub fn number(s: &str) -> Option<f64> {
    let t = s.strip_prefix('-').or_else(|| s.strip_prefix('+')).unwrap_or(s);
    let (mant, exp) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
    let (int, frac) = mant.split_once('.').unwrap_or((mant, "0"));
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    if !digits(int) || !digits(frac) { return None }
    if let Some(e) = exp { let e = e.strip_prefix('-').or_else(|| e.strip_prefix('+')).unwrap_or(e); if !digits(e) { return None } }
    s.parse().ok()
}

/// the value of a parameter for a placeholder; Err: refused
pub fn param(kind: char, p: &str) -> Result<Val, ()> {
    if let Some(r) = p.strip_prefix('@') {
        if r.is_empty() || !r.bytes().all(|b| b.is_ascii_digit()) { return Err(()) }
        return r.parse::<u32>().map(Val::Ref).map_err(|_| ());
    }
    match kind {
        's' | 'm' => Ok(Val::Text(p.to_string())),
        _ if p.is_empty() => Ok(Val::Unset),
        'd' => number(p).map(Val::Num).ok_or(()),
        _ => match p { "true" => Ok(Val::Bool(true)), "false" => Ok(Val::Bool(false)), _ => Err(()) },
    }
}

/// spec with parameters, in order
pub fn content(s: &str, params: &[String]) -> Result<Vec<Item>, ()> {
    let mut items = spec(s).ok_or(())?;
    let mut it = params.iter();
    for i in items.iter_mut() {
        if let Item::Arg(k, _, v) = i { *v = param(*k, it.next().ok_or(())?)? }
    }
    Ok(items)
}

pub fn render(items: &[Item]) -> String {
    items.iter().map(|i| match i {
        Item::Word(w) => w.clone(),
        Item::Arg(k, n, _) => match n { Some(n) => format!("%{}.{}", k, n), None => format!("%{}", k) },
    }).collect::<Vec<_>>().join(" ")
}

// ------------------------------------------------------------------ block graphs

/// a raw block, as it stands in a data file
#[derive(Debug, Clone, PartialEq)]
pub struct Raw {
    pub color: i64, pub id: String, pub next: i64, pub op: String, pub params: Vec<String>, pub spec: String,
    pub ss1: i64, pub ss2: i64, pub ty: String, pub tn: String,
}

/// a block of a program
#[derive(Debug, Clone, PartialEq)]
pub struct Node {
    pub color: i64, pub op: String, pub items: Vec<Item>, pub ty: String, pub tn: String,
    pub ss1: Option<Vec<Node>>, pub ss2: Option<Vec<Node>>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Bad { Refused(String), OutOfDomain }

/// what program a raw block list describes
pub fn interpret(list: &[Raw]) -> Result<Vec<Node>, Bad> {
    let mut idx: HashMap<i64, usize> = HashMap::new();
    for (i, b) in list.iter().enumerate() {
        let id: i64 = match b.id.parse::<u32>() { Ok(x) => x as i64, Err(_) => return Err(Bad::Refused(format!("id {}", b.id))) };
        if idx.insert(id, i).is_some() { return Err(Bad::OutOfDomain) }
    }
    if list.is_empty() { return Ok(vec![]) }
    let mut seen = HashSet::new();
    let mut weird = false;
    let r = chain(list, &idx, list[0].id.parse::<u32>().unwrap() as i64, &mut seen, &mut weird);
    if weird { return Err(Bad::OutOfDomain) }
    r
}

fn chain(list: &[Raw], idx: &HashMap<i64, usize>, start: i64, seen: &mut HashSet<i64>, weird: &mut bool) -> Result<Vec<Node>, Bad> {
    let mut out = vec![];
    let mut cur = start;
    loop {
        let next = match idx.get(&cur) { Some(i) => list[*i].next, None => return Err(Bad::Refused(format!("dangling {}", cur))) };
        out.push(node(list, idx, cur, seen, weird)?);
        if next < 0 { return Ok(out) }
        cur = next;
    }
}

fn node(list: &[Raw], idx: &HashMap<i64, usize>, id: i64, seen: &mut HashSet<i64>, weird: &mut bool) -> Result<Node, Bad> {
    let b = match idx.get(&id) { Some(i) => &list[*i], None => return Err(Bad::Refused(format!("dangling {}", id))) };
    if !seen.insert(id) { return Err(Bad::Refused(format!("block {} reached twice", id))) }
    let ss1 = if b.ss1 < 0 { None } else { Some(chain(list, idx, b.ss1, seen, weird)?) };
    let ss2 = if b.ss2 < 0 { None } else { Some(chain(list, idx, b.ss2, seen, weird)?) };
    let mut items = content(&b.spec, &b.params).map_err(|_| Bad::Refused(format!("content of block {}", id)))?;
    for i in items.iter_mut() {
        if let Item::Arg(k, _, v) = i {
            if let Val::Ref(r) = v {
                let r = *r as i64;
                if let Some(a) = idx.get(&r) { if list[*a].next >= 0 { *weird = true } }
                let n = node(list, idx, r, seen, weird)?;
                *v = if *k == 'b' && n.op == "true" { Val::Bool(true) } else if *k == 'b' && n.op == "false" { Val::Bool(false) } else { Val::Tree(Box::new(n)) };
            }
        }
    }
    if !["v", "p", "b", "s", "d", "l", "c", "e", "f", " "].contains(&b.ty.as_str()) { return Err(Bad::Refused(format!("type of block {}", id))) }
    if b.ty == "l" && b.tn != "List String" && b.tn != "List Number" { return Err(Bad::Refused(format!("type name of block {}", id))) }
    let tn = if ["v", "p", "l"].contains(&b.ty.as_str()) { b.tn.clone() } else { String::new() };
    Ok(Node { color: b.color, op: b.op.clone(), items, ty: b.ty.clone(), tn, ss1, ss2 })
}

/// programs compare up to: empty = absent nested stack, empty = unset text argument
pub fn norm(p: &[Node]) -> Vec<Node> {
    p.iter().map(|n| {
        let stack = |s: &Option<Vec<Node>>| match s { Some(v) if !v.is_empty() => Some(norm(v)), _ => None };
        Node {
            color: n.color, op: n.op.clone(), ty: n.ty.clone(), tn: n.tn.clone(), ss1: stack(&n.ss1), ss2: stack(&n.ss2),
            items: n.items.iter().map(|i| match i {
                Item::Arg(k, name, Val::Unset) if *k == 's' || *k == 'm' => Item::Arg(*k, name.clone(), Val::Text(String::new())),
                Item::Arg(k, name, Val::Tree(t)) => Item::Arg(*k, name.clone(), Val::Tree(Box::new(norm(std::slice::from_ref(t.as_ref())).remove(0)))),
                i => i.clone(),
            }).collect(),
        }
    }).collect()
}

pub fn show(p: &[Node]) -> String {
    p.iter().map(|n| {
        let args = n.items.iter().map(|i| match i {
            Item::Word(w) => w.clone(),
            Item::Arg(k, nm, v) => format!("%{}{}={}", k, nm.as_ref().map(|x| format!(".{}", x)).unwrap_or_default(), match v {
                Val::Text(t) => format!("{:?}", t), Val::Num(x) => x.to_string(), Val::Bool(b) => b.to_string(), Val::Ref(r) => format!("@{}", r),
                Val::Unset => "_".into(), Val::Tree(t) => format!("({})", show(std::slice::from_ref(t.as_ref()))),
            }),
        }).collect::<Vec<_>>().join(" ");
        format!("{}[{}]<{}{}{}>#{:x}{}{}", n.op, args, n.ty, if n.tn.is_empty() { "" } else { "/" }, n.tn, n.color as u32,
            n.ss1.as_ref().map(|s| format!("{{{}}}", show(s))).unwrap_or_default(),
            n.ss2.as_ref().map(|s| format!("else{{{}}}", show(s))).unwrap_or_default())
    }).collect::<Vec<_>>().join("; ")
}

/// checks the shape of a saved block list, and returns the program it describes
pub fn saved_list(list: &[Raw]) -> Result<Vec<Node>, String> {
    let mut ids = HashSet::new();
    for b in list { if !ids.insert(b.id.clone()) { return Err(format!("block id {} is used twice", b.id)) } }
    let has = |x: i64| ids.contains(&x.to_string());
    for b in list {
        for (w, r) in [("nextBlock", b.next), ("subStack1", b.ss1), ("subStack2", b.ss2)] {
            if r != -1 && !has(r) { return Err(format!("{} {} of block {} does not exist", w, r, b.id)) }
        }
    }
    let p = interpret(list).map_err(|e| format!("the saved list is not a program: {:?}", e))?;
    if count(&p) > list.len() || list.len() > count(&p) + bools(&p) { return Err(format!("{} blocks saved, {} reachable", list.len(), count(&p))) }
    Ok(p)
}
fn count(p: &[Node]) -> usize {
    p.iter().map(|n| 1 + n.ss1.as_ref().map_or(0, |s| count(s)) + n.ss2.as_ref().map_or(0, |s| count(s))
        + n.items.iter().map(|i| if let Item::Arg(_, _, Val::Tree(t)) = i { count(std::slice::from_ref(t.as_ref())) } else { 0 }).sum::<usize>()).sum()
}
fn bools(p: &[Node]) -> usize {
    p.iter().map(|n| n.ss1.as_ref().map_or(0, |s| bools(s)) + n.ss2.as_ref().map_or(0, |s| bools(s))
        + n.items.iter().map(|i| match i { Item::Arg(_, _, Val::Tree(t)) => bools(std::slice::from_ref(t.as_ref())), Item::Arg(_, _, Val::Bool(_)) => 1, _ => 0 }).sum::<usize>()).sum()
}

pub type Map = BTreeMap<String, Vec<String>>;

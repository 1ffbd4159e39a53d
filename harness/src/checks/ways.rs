//! C23: every way of handing a project over gives the same project, and an error names the file it is about
use super::projects::*;
use super::screens::empty;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::aes::Aes;
use crate::refm;
use crate::{obs, Check};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::sync::OnceLock;
use swrs::api::SketchwareProject;
use swrs::parser::{file::File, library::Library, logic::Logic, project::Project, resource::Resource, view::View, Parsable, RawSketchwareProject as Raw, ResourceFileWrapper as W, ResourceFiles, ResourceType,
    SketchwareProject as Parsed, SketchwareProjectParseError as E};
use swrs::CryptoError;

const NAMES: [&str; 6] = ["project", "file", "library", "resource", "view", "logic"];

/// encrypted by the reference cipher
pub fn enc(b: &[u8]) -> Vec<u8> {
    static A: OnceLock<Aes> = OnceLock::new();
    let k = b"sketchwaresecure";
    A.get_or_init(|| Aes::new(k)).cbc(k, b)
}

/// the file at fault that an error of loading is about: 0..6 the data files, 6 the attached files
fn about(e: &E) -> usize {
    match e { E::ProjectParseError(_) => 0, E::FileParseError(_) => 1, E::LibraryParseError(_) => 2, E::ResourceParseError(_) => 3, E::ViewParseError(_) => 4, E::LogicParseError(_) => 5, E::ResourceFilesParseError(_) => 6 }
}
/// whether the message says so
fn names(e: &E, i: usize) -> bool { let s = e.to_string(); if i == 6 { s.contains("resource files") } else { s.contains(&format!("`{}`", NAMES[i])) } }

/// each file read by itself
fn parts(t: &[String; 6], f: &Files) -> Result<Parsed, Vec<usize>> {
    let mut bad = vec![];
    fn ok<T, X>(r: Result<T, X>, i: usize, bad: &mut Vec<usize>) -> Option<T> { match r { Ok(t) => Some(t), Err(_) => { bad.push(i); None } } }
    let p = ok(Project::parse(&t[0]), 0, &mut bad);
    let fi = ok(File::parse(&t[1]), 1, &mut bad);
    let l = ok(Library::parse(&t[2]), 2, &mut bad);
    let r = ok(Resource::parse(&t[3]), 3, &mut bad);
    let v = ok(View::parse(&t[4]), 4, &mut bad);
    let g = ok(Logic::parse(&t[5]), 5, &mut bad);
    let fs = match f { None => Some(None), Some(f) => ok(ResourceFiles::try_from(f.clone()), 6, &mut bad).map(Some) };
    if !bad.is_empty() { return Err(bad) }
    Ok(Parsed { project: p.unwrap(), file: fi.unwrap(), library: l.unwrap(), resource: r.unwrap(), view: v.unwrap(), logic: g.unwrap(), resource_files: fs.unwrap() })
}

fn want_raw(what: &str, r: &Raw, t: &[String; 6], f: &Files) -> Result<(), String> {
    for (i, x) in texts_of(r).iter().enumerate() { if *x != t[i] { return Err(format!("{}: the `{}` file is {:?} instead of {:?}", what, NAMES[i], trunc(x, 200), trunc(&t[i], 200))) } }
    refm::want(&format!("{}: attached files", what), &in_order(f), &in_order(&r.resource_files))
}
fn in_order(f: &Files) -> Value { match f { None => Value::Null, Some(v) => v.iter().map(obs::wrapper).collect() } }

/// every way in; the outcome has to be the same everywhere, and what the files read one by one give
fn ways_in(ch: &mut Ch, t: &[String; 6], f: &Files) -> Result<Option<Parsed>, String> {
    let [p, fi, l, r, v, g] = t.clone();
    let bytes = |i: usize| enc(t[i].as_bytes());
    let mut raws: Vec<(&str, Raw)> = vec![];
    let show = |e: CryptoError| format!("well-formed ciphertexts are refused: {:?}", e);
    match f {
        Some(f) => {
            raws.push(("new", Raw::new(p.clone(), fi.clone(), l.clone(), r.clone(), v.clone(), g.clone(), f.clone())));
            raws.push(("from_encrypted", Raw::from_encrypted(bytes(0), bytes(1), bytes(2), bytes(3), bytes(4), bytes(5), f.clone()).map_err(show)?));
        }
        None => {
            raws.push(("new_wo_res", Raw::new_wo_res(p.clone(), fi.clone(), l.clone(), r.clone(), v.clone(), g.clone())));
            raws.push(("from_encrypted_wo_res", Raw::from_encrypted_wo_res(bytes(0), bytes(1), bytes(2), bytes(3), bytes(4), bytes(5)).map_err(show)?));
        }
    }
    raws.push(("a literal", Raw { project: p.clone(), file: fi.clone(), library: l.clone(), resource: r.clone(), view: v.clone(), logic: g.clone(), resource_files: f.clone() }));
    for (n, r) in &raws { want_raw(n, r, t, f)? }
    if raws.iter().any(|(_, r)| *r != raws[0].1) { return Err("the raw projects differ".into()) }
    ch.steps(raws.len() as u64);
    let mut got: Vec<(String, Result<Parsed, E>)> = raws.into_iter().map(|(n, r)| (format!("parse_from({})", n), Parsed::parse_from(r))).collect();
    got.push(match f { Some(f) => ("parse".into(), Parsed::parse(p, fi, l, r, v, g, f.clone())), None => ("parse_wo_res".into(), Parsed::parse_wo_res(p, fi, l, r, v, g)) });
    ch.steps(got.len() as u64 + 7);
    match parts(t, f) {
        Ok(want) => {
                        for (n, r) in got { match r { Err(e) => return Err(format!("{} refuses files that are accepted one by one: {:?}", n, e)), Ok(x) => if x != want || dbg(&x) != dbg(&want) {
                for (i, (a, b)) in dbg(&x).iter().zip(dbg(&want)).enumerate() { if *a != b { return Err(format!("{}: the `{}` part is {} instead of {}", n, NAMES[i], trunc(a, 300), trunc(&b, 300))) } }
                return Err(format!("{} gives another project than the files one by one", n)) } } }
            Ok(Some(want))
        }
        Err(bad) => {
            for (n, r) in got { match r { Ok(_) => return Err(format!("{} accepts a project of which the parts {:?} are refused", n, bad)), Err(e) => { let i = about(&e); if !bad.contains(&i) || !names(&e, i) { return Err(format!("{}: the error `{}` is not about any of the parts at fault {:?}", n, e, bad)) } } } }
            Ok(None)
        }
    }
}

fn dbg(p: &Parsed) -> [String; 6] { [format!("{:?}", p.project), format!("{:?}", p.file), format!("{:?}", p.library), format!("{:?}", p.resource), format!("{:?}", p.view), format!("{:?}", p.logic)] }
fn pieces(p: &Parsed) -> Result<[String; 6], String> {
    fn s<E: Debug>(r: Result<String, E>) -> Result<String, String> { r.map_err(|e| format!("saving failed: {:?}", e)) }
    Ok([s(p.project.reconstruct())?, s(p.file.reconstruct())?, s(p.library.reconstruct())?, s(p.resource.reconstruct())?, s(p.view.reconstruct())?, s(p.logic.reconstruct())?])
}
fn sorted(f: &Files) -> Value { file_set(f) }
/// every way out
fn ways_out(ch: &mut Ch, p: Parsed) -> Result<(), String> {
    let t = pieces(&p)?;
    let out: Raw = p.clone().try_into().map_err(|e| format!("saving failed: {:?}", e))?;
    for (i, x) in texts_of(&out).iter().enumerate() { if *x != t[i] { return Err(format!("saved in one call, the `{}` file is {:?}, by itself it is {:?}", NAMES[i], trunc(x, 200), trunc(&t[i], 200))) } }
    if out.resource_files.is_some() != p.resource_files.is_some() { return Err("attached files appear or disappear on saving".into()) }
    ch.steps(7);
    // the editable project, saved directly and by way of the parsed one
    let Ok(a) = SketchwareProject::try_from(p) else { return Ok(()) };
    let via = Parsed::from(a.clone());
    let t = pieces(&via)?;
    let r1: Raw = via.try_into().map_err(|e| format!("saving failed: {:?}", e))?;
    let r2: Raw = a.try_into().map_err(|e| format!("saving failed: {:?}", e))?;
    for (i, (x, y)) in texts_of(&r1).iter().zip(texts_of(&r2)).enumerate() { if *x != y || *x != t[i] { return Err(format!("the editable project saves another `{}` file directly than by way of the parsed project: {:?} / {:?}", NAMES[i], trunc(y, 200), trunc(x, 200))) } }
    ch.steps(9);
    refm::want("attached files of the two ways", &sorted(&r1.resource_files), &sorted(&r2.resource_files))
}

fn bases() -> &'static Vec<Doc> {
    static B: OnceLock<Vec<Doc>> = OnceLock::new();
    B.get_or_init(|| {
        let mut e = empty();
        e.project["my_ws_name"] = json!("é\u{1F600} ü");
        let mut o = sample_doc();
        o.project["sc_id"] = json!("777"); o.project["custom_icon"] = json!(false);
        o.file["activity"].as_array_mut().unwrap().truncate(1);
        o.library["compat"]["useYn"] = json!("N"); o.library["googleMap"]["data"] = json!("otherkey");
        o.resource["sounds"] = json!([]);
        o.view["fabs"] = json!([]);
        o.logic["MainActivity"]["var"] = json!([[2, "else"]]);
        vec![sample_doc(), o, e]
    })
}
fn a_file(i: usize) -> W { W::StringId { id: format!("x{}", i), res_full_name: format!("f{}.png", i), res_type: [ResourceType::Image, ResourceType::Sound, ResourceType::Font, ResourceType::CustomIcon][i % 4] } }

/// each of the six files from one of several projects
fn mixed(ch: &mut Ch) -> Result<(), String> {
    let all: Vec<[String; 6]> = bases().iter().map(|d| d.texts(Style { json: 0, after: 1, ..Style::default() })).collect();
    let w: Vec<usize> = (0..6).map(|_| ch.free(all.len())).collect();
    let t: [String; 6] = std::array::from_fn(|i| all[w[i]][i].clone());
    // the files the resource list needs, none, some others, or a bad one
    let d = &bases()[w[3]];
    let f: Files = match ch.free(5) { 0 => None, 1 => { let mut h = handles(d, false); h.retain(|x| obs::wrapper(x)["type"] != "CustomIcon"); if bases()[w[0]].project["custom_icon"] == true { h.push(a_file(3)) } Some(h) }, 2 => Some(vec![]), 3 => Some((0..5).map(a_file).collect()),
        _ => Some(vec![a_file(0), W::Path("/nowhere/images/601/a.png".into())]) };
    ch.state(&(&w, in_order(&f).to_string()));
    ch.note(|| format!("{} files: {}", doc_note(&t), in_order(&f)));
    match ways_in(ch, &t, &f)? { Some(p) => ways_out(ch, p), None if matches!(&f, Some(v) if v.iter().any(|x| matches!(x, W::Path(_)))) => Ok(()), None => Err("well-formed files are refused".into()) }
}
/// one attribute of any file deviates
fn attributes(ch: &mut Ch) -> Result<(), String> { let plain = ch.wide; attributes_in(ch, plain) }
fn attributes_2(ch: &mut Ch) -> Result<(), String> { attributes_in(ch, true) }
fn attributes_in(ch: &mut Ch, plain: bool) -> Result<(), String> {
    let mut d = sample_doc();
    vary(ch, PROJECT, &mut d.project, &[]);
    for (k, n) in [("activity", 2), ("customview", 1)] { for i in 0..n { let mut v = d.file[k][i].take(); vary(ch, FILE_ITEM, &mut v, &[]); d.file[k][i] = v } }
    for k in LIBS { let mut v = d.library[*k].take(); vary(ch, LIB_ITEM, &mut v, &[]); d.library[*k] = v }
    for k in ["images", "sounds", "fonts"] { let mut v = d.resource[k][0].take(); vary(ch, RES_ITEM, &mut v, &[]); d.resource[k][0] = v }
    { let mut v = d.view["layouts"][0][1][0].take(); vary(ch, VIEW, &mut v, &[]); d.view["layouts"][0][1][0] = v }
    for i in 0..2 { let mut v = d.logic["MainActivity"]["events"][i].take(); vary(ch, EVENT, &mut v, &[]); d.logic["MainActivity"]["events"][i] = v }
    for i in 0..2 { let mut v = d.logic["MainActivity"]["components"][i].take(); vary(ch, COMPONENT, &mut v, &[]); d.logic["MainActivity"]["components"][i] = v }
    { let mut v = d.logic["MainActivity"]["containers"][0][1][0].take(); vary(ch, BLOCK, &mut v, &[]); d.logic["MainActivity"]["containers"][0][1][0] = v }
    let t = if plain { d.texts(Style { json: 0, after: 1, before: 0, between: 0 }) } else { d.texts(Style { json: ch.free(STYLES), after: ch.free(2), before: 0, between: 0 }) };
    let f: Files = if !plain && ch.free(2) == 1 { Some(handles(&sample_doc(), false)) } else { None };
    ch.state(&t);
    ch.note(|| doc_note(&t));
    match ways_in(ch, &t, &f)? { Some(p) => ways_out(ch, p), None => Ok(()) }
}

/// texts of odd shapes in one place (two places): every way has to take them literally and agree on them
fn texts(ch: &mut Ch) -> Result<(), String> {
    let b = ch.free(bases().len());
    let good = bases()[b].texts(Style { json: 0, after: 1, ..Style::default() });
    let ends = ["", "\u{feff}", " ", "\n", "\r\n", "\0", "\t", "\u{a0}", "\u{2028}", "\n\n", "\u{10}", "\u{1}"];
    let t: [String; 6] = std::array::from_fn(|i| {
        match ch.pick(4) {
            0 => good[i].clone(),
            1 => format!("{}{}{}", ch.free_of(&ends), good[i], ch.free_of(&ends)),
            2 => match ch.free(6) { 0 => String::new(), 1 => good[i].replace('\n', "\r\n"), 2 => good[i].replace('\n', "\r"), 3 => good[i].trim_end().into(), 4 => good[(i + 1) % 6].clone(), _ => format!("{}{}", good[i], good[i]) },
            _ => ch.free_of(strs(true)).clone(),
        }
    });
    let f: Files = if ch.free(2) == 1 { Some(handles(&bases()[b], false)) } else { None };
    ch.state(&(&t, f.is_some()));
    ch.note(|| format!("with files: {}\n{:?}", f.is_some(), t.iter().map(|x| trunc(x, 120)).collect::<Vec<_>>()));
    match ways_in(ch, &t, &f)? { Some(p) => ways_out(ch, p), None => Ok(()) }
}
/// one attribute of a file is of any size
fn sizes(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.free_of(&[1, 15, 16, 17, 255, 256, 257, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 262144, 1 << 20]);
    let unit = *ch.free_of(&["x", "é", "\u{1F600}"]);
    let i = ch.free(6);
    let mut d = sample_doc();
    let s = json!(unit.repeat(n));
    match i { 0 => d.project["my_app_name"] = s, 1 => d.file["activity"][1]["fileName"] = s, 2 => d.library["googleMap"]["data"] = s, 3 => d.resource["images"][0]["resName"] = s, 4 => d.view["layouts"][0][1][0]["text"]["text"] = s, _ => d.logic["MainActivity"]["components"][0]["param1"] = s }
    let t = d.texts(Style { json: 0, after: 1, ..Style::default() });
    let f: Files = if ch.free(2) == 1 { Some(handles(&sample_doc(), false)) } else { None };
    ch.state(&(n, unit, i, f.is_some()));
    ch.note(|| format!("{} times {:?} in the `{}` file, with files: {}", n, unit, NAMES[i], f.is_some()));
    match ways_in(ch, &t, &f)? { Some(p) => ways_out(ch, p), None => Err("a long text is refused".into()) }
}

/// texts that are refused, per file (some of them would be fine for another file)
fn malformed(i: usize) -> &'static Vec<String> {
    static M: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    &M.get_or_init(|| {
        let t = bases()[0].texts(Style { json: 0, after: 1, ..Style::default() });
        (0..6).map(|i| {
            let at = t[i].rfind("\":").unwrap();
            let mut l = vec![format!("{}{}", &t[i][..at], &t[i][at + 2..])];
            if i == 0 { l.push("{".into()); l.push("".into()) }
            if i == 1 { l.push(format!("{}\n{{}}", t[1].trim_end())) }
            if i == 2 { l.push("".into()); l.push(t[2].replacen("@admob", "@admab", 1)) }
            if i == 3 { l.push(t[3].replacen("\"resType\":1", "\"resType\":null", 1)) }
            if i == 4 { l.push(t[4].replacen("\"id\"", "\"ID\"", 1)) }
            if i == 5 { l.push(t[5].replacen("\"opCode\"", "\"opcode\"", 1)) }
            l
        }).collect()
    })[i]
}
/// any set of files is malformed
fn faults(ch: &mut Ch) -> Result<(), String> {
    let good = bases()[0].texts(Style { json: 0, after: 1, ..Style::default() });
    let mut bad = vec![];
    let t: [String; 6] = std::array::from_fn(|i| { let m = malformed(i); let k = ch.free(m.len() + 1); if k == 0 { good[i].clone() } else { bad.push(i); m[k - 1].clone() } });
    let k = ch.free(4);
    let f: Files = match k { 0 => None, 1 => Some(handles(&bases()[0], false)), 2 => Some(vec![W::Path("/nowhere/images/601/a.png".into())]), _ => Some(vec![a_file(0), a_file(1), W::Path("a.png".into())]) };
    if k > 1 { bad.push(6) }
    ch.state(&(&t, k));
    ch.note(|| format!("malformed: {:?} (6: the attached files)\n{}", bad, doc_note(&t)));
    let r = ways_in(ch, &t, &f)?;
    if r.is_some() != bad.is_empty() { return Err(format!("{}: malformed are {:?}", if r.is_some() { "accepted" } else { "refused" }, bad)) }
    Ok(())
}
/// any set of files is no ciphertext, or no text when decrypted
fn bytes(ch: &mut Ch) -> Result<(), String> {
    let good = bases()[0].texts(Style { json: 0, after: 1, ..Style::default() });
    let (mut cipher, mut text) = (vec![], vec![]);
    let b: [Vec<u8>; 6] = std::array::from_fn(|i| {
        let e = enc(good[i].as_bytes());
        match ch.pick(9) {
            0 => e,
            1 => { cipher.push(i); vec![] }
            2 => { cipher.push(i); e[..e.len() - 1].to_vec() }
            3 => { cipher.push(i); let mut e = e; e.push(0); e }
            4 => { cipher.push(i); good[i].as_bytes()[..32].to_vec() }
            5 => { text.push(i); enc(&[good[i].as_bytes(), &[0xff]].concat()) }
            6 => { text.push(i); enc(&[&[0xc3], good[i].as_bytes()].concat()) }
            // a character cut in its middle, the encoding of a surrogate
            7 => { text.push(i); enc("é".as_bytes()[..1].as_ref()) }
            _ => { text.push(i); enc(&[0xed, 0xa0, 0x80]) }
        }
    });
    let f: Files = match ch.free(3) { 0 => None, 1 => Some(handles(&bases()[0], false)), _ => Some(vec![W::Path("/nowhere/images/601/a.png".into())]) };
    ch.state(&(&b, in_order(&f).to_string()));
    ch.note(|| format!("no ciphertext: {:?}; no text: {:?}", cipher, text));
    let [p, fi, l, r, v, g] = b;
    let got = match &f { None => Raw::from_encrypted_wo_res(p, fi, l, r, v, g), Some(f) => Raw::from_encrypted(p, fi, l, r, v, g, f.clone()) };
    ch.step();
    match got {
        Ok(r) => { if !cipher.is_empty() || !text.is_empty() { return Err(format!("accepted although the files {:?} are no ciphertexts and {:?} no texts", cipher, text)) } want_raw("decrypted", &r, &good, &f) }
        Err(CryptoError::DecryptionError(_)) if !cipher.is_empty() => Ok(()),
        Err(CryptoError::FromUtf8Error(e)) if !text.is_empty() => { let b = e.as_bytes(); if text.iter().any(|i| b.len() <= 3 || b.windows(good[*i].len()).any(|w| w == good[*i].as_bytes())) { Ok(()) } else { Err("the error carries other bytes than those of a file at fault".into()) } }
        Err(e) => Err(format!("{:?}, although the files {:?} are no ciphertexts and {:?} no texts", e, cipher, text)),
    }
}

pub fn c23() -> Check {
    Check { id: "C23", rule: "raw projects made in every way carry the given six texts and files in their places; parsing them in every way gives what the six files give when read one by one, or an error naming one of the files at fault; saving in one call, file by file, directly or by way of the parsed project writes the same texts",
        assumptions: &["when several files are at fault, any of them may be named", "ciphertexts are made by the reference AES"],
        scopes: vec![
            scope("mixed", "each of the six files from one of 3 projects, 5 sets of attached files, every way in and out", mixed, ALL, ALL),
            scope("attributes", "attributes of any file deviate, every way in and out", attributes, 1, OFF), wide("attributes-wide", "the same over wide domains, in one layout and without attached files", attributes, 1, 1),
            scope("attributes-2", "two attributes of any files deviate", attributes_2, OFF, 2),
            scope("texts", "one of the six texts has an odd shape: marks, blanks, other line ends, another file's text, any wide string", texts, 1, 1),
            scope("sizes", "an attribute of 1 to 2^20 characters in any file", sizes, ALL, ALL),
            scope("faults", "every set of malformed files and refused attached files, 1 to 3 faults per file", faults, ALL, ALL),
            scope("bytes", "files that are no ciphertexts or no texts, 8 faults per file", bytes, 3, 4),
        ] }
}

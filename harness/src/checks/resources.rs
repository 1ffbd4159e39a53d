//! C15, C16: the resource registry and the files attached to a project
use super::projects::*;
use super::screens::empty;
use super::Scratch;
use crate::doc::*;
use crate::engine::*;
use crate::{obs, refm, Check};
use serde_json::{json, Value};
use std::path::PathBuf;
use swrs::api::{APISketchwareProjectConversionError as ConvError, ResourceAdditionError, ResourceId, Resources, SketchwareProject};
use swrs::parser::{ResourceFileWrapper as W, ResourceFiles, ResourceFilesParseError, ResourceType as T, SketchwareProject as Parsed};

const CATS: [T; 3] = [T::Image, T::Sound, T::Font];
const FOLDERS: [&str; 3] = ["images", "sounds", "fonts"];

fn tree_dir() -> PathBuf {
    // one scratch tree per worker, removed with it
    thread_local! { static D: Scratch = {
        let s = Scratch::new();
        for f in ["images", "sounds", "fonts", "icons", "image", "Images", "others", "images.d", "601", " images"] {
            for sub in ["601/sub", "images", "sounds", "icons"] { std::fs::create_dir_all(s.0.join(f).join(sub)).unwrap() }
            for n in NAMES.iter().chain(&["icon.png"]).chain(if f == "others" { &[] } else { DOTTED }) {
                for dir in ["", "601", "601/sub", "images", "sounds", "icons"] { std::fs::write(s.0.join(f).join(dir).join(n), n).unwrap() }
            }
        }
        // the same folders once more with other names, files that are links to another category's, links that lead nowhere, and folders that are links
        for (f, to) in [("images", "sounds"), ("sounds", "fonts"), ("fonts", "others"), ("icons", "images"), ("others", "images"), ("image", "icons")] {
            use std::os::unix::fs::symlink;
            symlink(s.0.join(to).join("601/a.png"), s.0.join(f).join("601/link.png")).unwrap();
            symlink(s.0.join(to).join("601/b.png"), s.0.join(f).join("601/a.link")).unwrap();
            symlink(s.0.join(to).join("nowhere"), s.0.join(f).join("601/broken.png")).unwrap();
            symlink(s.0.join(to).join("601"), s.0.join(f).join("602")).unwrap();
            std::fs::create_dir_all(s.0.join("linked")).unwrap();
            symlink(s.0.join(to), s.0.join("linked").join(f)).unwrap();
        }
        s
    } }
    D.with(|d| d.0.clone())
}
const NAMES: &[&str] = &["a.png", "b.png", "é x", "a"];
const DOTTED: &[&str] = &[".a.png", ".nomedia", "a.", "...", "a..png", "~a.png", "a.png~", "a.PNG", " a.png", "a.png ", "-a.png", "#a.png"];

// ------------------------------------------------------------------ C15

#[derive(Clone, Default)]
struct Reg { lists: [Vec<(String, Value)>; 3] }
impl Reg {
    fn get(&self, id: &str) -> Value { for c in 0..3 { if let Some(e) = self.lists[c].iter().find(|e| e.0 == id) { return json!([e.1, format!("{:?}", CATS[c])]) } } Value::Null }
    fn seen(&self) -> Value { json!(self.lists.iter().map(|l| l.iter().map(|e| json!([e.0, e.1])).collect::<Vec<_>>()).collect::<Vec<_>>()) }
}
fn seen(r: &Resources) -> Value {
    json!([r.get_images(), r.get_sounds(), r.get_fonts()].iter().map(|m| m.iter().map(|(k, w)| json!([k.0, obs::wrapper(w)])).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn found(r: &Resources, id: &str) -> Value { match r.get_resource(&ResourceId(id.into())) { Some((w, t)) => json!([obs::wrapper(w), format!("{:?}", t)]), None => Value::Null } }

struct World { r: Resources, m: Reg, ids: Vec<String>, serial: u32 }
impl World {
    fn new(ids: &[&str]) -> World { World { r: Resources::new_empty(), m: Reg::default(), ids: ids.iter().map(|s| s.to_string()).collect(), serial: 0 } }
    fn put(&mut self, id: &str, cat: usize, w: W) -> Result<(), String> {
        let missing = match &w { W::Path(p) => !p.exists(), _ => false };
        let taken = !self.m.get(id).is_null();
        let before = self.r.clone();
        let res = self.r.put_resource(ResourceId(id.into()), w.clone(), CATS[cat]);
        match res {
            Ok(()) => {
                if missing { return Err(format!("putting {} with a file that does not exist was accepted", id)) }
                if taken { return Err(format!("putting under the taken id {} was accepted", id)) }
                let mut v = obs::wrapper(&w);
                if v.get("type").is_some() { v["type"] = json!(format!("{:?}", CATS[cat])) }
                self.m.lists[cat].push((id.into(), v));
            }
            Err(e) => {
                let text = e.to_string();
                match e {
                    ResourceAdditionError::IdTaken { id: i } => { if !taken { return Err(format!("putting under the free id {} was refused as taken", id)) } if i.0 != id || !text.contains(id) { return Err(format!("the error names {} instead of {} ({})", i.0, id, text)) } }
                    ResourceAdditionError::FileDoesntExist { path } => { if !missing { return Err(format!("putting under {} was refused although the file exists or is not a path", id)) } if W::Path(path.clone()) != w { return Err(format!("the error names the file {:?}", path)) } }
                }
                if self.r != before { return Err("a refused put changed the registry".into()) }
            }
        }
        self.verify()
    }
    fn remove(&mut self, id: &str) -> Result<(), String> {
        let got = match self.r.remove_resource(&ResourceId(id.into())) { Some((w, t)) => json!([obs::wrapper(&w), format!("{:?}", t)]), None => Value::Null };
        refm::want("removed", &self.m.get(id), &got)?;
        // exactly the one that was found: a loaded project may have the id in several categories
        if let Some(l) = self.m.lists.iter_mut().find(|l| l.iter().any(|e| e.0 == id)) { l.retain(|e| e.0 != id) }
        self.verify()
    }
    fn verify(&mut self) -> Result<(), String> {
        refm::want("registry", &self.m.seen(), &seen(&self.r))?;
        for id in &self.ids { refm::want("found", &self.m.get(id), &found(&self.r, id))? }
        refm::want("registry after looking things up", &self.m.seen(), &seen(&self.r))
    }
    /// kinds: 0 string handle, 1 number handle, 2 existing path, 3 missing path; handles say another category
    fn wrapper(&mut self, kind: usize, cat: usize) -> W {
        self.serial += 1;
        let t = [T::CustomIcon, T::Image, T::Sound, T::Font][(cat + self.serial as usize) % 4];
        let name = NAMES[self.serial as usize % NAMES.len()].to_string();
        match kind {
            0 => W::StringId { id: format!("s{}", self.serial), res_full_name: name, res_type: t },
            1 => W::U32Id { id: self.serial, res_full_name: name, res_type: t },
            2 => W::Path(tree_dir().join("images/601").join(NAMES[self.serial as usize % NAMES.len()])),
            _ => W::Path(tree_dir().join("images/601/missing").join(format!("{}", self.serial))),
        }
    }
}

fn ops(ch: &mut Ch, ids: &[&str], kinds: &[usize], depth: usize) -> Result<(), String> { ops_from(ch, World::new(ids), vec![], ids, kinds, depth) }
/// a registry as it is after loading a project, in which an id may stand in several categories
fn loaded(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let ids = ["a", "b"];
    let mut d = empty();
    let (mut w, mut files, mut key) = (World::new(&ids), vec![], vec![]);
    for c in 0..3 {
        // neither, one, or both in either order
        let k = ch.free(5);
        key.push(k);
        let l: &[&str] = [&[][..], &["a"], &["b"], &["a", "b"], &["b", "a"]][k];
        d.resource[FOLDERS[c]] = json!(l.iter().map(|id| json!({"resFullName": format!("{}{}.bin", id, c), "resName": id, "resType": 1})).collect::<Vec<_>>());
        for id in l {
            let f = W::StringId { id: format!("{}{}", id, c), res_full_name: format!("{}{}.bin", id, c), res_type: CATS[c] };
            w.m.lists[c].push((id.to_string(), obs::wrapper(&f)));
            files.push(f);
        }
    }
    ch.note(|| format!("loaded: {}", d.resource));
    let parsed = Parsed::parse_from(raw_of(d.texts(Style { after: 1, ..Style::default() }), Some(files))).map_err(|e| format!("loading is refused: {:?}", e))?;
    w.r = SketchwareProject::try_from(parsed).map_err(|e| format!("the conversion is refused: {:?}", e))?.resources;
    w.verify()?;
    ch.steps(2);
    ops_from(ch, w, key, &ids, &[0], depth)
}
fn loaded2(ch: &mut Ch) -> Result<(), String> { loaded(ch, 2) }
fn loaded4(ch: &mut Ch) -> Result<(), String> { loaded(ch, 4) }
fn ops_from(ch: &mut Ch, mut w: World, mut hist: Vec<usize>, ids: &[&str], kinds: &[usize], depth: usize) -> Result<(), String> {
    for _ in 0..depth {
        let k = ch.free(ids.len() * (3 * kinds.len() + 1) + 1);
        if k == 0 { break }
        let (id, op) = (ids[(k - 1) % ids.len()], (k - 1) / ids.len());
        hist.push(k);
        if op == 0 { ch.note(|| format!("remove {:?}", id)); w.remove(id)? }
        else {
            let (cat, kind) = ((op - 1) % 3, kinds[(op - 1) / 3]);
            let f = w.wrapper(kind, cat);
            ch.note(|| format!("put {:?} {:?} as {:?}", id, f, CATS[cat]));
            w.put(id, cat, f)?
        }
        ch.steps(2 + ids.len() as u64);
    }
    ch.state(&hist);
    Ok(())
}
fn two4(ch: &mut Ch) -> Result<(), String> { ops(ch, &["a", "b"], &[0, 1, 2, 3], 4) }
fn two5(ch: &mut Ch) -> Result<(), String> { ops(ch, &["a", "b"], &[0, 1, 2, 3], 5) }
fn three4(ch: &mut Ch) -> Result<(), String> { ops(ch, &["a", "A", ""], &[0, 2], 4) }
fn three5(ch: &mut Ch) -> Result<(), String> { ops(ch, &["a", "A", ""], &[0], 5) }
fn three6(ch: &mut Ch) -> Result<(), String> { ops(ch, &["a", "A", ""], &[1], 6) }
fn one7(ch: &mut Ch) -> Result<(), String> { ops(ch, &["é"], &[0, 3], 7) }
/// the file of a path comes and goes between the operations
fn env(ch: &mut Ch, depth: usize) -> Result<(), String> {
    let mut w = World::new(&["a", "b"]);
    let dir = Scratch::new();
    let file = dir.0.join("images"); // named like a folder
    let mut hist = vec![];
    for _ in 0..depth {
        let k = ch.free(12);
        hist.push(k);
        match k {
            0 => break,
            1 => { std::fs::write(&file, "x").unwrap(); ch.note(|| "the file appears".into()) }
            2 => { let _ = std::fs::remove_file(&file); ch.note(|| "the file disappears".into()); w.verify()? }
            3..=8 => { let (id, cat) = (["a", "b"][(k - 3) % 2], (k - 3) / 2); ch.note(|| format!("put {} in {:?}", id, CATS[cat])); w.put(id, cat, W::Path(file.clone()))? }
            9 | 10 => { let id = ["a", "b"][k - 9]; ch.note(|| format!("remove {}", id)); w.remove(id)? }
            _ => { ch.note(|| "copy".into()); let c = w.r.clone(); let mut o = World { r: c, m: w.m.clone(), ids: w.ids.clone(), serial: 0 }; o.remove("a")?; o.remove("b")?; w.verify()? }
        }
        ch.steps(4);
    }
    ch.state(&hist);
    Ok(())
}
fn env4(ch: &mut Ch) -> Result<(), String> { env(ch, 4) }
fn env6(ch: &mut Ch) -> Result<(), String> { env(ch, 5) }
/// many entries: put n, remove every k-th, put them again elsewhere
fn ladder(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(60) + 1; let k = ch.free(4) + 1; let shift = ch.free(3);
    ch.state(&(n, k, shift));
    let ids: Vec<String> = (0..n).map(|i| format!("id{}", i)).collect();
    let mut w = World::new(&[]);
    w.ids = vec!["id0".into(), format!("id{}", n - 1), format!("id{}", n)];
    for (i, id) in ids.iter().enumerate() { let f = w.wrapper(i % 3, i % 3); w.put(id, i % 3, f)? }
    for (i, id) in ids.iter().enumerate() { if i % k == 0 { w.remove(id)?; w.remove(id)? } }
    for (i, id) in ids.iter().enumerate() { let f = w.wrapper(i % 2, i % 3); w.put(id, (i + shift) % 3, f)? }
    ch.steps(4 * n as u64);
    Ok(())
}

fn file_ok(n: &str) -> bool { !n.is_empty() && n != "." && n != ".." && n.len() <= 255 && !n.contains(['/', '\0']) }
/// a real file of this name in a category's folder
fn real(folder: &str, name: &str) -> W {
    let p = tree_dir().join(folder).join("601").join(name);
    if !p.exists() { std::fs::write(&p, "x").unwrap() }
    W::Path(p)
}
fn any_wrapper(kind: usize, name: &str, serial: u32) -> Option<W> {
    Some(match kind {
        0 => W::StringId { id: format!("s{}", serial), res_full_name: name.into(), res_type: T::Font },
        1 => W::U32Id { id: serial, res_full_name: name.into(), res_type: T::Image },
        2 => W::StringId { id: name.into(), res_full_name: "n.png".into(), res_type: T::Sound },
        _ => if file_ok(name) { real("images", name) } else { return None },
    })
}
/// one id or file name of the wide domain next to an ordinary entry
fn wide15(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free_of(strs(true)).clone();
    let (as_id, cat, kind) = (ch.free(2) == 0, ch.free(3), ch.free(4));
    ch.state(&(&n, as_id, cat, kind));
    ch.note(|| format!("{} {:?} in {:?}, kind {}", if as_id { "id" } else { "file" }, n, CATS[cat], kind));
    let (id, file) = if as_id { (n.as_str(), "a.png") } else { ("id", n.as_str()) };
    let Some(f) = any_wrapper(kind, file, 1) else { ch.skip(); return Ok(()) };
    if as_id && n == "other" { ch.skip(); return Ok(()) }
    let mut w = World::new(&[id, "other", "absent", ""]);
    w.put("other", 0, any_wrapper(0, "b.png", 2).unwrap())?;
    w.put(id, cat, f.clone())?;
    w.put(id, (cat + 1) % 3, f.clone())?;
    w.remove(id)?;
    w.put(id, (cat + 1) % 3, f.clone())?;
    w.remove("other")?;
    w.remove(id)?;
    w.put(id, cat, f)?;
    ch.steps(7);
    Ok(())
}
/// two ids, or two files, with names easily mistaken for each other
fn kin15(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = ch.free_of(crate::dict::pairs()).clone();
    let (as_id, c, d, kind) = (ch.free(2) == 0, ch.free(3), ch.free(3), ch.free(4));
    ch.state(&(&a, &b, as_id, c, d, kind));
    ch.note(|| format!("{} {:?} and {:?} in {:?} and {:?}, kind {}", if as_id { "ids" } else { "files" }, a, b, CATS[c], CATS[d], kind));
    let (i, j, f, g) = if as_id { (a.as_str(), b.as_str(), "a.png", "b.png") } else { ("i", "j", a.as_str(), b.as_str()) };
    let (Some(f), Some(g)) = (any_wrapper(kind, f, 1), any_wrapper(kind, g, 2)) else { ch.skip(); return Ok(()) };
    let mut w = World::new(&[i, j]);
    w.put(i, c, f.clone())?;
    w.put(j, d, g.clone())?;
    w.put(j, c, f.clone())?;
    w.remove(i)?;
    w.put(i, d, g)?;
    w.remove(j)?;
    w.put(j, c, f)?;
    ch.steps(7);
    Ok(())
}

/// two entries whose handles, files or both are alike, and a third to another
fn handles(ch: &mut Ch) -> Result<(), String> {
    const NUMBERS: [u32; 12] = [0, 1, 2, 7, 127, 255, 256, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX];
    const STRINGS: [&str; 8] = ["", "0", "1", "i", "a.png", "images", " ", "é"];
    let any = |ch: &mut Ch, name: &str| {
        let k = ch.free(NUMBERS.len() + STRINGS.len() + 1);
        let res_type = [T::CustomIcon, T::Image, T::Sound, T::Font][k % 4];
        if k < NUMBERS.len() { W::U32Id { id: NUMBERS[k], res_full_name: name.into(), res_type } }
        else if k < NUMBERS.len() + STRINGS.len() { W::StringId { id: STRINGS[k - NUMBERS.len()].into(), res_full_name: name.into(), res_type } }
        else { W::Path(tree_dir().join("images/601").join(name)) }
    };
    let f = any(ch, "a.png");
    let name = *ch.free_of(&["a.png", "b.png", "a"]);
    let g = any(ch, name);
    let (c, d) = (ch.free(3), ch.free(3));
    ch.state(&(format!("{:?}{:?}", f, g), c, d));
    ch.note(|| format!("{:?} in {:?}, {:?} in {:?}", f, CATS[c], g, CATS[d]));
    let mut w = World::new(&["i", "j", "0", "a.png"]);
    w.put("i", c, f.clone())?;
    w.put("j", d, g.clone())?;
    w.put("i", d, g.clone())?;
    w.put("0", d, f.clone())?;
    w.remove("i")?;
    w.put("a.png", c, g)?;
    w.remove("j")?;
    w.put("i", c, f)?;
    ch.steps(8);
    Ok(())
}

/// where a path leads: through links, dots, missing folders
fn leads(ch: &mut Ch) -> Result<(), String> {
    thread_local! { static D: Scratch = {
        use std::os::unix::fs::symlink;
        let s = Scratch::new();
        let p = |n: &str| s.0.join(n);
        std::fs::create_dir_all(p("images/601/sub")).unwrap();
        std::fs::write(p("images/601/a.png"), "x").unwrap();
        std::fs::write(p("images/601/empty.png"), "").unwrap();
        symlink(p("images/601/a.png"), p("images/601/link.png")).unwrap();
        symlink("a.png", p("images/601/near.png")).unwrap();
        symlink("link.png", p("images/601/chain.png")).unwrap();
        symlink(p("gone"), p("images/601/broken.png")).unwrap();
        symlink("broken.png", p("images/601/chain-broken.png")).unwrap();
        symlink("loop.png", p("images/601/loop.png")).unwrap();
        symlink("images/601/a.png", p("images/601/elsewhere.png")).unwrap();
        symlink(p("images"), p("linked")).unwrap();
        symlink(p("none"), p("lost")).unwrap();
        s
    } }
    let root = D.with(|d| d.0.clone());
    const PATHS: [&str; 24] = ["images/601/a.png", "images/601/empty.png", "images/601/link.png", "images/601/near.png", "images/601/chain.png", "images/601/broken.png", "images/601/chain-broken.png", "images/601/loop.png", "images/601/elsewhere.png",
        "linked/601/a.png", "lost/601/a.png", "lost/a.png", "images/./601//a.png", "images/601/../601/a.png", "images/601/sub/../a.png", "images/601/gone/../a.png", "images/601/a.png/", "images/601/a.png/.", "images/601/a.png/x", "images/601/A.png", "images/601/a.png ", "images/601/a", "linked/601/broken.png", "images/602/a.png"];
    let path = |k: usize| match k { 0 => PathBuf::new(), 1 => PathBuf::from("a.png"), 2 => PathBuf::from("images/601/a.png"), 3 => PathBuf::from("/nowhere/images/601/a.png"), 4 => PathBuf::from("images/601/a\0.png"), _ => { let mut o = root.clone().into_os_string(); o.push("/"); o.push(PATHS[k - 5]); PathBuf::from(o) } };
    let (k, j) = (ch.free(PATHS.len() + 5), ch.free(PATHS.len() + 5));
    let (c, d) = (ch.free(3), ch.free(3));
    ch.state(&(k, j, c, d));
    ch.note(|| format!("{:?} in {:?}, {:?} in {:?}", path(k), CATS[c], path(j), CATS[d]));
    let mut w = World::new(&["i", "j"]);
    w.put("i", c, W::Path(path(k)))?;
    w.put("j", d, W::Path(path(j)))?;
    w.put("i", d, W::Path(path(j)))?;
    w.remove("i")?;
    w.put("i", d, W::Path(path(k)))?;
    ch.steps(5);
    Ok(())
}

pub fn c15() -> Check {
    Check { id: "C15", rule: "after every operation of every history: the three ordered lists and what is found under every id are those of a reference registry, refused puts name the id or file and change nothing, removing returns what was stored",
        assumptions: &["putting a custom icon into the registry is a documented panic and not explored", "where an id is taken and the file is missing either error is accepted"],
        scopes: vec![
            scope("two-4", "every history of up to 4 puts and removes over 2 ids, 3 categories, 4 kinds of file", two4, ALL, OFF), scope("two-5", "the same up to 5 operations", two5, OFF, ALL),
            scope("three-4", "every history of up to 4 operations over 3 ids, handles and paths", three4, ALL, OFF), scope("three-5", "every history of up to 5 operations over 3 ids", three5, ALL, OFF), scope("three-6", "the same up to 6 operations", three6, OFF, ALL),
            scope("one-7", "every history of up to 7 operations on one id", one7, OFF, ALL),
            scope("files-4", "the file of a path appears and disappears between operations, histories up to 4", env4, ALL, OFF), scope("files-5", "the same up to 5", env6, OFF, ALL),
            scope("loaded-2", "every registry loaded from a project with up to 2 ids in each of 3 categories, then every history of up to 2 operations", loaded2, ALL, OFF), scope("loaded-4", "the same up to 4 operations", loaded4, OFF, ALL),
            wide("wide", "an id or file name of the wide domain in each category, put, refused, moved and removed next to another entry", wide15, ALL, ALL),
            scope("kin", "two ids or two files with names easily mistaken for each other, in every two categories", kin15, ALL, ALL),
            scope("handles", "two entries in every two categories whose handles are any of 12 numbers and 8 strings, or paths, also equal ones, with equal, alike and other file names", handles, ALL, ALL),
            scope("leads", "every two of 29 paths, that lead somewhere or nowhere through links, dots and missing folders, in every two categories", leads, ALL, ALL),
            scope("ladder", "up to 60 entries, with removals and re-insertions", ladder, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ C16

/// what the files are bound to: (category folder or "icons", file name) -> wrapper
fn bad_path(e: &ResourceFilesParseError) -> &PathBuf { match e { ResourceFilesParseError::FileDoesntExist { path } | ResourceFilesParseError::InvalidPath { path } => path } }
fn bound(f: &ResourceFiles) -> Value {
    let m = |x: &std::collections::HashMap<String, W>| { let mut v: Vec<(String, Value)> = x.iter().map(|(k, w)| (k.clone(), obs::wrapper(w))).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); json!(v) };
    json!([f.custom_icon.as_ref().map(obs::wrapper), m(&f.images), m(&f.sounds), m(&f.fonts)])
}
/// one path of any shape among good ones
fn shapes(ch: &mut Ch) -> Result<(), String> {
    let root = tree_dir();
    let top = *ch.free_of(&["images", "sounds", "fonts", "icons", "image", "Images", "others", "images.d", "601", " images", "absent"]);
    let dir = *ch.free_of(&["601", "", "601/sub", "images", "sounds", "icons", "nowhere"]);
    let name = *ch.free_of(&["a.png", "b.png", "é x", "a", "missing.png", "A.png"]);
    let among = ch.free(4); let deep = ch.free(2) == 1;
    let path = if dir.is_empty() { root.join(top).join(name) } else { root.join(top).join(dir).join(name) };
    // an unrelated folder named like a category higher up changes nothing
    let path = if deep && dir == "601" { let d = root.join("fonts/sounds/images").join(top).join(dir); std::fs::create_dir_all(&d).unwrap(); if path.exists() { std::fs::write(d.join(name), "x").unwrap() } d.join(name) } else { path };
    ch.state(&(top, dir, name, among, deep));
    if among > 0 && name == "a" { ch.skip(); return Ok(()) }
    one_path(ch, path, name, among)
}
fn one_path(ch: &mut Ch, path: PathBuf, name: &str, among: usize) -> Result<(), String> {
    let root = tree_dir();
    ch.note(|| format!("{:?}", path));
    let exists = path.exists();
    let up = path.parent().and_then(|p| p.parent()).and_then(|p| p.file_name()).map(|s| s.to_string_lossy().to_string()).unwrap_or_default();
    let slot = ["icons", "images", "sounds", "fonts"].iter().position(|s| *s == up);
    let good = [W::Path(root.join("images/601/other").with_file_name("a")), W::StringId { id: "h".into(), res_full_name: "h.png".into(), res_type: T::Sound }];
    let mut v: Vec<W> = if among > 0 { good.to_vec() } else { vec![] };
    if among > 0 { v.insert(among - 1, W::Path(path.clone())) } else { v.push(W::Path(path.clone())) }
    let want: Result<Value, ()> = if !exists || slot.is_none() { Err(()) } else {
        let (mut icon, mut ms) = (Value::Null, [vec![], vec![], vec![]]);
        if among > 0 { ms[0].push(("a".to_string(), obs::wrapper(&good[0]))); ms[1].push(("h.png".to_string(), obs::wrapper(&good[1]))) }
        let w = obs::wrapper(&W::Path(path.clone()));
        if slot == Some(0) { icon = w } else { ms[slot.unwrap() - 1].push((name.to_string(), w)) }
        for m in ms.iter_mut() { m.sort_by(|a, b| a.0.cmp(&b.0)) }
        Ok(json!([icon, ms[0], ms[1], ms[2]]))
    };
    let got = ResourceFiles::try_from(v.clone());
    ch.step();
    match (want, got) {
        (Ok(w), Ok(g)) => {
            refm::want("bound", &w, &bound(&g))?;
            let back: Vec<W> = g.into();
            refm::want("released", &file_set(&Some(v)), &file_set(&Some(back)))?;
        }
        (Err(()), Err(e)) => {
            if *bad_path(&e) != path || !e.to_string().contains(&format!("{:?}", path)) { return Err(format!("the error names {:?} instead of {:?}", e, path)) }
            match e { ResourceFilesParseError::FileDoesntExist { .. } if exists => return Err(format!("{:?} exists", path)), ResourceFilesParseError::InvalidPath { .. } if slot.is_some() => return Err(format!("{:?} is in the folder {:?}", path, up)), _ => {} }
        }
        (Err(()), Ok(_)) => return Err(format!("the path {:?} was accepted (exists: {}, folder: {:?})", path, exists, up)),
        (Ok(_), Err(e)) => return Err(format!("the path {:?} was refused: {:?}", path, e)),
    }
    Ok(())
}

const SLOTS: [(usize, &str); 7] = [(0, "a.png"), (1, "a.png"), (0, "b.png"), (2, "a.png"), (1, "é x"), (2, "b.png"), (0, "a")];
fn file_for(kind: usize, cat: usize, name: &str, serial: usize) -> W {
    let (t, f) = if cat < 3 { (CATS[cat], FOLDERS[cat]) } else { (T::CustomIcon, "icons") };
    match kind {
        1 => W::Path(tree_dir().join(f).join("601").join(name)),
        2 => W::StringId { id: format!("h{}", serial), res_full_name: name.into(), res_type: t },
        // the number also is another's string
        _ => W::U32Id { id: serial as u32, res_full_name: name.into(), res_type: t },
    }
}
/// every assignment of entries and files
fn binding(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    let mut files = vec![];
    let (mut missing, mut want, mut used, mut extra) = (vec![], [vec![], vec![], vec![]], vec![], false);
    let mut key = vec![];
    for (i, (cat, name)) in SLOTS.iter().enumerate() {
        // 0: nothing; 1..4: an entry with a path, string, number, no file; 5..7: a file without an entry
        let k = ch.pick(8);
        key.push(k);
        // the icon of another category may carry the same name
        let res_name = format!("{}{}", ["r", "a.png", "b.png"][i % 3], i);
        if (1..=4).contains(&k) { d.resource[FOLDERS[*cat]].as_array_mut().unwrap().push(json!({"resFullName": name, "resName": res_name, "resType": 1})) }
        let file = match k { 1..=3 => Some(file_for(k, *cat, name, i)), 5..=7 => Some(file_for(k - 4, *cat, name, i)), _ => None };
        if k == 4 { missing.push((res_name.clone(), name.to_string(), CATS[*cat])) }
        if let Some(f) = &file { files.push(f.clone()); if k < 4 { want[*cat].push(json!([res_name, obs::wrapper(f)])); used.push(f.clone()) } else { extra = true } }
    }
    let icon = ch.pick(4);
    let icon_file = if icon > 0 { d.project["custom_icon"] = json!(true); Some(file_for(icon, 3, *ch.of(&["icon.png", "a.png"]), 77)) } else { None };
    let order = ch.pick(4);
    // the attached files decide, whatever the project file says about an icon
    let flip = ch.pick(2);
    if flip == 1 { let f = d.project["custom_icon"] == json!(true); d.project["custom_icon"] = json!(!f) }
    key.push(icon); key.push(order); key.push(flip);
    if let Some(f) = &icon_file { files.push(f.clone()); used.push(f.clone()) }
    match order { 0 => {} 1 => files.reverse(), 2 => { let n = files.len(); files.rotate_left(n / 2) } _ => { if files.len() > 1 { files.swap(0, 1) } } }
    ch.state(&key);
    bind(ch, &d, Bind { files, missing, want, used, extra, icon_file })
}
/// what binding should do: the entries without a file, or what each is bound to
struct Bind { files: Vec<W>, missing: Vec<(String, String, T)>, want: [Vec<Value>; 3], used: Vec<W>, extra: bool, icon_file: Option<W> }
fn bind(ch: &mut Ch, d: &Doc, b: Bind) -> Result<(), String> {
    let Bind { files, missing, want, used, extra, icon_file } = b;
    let t = d.texts(Style { after: 1, ..Style::default() });
    ch.note(|| format!("resource:\n{}\nfiles: {:#?}", t[3], files));
    let parsed = Parsed::parse_from(raw_of(t, Some(files.clone()))).map_err(|e| format!("loading is refused: {:?}", e))?;
    let direct = file_set(&Some(parsed.resource_files.clone().unwrap_or_default().into()));
    refm::want("files after loading", &file_set(&Some(files.clone())), &direct)?;
    ch.steps(2);
    let p = match SketchwareProject::try_from(parsed) {
        Ok(p) => { if !missing.is_empty() { return Err(format!("an entry without a file was accepted: {:?}", missing)) } p }
        Err(ConvError::MissingResourceFile { res_name, res_full_name, res_type }) => {
            if !missing.contains(&(res_name.clone(), res_full_name.clone(), res_type)) { return Err(format!("the error names {:?}, {:?}, {:?}, but the entries without a file are {:?}", res_name, res_full_name, res_type, missing)) }
            return Ok(())
        }
        Err(e) => return Err(format!("the conversion is refused: {:?}", e)),
    };
    let v = obs::aproject(&p);
    refm::want("icon", &json!(icon_file.as_ref().map(obs::wrapper)), &v["icon"])?;
    for i in 0..3 { refm::want(FOLDERS[i], &json!(want[i]), &v[FOLDERS[i]])? }
    let r = save(p)?;
    ch.steps(2);
    refm::want("resource file", &d.resource, &read_resource(&r.resource)?)?;
    let saved = file_set(&r.resource_files);
    if !extra { refm::want("attached on save", &file_set(&Some(files)), &saved)? }
    else {
        let all = file_set(&Some(files)); let all = all.as_array().unwrap();
        let s = saved.as_array().ok_or("no files are attached on save")?;
        for x in s { if !all.contains(x) { return Err(format!("a file was attached that was not there: {}", x)) } }
        for x in file_set(&Some(used)).as_array().unwrap() { if !s.contains(x) { return Err(format!("a file is no longer attached: {}", x)) } }
    }
    Ok(())
}
/// one entry and its file under a wide name, next to others
fn wide16(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free_of(strs(true)).clone();
    let (cat, kind, as_id) = (ch.free(4), ch.free(3) + 1, ch.free(2) == 1);
    ch.state(&(&n, cat, kind, as_id));
    if as_id && (cat == 3 || kind != 2) || (!as_id && kind == 1 && !file_ok(&n)) || (as_id && n == "other") { ch.skip(); return Ok(()) }
    let (id, name) = if as_id { (n.as_str(), "file.bin") } else { ("entry", n.as_str()) };
    let mut d = empty();
    let mk = |cat: usize, name: &str, serial: usize| { let w = file_for(kind, cat, name, serial); if let W::Path(p) = &w { if !p.exists() { std::fs::write(p, "x").unwrap() } } w };
    let mut b = Bind { files: vec![], missing: vec![], want: [vec![], vec![], vec![]], used: vec![], extra: false, icon_file: None };
    // the same file name in another category, an ordinary entry, and the one in question
    if cat == 3 { d.project["custom_icon"] = json!(true); let w = mk(3, name, 9); b.files.push(w.clone()); b.used.push(w.clone()); b.icon_file = Some(w) }
    for (k, (c, id, name)) in [(cat % 3, id, name), ((cat + 1) % 3, "other", "other.bin"), ((cat + 1) % 3, "same name", name)].iter().enumerate() {
        if *c == (cat + 1) % 3 && k == 2 && *name == "other.bin" { continue }
        if *id == "same name" && as_id && n == "same name" { continue }
        d.resource[FOLDERS[*c]].as_array_mut().unwrap().push(json!({"resFullName": name, "resName": id, "resType": 1}));
        let w = mk(*c, name, k);
        b.want[*c].push(json!([id, obs::wrapper(&w)]));
        b.files.insert(0, w.clone()); b.used.push(w);
    }
    bind(ch, &d, b)
}
/// entries and files with names easily mistaken for each other
fn kin16(ch: &mut Ch) -> Result<(), String> {
    let (x, y) = ch.free_of(crate::dict::pairs()).clone();
    let (cat, other, kind, how) = (ch.free(3), ch.free(3), ch.free(3) + 1, ch.free(5));
    ch.state(&(&x, &y, cat, other, kind, how));
    if how < 4 && kind == 1 && (!file_ok(&x) || !file_ok(&y)) || (how == 4 && kind != 2) { ch.skip(); return Ok(()) }
    ch.note(|| ["an entry, and only a file with the other name", "both entries and both files", "an entry and both files", "two entries, the files the other way round", "ids"][how].into());
    let mut d = empty();
    let mk = |cat: usize, name: &str, serial: usize| { let w = file_for(kind, cat, name, serial); if let W::Path(p) = &w { if !p.exists() { std::fs::write(p, "x").unwrap() } } w };
    let mut b = Bind { files: vec![], missing: vec![], want: [vec![], vec![], vec![]], used: vec![], extra: false, icon_file: None };
    let entry = |d: &mut Doc, c: usize, id: &str, name: &str| d.resource[FOLDERS[c]].as_array_mut().unwrap().push(json!({"resFullName": name, "resName": id, "resType": 1}));
    let (i, j, f, g) = if how == 4 { (x.as_str(), y.as_str(), "f1.x", "f2.x") } else { ("i", "j", x.as_str(), y.as_str()) };
    entry(&mut d, cat, i, f);
    if how != 0 && how != 2 { entry(&mut d, other, j, g) }
    let (wf, wg) = (mk(cat, f, 1), mk(other, g, 2));
    match how {
        0 => { b.files.push(mk(other, g, 3)); b.missing.push((i.into(), f.into(), CATS[cat])) }
        2 => { b.files.extend([wg, wf.clone()]); b.used.push(wf.clone()); b.want[cat].push(json!([i, obs::wrapper(&wf)])); b.extra = true }
        // (in one category both have their files; in two neither has)
        3 if cat != other => { b.files.extend([mk(cat, g, 3), mk(other, f, 4)]); b.missing.extend([(i.into(), f.into(), CATS[cat]), (j.into(), g.into(), CATS[other])]) }
        _ => {
            b.files.extend([wg.clone(), wf.clone()]); b.used.extend([wf.clone(), wg.clone()]);
            b.want[cat].push(json!([i, obs::wrapper(&wf)])); b.want[other].push(json!([j, obs::wrapper(&wg)]));
        }
    }
    bind(ch, &d, b)
}
/// entries that share files
fn shared(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    let names = ["a.png", "b.png"];
    let mut b = Bind { files: vec![], missing: vec![], want: [vec![], vec![], vec![]], used: vec![], extra: false, icon_file: None };
    let mut key = vec![];
    // which files are attached, and as what
    let mut file = [[None, None], [None, None], [None, None]];
    for c in 0..3 { for n in 0..2 { let k = if c == 2 && n == 1 { 0 } else { ch.free(4) }; key.push(k); if k > 0 { let w = file_for(k, c, names[n], c * 2 + n); b.files.push(w.clone()); file[c][n] = Some(w) } } }
    // up to four entries, any of them for any of the names
    let count = ch.free(if ch.wide { 4 } else { 3 }) + 1;
    let mut used = [[false; 2]; 3];
    for i in 0..count {
        let (c, n) = (ch.free(3), ch.free(2)); key.push(c * 2 + n);
        if c == 2 && n == 1 { ch.skip(); return Ok(()) }
        let id = format!("r{}", i);
        d.resource[FOLDERS[c]].as_array_mut().unwrap().push(json!({"resFullName": names[n], "resName": id, "resType": 1}));
        match &file[c][n] { Some(w) => { b.want[c].push(json!([id, obs::wrapper(w)])); if !used[c][n] { b.used.push(w.clone()) } used[c][n] = true } None => b.missing.push((id, names[n].to_string(), CATS[c])) }
    }
    b.extra = (0..3).any(|c| (0..2).any(|n| file[c][n].is_some() && !used[c][n]));
    ch.state(&key);
    bind(ch, &d, b)
}
/// without files: every entry gets a handle
fn without(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    let mut want = [vec![], vec![], vec![]];
    let mut key = vec![];
    for (i, (cat, name)) in SLOTS.iter().enumerate() {
        let k = ch.free(2); key.push(k);
        if k == 0 { continue }
        let res_name = format!("{}{}", ["r", "a.png", "b.png"][i % 3], i);
        d.resource[FOLDERS[*cat]].as_array_mut().unwrap().push(json!({"resFullName": name, "resName": res_name, "resType": 1}));
        want[*cat].push(json!([res_name, {"name": name, "type": format!("{:?}", CATS[*cat])}]));
    }
    let icon = ch.free(2) == 1; d.project["custom_icon"] = json!(icon);
    ch.state(&(key, icon));
    let t = d.texts(Style { after: 1, ..Style::default() });
    ch.note(|| t[3].clone());
    let p = load(raw_of(t, None))?;
    for w in p.resources.get_images().values().chain(p.resources.get_sounds().values()).chain(p.resources.get_fonts().values()) { if !matches!(w, W::U32Id { .. } | W::StringId { .. }) { return Err(format!("a real path was made up: {:?}", w)) } }
    let strip = |mut v: Value| { for h in ["number", "string"] { v.as_object_mut().unwrap().remove(h); } v };
    let v = obs::aproject(&p);
    for i in 0..3 { refm::want(FOLDERS[i], &json!(want[i]), &json!(v[FOLDERS[i]].as_array().unwrap().iter().map(|e| json!([e[0], strip(e[1].clone())])).collect::<Vec<_>>()))? }
    if icon { if v["icon"]["type"] != "CustomIcon" { return Err(format!("the icon became {}", v["icon"])) } } else { refm::want("icon", &Value::Null, &v["icon"])? }
    let r = save(p)?;
    ch.steps(9);
    refm::want("resource file", &d.resource, &read_resource(&r.resource)?)?;
    refm::want("project file", &d.project["custom_icon"], &refm::json(&r.project)?["custom_icon"])?;
    refm::want("attached on save", &Value::Null, &file_set(&r.resource_files))
}
/// a project with one bad path is refused as a whole, naming it
fn refused(ch: &mut Ch) -> Result<(), String> {
    let root = tree_dir();
    let d = empty();
    let bad = [root.join("images/601/missing"), root.join("others/601/a.png"), root.join("missing"), PathBuf::from("/"), PathBuf::from(""), PathBuf::from("missing.png"), root.join("images/a.png")];
    let k = ch.free(bad.len()); let n = ch.free(4); let pos = ch.free(n + 1);
    ch.state(&(k, n, pos));
    let mut files: Vec<W> = (0..n).map(|i| file_for(1 + i % 3, i % 3, "a.png", i)).collect();
    files.insert(pos, W::Path(bad[k].clone()));
    ch.note(|| format!("{:?}", files));
    let t = d.texts(Style { after: 1, ..Style::default() });
    let [a, b, c, r, v, l] = t.clone();
    let e1 = Parsed::parse_from(raw_of(t, Some(files.clone()))).err();
    let e2 = Parsed::parse(a, b, c, r, v, l, files).err();
    ch.steps(2);
    for e in [e1, e2] {
        match e {
            Some(swrs::parser::SketchwareProjectParseError::ResourceFilesParseError(e)) => if *bad_path(&e) != bad[k] { return Err(format!("the error names {:?} instead of {:?}", e, bad[k])) },
            o => return Err(format!("a project with the path {:?} gave {:?}", bad[k], o)),
        }
    }
    Ok(())
}

/// links and folders on the way: the folder a path names decides, not where it leads
fn links(ch: &mut Ch) -> Result<(), String> {
    let root = tree_dir();
    let top = *ch.free_of(&["images", "sounds", "fonts", "icons", "others", "image", "linked/images", "linked/sounds", "linked/fonts", "linked/icons", "linked/others"]);
    let dir = *ch.free_of(&["601", "602", "601/../601", "602/../601", ".", "./601", "601/."]);
    let name = *ch.free_of(&["a.png", "link.png", "a.link", "broken.png", "missing.png"]);
    let kind = ch.free(3);
    ch.state(&(top, dir, name, kind));
    let path = root.join(top).join(dir).join(name);
    one_path(ch, path, name, kind)
}
fn dotted(ch: &mut Ch) -> Result<(), String> {
    let (top, name, kind) = (*ch.free_of(&["images", "sounds", "fonts", "icons", "others"]), *ch.free_of(DOTTED), ch.free(3));
    ch.state(&(top, name, kind));
    one_path(ch, tree_dir().join(top).join("601").join(name), name, kind)
}

pub fn c16() -> Check {
    Check { id: "C16", rule: "every entry is bound to the file of its category and name and to no other, a missing file or misplaced path is refused by name, the same set of files is attached on save, and without files every entry gets a handle with its name and category and none is attached",
        assumptions: &["two entries of one category and name, or two files of one category and file name, are not well-formed", "whether files that no entry mentions stay attached on save is not claimed"],
        scopes: vec![
            scope("shapes", "every path of a family of folder shapes, alone and among other files", shapes, ALL, ALL),
            scope("links", "files and folders that are links to another category's or lead nowhere, and paths with dots in them: the folder a path names decides", links, ALL, ALL),
            scope("dotted", "file names that begin or end in dots, blanks and signs", dotted, ALL, ALL),
            scope("binding", "7 entry/file slots over 3 categories with colliding names, each empty, an entry with a path, string or number, an entry without a file, or a file without an entry; the icon; file orders", binding, 4, 6),
            wide("wide", "an entry whose id or file has a name of the wide domain, and the icon, next to others and to its namesake in another category", wide16, ALL, ALL),
            scope("kin", "entries and files with names easily mistaken for each other, in every two categories, with and without the right file", kin16, ALL, ALL),
            scope("shared", "up to 3 entries, any of them for the same file, over 5 files each attached as a path, string or number or not attached", shared, ALL, OFF), wide("shared-4", "the same up to 4 entries", shared, OFF, ALL),
            scope("without", "every subset of entries, without files", without, ALL, ALL),
            scope("refused", "a bad path at every position among up to 3 good files", refused, ALL, ALL),
        ] }
}

//! C26: copies have the content of their original, and values are equal exactly if their contents are
use super::projects::*;
use super::history::slight_docs;
use super::views::{mk_kind, KINDS};
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::{self, Item, Node, Val};
use crate::{obs, Check};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::OnceLock;
use swrs::api::block::{BlockContent, BlockControl, BlockType, Blocks};
use swrs::api::component::ComponentKind;
use swrs::api::view::{View as ApiView, ViewType};
use swrs::api::{ResourceId, Resources, SketchwareProject};
use swrs::color::Color;
use swrs::parser::file::{File, FileItem};
use swrs::parser::library::{Library, LibraryItem};
use swrs::parser::logic::{component::Component, event::Event, list_variable::ListVariable, more_block::MoreBlock, variable::Variable, Block, Logic};
use swrs::parser::project::Project;
use swrs::parser::resource::{Resource, ResourceItem};
use swrs::parser::view::{models::{layout::gravity::Gravity, AndroidView}, View as ViewFile};
use swrs::parser::{Parsable, ResourceFiles, ResourceFileWrapper as W, ResourceType as T, SketchwareProject as Parsed};

/// one value by itself: its copies are equal to it and read the same
fn copied<V: Clone + PartialEq, O: PartialEq + Debug>(v: &V, o: impl Fn(&V) -> O) -> Result<(), String> {
    #[allow(clippy::eq_op)]
    if v != v { return Err("a value is not equal to itself".into()) }
    let c = v.clone();
    if o(&c) != o(v) { return Err(format!("the copy is {}, the original {}", trunc(&format!("{:?}", o(&c)), 600), trunc(&format!("{:?}", o(v)), 600))) }
    if c != *v || *v != c || !(c == *v) { return Err("a copy is not equal to its original".into()) }
    Ok(())
}
/// two values are equal exactly if their contents are; copies over each other
fn compared<V: Clone + PartialEq, O: PartialEq + Debug>(a: &V, b: &V, o: impl Fn(&V) -> O) -> Result<(), String> {
    let same = o(a) == o(b);
    let say = || format!("{} and {}", trunc(&format!("{:?}", o(a)), 600), trunc(&format!("{:?}", o(b)), 600));
    if (a == b) != same || (b == a) != same { return Err(format!("{} though their contents are {}: {}", if same { "not equal" } else { "equal" }, if same { "the same" } else { "different" }, say())) }
    if (a != b) == same || (b != a) == same { return Err(format!("`!=` is not the opposite of `==`: {}", say())) }
    let mut c = a.clone();
    c.clone_from(b);
    if o(&c) != o(b) { return Err(format!("copied over another value it becomes {:?} instead of {:?}", o(&c), o(b))) }
    Ok(())
}

// ------------------------------------------------------------------ entries

type Entries<V> = Vec<(Value, V)>;
/// the default entry and every single deviation
fn deviations<V: Parsable>(fs: &'static [Field], wide: bool) -> Entries<V> where V::ParseError: Debug {
    let mut docs = vec![default(fs)];
    for (p, small, big, _) in &table(fs).fields { for x in if wide { big } else { small } { let mut d = default(fs); set(&mut d, p, x.clone()); if d != docs[0] { docs.push(d) } } }
    docs.into_iter().map(|d| { let v = V::parse(&write(&d, 0)).unwrap_or_else(|e| panic!("{} is refused: {:?}", d, e)); (d, v) }).collect()
}
fn two<V: Clone + PartialEq>(ch: &mut Ch, l: &[(Value, V)], seen: fn(&V) -> Value) -> Result<(), String> {
    let i = ch.free(l.len());
    ch.note(|| format!("{} and each of {} others", l[i].0, l.len()));
    ch.state(&l[i].0.to_string());
    let (d, a) = (&l[i].0, &l[i].1);
    copied(a, seen)?;
    for (j, (e, b)) in l.iter().enumerate() {
        // the documents are what was put in, and no two of them are the same
        let same = i == j;
        if (a == b) != same || (b == a) != same || (a != b) == same { return Err(format!("these are {}: {} and {}", if same { "not equal" } else { "equal" }, d, e)) }
    }
    let other = &l[(i + 1) % l.len()];
    compared(a, &other.1, seen)?;
    ch.steps(2 + l.len() as u64);
    Ok(())
}
macro_rules! entries {
    ($name:ident, $wide:expr) => {
        fn $name(ch: &mut Ch) -> Result<(), String> {
            macro_rules! of { ($t:ty, $fs:expr, $o:expr) => {{ static L: OnceLock<Entries<$t>> = OnceLock::new(); two(ch, L.get_or_init(|| deviations::<$t>($fs, $wide)), $o) }} }
            match ch.free(8) {
                0 => of!(FileItem, FILE_ITEM, obs::file_item), 1 => of!(LibraryItem, LIB_ITEM, obs::lib_item), 2 => of!(ResourceItem, RES_ITEM, obs::res_item), 3 => of!(AndroidView, VIEW, obs::view),
                4 => of!(Event, EVENT, obs::event), 5 => of!(Component, COMPONENT, obs::component), 6 => of!(Block, BLOCK, obs::block), _ => of!(Project, PROJECT, obs::project),
            }
        }
    };
}
entries!(entries_small, false);
entries!(entries_wide, true);
/// the same entry in every style of writing is the same value
fn styles(ch: &mut Ch) -> Result<(), String> {
    fn of<V: Parsable + PartialEq + Clone>(ch: &mut Ch, fs: &'static [Field], seen: fn(&V) -> Value) -> Result<(), String> where V::ParseError: Debug {
        let d = gen(ch, fs);
        let (s, t) = (ch.free(STYLES), ch.free(STYLES));
        ch.state(&(d.to_string(), s, t));
        ch.note(|| format!("{} and {}", write(&d, s), write(&d, t)));
        let read = |s: usize| V::parse(&write(&d, s)).map_err(|e| format!("refused: {:?}", e));
        ch.steps(2);
        compared(&read(s)?, &read(t)?, seen)?;
        if read(s)? != read(t)? { return Err("one entry written in two ways gives two values".into()) }
        Ok(())
    }
    match ch.free(8) {
        0 => of::<FileItem>(ch, FILE_ITEM, obs::file_item), 1 => of::<LibraryItem>(ch, LIB_ITEM, obs::lib_item), 2 => of::<ResourceItem>(ch, RES_ITEM, obs::res_item), 3 => of::<AndroidView>(ch, VIEW, obs::view),
        4 => of::<Event>(ch, EVENT, obs::event), 5 => of::<Component>(ch, COMPONENT, obs::component), 6 => of::<Block>(ch, BLOCK, obs::block), _ => of::<Project>(ch, PROJECT, obs::project),
    }
}
fn names(ch: &mut Ch) -> Result<(), String> {
    let all = strs(ch.wide);
    let pairs = crate::dict::pairs();
    // every name with itself and with its neighbour in the list, and every two that are easily mistaken for each other
    let k = ch.free(2 * all.len() + pairs.len());
    let (a, b) = if k < all.len() { (all[k].clone(), all[k].clone()) } else if k < 2 * all.len() { (all[k - all.len()].clone(), all[(k + 1) % all.len()].clone()) } else { pairs[k - 2 * all.len()].clone() };
    ch.state(&(&a, &b));
    ch.note(|| format!("{:?} and {:?}", a, b));
    let id = |x: &ResourceId| x.0.clone();
    let (x, y) = (ResourceId(a.clone()), ResourceId(b.clone()));
    copied(&x, id)?;
    compared(&x, &y, id)?;
    let hash = |x: &ResourceId| { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() };
    if x == y && hash(&x) != hash(&y) { return Err("equal ids have different hashes".into()) }
    let ws = |n: &str| [W::Path(PathBuf::from(n)), W::StringId { id: n.into(), res_full_name: "n".into(), res_type: T::Image }, W::StringId { id: "i".into(), res_full_name: n.into(), res_type: T::Sound }, W::U32Id { id: 1, res_full_name: n.into(), res_type: T::Font }];
    // paths are compared part by part: `a//b` is `a/b`
    let o = |w: &W| match w { W::Path(p) => json!(p.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect::<Vec<_>>()), w => obs::wrapper(w) };
    for p in ws(&a) { copied(&p, o)?; for q in ws(&b) { compared(&p, &q, o)? } }
    let places = |n: &str| [format!("{}/images/601/x.png", n), format!("/{}/images/601/x.png", n), format!("/r/{}/601/x.png", n), format!("/r/images/{}/x.png", n), format!("/r/images/601/{}", n), format!("/r/images/601/{}.png", n), format!("/r/images/601/x.{}", n)];
    for p in places(&a) { for q in places(&b) { compared(&W::Path(p.clone().into()), &W::Path(q.into()), o)? } }
    for t in 0..4u8 {
        use swrs::parser::logic::variable::VariableType as VT;
        let ty = |t: u8| [VT::Boolean, VT::Integer, VT::String, VT::HashMap][t as usize];
        for u in 0..4u8 {
            compared(&Variable { r#type: ty(t), name: a.clone() }, &Variable { r#type: ty(u), name: b.clone() }, |v| (obs::vtype(v.r#type), v.name.clone()))?;
            compared(&ListVariable { r#type: ty(t), name: a.clone() }, &ListVariable { r#type: ty(u), name: b.clone() }, |v| (obs::vtype(v.r#type), v.name.clone()))?;
        }
    }
    let mb = |m: &MoreBlock| (m.id.clone(), m.spec.clone());
    compared(&MoreBlock { id: a.clone(), spec: "s".into() }, &MoreBlock { id: b.clone(), spec: "s".into() }, mb)?;
    compared(&MoreBlock { id: "f".into(), spec: a.clone() }, &MoreBlock { id: "f".into(), spec: b.clone() }, mb)?;
    compared(&MoreBlock { id: a.clone(), spec: b.clone() }, &MoreBlock { id: b.clone(), spec: a.clone() }, mb)?;
    for c in [ComponentKind::SharedPreferences { path: a.clone() }, ComponentKind::FirebaseDatabase { path: a.clone() }, ComponentKind::FirebaseStorage { path: a.clone() }, ComponentKind::FilePicker { mime_type: a.clone() }, ComponentKind::Intent] {
        copied(&c, obs::ckind)?;
        for d in [ComponentKind::SharedPreferences { path: b.clone() }, ComponentKind::FirebaseDatabase { path: b.clone() }, ComponentKind::FirebaseStorage { path: b.clone() }, ComponentKind::FilePicker { mime_type: b.clone() }, ComponentKind::Dialog] { compared(&c, &d, obs::ckind)? }
    }
    ch.steps(80);
    Ok(())
}
fn numbers(ch: &mut Ch) -> Result<(), String> {
    let a = ch.free(256) as u8;
    ch.state(&a);
    ch.note(|| format!("colours, gravities and sizes with {}", a));
    let c = |c: &Color| { let (r, g, b) = c.rgb(); [c.alpha(), r, g, b] };
    for b in 0..=255u8 {
        for (x, y) in [([a, 1, 2, 3], [b, 1, 2, 3]), ([0, a, 2, 3], [0, b, 2, 3]), ([9, 1, a, 3], [9, 1, b, 3]), ([255, 1, 2, a], [255, 1, 2, b]), ([a, a, b, b], [b, b, a, a]), ([a, b, a, b], [a, b, b, a])] {
            let k = |x: [u8; 4]| Color::from_argb(x[0], x[1], x[2], x[3]);
            if (k(x) == k(y)) != (x == y) || (k(x) != k(y)) == (x == y) { return Err(format!("{:?} and {:?} are {}", x, y, if x == y { "not equal" } else { "equal" })) }
            compared(&k(x), &k(y), c)?;
        }
        compared(&Gravity(a), &Gravity(b), |g| g.0)?;
        for n in [-2i64, -1, 0, 1, 1000] { compared(&obs::mk_size(a as i64 - 2 + n), &obs::mk_size(b as i64 - 2 + n), |s| obs::size(*s))? }
        compared(&W::U32Id { id: a as u32 * 257, res_full_name: "n".into(), res_type: T::Image }, &W::U32Id { id: b as u32 + 256 * a as u32, res_full_name: "n".into(), res_type: T::Image }, obs::wrapper)?;
    }
    ch.steps(256 * 13);
    Ok(())
}

// ------------------------------------------------------------------ programs

fn contents() -> &'static Vec<Vec<Item>> {
    static L: OnceLock<Vec<Vec<Item>>> = OnceLock::new();
    L.get_or_init(|| {
        let leaf = |op: &str, x: &str| Node { color: -1, op: op.into(), items: vec![Item::Word(x.into())], ty: "s".into(), tn: "".into(), ss1: None, ss2: None };
        let mut l: Vec<Vec<Item>> = vec![vec![]];
        for w in ["a", "A", "b", "ab", "", " ", "é", "%"] { l.push(vec![Item::Word(w.into())]) }
        for k in ['s', 'd', 'b', 'm'] {
            for n in [None, Some("x"), Some("y"), Some("X"), Some("")] {
                if k == 'm' && n.is_none() { continue }
                let mut vals = vec![Val::Unset, Val::Ref(1), Val::Ref(2), Val::Ref(257), Val::Tree(Box::new(leaf("f", "x"))), Val::Tree(Box::new(leaf("f", "y"))), Val::Tree(Box::new(leaf("g", "x")))];
                match k { 'd' => vals.extend([0.0, 1.0, -1.0, 0.1, 1e9, 1.0000000000000002].map(Val::Num)), 'b' => vals.extend([Val::Bool(true), Val::Bool(false)]), _ => vals.extend(["", "a", "A", " a", "1", "true", "@1"].map(|t| Val::Text(t.into()))) }
                for v in vals { l.push(vec![Item::Arg(k, n.map(|s: &str| s.to_string()), v)]) }
            }
        }
        let n = l.len();
        for i in (1..n).step_by(3) { l.push(vec![l[i][0].clone(), Item::Word("a".into())]); l.push(vec![Item::Word("a".into()), l[i][0].clone()]); l.push(vec![l[i][0].clone(), l[i][0].clone()]) }
        l
    })
}
fn contents_two(ch: &mut Ch) -> Result<(), String> {
    let l = contents();
    let i = ch.free(l.len());
    ch.state(&i);
    ch.note(|| format!("{:?} and each of {} others", l[i], l.len()));
    let a = obs::mk_items(&l[i]);
    copied(&a, obs::items)?;
    for m in l { let b: BlockContent = obs::mk_items(m); if (a == b) != (l[i] == *m) { return Err(format!("{:?} and {:?} are {}", l[i], m, if a == b { "equal" } else { "not equal" })) } }
    compared(&a, &obs::mk_items(&l[(i + 1) % l.len()]), obs::items)?;
    ch.steps(l.len() as u64);
    Ok(())
}
fn programs() -> &'static Vec<Vec<Node>> {
    static L: OnceLock<Vec<Vec<Node>>> = OnceLock::new();
    L.get_or_init(|| {
        let base = Node { color: -7711273, op: "op".into(), items: vec![Item::Word("w".into()), Item::Arg('s', None, Val::Text("x".into()))], ty: " ".into(), tn: "".into(), ss1: None, ss2: None };
        let mut one: Vec<Node> = vec![base.clone()];
        let mut put = |f: &dyn Fn(&mut Node)| { let mut n = base.clone(); f(&mut n); one.push(n) };
        for c in [-7711272, -7711274, 0, -1, 9065943, i32::MAX as i64] { put(&|n| n.color = c) }
        for o in ["Op", "op ", "", "opp", "o"] { put(&|n| n.op = o.into()) }
        put(&|n| n.items = vec![]); put(&|n| n.items[1] = Item::Arg('s', None, Val::Text("X".into()))); put(&|n| n.items[1] = Item::Arg('m', Some("".into()), Val::Text("x".into()))); put(&|n| n.items.swap(0, 1));
        for (t, tn) in [("b", ""), ("s", ""), ("d", ""), ("v", ""), ("v", "x"), ("v", "y"), ("p", ""), ("p", "x"), ("l", "List String"), ("l", "List Number"), ("c", ""), ("e", ""), ("f", "")] { put(&|n| { n.ty = t.into(); n.tn = tn.into() }) }
        for s in [vec![], vec![base.clone()], vec![base.clone(), base.clone()]] { put(&|n| n.ss1 = Some(s.clone())); put(&|n| n.ss2 = Some(s.clone())); put(&|n| { n.ss1 = Some(s.clone()); n.ss2 = Some(s.clone()) }); put(&|n| { n.ss1 = Some(s.clone()); n.ss2 = Some(vec![]) }) }
        // the same differences one and two levels down, and in rows
        let mut l: Vec<Vec<Node>> = vec![vec![]];
        for n in &one {
            l.push(vec![n.clone()]);
            l.push(vec![base.clone(), n.clone()]);
            l.push(vec![n.clone(), base.clone()]);
            let mut o = base.clone(); o.ss1 = Some(vec![n.clone()]); l.push(vec![o.clone()]);
            let mut p = base.clone(); p.ss2 = Some(vec![base.clone(), o]); l.push(vec![p]);
            let mut q = base.clone(); q.items[1] = Item::Arg('s', None, Val::Tree(Box::new(n.clone()))); l.push(vec![q]);
        }
        for k in [3usize, 64, 257] { for at in [0, k / 2, k - 1] { let mut r = vec![base.clone(); k]; r[at].op = "other".into(); l.push(r) } l.push(vec![base.clone(); k]); }
        l
    })
}
fn programs_two(ch: &mut Ch) -> Result<(), String> {
    let l = programs();
    let i = ch.free(l.len());
    ch.state(&i);
    ch.note(|| format!("program {}: {} and each of {} others", i, trunc(&format!("{:?}", l[i]), 1500), l.len()));
    static M: OnceLock<Vec<Blocks>> = OnceLock::new();
    let made = M.get_or_init(|| l.iter().map(|n| obs::mk_nodes(n)).collect());
    copied(&made[i], obs::nodes)?;
    for (n, b) in l.iter().zip(made) { if (made[i] == *b) != (l[i] == *n) || (made[i] != *b) == (l[i] == *n) { return Err(format!("{} and {} are {}", trunc(&format!("{:?}", l[i]), 600), trunc(&format!("{:?}", n), 600), if made[i] == *b { "equal" } else { "not equal" })) } }
    compared(&made[i], &made[(i + 1) % l.len()], obs::nodes)?;
    // a copy is on its own: what happens to it leaves the original as it is
    let mut c = made[i].clone();
    for b in &mut c.0 { b.op_code.push('!'); b.content.items.clear(); b.sub_stack1 = None; b.block_type = BlockType::Control(BlockControl::EndingBlock) }
    c.0.pop();
    if obs::nodes(&made[i]) != l[i] { return Err("changing a copy changed the original".into()) }
    // raw blocks
    ch.steps(l.len() as u64 + 3);
    Ok(())
}

// ------------------------------------------------------------------ views

/// with the raw view
fn full(v: &ApiView) -> Value { json!([obs::aview(v), raws(v)]) }
fn raws(v: &ApiView) -> Value { json!([obs::view(&v.raw), v.children.iter().map(raws).collect::<Vec<_>>()]) }
fn kinds() -> &'static Vec<(Value, ViewType)> {
    static L: OnceLock<Vec<(Value, ViewType)>> = OnceLock::new();
    L.get_or_init(|| {
        let mut l = vec![];
        for (ty, name, paths) in KINDS {
            let mut d = default(VIEW);
            set(&mut d, "image.resName", json!("pic"));
            let mut base = json!({"kind": name});
            for p in *paths { base[*p] = get(&d, p).clone() }
            if *ty == 2 { base["scroll"] = json!(-1) }
            if *ty == 12 { base["scroll"] = json!(1) }
            l.push(base.clone());
            for p in *paths { for x in &table(VIEW).fields.iter().find(|f| f.0 == *p).expect("attribute").1 { if !x.is_null() && base[*p] != *x { let mut k = base.clone(); k[*p] = x.clone(); l.push(k) } } }
        }
        l.into_iter().map(|k| { let v = mk_kind(&k); (k, v) }).collect()
    })
}
fn kinds_two(ch: &mut Ch) -> Result<(), String> { two(ch, kinds(), obs::kind) }
fn views_two(ch: &mut Ch) -> Result<(), String> {
    static L: OnceLock<Entries<ApiView>> = OnceLock::new();
    let l = L.get_or_init(|| {
        let mut l: Entries<ApiView> = deviations::<AndroidView>(VIEW, false).into_iter().map(|(_, v)| { let v = ApiView::from(v); (full(&v), v) }).collect();
        // views whose only difference is in the editable part, or below them
        let base = l[0].1.clone();
        let mut put = |f: &dyn Fn(&mut ApiView)| { let mut v = base.clone(); f(&mut v); l.push((full(&v), v)) };
        put(&|v| v.id.push('x')); put(&|v| v.id.clear()); put(&|v| v.background_color = Color::from_argb(1, 2, 3, 4)); put(&|v| v.height = obs::mk_size(77)); put(&|v| v.width = obs::mk_size(77));
        put(&|v| v.padding.top = 77); put(&|v| v.padding.right = 77); put(&|v| v.padding.bottom = 77); put(&|v| v.padding.left = 77);
        put(&|v| v.margin.top = 77); put(&|v| v.margin.right = 77); put(&|v| v.margin.bottom = 77); put(&|v| v.margin.left = 77);
        put(&|v| v.weight = 77); put(&|v| v.weight_sum = 77); put(&|v| v.layout_gravity = Gravity(77));
        for (_, k) in kinds() { put(&|v| v.view = Ok(k.clone())) }
        for n in [1, 2, 3] { put(&|v| v.children = vec![base.clone(); n]) }
        put(&|v| { let mut c = base.clone(); c.children.push(base.clone()); v.children = vec![c] });
        put(&|v| { let mut c = base.clone(); c.id.push('x'); v.children = vec![c] });
        put(&|v| { let mut c = base.clone(); c.raw.id.push('x'); v.children = vec![base.clone(), c] });
        put(&|v| { let mut c = base.clone(); c.id.push('x'); v.children = vec![c, base.clone()] });
        put(&|v| { let mut c = base.clone(); c.id.push('x'); v.children = vec![base.clone(), c] });
        // two ways to the same content
        let mut seen = std::collections::HashSet::new();
        l.retain(|(d, _)| seen.insert(d.to_string()));
        l
    });
    two(ch, l, full)
}

// ------------------------------------------------------------------ files and projects

/// everything in a set of resource files
fn attached(f: &ResourceFiles) -> Value {
    let m = |m: &std::collections::HashMap<String, W>| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::BTreeMap<String, W>>().into_iter().map(|(k, v)| json!([k, obs::wrapper(&v)])).collect::<Vec<_>>();
    json!([f.custom_icon.as_ref().map(obs::wrapper), m(&f.images), m(&f.sounds), m(&f.fonts)])
}
/// every two sets of resource files that differ in one thing; the same put into the lists of resources
fn files_two(ch: &mut Ch) -> Result<(), String> {
    static L: OnceLock<Vec<(Value, ResourceFiles)>> = OnceLock::new();
    let l = L.get_or_init(|| {
        let u = |id: u32, n: &str, t: T| W::U32Id { id, res_full_name: n.into(), res_type: t };
        let s = |id: &str, n: &str, t: T| W::StringId { id: id.into(), res_full_name: n.into(), res_type: t };
        let ts = [T::Image, T::Sound, T::Font, T::CustomIcon];
        let base: Vec<W> = ts.iter().enumerate().flat_map(|(i, t)| { let mut v = vec![u(i as u32, &format!("{}.x", i), *t)]; if i < 3 { v.push(s(&format!("s{}", i), &format!("s{}.x", i), *t)) } v }).collect();
        let mut l = vec![vec![], base.clone(), base.iter().cloned().rev().collect()];
        for i in 0..base.len() {
            let mut b = base.clone(); b.remove(i); l.push(b);
            l.push(vec![base[i].clone()]);
            let (n, t) = (base[i].get_full_name(), match &base[i] { W::U32Id { res_type, .. } | W::StringId { res_type, .. } => *res_type, _ => unreachable!() });
            for w in [u(77, &n, t), s("other", &n, t), s("0", &n, t), u(0, "other.x", t)].into_iter().chain(ts.iter().map(|t| u(1, &n, *t))) { let mut b = base.clone(); b[i] = w.clone(); l.push(b); let mut b = base.clone(); b.push(w); l.push(b) }
        }
        // the same as paths
        let d = std::env::temp_dir().join(format!("mc-scratch-copies-{}", std::process::id()));
        for r in ["a", "b"] { for c in ["images", "sounds", "fonts", "icons"] { for n in ["x", "y"] {
            let p = d.join(r).join(c).join("601"); std::fs::create_dir_all(&p).unwrap(); let p = p.join(n); std::fs::write(&p, "x").unwrap();
            l.push(vec![W::Path(p.clone())]);
            l.push(vec![W::Path(p), u(5, "z", T::Image)]);
        } } }
        let mut seen = std::collections::HashSet::new();
        let l = l.into_iter().map(|v| { let f = ResourceFiles::try_from(v).expect("resource files"); (attached(&f), f) }).filter(|(d, _)| seen.insert(d.to_string())).collect();
        std::fs::remove_dir_all(&d).unwrap();
        l
    });
    two(ch, l, attached)
}
/// every two registries of resources after up to three operations
fn registries(ch: &mut Ch) -> Result<(), String> {
    static L: OnceLock<Vec<(Value, Resources)>> = OnceLock::new();
    fn o(r: &Resources) -> Value { let m = |m: &swrs::LinkedHashMap<ResourceId, W>| m.iter().map(|(k, v)| json!([k.0, obs::wrapper(v)])).collect::<Vec<_>>(); json!([m(r.get_images()), m(r.get_sounds()), m(r.get_fonts())]) }
    let l = L.get_or_init(|| {
        let mut l = vec![Resources::new_empty()];
        let mut from = 0;
        for _ in 0..2 {
            let to = l.len();
            for i in from..to {
                for id in ["a", "b"] { for t in [T::Image, T::Sound, T::Font] { for w in [W::U32Id { id: 1, res_full_name: "a.x".into(), res_type: T::Image }, W::U32Id { id: 2, res_full_name: "a.x".into(), res_type: T::Image }, W::StringId { id: "1".into(), res_full_name: "a.x".into(), res_type: T::Image }, W::U32Id { id: 1, res_full_name: "b.x".into(), res_type: T::Image }] {
                    let mut r = l[i].clone();
                    if r.put_resource(ResourceId(id.into()), w, t).is_ok() { l.push(r) }
                } } let mut r = l[i].clone(); if r.remove_resource(&ResourceId(id.into())).is_some() { l.push(r) } }
            }
            from = to;
        }
        let mut seen = std::collections::HashSet::new();
        l.into_iter().map(|r| (o(&r), r)).filter(|(d, _)| seen.insert(d.to_string())).collect()
    });
    two(ch, l, o)
}

/// whole files and projects: a base and every slight difference anywhere in its six files
fn projects(ch: &mut Ch) -> Result<(), String> {
    let (base, docs) = slight_docs();
    let d = ch.free_of(docs);
    let (t, b) = (d.texts(Style { after: 1, ..Style::default() }), base.texts(Style { after: 1, ..Style::default() }));
    ch.state(&t);
    ch.note(|| doc_note(&t));
    fn file<V: Parsable + Clone + PartialEq>(what: &str, t: &str, b: &str, seen: fn(&V) -> Value) -> Result<(), String> {
        let (Ok(x), Ok(y), Ok(x2)) = (V::parse(t), V::parse(b), V::parse(t)) else { return Ok(()) };
        let w = |e: String| format!("the {} file: {}", what, e);
        if x != x2 { return Err(w("one text gives two values that are not equal".into())) }
        copied(&x, seen).map_err(w)?;
        if seen(&x) != seen(&y) && (x == y || y == x) { return Err(w(format!("equal though {} and {}", seen(&x), seen(&y)))) }
        let mut c = y.clone(); c.clone_from(&x);
        if seen(&c) != seen(&x) { return Err(w("copied over another one it is not the same".into())) }
        Ok(())
    }
    file::<Project>("project", &t[0], &b[0], obs::project)?;
    file::<File>("file", &t[1], &b[1], obs::file)?;
    file::<Library>("library", &t[2], &b[2], obs::library)?;
    file::<Resource>("resource", &t[3], &b[3], obs::resource)?;
    file::<ViewFile>("view", &t[4], &b[4], obs::view_file)?;
    file::<Logic>("logic", &t[5], &b[5], obs::logic)?;
    ch.steps(18);
    let (r, q) = (raw_of(t.clone(), Some(handles(d, false))), raw_of(b.clone(), Some(handles(base, false))));
    let o = |r: &swrs::parser::RawSketchwareProject| json!([texts_of(r), r.resource_files.as_ref().map(|f| f.iter().map(obs::wrapper).collect::<Vec<_>>())]);
    copied(&r, o)?;
    compared(&r, &q, o)?;
    let (Ok(p), Ok(p2), Ok(s)) = (Parsed::parse_from(r.clone()), Parsed::parse_from(r.clone()), Parsed::parse_from(q)) else { return Ok(()) };
    let o = |p: &Parsed| json!([obs::project(&p.project), obs::file(&p.file), obs::library(&p.library), obs::resource(&p.resource), obs::view_file(&p.view), obs::logic(&p.logic), p.resource_files.as_ref().map(attached)]);
    if p != p2 { return Err("one project loaded twice gives values that are not equal".into()) }
    copied(&p, o)?;
    if o(&p) != o(&s) && (p == s || s == p) { return Err("two parsed projects are equal though they differ".into()) }
    ch.steps(6);
    let (Ok(x), Ok(x2), Ok(y)) = (SketchwareProject::try_from(p.clone()), SketchwareProject::try_from(p2), SketchwareProject::try_from(s)) else { return Ok(()) };
    let o = |p: &SketchwareProject| json!([obs::aproject(p), p.screens.iter().map(|s| json!([s.layout.iter().map(raws).collect::<Vec<_>>(), s.fab.as_ref().map(raws)])).collect::<Vec<_>>(), p.custom_views.iter().map(|v| v.layout.iter().map(raws).collect::<Vec<_>>()).collect::<Vec<_>>()]);
    if x != x2 { return Err("one project converted twice gives values that are not equal".into()) }
    copied(&x, o)?;
    if o(&x) != o(&y) && (x == y || y == x) { return Err("two projects are equal though they differ".into()) }
    let mut c = y.clone(); c.clone_from(&x);
    if o(&c) != o(&x) { return Err("copied over another one it is not the same".into()) }
    // a copy saves as the original does, also after the original is gone, and changing it leaves the original alone
    let (kept, mut changed) = (x.clone(), x.clone());
    changed.screens.clear(); changed.metadata.name.push('!'); changed.colors.color_accent = Color::from_rgb(1, 2, 3); changed.libraries.app_compat_enabled = !changed.libraries.app_compat_enabled;
    for id in ["a", "b", "icon", "click", "font1"] { changed.resources.remove_resource(&ResourceId(id.into())); }
    if changed == x { return Err("a project is equal to a changed copy".into()) }
    if o(&x) != o(&kept) { return Err("changing a copy changed the original".into()) }
    let saved = save(x);
    ch.steps(8);
    let again = save(kept);
    match (&saved, &again) {
        (Ok(a), Ok(b)) => { let f = |r: &swrs::parser::RawSketchwareProject| json!([texts_of(r), file_set(&r.resource_files)]); refm::want("the saved copy", &f(a), &f(b)) }
        (Err(_), Err(_)) => Ok(()),
        _ => Err("saving a copy does not do what saving the original does".into()),
    }
}

pub fn c26() -> Check {
    Check {
        id: "C26",
        rule: "Every public value can be copied and compared. A copy has the content of its original, is equal to it, saves the same, and what happens to one leaves the other as it is; two values are equal exactly if their contents, read attribute by attribute, are the same, whichever way they were made.",
        assumptions: &["values that only differ in the order of what is kept by name are not compared", "paths are compared part by part"],
        scopes: vec![
            scope("entries", "every two of: the default entry of a kind and the same with one attribute changed", entries_small, ALL, ALL), wide("entries-wide", "the same over the wide domains", entries_wide, OFF, ALL),
            scope("styles", "one entry written in two of the 4 styles, attributes deviate", styles, 1, 2),
            wide("names", "every wide name and every two names easily mistaken for each other, as id, file, variable, list, moreblock, path of a component", names, ALL, ALL),
            scope("numbers", "colours, gravities, sizes and handles that differ in one of 256 values", numbers, ALL, ALL),
            scope("contents", "every two of some 300 block contents", contents_two, ALL, ALL),
            scope("programs", "every two of some 280 programs that differ in one thing, at the top, below, inside an argument, in a row", programs_two, ALL, ALL),
            scope("kinds", "every two view kinds with one attribute changed", kinds_two, ALL, ALL),
            scope("views", "every two views that differ in one attribute, raw or editable, or below them", views_two, ALL, ALL),
            scope("files", "every two sets of resource files that differ in one handle, path, name or category", files_two, ALL, ALL), scope("registries", "every two resource registries after up to two puts and removals", registries, ALL, ALL),
            scope("projects", "a project and every slight difference anywhere in its six files: the files, the parsed and the editable project", projects, ALL, ALL),
        ],
    }
}

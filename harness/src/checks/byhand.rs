//! C24: values made by hand with the public constructors and helpers are the ones loaded from a file with that content
use super::blocks::TYPES;
use super::projects::*;
use super::screens::empty;
use crate::doc::*;
use crate::dom::*;
use crate::engine::*;
use crate::refm::{self, Item, Val};
use crate::{dict, obs, Check};
use serde_json::{json, Value};
use std::path::PathBuf;
use swrs::api::block::{ArgumentBlockReturnType, Block, BlockCategory, BlockContent, BlockControl, BlockType, Blocks, ListItem, SpecItem};
use swrs::api::component::ComponentKind;
use swrs::api::screen::{Event, EventType, MoreBlock, Screen};
use swrs::api::view::View;
use swrs::api::{Colors, Libraries, Metadata, Resources, SketchwareProject};
use swrs::parser::file::ActivityOptions;
use swrs::parser::logic::{component::Component, event::Event as RawEvent, ScreenLogic};
use swrs::parser::view::models::{layout::gravity, AndroidView, ImageConfig, LayoutConfig, TextConfig};
use swrs::parser::{project::ProjectColorPalette, Parsable, ResourceFileWrapper as W, ResourceType, SketchwareProject as Parsed};

// ------------------------------------------------------------------ block contents

fn piece(ch: &mut Ch) -> Item {
    let words = ["a", "", "%", "é%s", "set"];
    let names = [None, Some("x".to_string()), Some("a.b é".replace(' ', ""))];
    let k = ch.free(words.len() + 4);
    if k < words.len() { return Item::Word(words[k].into()) }
    let kind = ['s', 'd', 'b', 'm'][k - words.len()];
    let name = if kind == 'm' { Some(ch.free_of(&["list", "x"]).to_string()) } else { ch.free_of(&names).clone() };
    let v = match ch.free(4) {
        0 => Val::Unset,
        1 => Val::Ref(10),
        n => match kind { 's' | 'm' => Val::Text(["x y", ""][n - 2].into()), 'd' => Val::Num([-1.5, 3.0][n - 2]), _ => Val::Bool(n == 2) },
    };
    Item::Arg(kind, name, v)
}
/// what the parameters of these arguments are in a file
fn params(items: &[Item]) -> Vec<String> {
    items.iter().filter_map(|i| match i { Item::Word(_) => None, Item::Arg(_, _, v) => Some(match v { Val::Unset => String::new(), Val::Ref(r) => format!("@{}", r), Val::Text(t) => t.clone(), Val::Num(n) => n.to_string(), Val::Bool(b) => b.to_string(), Val::Tree(_) => unreachable!() }) }).collect()
}
/// an unset text is read back as an empty one
fn blank(c: &[Item]) -> Vec<Item> { c.iter().map(|i| match i { Item::Arg(k @ ('s' | 'm'), n, Val::Unset) => Item::Arg(*k, n.clone(), Val::Text(String::new())), i => i.clone() }).collect() }
fn build(ch: &mut Ch, n: usize) -> Result<(), String> {
    let items: Vec<Item> = (0..n).map(|_| piece(ch)).collect();
    ch.state(&format!("{:?}", items));
    ch.note(|| format!("{:?}", items));
    let direct = obs::mk_items(&items);
    let mut b = BlockContent::builder();
    for (i, it) in direct.items.iter().enumerate() { b = match it { SpecItem::Text(t) => if i % 2 == 0 { b.text(t.as_str()) } else { b.text(t.clone()) }, SpecItem::Parameter(a) => b.arg(a.clone()) } }
    let c = b.build();
    ch.steps(n as u64 + 1);
    if c != direct || obs::items(&c) != items { return Err(format!("the builder made {:?}", obs::items(&c))) }
    let text = c.to_string();
    if text != refm::render(&items) { return Err(format!("is rendered as {:?} instead of {:?}", text, refm::render(&items))) }
    ch.step();
    // the arguments in their order, on their own
    let args: Vec<&Item> = items.iter().filter(|i| matches!(i, Item::Arg(..))).collect();
    let one = |a: &swrs::api::block::Argument| obs::items(&BlockContent { items: vec![SpecItem::Parameter(a.clone())] }).remove(0);
    let got: Vec<Item> = c.get_args().into_iter().map(one).collect();
    if got.iter().collect::<Vec<_>>() != args { return Err(format!("get_args gives {:?}", got)) }
    let mut m = c.clone();
    let got: Vec<Item> = m.get_args_mut().into_iter().map(|a| one(a)).collect();
    if got.iter().collect::<Vec<_>>() != args { return Err(format!("get_args_mut gives {:?}", got)) }
    let (rest, taken) = c.clone().take_args();
    if taken.iter().map(one).collect::<Vec<_>>().iter().collect::<Vec<_>>() != args { return Err(format!("take_args gives {:?}", taken)) }
    let left: Vec<Item> = items.iter().map(|i| match i { Item::Arg(k, n, _) => Item::Arg(*k, n.clone(), Val::Unset), w => w.clone() }).collect();
    if obs::items(&rest) != left { return Err(format!("take_args leaves {:?}", obs::items(&rest))) }
    ch.steps(3);
    // what is read from a file with the same content
    if n == 0 { return Ok(()) }
    let loaded = BlockContent::parse(text.clone(), params(&items)).map_err(|e| format!("reading {:?} with {:?} is refused: {:?}", text, params(&items), e))?;
    if obs::items(&loaded) != blank(&items) { return Err(format!("{:?} with {:?} is read as {:?}", text, params(&items), obs::items(&loaded))) }
    let bare = BlockContent::parse_wo_params(&text).map_err(|e| format!("reading {:?} is refused: {:?}", text, e))?;
    if bare != rest { return Err(format!("{:?} is read as {:?} without parameters, made by hand it is {:?}", text, bare, rest)) }
    ch.steps(2);
    Ok(())
}
fn build_2(ch: &mut Ch) -> Result<(), String> { let n = ch.free(3); build(ch, n) }
fn build_3(ch: &mut Ch) -> Result<(), String> { build(ch, 3) }

// ------------------------------------------------------------------ blocks

const CATS: [(u32, BlockCategory); 9] = [(0xee7d16, BlockCategory::Variable), (0xcc5b22, BlockCategory::List), (0xe1a92a, BlockCategory::Control), (0x5cb722, BlockCategory::Operator), (0x23b9a9, BlockCategory::Math),
    (0xa1887f, BlockCategory::File), (0x4a6cd4, BlockCategory::ViewFunc), (0xfca5e2, BlockCategory::ComponentFunc), (0x8a55d7, BlockCategory::MoreBlock)];
fn cat(i: usize) -> BlockCategory { match i { 0 => BlockCategory::Variable, 1 => BlockCategory::List, 2 => BlockCategory::Control, 3 => BlockCategory::Operator, 4 => BlockCategory::Math, 5 => BlockCategory::File, 6 => BlockCategory::ViewFunc, 7 => BlockCategory::ComponentFunc, _ => BlockCategory::MoreBlock } }
fn a_block(s: &str) -> Block { Block::new(cat(0), s.into(), BlockContent::builder().text("leaf").build(), BlockType::Regular) }
fn blocks_made(ch: &mut Ch) -> Result<(), String> {
    let c = ch.free(CATS.len());
    let op = ch.free_of(strs(true)).clone();
    let how = ch.free(3);
    let (ty, tn) = *ch.free_of(if how == 0 { TYPES } else { &TYPES[..1] });
    let stack = |n: usize, s: &str| Blocks((0..n).map(|i| a_block(&format!("{}{}", s, i))).collect());
    let (l, r) = if how == 0 { (0, 0) } else { (ch.free(3), if how == 2 { ch.free(3) } else { 0 }) };
    let content = || BlockContent::builder().text("do").arg(swrs::api::block::Argument::String { name: None, value: swrs::api::block::ArgValue::Value("x".into()) }).build();
    ch.state(&(c, &op, how, ty, tn, l, r));
    ch.note(|| format!("category {:?}, opcode {:?}, constructor {}, type {:?} {:?}, stacks of {} and {}", cat(c), op, how, ty, tn, l, r));
    let b = match how { 0 => Block::new(cat(c), op.clone(), content(), obs::mk_btype(ty, tn)), 1 => Block::new_1substack(cat(c), op.clone(), content(), stack(l, "l")), _ => Block::new_2substack(cat(c), op.clone(), content(), stack(l, "l"), stack(r, "r")) };
    ch.step();
    let want = Block { sub_stack1: (how > 0).then(|| stack(l, "l")), sub_stack2: (how == 2).then(|| stack(r, "r")), color: swrs::color::Color::from_rgb((CATS[c].0 >> 16) as u8, (CATS[c].0 >> 8) as u8, CATS[c].0 as u8), op_code: op.clone(), content: content(),
        block_type: match how { 0 => obs::mk_btype(ty, tn), 1 => BlockType::Control(BlockControl::OneNest), _ => BlockType::Control(BlockControl::TwoNest) } };
    if b != want || obs::node(&b) != obs::node(&want) { return Err(format!("is {:?}", b)) }
    match b.category() { Ok(k) if k == CATS[c].1 => {} x => return Err(format!("is of category {:?}", x.ok())) }
    // in a list and through a file
    let list = Blocks(vec![b.clone(), a_block("end")]);
    let n = list.0.len();
    let again: Vec<Block> = list.clone().into_iter().collect();
    if again != list.0 { return Err("iterating over the blocks gives others".into()) }
    let raw: swrs::parser::logic::BlockContainer = list.clone().into();
    ch.steps(3);
    if raw.0.len() != n + l + r { return Err(format!("{} blocks are saved", raw.0.len())) }
    let f = obs::raw(&raw.0[0]);
    let (wt, wn) = obs::btype(&want.block_type);
    if f.color != CATS[c].0 as i64 - 0x1000000 || f.op != op || f.spec != "do %s" || f.params != ["x"] || f.ty != wt || f.tn != wn { return Err(format!("is saved as {:?}", f)) }
    Ok(())
}
/// every letter of a block type
fn letters(ch: &mut Ch) -> Result<(), String> {
    let s: String = match ch.free(3) { 0 => ((ch.free(95) as u8 + 32) as char).to_string(), 1 => ch.free_of(&["", "  ", "ss", "List", "é", "\n", "bb", "vv", " b"]).to_string(), _ => { let a = (ch.free(95) as u8 + 32) as char; format!("{}{}", a, ch.free_of(&[' ', 's', 'c'])) } };
    let tn = ch.free_of(&["", "View", "List String", "List Number", "List Map", "List", "list string", "List String ", "é", "Intent"]).to_string();
    ch.state(&(&s, &tn));
    ch.note(|| format!("{:?} {:?}", s, tn));
    let got = BlockType::from(&s, tn.clone());
    ch.step();
    let known = ["v", "p", "b", "s", "d", "l", "c", "e", "f", " "].contains(&s.as_str()) && (s != "l" || tn == "List String" || tn == "List Number");
    match got {
        Err(e) => { if known { return Err("is refused".into()) } if e.block_type != s || e.type_name != tn { return Err(format!("the error names {:?} {:?}", e.block_type, e.type_name)) } Ok(()) }
        Ok(t) => {
            if !known { return Err(format!("is taken for {:?}", t)) }
            let keeps = ["v", "p", "l"].contains(&s.as_str());
            if obs::btype(&t) != (s.clone(), if keeps { tn.clone() } else { String::new() }) { return Err(format!("is taken for {:?}", t)) }
            if t.to_string() != s { return Err(format!("is written as {:?}", t.to_string())) }
            if t.get_typename() != keeps.then(|| tn.clone()) { return Err(format!("its type name is {:?}", t.get_typename())) }
            ch.steps(2);
            Ok(())
        }
    }
}
fn list_types(ch: &mut Ch) -> Result<(), String> {
    let s = ch.free_of(strs(true)).clone();
    let extra = ["List String", "List Number", "List Map", "list string", "List  String", " List String", "String", "Number", "List"];
    let s = if ch.free(2) == 1 { extra[ch.free(extra.len())].to_string() } else { s };
    ch.state(&s);
    ch.note(|| format!("{:?}", s));
    let got = s.parse::<ListItem>().ok();
    ch.step();
    let want = match s.as_str() { "List String" => Some(ListItem::String), "List Number" => Some(ListItem::Number), _ => None };
    if got != want { return Err(format!("{:?} is taken for {:?}", s, got)) }
    if let Some(x) = got {
        let r: ArgumentBlockReturnType = x.clone().into();
        if r != (if x == ListItem::String { ArgumentBlockReturnType::String } else { ArgumentBlockReturnType::Number }) { return Err(format!("its elements are {:?}", r)) }
    }
    Ok(())
}

// ------------------------------------------------------------------ components, events, moreblocks, screens

fn components(ch: &mut Ch) -> Result<(), String> {
    let ty = ch.free(256) as u8;
    let n = ch.free(4);
    let s: [String; 4] = std::array::from_fn(|_| ch.of(&strs(ch.wide)[..]).clone());
    ch.state(&(ty, n, &s));
    ch.note(|| format!("type {}, {} parameters of {:?}", ty, n, s));
    let [id, a, b, c] = s.clone();
    let (got, want) = match n {
        0 => (Component::new_empty(id, ty), [&s[0], "", "", ""]),
        1 => (Component::new_1param(id, a, ty), [&s[0], &s[1], "", ""]),
        2 => (Component::new_2params(id, a, b, ty), [&s[0], &s[1], &s[2], ""]),
        _ => (Component::new(id, a, b, c, ty), [s[0].as_str(), &s[1], &s[2], &s[3]]),
    };
    ch.step();
    let want = with(COMPONENT, &[("componentId", json!(want[0])), ("param1", json!(want[1])), ("param2", json!(want[2])), ("param3", json!(want[3])), ("type", json!(ty))]);
    refm::want("made", &want, &obs::component(&got))?;
    let loaded = Component::parse(&write(&want, 0)).map_err(|e| format!("is refused from a file: {}", e))?;
    if loaded != got { return Err(format!("loaded it is {:?}", loaded)) }
    let text = got.reconstruct().map_err(|e| format!("saving failed: {}", e))?;
    refm::want("saved", &want, &refm::json(&text)?)?;
    ch.steps(2);
    match ComponentKind::from_parser_component(&got) {
        Err(e) => { if (1..=21).contains(&ty) { return Err("a known type is refused".into()) } if e.component_id != s[0] || e.component_type != ty { return Err(format!("the error names {:?} {}", e.component_id, e.component_type)) } Ok(()) }
        Ok(k) => {
            let path = [2u8, 6, 14, 16].contains(&ty);
            let p = want["param1"].as_str().unwrap();
            if obs::ckind(&k) != (ty as i64, if path { p.to_string() } else { String::new() }) { return Err(format!("is taken for {:?}", k)) }
            // under any id
            let back = k.into_parser_component("other".into());
            let want = with(COMPONENT, &[("componentId", json!("other")), ("param1", json!(if path { p } else { "" })), ("type", json!(ty))]);
            ch.steps(2);
            refm::want("converted back", &want, &obs::component(&back))
        }
    }
}
fn events(ch: &mut Ch) -> Result<(), String> {
    let ty = ch.free(256) as u8;
    let known = (1..=3).contains(&ty);
    let (name, id) = if known { (ch.of(&strs(ch.wide)[..]).clone(), ch.of(&strs(ch.wide)[..]).clone()) } else { ("x".to_string(), "y".to_string()) };
    let name = match ch.free(4) { 0 => name, 1 => "onCreate".into(), 2 => "onClick".into(), _ => "initializeLogic".into() };
    let target = if known { ch.free(256) as u8 } else { 0 };
    if ch.trace.iter().filter(|t| t.2 == 1 && t.0 != 0).count() > 0 && target % 51 != 0 { ch.skip(); return Ok(()) }
    ch.state(&(ty, &name, &id, target));
    ch.note(|| format!("event {:?} of {:?}, kind {}, target type {}", name, id, ty, target));
    let raw = RawEvent { event_name: name.clone(), event_type: ty, target_id: id.clone(), target_type: target };
    let got = Event::try_from(raw.clone());
    let kind = EventType::from_parser_event(&raw);
    ch.steps(2);
    let e = match (got, kind) {
        (Err(e), Err(k)) => { if known { return Err("is refused".into()) } for x in [e, k] { if x.event_name != name || x.event_type != ty { return Err(format!("the error names {:?} {}", x.event_name, x.event_type)) } } return Ok(()) }
        (Ok(e), Ok(k)) => { if !known { return Err("an unknown kind is accepted".into()) } if e.event_type != k { return Err(format!("is taken for {:?} and {:?}", e.event_type, k)) } e }
        _ => return Err("is both accepted and refused".into()),
    };
    let want = match ty { 1 => EventType::ViewEvent { id: id.clone(), view_type: target }, 2 => EventType::ComponentEvent { id: id.clone(), component_type: target }, _ => EventType::ActivityEvent };
    if e.event_type != want || e.name != name || !e.code.0.is_empty() { return Err(format!("is taken for {:?}", e)) }
    let key = match ty { 3 if name == "onCreate" => "onCreate_initializeLogic".to_string(), 3 => format!("{}_{}", name, name), _ => format!("{}_{}", id, name) };
    if e.get_block_container_id() != key { return Err(format!("its code is looked for under {:?} instead of {:?}", e.get_block_container_id(), key)) }
    let code = Blocks(vec![a_block("one")]);
    let (back, c) = Event { code: code.clone(), ..e.clone() }.into_parser_event();
    let want = if ty == 3 { RawEvent { target_id: name.clone(), target_type: 0, ..raw.clone() } } else { raw.clone() };
    if back != want { return Err(format!("is converted back to {:?} instead of {:?}", back, want)) }
    if c != code { return Err(format!("its code comes back as {:?}", c)) }
    // into an entry that held another event
    let mut old = RawEvent { event_name: name.clone(), event_type: 77, target_id: "old".into(), target_type: if ty == 3 { 0 } else { 9 } };
    e.event_type.clone().apply_to_parser_event(&mut old);
    ch.steps(3);
    if old != want { return Err(format!("applied to another entry it gives {:?} instead of {:?}", old, want)) }
    Ok(())
}
fn moreblocks(ch: &mut Ch) -> Result<(), String> {
    let name = ch.free_of(strs(true)).clone();
    let n = ch.free(3);
    let items: Vec<Item> = (0..n).map(|_| piece(ch)).collect();
    ch.state(&(&name, format!("{:?}", items)));
    ch.note(|| format!("{:?} {:?}", name, items));
    let code = Blocks(vec![a_block("one"), a_block("two")]);
    let (m, c) = MoreBlock { name: name.clone(), spec: obs::mk_items(&items), code: code.clone() }.into_parser_more_block();
    ch.step();
    if m.id != name || m.spec != refm::render(&items) || c != code { return Err(format!("is converted to {:?} {:?} with {:?}", m.id, m.spec, c)) }
    Ok(())
}
/// a screen converted by itself and as part of a project
fn screens(ch: &mut Ch) -> Result<(), String> {
    let mut d = empty();
    let mut s = ScreenDoc::rich();
    s.vary(ch);
    let Some(logic) = s.doc() else { ch.skip(); return Ok(()) };
    let mut f = default(FILE_ITEM);
    vary(ch, FILE_ITEM, &mut f, &["fileName", "fileType"]);
    d.file["activity"] = json!([f]);
    let mut v = with(VIEW, &[("id", json!("box"))]);
    vary(ch, VIEW, &mut v, &["id", "type", "parent"]);
    d.view["layouts"] = json!([["main", [v, with(VIEW, &[("id", json!("b")), ("parent", json!("box")), ("type", json!(4))])]]]);
    if ch.free(2) == 1 { d.view["fabs"] = json!([["main", with(VIEW, &[("id", json!("_fab")), ("type", json!(16)), ("parent", Value::Null), ("image.resName", json!("img"))])]]) }
    d.logic["MainActivity"] = logic;
    let t = d.texts(Style { json: 0, after: 1, ..Style::default() });
    ch.state(&t);
    ch.note(|| doc_note(&t));
    let p = Parsed::parse_from(raw_of(t, None)).map_err(|e| format!("refused: {:?}", e))?;
    let (l, g) = (p.view.layouts.get("main").expect("layout").clone(), p.logic.screens.get("MainActivity").expect("logic").clone());
    let fab = p.view.fabs.get("main").cloned();
    let file = p.file.activities[0].clone();
    let whole = SketchwareProject::try_from(p).map_err(|e| format!("refused: {:?}", e))?;
    // by names of its own, as they are given
    for (layout, logic) in [("other", "MainActivity"), ("main", "OtherActivity"), ("", "x.y")] {
        let o = Screen::from_parsed(layout.into(), logic.into(), file.clone(), l.clone(), g.clone(), fab.clone().map(View::from)).map_err(|e| format!("refused under the names {:?}, {:?}: {:?}", layout, logic, e))?;
        let mut want = whole.screens[0].clone();
        want.layout_name = layout.into(); want.java_name = logic.into();
        refm::want(&format!("by the names {:?}, {:?}", layout, logic), &obs::ascreen(&want), &obs::ascreen(&o))?;
    }
    let one = Screen::from_parsed("main".into(), "MainActivity".into(), file, l, g, fab.map(View::from)).map_err(|e| format!("refused by itself: {:?}", e))?;
    ch.steps(3);
    refm::want("by itself", &obs::ascreen(&whole.screens[0]), &obs::ascreen(&one))?;
    if one != whole.screens[0] { return Err("by itself it is another screen than in the project".into()) }
    Ok(())
}

// ------------------------------------------------------------------ bits, handles, defaults

fn gravities(ch: &mut Ch) -> Result<(), String> {
    let v = ch.free(256) as u8;
    ch.state(&v);
    ch.note(|| format!("gravity {}", v));
    let g = gravity::Gravity::new(v);
    ch.step();
    // Android: the low three bits say where horizontally (1 centre, 3 left, 5 right, 7 both sides), bits 4 to 6 where vertically
    let (h, w) = (v & 7, v & 112);
    let want = [h == 1, h & 3 == 3, h & 5 == 5, w == 16, h == 1 && w == 16, w & 48 == 48, w & 80 == 80];
    let got = [g.center_horizontal(), g.left(), g.right(), g.center_vertical(), g.center(), g.top(), g.bottom()];
    ch.steps(7);
    if got != want { return Err(format!("gravity {} is centred horizontally/left/right/centred vertically/centred/top/bottom: {:?} instead of {:?}", v, got, want)) }
    if g.0 != v || g != gravity::Gravity(v) { return Err(format!("gravity {} holds {}", v, g.0)) }
    if [gravity::NONE, gravity::CENTER_HORIZONTAL, gravity::LEFT, gravity::RIGHT, gravity::CENTER_VERTICAL, gravity::CENTER, gravity::TOP, gravity::BOTTOM] != [0, 1, 3, 5, 16, 17, 48, 80] { return Err("the gravity constants changed".into()) }
    let j = serde_json::to_value(g).map_err(|e| e.to_string())?;
    if j != json!(v) || serde_json::from_value::<gravity::Gravity>(j.clone()).ok() != Some(g) { return Err(format!("gravity {} is saved as {}", v, j)) }
    Ok(())
}
fn options(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(256) as u8;
    ch.state(&n);
    ch.note(|| format!("options {}", n));
    let o = ActivityOptions::from_num(n);
    let got = [o.toolbar_enabled, o.fullscreen_enabled, o.drawer_enabled, o.fab_enabled];
    let want = [n & 1 != 0, n & 2 != 0, n & 4 != 0, n & 8 != 0];
    if got != want { return Err(format!("{} is toolbar/fullscreen/drawer/fab {:?} instead of {:?}", n, got, want)) }
    if o.as_num() != n & 15 { return Err(format!("{} is written as {}", n, o.as_num())) }
    let made = ActivityOptions { toolbar_enabled: want[0], fullscreen_enabled: want[1], drawer_enabled: want[2], fab_enabled: want[3] };
    if made != o || made.as_num() != n & 15 { return Err(format!("made by hand it is {:?}", made)) }
    ch.steps(3);
    Ok(())
}
fn files(ch: &mut Ch) -> Result<(), String> {
    let mut names: Vec<String> = strs(true).clone();
    for (a, _) in dict::pairs() { names.push(a.clone()) }
    let n = ch.free_of(&names).clone();
    let t = *ch.free_of(&[ResourceType::Image, ResourceType::Sound, ResourceType::Font, ResourceType::CustomIcon]);
    ch.state(&(&n, format!("{:?}", t)));
    ch.note(|| format!("{:?} {:?}", n, t));
    let w = [W::StringId { id: "other".into(), res_full_name: n.clone(), res_type: t }, W::StringId { id: n.clone(), res_full_name: "x.png".into(), res_type: t }, W::U32Id { id: 7, res_full_name: n.clone(), res_type: t }];
    for (w, want) in w.iter().zip([n.as_str(), "x.png", n.as_str()]) { if w.get_full_name() != want { return Err(format!("{:?} is called {:?}", w, w.get_full_name())) } ch.step() }
    if !n.is_empty() && !n.contains(['/', '\0']) && n != "." && n != ".." {
        for dir in ["", "/", "a/b.c/images/601", "../é"] { let p = PathBuf::from(dir).join(&n); let w = W::Path(p); if w.get_full_name() != n { return Err(format!("{:?} is called {:?}", w, w.get_full_name())) } ch.step() }
    }
    match W::make_random_id(n.clone(), t) { W::U32Id { res_full_name, res_type, .. } if res_full_name == n && res_type == t => { ch.step(); Ok(()) } w => Err(format!("a random handle is {:?}", w)) }
}
/// what the source documents as the default of an attribute (three of them it documents otherwise than it sets them)
const UNSURE: [&str; 3] = ["enabled", "text.imeOption", "progressStyle"];
fn made_view(ch: &mut Ch) -> Result<(), String> {
    let (id, ty, parent, pt) = (ch.of(&strs(ch.wide)[..]).clone(), ch.free(256) as u8, ch.of(&strs(ch.wide)[..]).clone(), *ch.free_of(&[-1i8, 0, 1, 2, 12, 127, -128]));
    ch.state(&(&id, ty, &parent, pt));
    ch.note(|| format!("{:?} of type {} in {:?} of type {}", id, ty, parent, pt));
    let v = AndroidView::new_empty(&id, ty, &parent, pt);
    ch.step();
    let mut want = with(VIEW, &[("id", json!(id)), ("type", json!(ty)), ("parent", json!(parent)), ("parentType", json!(pt)), ("dividerHeight", json!(0))]);
    let got = obs::view(&v);
    for p in UNSURE { let x = get(&got, p).clone(); set(&mut want, p, x) }
    refm::want("made", &want, &got)?;
    let text = v.reconstruct().map_err(|e| format!("saving failed: {}", e))?;
    refm::want("saved", &want, &refm::json(&text)?)?;
    let back = AndroidView::parse(&text).map_err(|e| format!("is refused from a file: {}", e))?;
    if back != v { return Err("loaded it is another view".into()) }
    ch.steps(2);
    // the editable view of it
    let e = View::from(v.clone());
    if e.id != id || e.raw != v || !e.children.is_empty() { return Err("the editable view is another one".into()) }
    Ok(())
}
fn defaults(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(9);
    ch.state(&k);
    ch.step();
    let d = default(VIEW);
    let part = |v: AndroidView, p: &str| obs::view(&v)[p].clone();
    let base = || AndroidView::new_empty("x", 0, "root", 0);
    ch.note(|| format!("default {}", k));
    match k {
        0 => refm::want("layout", &d["layout"], &part(AndroidView { layout: LayoutConfig::default(), ..base() }, "layout")),
        1 => { let mut w = d["text"].clone(); let got = part(AndroidView { text: TextConfig::default(), ..base() }, "text"); w["imeOption"] = got["imeOption"].clone(); refm::want("text", &w, &got) }
        2 => { let got = part(AndroidView { image: ImageConfig::default(), ..base() }, "image"); refm::want("image", &d["image"], &got) }
        3 => { let p = ProjectColorPalette::default(); let got = [p.color_primary, p.color_primary_dark, p.color_accent, p.color_control_normal, p.color_control_highlight].map(obs::color);
            let want = [0xff008dcdu32, 0xff0084c2, 0xff008dcd, 0xff57beee, 0x20008dcd].map(|c| c as i32 as i64);
            if got == want { Ok(()) } else { Err(format!("the default colours are {:x?}", got)) } }
        4 => if gravity::Gravity::default().0 == 0 { Ok(()) } else { Err("the default gravity is not none".into()) },
        5 => { for b in [Blocks::new(), Blocks::default()] { if !b.0.is_empty() { return Err("an empty block list has blocks".into()) } let c: swrs::parser::logic::BlockContainer = b.into(); if !c.0.is_empty() { return Err("an empty block list is saved with blocks".into()) } }
            let b = Blocks::try_from(swrs::parser::logic::BlockContainer::default()).map_err(|e| format!("an empty container is refused: {:?}", e))?;
            if b.0.is_empty() { Ok(()) } else { Err("an empty container has blocks".into()) } }
        6 => { let s = ScreenLogic::new_empty("a b".into()); if s.name == "a b" && s.block_containers.is_empty() && s.variables.is_none() && s.list_variables.is_none() && s.components.is_none() && s.events.is_none() && s.more_blocks.is_none() { Ok(()) } else { Err(format!("empty logic is {:?}", s)) } }
        7 => { let r = Resources::new_empty(); if r.get_images().is_empty() && r.get_sounds().is_empty() && r.get_fonts().is_empty() { Ok(()) } else { Err("a new registry has entries".into()) } }
        _ => {
            // a new project holds what it was made from, and saves as that
            let mk = || {
                let c = ProjectColorPalette::default();
                SketchwareProject::new(Metadata { local_id: 609, name: "n".into(), workspace_name: "w".into(), package_name: "p.q".into(), time_created: 0, sketchware_version: 150, version_name: "1.0".into(), version_code: 3 },
                    Colors { color_primary: c.color_primary, color_primary_dark: c.color_primary_dark, color_accent: c.color_accent, color_control_normal: c.color_control_normal, color_control_highlight: c.color_control_highlight },
                    vec![], vec![], Libraries { app_compat_enabled: false, firebase: None, ad_mob: None, google_map: None }, Resources::new_empty())
            };
            let p = mk();
            if p.custom_icon.is_some() || !p.screens.is_empty() || !p.custom_views.is_empty() || p != mk() { return Err("a new project has content".into()) }
            let r = save(p.clone())?;
            if r.resource_files != Some(vec![]) { return Err(format!("attached: {:?}", r.resource_files)) }
            let q = load(r)?;
            refm::want("loaded again", &obs::aproject(&p), &obs::aproject(&q))
        }
    }
}

pub fn c24() -> Check {
    Check { id: "C24", rule: "a value made with a public constructor or helper has exactly the content asked for, is rendered and saved as it, equals the value loaded from a file with that content, and converted alone equals what it is as part of a project",
        assumptions: &["the defaults of `enabled`, `imeOption` and `progressStyle` are documented otherwise than they are set; either is accepted", "gravity bits as in Android: low three bits horizontal, bits 4 to 6 vertical"],
        scopes: vec![
            scope("content-2", "every content of up to 2 words and arguments, made by the builder, read, and taken apart", build_2, ALL, ALL),
            scope("content-3", "every content of 3 words and arguments", build_3, ALL, ALL),
            scope("blocks", "every category, opcode of the wide domain, constructor, type and stack size", blocks_made, ALL, ALL),
            scope("types", "every letter, some longer texts, and type names as block types", letters, ALL, ALL),
            scope("lists", "list types over the wide strings", list_types, ALL, ALL),
            scope("components", "256 types, 4 constructors, deviating texts", components, 1, 2), wide("components-wide", "the same over wide domains", components, 1, 1),
            wide("events", "256 kinds, 256 target types, deviating names and targets", events, 1, 1), scope("events-2", "two deviate, narrow domains", events, OFF, 2),
            scope("moreblocks", "every wide name x contents of up to 2 words", moreblocks, ALL, ALL),
            scope("screens", "one screen converted by itself and in a project, attributes deviate", screens, 1, 1), wide("screens-wide", "the same over wide domains", screens, OFF, 1),
            scope("gravity", "256 gravities", gravities, ALL, ALL),
            scope("options", "256 option numbers", options, ALL, ALL),
            scope("files", "every wide name in every kind of handle", files, ALL, ALL),
            wide("views", "empty views of 256 types, 7 parent types, deviating ids and parents", made_view, 1, 1), scope("views-2", "two deviate, narrow domains", made_view, OFF, 2),
            scope("defaults", "defaults of configurations, palette, lists, registry and project", defaults, ALL, ALL),
        ] }
}

//! C08-C10: block lists, block trees, specs
use crate::dom::*;
use crate::engine::*;
use crate::refm::{self, Bad, Item, Node, Raw, Val};
use crate::{obs, Check};
use swrs::api::block::{Block, BlockCategory, BlockContent, BlockControl, BlockType, Blocks};
use swrs::parser::logic::BlockContainer;

pub fn raw(id: &str) -> Raw {
    Raw { color: -7711273, id: id.into(), next: -1, op: format!("op{}", id), params: vec![], spec: format!("do {}", id), ss1: -1, ss2: -1, ty: " ".into(), tn: "".into() }
}
pub fn raws(l: &[Raw]) -> String {
    l.iter().map(|r| format!("#{} next={} ss1={} ss2={} op={} spec={:?} params={:?} type={:?}/{:?} color={}", r.id, r.next, r.ss1, r.ss2, r.op, r.spec, r.params, r.ty, r.tn, r.color)).collect::<Vec<_>>().join("\n    ")
}

/// loads a block list and compares with the reference interpretation
pub fn load(ch: &mut Ch, list: &[Raw]) -> Result<(), String> {
    let want = refm::interpret(list);
    if let Err(Bad::OutOfDomain) = want { ch.skip(); }
    let got = Blocks::try_from(obs::mk_container(list));
    ch.step();
    match (want, got) {
        (Err(Bad::OutOfDomain), _) => Ok(()),
        (Err(Bad::Refused(_)), Err(_)) => Ok(()),
        (Err(Bad::Refused(w)), Ok(b)) => Err(format!("accepted as `{}`, but {}:\n    {}", obs::program(&b), w, raws(list))),
        (Ok(p), Err(e)) => Err(format!("refused ({:?}), expected `{}`:\n    {}", e, refm::show(&refm::norm(&p)), raws(list))),
        (Ok(p), Ok(b)) => {
            if refm::norm(&p) == refm::norm(&obs::nodes(&b)) { Ok(()) }
            else { Err(format!("loaded as `{}`, expected `{}`:\n    {}", obs::program(&b), refm::show(&refm::norm(&p)), raws(list))) }
        }
    }
}

fn point(b: &mut Raw, field: usize, v: i64) {
    match field { 0 => b.next = v, 1 => b.ss1 = v, 2 => b.ss2 = v, _ => if v >= 0 { b.spec = format!("do {} %s", b.id); b.params = vec![format!("@{}", v)] } }
}
/// every pointer graph of n blocks; the pointers of the last block are enumerated inside
fn graphs(ch: &mut Ch, n: usize, fields: &[usize], missing: bool) -> Result<(), String> {
    let mut targets: Vec<i64> = vec![-1];
    targets.extend((0..n as i64).map(|i| 10 + i));
    if missing { targets.push(99) }
    let t = targets.len();
    let mut list: Vec<Raw> = (0..n).map(|i| raw(&(10 + i).to_string())).collect();
    for i in 0..n - 1 { for f in fields { let v = targets[ch.free(t)]; point(&mut list[i], *f, v) } }
    ch.state(&raws(&list));
    let base = list[n - 1].clone();
    let total = t.pow(fields.len() as u32);
    for k in 0..total {
        let mut x = k;
        list[n - 1] = base.clone();
        for f in fields { let v = targets[x % t]; x /= t; point(&mut list[n - 1], *f, v) }
        load(ch, &list)?;
    }
    ch.skipped = false;
    ch.inner_states += total as u64 - 1;
    ch.note(|| format!("{} graphs that share\n    {}", total, raws(&list[..n - 1])));
    Ok(())
}
fn g1(ch: &mut Ch) -> Result<(), String> { graphs(ch, 1, &[0, 1, 2, 3], true) }
fn g2(ch: &mut Ch) -> Result<(), String> { graphs(ch, 2, &[0, 1, 2, 3], true) }
fn g3(ch: &mut Ch) -> Result<(), String> { graphs(ch, 3, &[0, 1, 3], true) }
fn g3s(ch: &mut Ch) -> Result<(), String> { graphs(ch, 3, &[0, 1, 2], true) }
fn g3full(ch: &mut Ch) -> Result<(), String> { graphs(ch, 3, &[0, 1, 2, 3], true) }
fn g4a(ch: &mut Ch) -> Result<(), String> { graphs(ch, 4, &[0, 3], true) }
fn g4b(ch: &mut Ch) -> Result<(), String> { graphs(ch, 4, &[1, 2], true) }
fn g4c(ch: &mut Ch) -> Result<(), String> { graphs(ch, 4, &[0, 1], true) }
fn g4full(ch: &mut Ch) -> Result<(), String> { graphs(ch, 4, &[0, 1, 3], false) }

/// where block i of a tree hangs: (parent, slot); slots: 0 next, 1 first stack, 2 second stack, 3.. arguments
fn shape(ch: &mut Ch, n: usize, slots: usize) -> Option<Vec<(usize, usize)>> {
    let mut at = vec![(0, usize::MAX)];
    let mut ok = true;
    for i in 1..n {
        let k = ch.free(i * slots);
        let p = (k / slots, k % slots);
        // taken, or after an argument
        if at.contains(&p) || (p.1 == 0 && at[p.0].1 >= 3 && p.0 != 0) { ok = false }
        at.push(p);
    }
    if ok { Some(at) } else { ch.skip(); None }
}

fn id_sets(n: usize) -> Vec<Vec<String>> {
    let s = |f: &dyn Fn(usize) -> u64| (0..n).map(|i| f(i).to_string()).collect::<Vec<_>>();
    vec![s(&|i| 10 + i as u64), s(&|i| i as u64), s(&|i| (n - 1 - i) as u64), s(&|i| 2147483647 - i as u64), s(&|i| [8, 100, 9, 1000, 99, 10, 1, 7][i % 8] + 2000 * (i / 8) as u64), s(&|i| (i as u64 * 7 + 3) % 11 + 300)]
}
fn perm(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !rest.is_empty() { let i = ch.free(rest.len()); out.push(rest.remove(i)) }
    out
}
/// the raw list of a tree shape, argument slots 3 and 4
fn tree_list(at: &[(usize, usize)], ids: &[String]) -> Vec<Raw> {
    let n = at.len();
    let mut l: Vec<Raw> = (0..n).map(|i| { let mut r = raw(&ids[i]); r.op = format!("op{}", i); r.spec = format!("w{} %s and %d.n end", i); r.params = vec![format!("lit{}", i), format!("{}.5", i)]; r }).collect();
    for i in 1..n {
        let (p, s) = at[i];
        let id: i64 = ids[i].parse().unwrap();
        match s { 0 => l[p].next = id, 1 => l[p].ss1 = id, 2 => l[p].ss2 = id, s => l[p].params[s - 3] = format!("@{}", id) }
    }
    l
}
fn orders(ch: &mut Ch, n: usize) -> Result<(), String> {
    let Some(at) = shape(ch, n, 5) else { return Ok(()) };
    let sets = id_sets(n);
    let ids = ch.free_of(&sets).clone();
    let order = perm(ch, n - 1);
    let l = tree_list(&at, &ids);
    let mut listed = vec![l[0].clone()];
    listed.extend(order.iter().map(|i| l[i + 1].clone()));
    ch.state(&raws(&listed));
    ch.note(|| raws(&listed));
    if !refm::interpret(&listed).is_ok() { return Err("harness: a tree is refused by the reference".into()) }
    load(ch, &listed)
}
fn o3(ch: &mut Ch) -> Result<(), String> { orders(ch, 3) }
fn o4(ch: &mut Ch) -> Result<(), String> { orders(ch, 4) }
fn o5(ch: &mut Ch) -> Result<(), String> { orders(ch, 5) }

/// the blocks of a tree, many of them equal but for the id
fn equal_list(ch: &mut Ch) -> Result<(), String> {
    let n = 2 + ch.free(3);
    let Some(at) = shape(ch, n, 5) else { return Ok(()) };
    let which: Vec<usize> = (0..n).map(|_| ch.free(2)).collect();
    let mut l = tree_list(&at, &id_sets(n)[0]);
    for (b, w) in l.iter_mut().zip(&which) {
        b.op = format!("op{}", w); b.spec = format!("w{} %s and %d.n end", w);
        for (p, def) in b.params.iter_mut().zip([format!("lit{}", w), format!("{}.5", w)]) { if !p.starts_with('@') { *p = def } }
    }
    if ch.free(2) == 1 { l[1..].reverse() }
    ch.state(&raws(&l));
    ch.note(|| raws(&l));
    load(ch, &l)
}
pub static TYPES: &[(&str, &str)] = &[(" ", ""), ("b", ""), ("s", ""), ("d", ""), ("v", "View"), ("v", ""), ("p", "Intent"), ("p", "é x"), ("l", "List String"), ("l", "List Number"), ("c", ""), ("e", ""), ("f", "")];
static BAD_TYPES: &[(&str, &str)] = &[("", ""), ("x", ""), ("B", ""), ("bb", ""), ("é", ""), ("l", ""), ("l", "List"), ("l", "List Foo"), ("  ", "")];
pub static SPECS: &[(&str, &[&str])] = &[("do it", &[]), ("", &[]), ("%s", &["x"]), ("%s %d %b %m.list", &["a b", "-1.25", "true", "é"]), ("set %m.varInt to %d.value ", &["count", "3"]), ("  %b.flag  x", &["false"]),
    ("a%s b% %", &[]), ("%s %s %s", &["", "\"\\", "l\nm"]), ("%d %b", &["", ""]), ("é漢 %s.ü", &["😀"]), ("%d", &["1e3"]), ("%d %d", &["0", "-0.0001"]),
    ("%s %s %s %s %s %s %s %s %s %s %s %s", &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"])];
static BAD_SPECS: &[(&str, &[&str])] = &[("%x", &["1"]), ("%s", &[]), ("%d", &["abc"]), ("%b", &["maybe"]), ("%s", &["@"]), ("%s", &["@x"]), ("%m.x", &["@4294967296"]), ("%m", &["x"]), ("%d %d", &["1"]), ("%s", &["@777"])];

/// a program whose blocks' attributes are enumerated
fn attributes(ch: &mut Ch) -> Result<(), String> {
    let ids = ["10", "20", "30", "11", "12"];
    let mut l: Vec<Raw> = ids.iter().map(|i| raw(i)).collect();
    l[0].next = 20; l[0].ss1 = 30; l[0].ss2 = 11; l[1].spec = "Toast %s".into(); l[1].params = vec!["@12".into()];
    for i in 0..l.len() {
        let c = ch.pick(colors_small().len() + 1); if c > 0 { l[i].color = colors_small()[c - 1] }
        let strs: Vec<String> = if ch.wide { strings_wide() } else { strings_small().iter().map(|s| s.to_string()).collect() };
        let o = ch.pick(strs.len() + 1); if o > 0 { l[i].op = strs[o - 1].clone() }
        let t = ch.pick(TYPES.len() + BAD_TYPES.len()); let t = if t < TYPES.len() { TYPES[t] } else { BAD_TYPES[t - TYPES.len()] };
        l[i].ty = t.0.into(); l[i].tn = t.1.into();
        let keep = i == 1;
        let s = ch.pick(SPECS.len() + BAD_SPECS.len() + if ch.wide { strs.len() * 2 } else { 0 } + 1);
        if s > 0 {
            let s = s - 1;
            if s < SPECS.len() + BAD_SPECS.len() {
                let (sp, ps) = if s < SPECS.len() { SPECS[s] } else { BAD_SPECS[s - SPECS.len()] };
                l[i].spec = sp.into(); l[i].params = ps.iter().map(|p| p.to_string()).collect();
                if keep { l[i].spec.push_str(" %s"); l[i].params.push("@12".into()) }
            } else {
                let s = s - SPECS.len() - BAD_SPECS.len();
                let w = &strs[s / 2];
                if s % 2 == 0 {
                    if !w.split(' ').all(refm::spec_word_defined) { ch.skip(); return Ok(()) }
                    l[i].spec = format!("p {} q", w); l[i].params = vec![];
                } else { l[i].spec = "p %s q".into(); l[i].params = vec![w.clone()] }
                if keep { l[i].spec.push_str(" %s"); l[i].params.push("@12".into()) }
            }
        }
    }
    ch.state(&raws(&l));
    ch.note(|| raws(&l));
    load(ch, &l)
}
fn ladder_list(kind: usize, n: usize) -> Vec<Raw> {
    let mut l: Vec<Raw> = (0..n).map(|i| raw(&(10 + i).to_string())).collect();
    for i in 0..n.saturating_sub(1) { let to = 11 + i as i64; match kind {
        0 => l[i].next = to, 1 => l[i].ss1 = to, 2 => l[i].ss2 = to, 3 => { l[i].spec = "a %s".into(); l[i].params = vec![format!("@{}", to)] }
        4 => { l[0].spec.push_str(" %d"); l[0].params.push(format!("@{}", to)) }
        _ => match i % 3 { 0 => l[i].ss1 = to, 1 => { l[i].spec = "a %b".into(); l[i].params = vec![format!("@{}", to)] } _ => l[i].ss2 = to },
    } }
    l
}
/// chains, nests and argument rows of many sizes, listed forwards and backwards
fn ladder(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.free(6);
    let mut ns: Vec<usize> = (0..=70).collect(); ns.extend([100, 127, 128, 129, 150, 199, 200]);
    if kind == 0 || kind == 4 { ns.extend([255, 256, 257, 500, 1000, 1024, 3000]) }
    // more than the numbers of 15 and 16 bits
    if kind == 0 { ns.extend([33_000, 66_000]) }
    let n = *ch.free_of(&ns);
    let mut l = ladder_list(kind, n);
    if ch.free(2) == 1 && n > 1 { l[1..].reverse() }
    ch.state(&(kind, n, l.last().map(|x| x.id.clone())));
    ch.note(|| format!("{} of {} blocks", ["chain", "first-stack nest", "second-stack nest", "argument nest", "argument row", "mixed nest"][kind], n));
    load(ch, &l)
}

/// rows of parameters of every length and kind with one reference, at every position
fn param_rows(ch: &mut Ch) -> Result<(), String> {
    let mut ns: Vec<usize> = (1..=24).collect(); ns.extend([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]);
    let n = *ch.free_of(&ns);
    let kind = *ch.free_of(&["%s", "%d.n", "%b", "%m.x"]);
    let what = ch.free(4);
    let at = if n <= 33 { ch.free(n) } else { *ch.free_of(&[0, 1, n / 2, n - 2, n - 1]) };
    let mut l = vec![raw("10"), raw("11"), raw("12")];
    l[0].next = 12; l[1].ss1 = 13;
    l.push(raw("13"));
    l[0].spec = vec![kind; n].join(" and ");
    l[0].params = (0..n).map(|i| if i == at { match what { 0 | 1 => "@11".to_string(), 2 => String::new(), _ => "@99".to_string() } } else { match kind { "%d.n" => format!("{}.25", i), "%b" => (i % 2 == 0).to_string(), _ => format!("v{}", i) } }).collect();
    // listed last, and a row that is one short
    if what == 1 { l.reverse(); l.swap(0, 3) }
    if what == 2 && at == n - 1 { l[0].params.pop(); }
    ch.state(&raws(&l));
    ch.note(|| format!("{} parameters {}, {} at {}", n, kind, ["a reference", "a reference (listed last)", "none", "a missing block"][what], at));
    load(ch, &l)
}
pub fn c08() -> Check {
    Check { id: "C08", rule: "the block tree loaded from a raw list is the one obtained by following the pointers in an independent interpreter of the format; lists that reach a block twice or a missing one are refused",
        assumptions: &["block ids of one list are distinct (the format gives no meaning to duplicates)", "an argument block that itself names a next block has no defined meaning and is not judged", "graphs larger than the bound behave like those in it"],
        scopes: vec![
            scope("graphs-1", "every pointer graph of 1 block: next, both stacks, argument over {none, itself, missing}", g1, ALL, ALL),
            scope("graphs-2", "every pointer graph of 2 blocks over {none, every block, missing}", g2, ALL, ALL),
            scope("graphs-3", "every graph of 3 blocks over next, first stack and argument", g3, ALL, ALL),
            scope("graphs-3-stacks", "every graph of 3 blocks over next and both stacks", g3s, ALL, ALL),
            scope("graphs-3-full", "every graph of 3 blocks over all four pointers", g3full, OFF, ALL),
            scope("graphs-4-next-arg", "every graph of 4 blocks over next and argument", g4a, ALL, ALL),
            scope("graphs-4-stacks", "every graph of 4 blocks over both stacks", g4b, ALL, ALL),
            scope("graphs-4-next-stack", "every graph of 4 blocks over next and first stack", g4c, ALL, ALL),
            scope("graphs-4", "every graph of 4 blocks over next, first stack and argument, no missing id", g4full, OFF, ALL),
            scope("orders-3", "every tree of 3 blocks x 6 id assignments x every listing order", o3, ALL, ALL),
            scope("orders-4", "every tree of 4 blocks x 6 id assignments x every listing order", o4, ALL, ALL),
            scope("orders-5", "every tree of 5 blocks x 6 id assignments x every listing order", o5, OFF, ALL),
            scope("equal", "every tree of 2 to 4 blocks, each of which is one of two blocks but for its id", equal_list, ALL, ALL),
            scope("attributes", "opcode, colour, type, spec and parameters (good and bad) of the blocks of a 5-block program", attributes, 2, 2),
            wide("attributes-wide", "the same over wide value domains, 1 deviation", attributes, 1, 1),
            scope("rows", "rows of 1..257 parameters of every kind with a reference, an empty or a missing one at every position", param_rows, ALL, ALL),
            scope("ladder", "chains to 66000 blocks, nests and argument nests to depth 200, rows of arguments", ladder, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ C09

/// flattens, follows the references independently, and loads again
pub fn save(ch: &mut Ch, p: &[Node]) -> Result<(), String> {
    let want = refm::norm(p);
    let blocks = obs::mk_nodes(p);
    let kept = blocks.clone();
    let c: BlockContainer = blocks.into();
    ch.step();
    let list: Vec<Raw> = c.0.iter().map(obs::raw).collect();
    let got = refm::saved_list(&list).map_err(|e| format!("`{}` saved as a list in which {}:\n    {}", refm::show(&want), e, raws(&list)))?;
    if refm::norm(&got) != want { return Err(format!("`{}` saved as `{}`:\n    {}", refm::show(&want), refm::show(&refm::norm(&got)), raws(&list))) }
    let again = Blocks::try_from(c).map_err(|e| format!("`{}`: the saved list is refused: {:?}\n    {}", refm::show(&want), e, raws(&list)))?;
    ch.step();
    let nodes = refm::norm(&obs::nodes(&again));
    if nodes != want { return Err(format!("`{}` reloaded as `{}`", refm::show(&want), refm::show(&nodes))) }
    // equal in the library's own sense whenever it has no empty stacks or texts
    if obs::nodes(&kept) == want && obs::nodes(&again) == want && kept != again { return Err(format!("`{}`: the reloaded tree does not compare equal", refm::show(&want))) }
    let c2: BlockContainer = again.into();
    ch.step();
    if c2.0.iter().map(obs::raw).collect::<Vec<_>>() != list { return Err(format!("`{}`: saving the reloaded tree gives another list", refm::show(&want))) }
    Ok(())
}
fn leaf(i: usize) -> Node {
    Node { color: [-1147626, -3384542, -1988310, -10701022, -14436951, -6191873, -11899692, -219678, -7711273][i % 9], op: format!("op{}", i), ty: " ".into(), tn: "".into(), ss1: None, ss2: None,
        items: vec![Item::Word(format!("w{}", i)), Item::Arg('s', None, Val::Text(format!("t{}", i))), Item::Arg('d', Some("n".into()), Val::Num(i as f64 + 0.5)), Item::Arg('b', None, Val::Unset)] }
}
/// the program of a tree shape with argument slots 3 (text), 4 (number), 5 (boolean)
fn tree_nodes(at: &[(usize, usize)], mk: &mut dyn FnMut(usize) -> Node) -> Vec<Node> {
    fn build(at: &[(usize, usize)], i: usize, made: &[Node]) -> Vec<Node> {
        let mut n = made[i].clone();
        let kid = |s: usize| (1..at.len()).find(|k| at[*k] == (i, s));
        if let Some(k) = kid(1) { n.ss1 = Some(build(at, k, made)) }
        if let Some(k) = kid(2) { n.ss2 = Some(build(at, k, made)) }
        for s in 3..6 {
            if let Some(k) = kid(s) {
                let t = build(at, k, made).remove(0);
                let mut a = 0;
                for it in n.items.iter_mut() { if let Item::Arg(_, _, v) = it { if a == s - 3 { *v = Val::Tree(Box::new(t.clone())) } a += 1 } }
            }
        }
        let mut out = vec![n];
        if let Some(k) = kid(0) { out.extend(build(at, k, made)) }
        out
    }
    let made: Vec<Node> = (0..at.len()).map(|i| mk(i)).collect();
    build(at, 0, &made)
}
fn trees(ch: &mut Ch, n: usize, slots: usize) -> Result<(), String> {
    let Some(at) = shape(ch, n, slots) else { return Ok(()) };
    let p = tree_nodes(&at, &mut leaf);
    ch.state(&at);
    ch.note(|| refm::show(&p));
    save(ch, &p)
}
/// trees in which many blocks are equal
fn equal(ch: &mut Ch, n: usize) -> Result<(), String> {
    let Some(at) = shape(ch, n, 6) else { return Ok(()) };
    let which: Vec<usize> = (0..n).map(|_| ch.free(2)).collect();
    let p = tree_nodes(&at, &mut |i| { let mut b = leaf(which[i]); b.items[3] = Item::Arg('s', None, Val::Text("t0".into())); b });
    ch.state(&(&at, which));
    ch.note(|| refm::show(&p));
    save(ch, &p)
}
fn eq3(ch: &mut Ch) -> Result<(), String> { equal(ch, 3) }
fn eq4(ch: &mut Ch) -> Result<(), String> { equal(ch, 4) }
fn eq5(ch: &mut Ch) -> Result<(), String> { equal(ch, 5) }
fn t2(ch: &mut Ch) -> Result<(), String> { trees(ch, 2, 6) }
fn t3(ch: &mut Ch) -> Result<(), String> { trees(ch, 3, 6) }
fn t4(ch: &mut Ch) -> Result<(), String> { trees(ch, 4, 6) }
fn t5(ch: &mut Ch) -> Result<(), String> { trees(ch, 5, 6) }
fn t6(ch: &mut Ch) -> Result<(), String> { trees(ch, 6, 5) }
fn t7(ch: &mut Ch) -> Result<(), String> { trees(ch, 7, 4) }

fn numbers(wide: bool) -> Vec<f64> {
    let mut v = vec![0.0, 1.0, -1.0, 0.5, 3.14, -2.75, 100.0, 1e10];
    if wide { for k in 0..64 { let p = 2f64.powi(k); v.extend([p, -p, 1.0 / p, p + 1.0, p - 1.0]) } for k in -20..25 { v.extend([10f64.powi(k), 3.0 * 10f64.powi(k), -7.7 * 10f64.powi(k)]) }
        v.extend([0.1 + 0.2, 1.0 / 3.0, f64::MAX, f64::MIN, f64::EPSILON, 9007199254740993.0, 123456789.987654321]); v.extend((0..200).map(|i| i as f64)); v.extend((0..200).map(|i| i as f64 / 10.0)) }
    v
}
/// literals, types, stacks of the blocks of small trees
fn content(ch: &mut Ch) -> Result<(), String> {
    let shapes: &[&[(usize, usize)]] = &[&[(0, 9)], &[(0, 9), (0, 0)], &[(0, 9), (0, 3), (0, 0)], &[(0, 9), (0, 1), (0, 2), (0, 0)], &[(0, 9), (0, 5), (1, 4), (0, 1), (0, 0)]];
    let at = *ch.free_of(shapes);
    let wide = ch.wide;
    let texts: Vec<String> = if wide { strings_wide() } else { strings_small().iter().map(|s| s.to_string()).collect() };
    let texts: Vec<String> = texts.into_iter().filter(|t| !t.starts_with('@')).collect();
    let nums = numbers(wide);
    let mut bad = false;
    let p = {
        let chr = std::cell::RefCell::new(&mut *ch);
        let mut mk = |i: usize| {
            let mut g = chr.borrow_mut();
            let mut n = leaf(i);
            let k = g.pick(texts.len() + 2); if k > 0 { n.items[1] = Item::Arg('s', None, if k == 1 { Val::Unset } else { Val::Text(texts[k - 2].clone()) }) }
            let k = g.pick(nums.len() + 2); if k > 0 { n.items[2] = Item::Arg('d', Some("n".into()), if k == 1 { Val::Unset } else { Val::Num(nums[k - 2]) }) }
            let k = g.pick(3); if k > 0 { n.items[3] = Item::Arg('b', None, Val::Bool(k == 1)) }
            let k = g.pick(texts.len() + 2); if k > 0 { n.items.push(Item::Arg('m', Some("menu".into()), if k == 1 { Val::Unset } else { Val::Text(texts[k - 2].clone()) })) }
            let k = g.pick(texts.len() + 1); if k > 0 {
                let t = &texts[k - 1];
                if t.contains(' ') || !refm::spec_word_defined(t) || !matches!(refm::spec_word(t), Some(Item::Word(_))) { bad = true }
                n.items[0] = Item::Word(t.clone());
            }
            let k = g.pick(texts.len() + 1); if k > 0 { n.op = texts[k - 1].clone(); if n.op == "true" || n.op == "false" { bad = true } }
            let k = g.pick(TYPES.len()); n.ty = TYPES[k].0.into(); n.tn = TYPES[k].1.into();
            let k = g.pick(colors_small().len() + 1); if k > 0 { n.color = colors_small()[k - 1] }
            match g.pick(4) { 1 => n.ss1 = Some(vec![]), 2 => n.ss2 = Some(vec![]), 3 => { n.ss1 = Some(vec![]); n.ss2 = Some(vec![]) } _ => {} }
            match g.pick(5) {
                1 => n.items.clear(), // no words at all: rendered as the empty text
                2 => { n.items.push(Item::Word("".into())); }
                3 => { n.items.insert(0, Item::Word("".into())); n.items.insert(0, Item::Word("".into())) }
                4 => { for k in 0..12 { n.items.push(Item::Arg(['s', 'd', 'b'][k % 3], Some(format!("x{}", k)), [Val::Text(format!("y{}", k)), Val::Num(k as f64), Val::Bool(k % 2 == 0)][k % 3].clone())) } }
                _ => {}
            }
            n
        };
        tree_nodes(at, &mut mk)
    };
    // an empty spec and one empty word are written alike
    if bad || has_empty(&p) { return fix_empty(ch, &p, bad) }
    ch.state(&refm::show(&p));
    ch.note(|| refm::show(&p));
    save(ch, &p)
}
fn has_empty(p: &[Node]) -> bool {
    p.iter().any(|n| n.items.is_empty() || n.ss1.as_ref().map_or(false, |s| has_empty(s)) || n.ss2.as_ref().map_or(false, |s| has_empty(s))
        || n.items.iter().any(|i| if let Item::Arg(_, _, Val::Tree(t)) = i { has_empty(std::slice::from_ref(t.as_ref())) } else { false }))
}
fn fix_empty(ch: &mut Ch, p: &[Node], bad: bool) -> Result<(), String> {
    ch.skip();
    if bad { return Ok(()) }
    // a block without words: it must still be saved and loaded without a crash
    let c: BlockContainer = obs::mk_nodes(p).into();
    ch.step();
    Blocks::try_from(c).map(|_| ()).map_err(|e| format!("`{}`: the saved list is refused: {:?}", refm::show(p), e))
}
fn ladder_tree(ch: &mut Ch) -> Result<(), String> {
    let kind = ch.free(8);
    let mut ns: Vec<usize> = (0..=40).collect(); ns.extend([63, 64, 65, 100, 127, 128, 129, 150, 199, 200]);
    if matches!(kind, 0 | 4 | 5) { ns.extend([255, 256, 257, 999, 1000, 1001, 1024, 3000]) }
    if kind == 0 { ns.extend([33_000, 66_000]) }
    let n = *ch.free_of(&ns);
    let mut p: Vec<Node> = vec![];
    for i in (0..n).rev() {
        let mut b = leaf(i);
        match kind {
            0 => { p.push(b); continue }
            1 => b.ss1 = if p.is_empty() { None } else { Some(std::mem::take(&mut p)) },
            2 => b.ss2 = if p.is_empty() { None } else { Some(std::mem::take(&mut p)) },
            3 => if !p.is_empty() { b.items[1] = Item::Arg('s', None, Val::Tree(Box::new(p.remove(0)))) },
            4 => { if p.is_empty() { p.push(leaf(n)) } p[0].items.push(Item::Arg('m', Some(format!("m{}", i)), Val::Tree(Box::new(b)))); continue }
            5 => { if p.is_empty() { let mut t = leaf(n); t.ss1 = Some(vec![]); t.ss2 = Some(vec![]); p.push(t) } if i % 2 == 0 { p[0].ss1.as_mut().unwrap().insert(0, b) } else { p[0].ss2.as_mut().unwrap().insert(0, b) } continue }
            6 => { let mut side = leaf(i + 1000); side.ss1 = Some(vec![leaf(i + 2000)]); if !p.is_empty() { b.ss2 = Some(std::mem::take(&mut p)) } b.ss1 = Some(vec![side, leaf(i + 3000)]) }
            _ => { if !p.is_empty() { b.items[3] = Item::Arg('b', None, Val::Tree(Box::new(p.remove(0)))) } b.items[2] = Item::Arg('d', None, Val::Tree(Box::new(leaf(i + 500)))) }
        }
        p = vec![b];
    }
    if kind == 0 { p.reverse() }
    ch.state(&(kind, n));
    ch.note(|| format!("{} {} x", ["chain", "first-stack nest", "second-stack nest", "argument nest", "argument row", "two long stacks", "bushy nest", "double argument nest"][kind], n));
    save(ch, &p)
}
/// every assignment of {literal, unset, block, block with a block} to three arguments of every kind
fn arguments(ch: &mut Ch) -> Result<(), String> {
    let mut items = vec![Item::Word("f".into())];
    let n = 1 + ch.free(3);
    let mut blocks = 0;
    for i in 0..n {
        let k = *ch.free_of(&['s', 'd', 'b', 'm']);
        let name = if k == 'm' || ch.free(2) == 1 { Some(format!("n{}", i)) } else { None };
        let lit = match k { 'd' => Val::Num(i as f64 - 1.5), 'b' => Val::Bool(i % 2 == 0), _ => Val::Text(format!("v{}", i)) };
        let v = match ch.free(4) { 0 => lit, 1 => Val::Unset, m => {
            blocks += 1;
            let mut b = leaf(10 + i); b.ty = "b".into();
            if m == 3 { b.items[1] = Item::Arg('s', None, Val::Tree(Box::new(leaf(20 + i)))); b.ss1 = Some(vec![leaf(30 + i)]) }
            Val::Tree(Box::new(b)) } };
        items.push(Item::Arg(k, name, v));
    }
    let mut a = leaf(0); a.items = items; a.ss1 = Some(vec![leaf(40)]);
    let p = vec![a, leaf(1)];
    ch.state(&(refm::show(&p), blocks));
    ch.note(|| refm::show(&p));
    save(ch, &p)
}
/// rows of arguments of every length and kind, one of which (or all, or all but one) is a block, unset, or another literal
fn rows(ch: &mut Ch) -> Result<(), String> {
    let mut ns: Vec<usize> = (1..=24).collect(); ns.extend([31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]);
    if ch.wide { ns.extend(25..200); ns.sort(); ns.dedup(); }
    let n = *ch.free_of(&ns);
    let kind = *ch.free_of(&['s', 'd', 'b', 'm']);
    let what = ch.free(5);
    // beyond 33: the ends and the middle
    let at = if n <= 33 { ch.free(n) } else { *ch.free_of(&[0, 1, n / 2, n - 2, n - 1]) };
    let mut items = vec![Item::Word("f".into())];
    for i in 0..n {
        let lit = match kind { 'd' => Val::Num(i as f64 - 1.5), 'b' => Val::Bool(i % 2 == 0), _ => Val::Text(format!("v{}", i)) };
        let tree = || { let mut b = leaf(10 + i); b.ty = "b".into(); if i % 2 == 1 { b.ss1 = Some(vec![leaf(5000 + i)]) } Val::Tree(Box::new(b)) };
        let v = match (what, i == at) { (0, true) => tree(), (1, true) => Val::Unset, (2, false) | (3, _) => tree(), (4, false) => Val::Unset, _ => lit };
        items.push(Item::Arg(kind, if kind == 'm' || i % 3 == 1 { Some(format!("n{}", i)) } else { None }, v));
    }
    let mut a = leaf(0); a.items = items; a.ss2 = Some(vec![leaf(40)]);
    let p = vec![a, leaf(1)];
    ch.state(&(n, kind, what, at));
    ch.note(|| format!("{} arguments %{}, {} at {}", n, kind, ["a block", "none", "all but one are blocks, a literal", "all are blocks", "all but one are unset, a literal"][what], at));
    save(ch, &p)
}
const CATS: [BlockCategory; 9] = [BlockCategory::Variable, BlockCategory::List, BlockCategory::Control, BlockCategory::Operator, BlockCategory::Math, BlockCategory::File, BlockCategory::ViewFunc, BlockCategory::ComponentFunc, BlockCategory::MoreBlock];
/// blocks made with the constructors
fn constructors(ch: &mut Ch) -> Result<(), String> {
    let cat = *ch.free_of(&CATS);
    let (n1, n2) = (ch.free(3), ch.free(3));
    let inner = |k: usize, base: usize| obs::mk_nodes(&(0..k).map(|i| leaf(base + i)).collect::<Vec<_>>());
    let content = || obs::mk_items(&leaf(3).items);
    let b = match ch.free(3) {
        0 => Block::new(cat, "a".into(), content(), BlockType::Regular),
        1 => Block::new_1substack(cat, "b".into(), content(), inner(n1, 10)),
        _ => Block::new_2substack(cat, "c".into(), content(), inner(n1, 10), inner(n2, 20)),
    };
    ch.state(&format!("{:?}", b));
    ch.note(|| format!("{:?}", b));
    if b.category().ok() != Some(cat) { return Err(format!("a block made for category {:?} is of category {:?}", cat, b.category().ok())) }
    let (w1, w2, ty) = match b.op_code.as_str() { "a" => (0, 0, BlockType::Regular), "b" => (n1, 0, BlockType::Control(BlockControl::OneNest)), _ => (n1, n2, BlockType::Control(BlockControl::TwoNest)) };
    if b.sub_stack1.as_ref().map_or(0, |s| s.0.len()) != w1 || b.sub_stack2.as_ref().map_or(0, |s| s.0.len()) != w2 || b.block_type != ty { return Err(format!("constructed {:?}", b)) }
    save(ch, &obs::nodes(&Blocks(vec![b])))
}

pub fn c09() -> Check {
    Check { id: "C09", rule: "the saved list of a block tree has unique ids and resolving references, an independent interpreter of the format reads the same program from it, and so does the library; saving that again gives the same list",
        assumptions: &["text arguments do not start with @ (the format cannot express it)", "trees larger than the bound behave like those in it"],
        scopes: vec![
            scope("trees-2", "every tree of 2 blocks", t2, ALL, ALL), scope("trees-3", "every tree of 3 blocks", t3, ALL, ALL), scope("trees-4", "every tree of 4 blocks", t4, ALL, ALL),
            scope("trees-5", "every tree of 5 blocks over next, both stacks, three arguments", t5, ALL, ALL),
            scope("trees-6", "every tree of 6 blocks over next, both stacks, two arguments", t6, ALL, ALL),
            scope("equal-3", "every tree of 3 blocks, each one of two blocks", eq3, ALL, ALL), scope("equal-4", "every tree of 4 blocks, each one of two blocks", eq4, ALL, ALL), scope("equal-5", "every tree of 5 blocks, each one of two blocks", eq5, ALL, ALL),
            scope("trees-7", "every tree of 7 blocks over next, both stacks, one argument", t7, OFF, ALL),
            scope("arguments", "1..3 arguments of every kind, each literal, unset, block or block with nested blocks", arguments, ALL, ALL),
            scope("rows", "rows of 1..257 arguments of every kind, one of them, all but one or all a block or unset, at every position", rows, ALL, OFF), wide("rows-all", "the same for every length to 199", rows, OFF, ALL),
            scope("content", "literals, words, opcodes, types, colours, empty stacks over five tree shapes", content, 2, 2),
            wide("content-wide", "the same over wide value domains, 1 deviation", content, 1, 1),
            scope("ladder", "chains to 66000 blocks, nests to depth 200, rows of arguments, long stacks", ladder_tree, ALL, ALL),
            scope("constructors", "blocks made with the constructors for every category", constructors, ALL, ALL),
        ] }
}

// ------------------------------------------------------------------ C10

static WORDS: &[&str] = &["a", "", "%s", "%d", "%b", "%m.x", "%s.name", "%d.n", "%b.é", "%m.a.b", "%", "%x", "%m", "é漢", "a%s", "100%", "%é", "%%", "%s.s.", "Toast:", "%S", "%1", "@10", "%d.%s"];
static PARAMS: &[&str] = &["1", "", "a", "-2.5", "true", "false", "@10", "@0", "@", "@x", "@-1", "@4294967295", "@4294967296", " ", "TRUE", "1,5", "@10 ", "1e3", "é", "@é", "12 ", "0x1F", "@1.0", "--1", "%s", "@99999999999999999999", "é@1", "1@2", "a@5", "%@3"];
static FEW: &[&str] = &["1", "", "true", "@7", "@x", "a b"];

fn show_items(i: &[Item]) -> String { refm::show(&[Node { color: 0, op: "".into(), items: i.to_vec(), ty: "".into(), tn: "".into(), ss1: None, ss2: None }]) }
fn norm_items(i: &[Item]) -> Vec<Item> { refm::norm(&[Node { color: 0, op: "".into(), items: i.to_vec(), ty: "".into(), tn: "".into(), ss1: None, ss2: None }]).remove(0).items }

fn spec_one(ch: &mut Ch, spec: &str, params: &[String]) -> Result<(), String> {
    let at = || format!("spec {:?} with {:?}", spec, params);
    let want = refm::content(spec, params);
    let places = refm::spec(spec).map(|s| s.iter().filter(|i| matches!(i, Item::Arg(..))).count());
    let early = guard(|| BlockContent::parse(spec.to_string(), params.to_vec())).map_err(|e| format!("{}: {}", at(), e))?;
    let bare = guard(|| BlockContent::parse_wo_params(spec)).map_err(|e| format!("{}: {}", at(), e))?;
    ch.steps(2);
    match (&places, &bare) {
        (None, Ok(b)) => return Err(format!("{}: unknown placeholder accepted as {}", at(), show_items(&obs::items(b)))),
        (Some(_), Err(e)) => return Err(format!("{}: refused without parameters: {:?}", at(), e)),
        (Some(_), Ok(b)) => {
            let w = refm::spec(spec).unwrap();
            if obs::items(b) != w { return Err(format!("{}: read without parameters as {}", at(), show_items(&obs::items(b)))) }
            if b.to_string() != spec { return Err(format!("{}: rendered as {:?}", at(), b.to_string())) }
        }
        _ => {}
    }
    let late = match bare { Ok(b) => { ch.step(); guard(|| b.apply_args(params.to_vec())).map_err(|e| format!("{}: applying: {}", at(), e))?.map_err(|e| format!("{:?}", e)) } Err(e) => Err(format!("{:?}", e)) };
    let extra = places.map_or(false, |n| params.len() > n);
    for (how, got) in [("while reading", early.map_err(|e| format!("{:?}", e))), ("afterwards", late)] {
        match (&want, got) {
            (Err(()), Ok(b)) => return Err(format!("{}: parameters supplied {}: accepted as {}", at(), how, show_items(&obs::items(&b)))),
            (Ok(w), Ok(b)) => {
                let g = obs::items(&b);
                if norm_items(&g) != norm_items(w) { return Err(format!("{}: parameters supplied {} give {}, expected {}", at(), how, show_items(&g), show_items(w))) }
                if b.to_string() != spec { return Err(format!("{}: rendered as {:?}", at(), b.to_string())) }
                rest(ch, b, w).map_err(|e| format!("{}: {}", at(), e))?;
            }
            (Ok(_), Err(e)) if !extra => return Err(format!("{}: parameters supplied {}: refused: {}", at(), how, e)),
            _ => {}
        }
    }
    Ok(())
}
/// the accessors, and putting blocks in the place of references
fn rest(ch: &mut Ch, mut b: BlockContent, w: &[Item]) -> Result<(), String> {
    let args: Vec<Item> = norm_items(w).into_iter().filter(|i| matches!(i, Item::Arg(..))).collect();
    let one = |a: &swrs::api::block::Argument| norm_items(&obs::items(&BlockContent { items: vec![swrs::api::block::SpecItem::Parameter(a.clone())] })).remove(0);
    if b.get_args().into_iter().map(one).collect::<Vec<_>>() != args { return Err("get_args gives something else".into()) }
    if b.get_args_mut().into_iter().map(|a| one(a)).collect::<Vec<_>>() != args { return Err("get_args_mut gives something else".into()) }
    let text = b.to_string();
    let (empty, taken) = b.clone().take_args();
    if taken.iter().map(one).collect::<Vec<_>>() != args { return Err("take_args gives something else".into()) }
    if empty.to_string() != text { return Err(format!("after take_args rendered as {:?}", empty.to_string())) }
    if obs::items(&empty).iter().any(|i| matches!(i, Item::Arg(_, _, v) if *v != Val::Unset)) { return Err("take_args leaves values behind".into()) }
    let refs: Vec<u32> = args.iter().filter_map(|a| if let Item::Arg(_, _, Val::Ref(r)) = a { Some(*r) } else { None }).collect();
    let mut asked = vec![];
    let put = b.clone().apply_blocks(|id| { asked.push(id); Some(obs::mk_node(&{ let mut n = leaf(0); n.op = format!("ref{}", id); n })) }).map_err(|e| format!("apply_blocks failed: {:?}", e))?;
    if asked != refs { return Err(format!("apply_blocks asks for {:?}, expected {:?}", asked, refs)) }
    let expected: Vec<Item> = norm_items(w).into_iter().map(|i| match i { Item::Arg(k, n, Val::Ref(r)) => Item::Arg(k, n, Val::Tree(Box::new({ let mut n = leaf(0); n.op = format!("ref{}", r); n }))), i => i }).collect();
    if norm_items(&obs::items(&put)) != norm_items(&expected) { return Err(format!("apply_blocks gives {}", show_items(&obs::items(&put)))) }
    if put.to_string() != text { return Err(format!("with blocks rendered as {:?}", put.to_string())) }
    for miss in &refs { if b.clone().apply_blocks(|id| if id == *miss { None } else { Some(obs::mk_node(&leaf(0))) }).is_ok() { return Err(format!("apply_blocks accepts that block {} is missing", miss)) } }
    ch.steps(2 + refs.len() as u64);
    Ok(())
}
fn words(ch: &mut Ch, max: usize, words: &'static [&'static str]) -> String {
    let n = 1 + ch.free(max);
    (0..n).map(|_| *ch.free_of(words)).collect::<Vec<_>>().join(" ")
}
fn short(ch: &mut Ch) -> Result<(), String> {
    let spec = words(ch, 2, WORDS);
    let n = ch.free(4);
    let ps: Vec<String> = (0..n).map(|_| ch.free_of(if n == 3 { FEW } else { PARAMS }).to_string()).collect();
    run(ch, &spec, &ps)
}
fn run(ch: &mut Ch, spec: &str, ps: &[String]) -> Result<(), String> {
    if !spec.split(' ').all(refm::spec_word_defined) { ch.skip(); return Ok(()) }
    ch.state(&(spec.to_string(), ps.to_vec()));
    ch.note(|| format!("{:?} {:?}", spec, ps));
    spec_one(ch, spec, ps)
}
static MAIN: &[&str] = &["a", "", "%s", "%d.n", "%b", "%m.x", "%s.name", "%x", "%", "é"];
fn long4(ch: &mut Ch) -> Result<(), String> { long(ch, 4) }
fn long5(ch: &mut Ch) -> Result<(), String> { long(ch, 5) }
fn long(ch: &mut Ch, max: usize) -> Result<(), String> {
    let spec = words(ch, max, MAIN);
    let kinds: Vec<char> = spec.split(' ').filter_map(|w| match refm::spec_word(w) { Some(Item::Arg(k, ..)) => Some(k), _ => None }).collect();
    let drop = ch.pick(3);
    let mut ps: Vec<String> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let good = match k { 'd' => format!("{}.5", i), 'b' => "true".to_string(), _ => format!("p{}", i) };
        let c = ch.pick(PARAMS.len() + 1);
        ps.push(if c == 0 { good } else { PARAMS[c - 1].to_string() });
    }
    if drop == 1 { ps.pop(); } else if drop == 2 { ps.push("extra".into()) }
    run(ch, &spec, &ps)
}
fn single(ch: &mut Ch) -> Result<(), String> {
    // every string of the wide domain as a word, as a name, as a parameter of every kind
    let strs = strings_wide();
    let s = ch.free_of(&strs).clone();
    let (spec, ps) = match ch.free(7) {
        0 => (format!("a {} b", s), vec![]),
        1 => (format!("%s.{}", s), vec!["v".to_string()]),
        2 => ("%s".to_string(), vec![s]),
        3 => ("x %m.list y".to_string(), vec![s]),
        4 => ("%d".to_string(), vec![s]),
        5 => ("%b".to_string(), vec![s]),
        _ => ("%s".to_string(), vec![format!("@{}", s)]),
    };
    // notations of numbers the format does not define
    if spec == "%d" && refm::number(&ps[0]).is_none() && ps[0].trim_start_matches('-').parse::<f64>().is_ok() { ch.skip(); return Ok(()) }
    if spec == "%s" && ps[0].starts_with("@+") { ch.skip(); return Ok(()) }
    run(ch, &spec, &ps)
}
fn many(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.free_of(&sizes());
    let kind = ch.free(4);
    let short_by = ch.free(2);
    let w = ["%s", "%d.n", "%b", "%m.x"][kind];
    let spec = vec![w; n.max(1)].join(" w ");
    let mut ps: Vec<String> = (0..n.max(1)).map(|i| match kind { 1 => (i as f64 / 4.0).to_string(), 2 => (i % 3 == 0).to_string(), _ => format!("v{}", i) }).collect();
    if short_by == 1 { ps.pop(); }
    run(ch, &spec, &ps)
}
fn number_text(ch: &mut Ch) -> Result<(), String> {
    let nums = numbers(true);
    let x = *ch.free_of(&nums);
    let t = match ch.free(3) { 0 => x.to_string(), 1 => format!("{:e}", x), _ => format!("{:?}", x) };
    if t.contains("inf") || t.contains("NaN") { ch.skip(); return Ok(()) }
    run(ch, "set %d to %d.n", &[t.clone(), "3".into()])
}
/// long rows of placeholders, one parameter out of the ordinary at every position
fn odd_one(ch: &mut Ch) -> Result<(), String> {
    let mut ns: Vec<usize> = (4..=18).collect(); ns.extend([31, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257]);
    let n = *ch.free_of(&ns);
    let kind = ch.free(4);
    let at = if n <= 18 { ch.free(n) } else { *ch.free_of(&[0, 8, 9, 10, n / 2, n - 1]) };
    let k = ch.free(PARAMS.len() + 1);
    let w = ["%s", "%d.n", "%b", "%m.x"];
    let mut spec = vec![w[kind]; n];
    let mut ps: Vec<String> = (0..n).map(|i| match kind { 1 => (i as f64 / 4.0).to_string(), 2 => (i % 3 == 0).to_string(), _ => format!("v{}", i) }).collect();
    if k < PARAMS.len() { ps[at] = PARAMS[k].into() } else { spec[at] = ["%d", "%m.other", "%s.t", "%b.c"][kind]; ps[at] = ["1", "o", "s", "true"][kind].into() }
    run(ch, &spec.join(" "), &ps)
}
pub fn c10() -> Check {
    Check { id: "C10", rule: "reading a spec with its parameters gives the items of an independent reader, whether the parameters come while reading or afterwards; rendering gives back the spec; wrong parameters and unknown placeholders are errors; accessors agree",
        assumptions: &["placeholders are written %x or %x.name (text glued to a placeholder is not defined by the format)", "number notations other than plain decimal/exponent are not judged", "surplus parameters are not judged"],
        scopes: vec![
            scope("short", "every spec of 1..2 words over 24 tokens x every list of 0..2 parameters over 26 values (3 over 6)", short, ALL, ALL),
            scope("long", "every spec of 1..4 words over 10 tokens, parameters with 1 deviation (2 thorough)", long4, 1, 2),
            scope("longer", "every spec of 1..5 words over 10 tokens, parameters with 1 deviation", long5, OFF, 1),
            scope("single", "every string of the wide domain as word, name, parameter of each kind and reference", single, ALL, ALL),
            scope("many", "specs of up to 1025 placeholders", many, ALL, ALL),
            scope("odd-one", "rows of 4..257 placeholders with one parameter of 26 kinds, or one placeholder of another kind, at every position", odd_one, ALL, ALL),
            scope("numbers", "number literals in three notations", number_text, ALL, ALL),
        ] }
}

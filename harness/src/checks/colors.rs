//! C19: colours
use crate::engine::*;
use crate::{obs, Check};
use swrs::api::block::{BlockCategory, BlockContent, BlockType, Block};
use swrs::color::Color;

const CATS: [(u32, BlockCategory); 9] = [(0xee7d16, BlockCategory::Variable), (0xcc5b22, BlockCategory::List), (0xe1a92a, BlockCategory::Control), (0x5cb722, BlockCategory::Operator), (0x23b9a9, BlockCategory::Math),
    (0xa1887f, BlockCategory::File), (0x4a6cd4, BlockCategory::ViewFunc), (0xfca5e2, BlockCategory::ComponentFunc), (0x8a55d7, BlockCategory::MoreBlock)];

fn bytes(v: u32) -> (u8, u8, u8, u8) { ((v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8) }
/// the value a colour holds, by its channels
fn holds(how: &str, c: Color, v: u32) -> Result<(), String> {
    let (a, r, g, b) = bytes(v);
    if (c.alpha(), c.red(), c.green(), c.blue()) != (a, r, g, b) || c.rgb() != (r, g, b) { return Err(format!("{} {:08x}: alpha {:02x} red {:02x} green {:02x} blue {:02x}, rgb {:?}", how, v, c.alpha(), c.red(), c.green(), c.blue(), c.rgb())) }
    Ok(())
}
fn numbers(v: u32) -> Result<(), String> {
    let (a, r, g, b) = bytes(v);
    let c = Color::from(v);
    holds("from number", c, v)?;
    let d = Color::from_argb(a, r, g, b);
    holds("from argb", d, v)?;
    if c != d { return Err(format!("{:08x} is not equal to itself", v)) }
    if a == 0xff { holds("from rgb", Color::from_rgb(r, g, b), v)? }
    match (CATS.iter().find(|k| k.0 == v & 0xffffff), BlockCategory::try_from(c)) {
        (Some(k), Ok(x)) if k.1 == x => {}
        (None, Err(e)) => if e.color != c { return Err(format!("the error names {:?} instead of {:08x}", e.color, v)) },
        (w, g) => return Err(format!("{:08x} is taken for {:?} instead of {:?}", v, g.ok(), w.map(|k| k.1))),
    }
    Ok(())
}
fn texts(v: u32) -> Result<(), String> {
    let (_, r, g, b) = bytes(v);
    let c = Color::from(v);
    for (how, t) in [("hex", format!("{:08x}", v)), ("capital hex", format!("{:08X}", v))] {
        let h = Color::parse_hex(&t).map_err(|e| format!("the hex text {} is refused: {}", t, e))?;
        holds(how, h, v)?;
    }
    for t in [format!("{:06x}", v & 0xffffff), format!("{:06X}", v & 0xffffff)] {
        let h = Color::parse_hex(&t).map_err(|e| format!("the hex text {} is refused: {}", t, e))?;
        holds("short hex", h, v | 0xff000000)?;
        if h != Color::from_rgb(r, g, b) { return Err(format!("{} differs from its channels", t)) }
    }
    for t in [c.to_string(), format!("{:?}", c)] {
        let digits = t.strip_prefix("0x").or(t.strip_prefix('#')).unwrap_or(&t);
        if digits.len() != 8 || !digits.eq_ignore_ascii_case(&format!("{:08x}", v)) { return Err(format!("{:08x} is printed as {:?}", v, t)) }
    }
    let n = (v as i32).to_string();
    let j: Color = serde_json::from_str(&n).map_err(|e| format!("the integer {} is refused: {}", n, e))?;
    holds("integer", j, v)?;
    let s = serde_json::to_string(&c).map_err(|e| e.to_string())?;
    if s != n { return Err(format!("{:08x} is written as {} instead of {}", v, s, n)) }
    let jv = serde_json::to_value(c).map_err(|e| e.to_string())?;
    if jv != serde_json::json!(v as i32) { return Err(format!("{:08x} is written as {}", v, jv)) }
    let k: Color = serde_json::from_value(jv).map_err(|e| format!("the integer {} is refused: {}", n, e))?;
    holds("integer value", k, v)
}
fn slab(ch: &mut Ch, base: u32, n: u32, f: fn(u32) -> Result<(), String>) -> Result<(), String> {
    ch.state(&(base, n));
    ch.note(|| format!("{} colours from {:08x}", n, base));
    for i in 0..n { f(base.wrapping_add(i))? }
    ch.steps(n as u64 * 5); ch.inner_states += n as u64 - 1;
    Ok(())
}
fn both(v: u32) -> Result<(), String> { numbers(v)?; texts(v) }
/// every RGB value under every of a few alphas
fn rgb(ch: &mut Ch) -> Result<(), String> { let a = *ch.free_of(&[0xffu32, 0, 0x7f, 0x80]); let r = ch.free(256) as u32; slab(ch, a << 24 | r << 16, 1 << 16, numbers) }
fn rgb_texts(ch: &mut Ch) -> Result<(), String> { let a = *ch.free_of(&[0xffu32]); let r = ch.free(256) as u32; let h = ch.free(16) as u32; slab(ch, a << 24 | r << 16 | h << 12, 1 << 12, texts) }
/// every pattern of the upper half under a few lower halves and the other way round
fn halves(ch: &mut Ch) -> Result<(), String> {
    let upper = ch.free(2) == 1; let k = ch.free(256) as u32; let low = *ch.free_of(&[0u32, 0xffff, 0x7f80, 0x8001]);
    ch.state(&(upper, k, low)); ch.note(|| format!("upper {} block {:x} other half {:x}", upper, k, low));
    for i in 0..256u32 { let x = k << 8 | i; both(if upper { x << 16 | low } else { low << 16 | x })? }
    ch.steps(256 * 10); ch.inner_states += 255;
    Ok(())
}
/// the nine categories under every alpha, and a block that carries them
fn categories(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(9); let a = ch.free(256) as u32;
    let (rgb, cat) = CATS[k];
    ch.state(&(k, a)); ch.note(|| format!("{:?} {:02x}", cat, a));
    both(a << 24 | rgb)?;
    let c: Color = cat.into();
    if c.rgb() != Color::from(rgb).rgb() { return Err(format!("the colour of {:?} is {}", cat, c)) }
    if a == 0 { holds("category", c, 0xff000000 | rgb)? }
    let b = Block { color: Color::from(a << 24 | rgb), op_code: "x".into(), content: BlockContent::parse_wo_params("x").map_err(|e| format!("{:?}", e))?, sub_stack1: None, sub_stack2: None, block_type: BlockType::Regular };
    ch.steps(12);
    match b.category() { Ok(x) if x == cat => {} o => return Err(format!("a block coloured {:02x}{:06x} is in {:?}", a, rgb, o.ok())) }
    // neighbours of the colour are in none
    for bit in 0..24 { let n = rgb ^ 1 << bit; numbers(a << 24 | n)? }
    Ok(())
}
/// hex texts of all lengths over an alphabet
fn hex(ch: &mut Ch) -> Result<(), String> {
    const AL: &[char] = &['0', 'f', 'A', '9', 'g', ' ', '#', 'é'];
    let n = ch.free(7) + 3;
    let mut s = String::new();
    for i in 0..n { let k = if i < 2 || i + 2 >= n { ch.free(AL.len()) } else { ch.pick(AL.len()) }; s.push(AL[k]) }
    ch.state(&s); ch.note(|| format!("{:?}", s));
    let r = Color::parse_hex(&s);
    ch.step();
    let ok = s.chars().all(|c| c.is_ascii_hexdigit());
    if !ok { return if let Ok(c) = r { Err(format!("{:?} is read as {}", s, c)) } else { Ok(()) } }
    let v = u64::from_str_radix(&s, 16).unwrap();
    match (s.len(), r) {
        (6, Ok(c)) => holds("text", c, 0xff000000 | v as u32),
        (8, Ok(c)) => holds("text", c, v as u32),
        (6 | 8, Err(e)) => Err(format!("{:?} is refused: {}", s, e)),
        (9, Ok(c)) if v > u32::MAX as u64 => Err(format!("{:?} is read as {}", s, c)),
        _ => Ok(()),
    }
}
/// all 2^32
fn full(ch: &mut Ch) -> Result<(), String> { let h = ch.free(1 << 14) as u32; slab(ch, h << 18, 1 << 18, |v| { numbers(v)?; let n = (v as i32).to_string(); let j: Color = serde_json::from_str(&n).map_err(|e| format!("the integer {} is refused: {}", n, e))?; holds("integer", j, v)?; if serde_json::to_string(&j).ok() != Some(n) { return Err(format!("{:08x} is not written back", v)) } Ok(()) }) }

pub fn c19() -> Check {
    let _ = obs::color;
    Check { id: "C19", rule: "the channels of a colour are those it was made of whichever way it was made, it prints as its eight hex digits and is written as the signed 32-bit integer; exactly the nine colours are recognised as categories",
        assumptions: &["hex texts of other than 6 or 8 digits are only required not to crash (9 digits that overflow are refused)", "a prefix 0x or # of the printed digits is not judged"],
        scopes: vec![
            scope("rgb", "all 2^24 RGB values under four alphas: channels, equality, category", rgb, ALL, ALL),
            scope("rgb-texts", "all 2^24 RGB values as hex text, printed text and data-file integers", rgb_texts, ALL, ALL),
            scope("halves", "all 2^16 patterns of either half under four patterns of the other", halves, ALL, ALL),
            scope("categories", "the nine categories under every alpha and their one-bit neighbours", categories, ALL, ALL),
            scope("hex", "hex texts of 3 to 9 characters over an alphabet with invalid ones", hex, 1, 2),
            scope("full", "all 2^32 colours: channels, category, data-file integers", full, OFF, ALL),
        ] }
}

use super::round_trip;
use crate::dom::*;
use crate::engine::*;
use crate::refm::{day_number, json, month_len};
use crate::{obs, Check};
use serde_json::{json, Value};
use swrs::parser::{project::Project, Parsable};

fn seconds(date: &str) -> i64 {
    let n = |a: usize, b: usize| date[a..b].parse::<i64>().unwrap();
    day_number(n(0, 4), n(4, 6), n(6, 8)) * 86400 + n(8, 10) * 3600 + n(10, 12) * 60 + n(12, 14)
}

fn rt(ch: &mut Ch, doc: &Value, text: &str) -> Result<(), String> {
    // the loaded structure has the date in seconds
    let mut loaded = doc.clone();
    loaded.as_object_mut().unwrap().remove("my_sc_reg_dt");
    loaded["when"] = json!(seconds(doc["my_sc_reg_dt"].as_str().unwrap()));
    let p = Project::parse(text).map_err(|e| format!("refused: {} in {}", e, text))?;
    crate::refm::want("loaded", &loaded, &obs::project(&p))?;
    let out = p.reconstruct().map_err(|e| format!("saving failed: {}", e))?;
    crate::refm::want("saved", doc, &json(&out)?)?;
    for k in ["color_primary", "color_primary_dark", "color_accent", "color_control_normal", "color_control_highlight"] {
        if !json(&out)?[k].is_i64() && !json(&out)?[k].is_u64() { return Err(format!("{} is not written as an integer: {}", k, out)) }
    }
    let q = Project::parse(&out).map_err(|e| format!("saved text refused: {}", e))?;
    if p != q { return Err(format!("reload differs: {:?} / {:?}", p, q)) }
    ch.steps(3);
    Ok(())
}

fn fields(ch: &mut Ch) -> Result<(), String> {
    let style = ch.pick(STYLES);
    let d = gen(ch, PROJECT);
    let t = write(&d, style);
    ch.state(&t);
    ch.note(|| t.clone());
    rt(ch, &d, &t)
}
/// Sketchware writes colours as floating point numbers
fn float_colors(ch: &mut Ch) -> Result<(), String> {
    let d = gen(ch, PROJECT);
    let form = ch.free(3);
    let mut t = write(&d, 0);
    for k in ["color_primary", "color_primary_dark", "color_accent", "color_control_normal", "color_control_highlight"] {
        let v = d[k].as_i64().unwrap();
        let s = match form { 0 => format!("{}.0", v), 1 => format!("{:E}", v as f64), _ => format!("{:e}", v as f64) };
        t = t.replace(&format!("\"{}\":{}", k, v), &format!("\"{}\":{}", k, s));
    }
    ch.state(&t);
    ch.note(|| t.clone());
    rt(ch, &d, &t)
}

fn template() -> (String, String) {
    let t = write(&default(PROJECT), 0);
    let (a, b) = t.split_once("20220131235959").unwrap();
    (a.to_string(), b.to_string())
}
fn date_ok(ch: &mut Ch, pre: &str, post: &str, date: &str) -> Result<(), String> {
    ch.steps(2);
    let p = Project::parse(&format!("{}{}{}", pre, date, post)).map_err(|e| format!("date {} refused: {}", date, e))?;
    if p.date_created as i64 != seconds(date) { return Err(format!("date {} loaded as {} seconds, expected {}", date, p.date_created as i64, seconds(date))) }
    let out = p.reconstruct().map_err(|e| format!("date {}: saving failed: {}", date, e))?;
    if !out.contains(&format!("\"my_sc_reg_dt\":\"{}\"", date)) { return Err(format!("date {} saved in {}", date, out)) }
    Ok(())
}
fn days(ch: &mut Ch) -> Result<(), String> {
    let y = ch.free(10000) as i64;
    ch.state(&y);
    ch.note(|| format!("every day of the year {}", y));
    let (a, b) = template();
    let mut k = 0;
    for m in 1..=12 { for d in 1..=month_len(y, m) {
        k += 1;
        let s = (k * 7919 + y * 131) % 86400;
        date_ok(ch, &a, &b, &format!("{:04}{:02}{:02}{:02}{:02}{:02}", y, m, d, s / 3600, s / 60 % 60, s % 60))?;
    } }
    ch.inner_states += k as u64 - 1;
    Ok(())
}
fn times(ch: &mut Ch) -> Result<(), String> {
    let day = *ch.free_of(&["19700101", "20200229", "00000101", "99991231"]);
    let h = ch.free(24);
    ch.state(&(day, h));
    ch.note(|| format!("every second of hour {} of {}", h, day));
    let (a, b) = template();
    for s in 0..3600 { date_ok(ch, &a, &b, &format!("{}{:02}{:02}{:02}", day, h, s / 60, s % 60))? }
    ch.inner_states += 3599;
    Ok(())
}
fn bad_dates(ch: &mut Ch) -> Result<(), String> {
    let y = *ch.free_of(&[0i64, 4, 100, 400, 1582, 1900, 1970, 2000, 2021, 2022, 2024, 2100, 9999]);
    let m = ch.free(100) as i64;
    ch.state(&(y, m));
    ch.note(|| format!("year {}, month {}, every day 00..99, hour/minute/second 00..99", y, m));
    let (a, b) = template();
    let mut n = 0;
    let mut one = |ch: &mut Ch, date: String, valid: bool| -> Result<(), String> {
        n += 1;
        if valid { return date_ok(ch, &a, &b, &date) }
        ch.step();
        match Project::parse(&format!("{}{}{}", a, date, b)) { Ok(p) => Err(format!("invalid date {} accepted as {}", date, p.date_created)), Err(_) => Ok(()) }
    };
    for d in 0..100 {
        let valid = m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m);
        one(ch, format!("{:04}{:02}{:02}000000", y, m, d), valid)?;
    }
    let good = m >= 1 && m <= 12;
    for v in 0..100 {
        one(ch, format!("{:04}{:02}01{:02}0000", y, m, v), good && v < 24)?;
        one(ch, format!("{:04}{:02}0100{:02}00", y, m, v), good && v < 60)?;
        one(ch, format!("{:04}{:02}010000{:02}", y, m, v), good && v < 60)?;
    }
    ch.inner_states += n - 1;
    Ok(())
}
/// characters that are no digits
static ODD: std::sync::LazyLock<Vec<char>> = std::sync::LazyLock::new(|| (0x20..0x180u32).chain([0x660, 0x6f0, 0x966, 0xb2, 0x2070, 0x2080, 0x2460, 0xff10, 0x1d7ce, 0x3007, 0x2013, 0x2212, 0x2028, 0xfeff, 0x200b, 0x1f600, 0x10ffff]).filter_map(char::from_u32).filter(|c| !c.is_ascii_digit() && *c != '"' && *c != '\\').collect());
/// dates that are not fourteen digits
fn misshapen(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = template();
    let base = "20220131235959";
    let date = match ch.free(4) {
        // any other character in place of a digit
        3 => { let p = ch.free(14); let c = *ch.free_of(&*ODD); format!("{}{}{}", &base[..p], c, &base[p + 1..]) }
        0 => { let n = ch.free(24); if n == 14 { ch.skip(); return Ok(()) } "2".repeat(0) + &base.chars().cycle().take(n).collect::<String>() }
        1 => { let p = ch.free(14); let c = *ch.free_of(&["a", " ", "-", "+", ":", "/", "é", "漢", "😀", "\\u0000", ".", "e", "٣", "１", ""]); format!("{}{}{}", &base[..p], c, &base[p + 1..]) }
        _ => { let p = ch.free(15); let c = *ch.free_of(&["a", " ", "-", "+", "é", "漢", "٣", "0"]); format!("{}{}{}", &base[..p], c, &base[p..]) }
    };
    ch.state(&date);
    ch.note(|| date.clone());
    ch.step();
    match Project::parse(&format!("{}{}{}", a, date, b)) { Ok(p) => Err(format!("date {:?} accepted as {}", date, p.date_created)), Err(_) => Ok(()) }
}
fn bad_save(ch: &mut Ch) -> Result<(), String> {
    let (a, b) = template();
    let mut p = Project::parse(&format!("{}20220131235959{}", a, b)).map_err(|e| e.to_string())?;
    let lo = -62167219200i64; let hi = 253402300799i64;
    let t = *ch.free_of(&[lo, lo - 1, lo + 1, hi, hi + 1, hi - 1, i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, 0, -1, 1, hi * 10, lo * 10, 8210266876799, 8210266876800, -8334632851200, -8334632851201,
        9223372036854775, -9223372036854775, 9223372036855, 1 << 32, 1 << 33, -(1 << 33), 1643673599000, 64092211200, -86400, 86400]);
    p.date_created = t as u64;
    ch.state(&t);
    ch.note(|| format!("creation time {} s", t));
    ch.step();
    match p.reconstruct() {
        Ok(out) if t >= lo && t <= hi => {
            let d = json(&out)?["my_sc_reg_dt"].as_str().unwrap_or("").to_string();
            if d.len() == 14 && seconds(&d) == t { Ok(()) } else { Err(format!("{} saved as {}", t, d)) }
        }
        Ok(out) => Err(format!("a time outside the years 0000-9999 ({}) was saved as {}", t, out)),
        Err(e) if t >= lo && t <= hi => Err(format!("{} refused on save: {}", t, e)),
        Err(_) => Ok(()),
    }
}
fn numbers(ch: &mut Ch) -> Result<(), String> {
    let key = *ch.free_of(&["sc_id", "sc_ver_code"]);
    let d = default(PROJECT);
    let blk = ch.free(257);
    ch.state(&(key, blk));
    ch.note(|| if blk < 256 { format!("{} = {}..{}", key, blk * 256, blk * 256 + 255) } else { format!("{}: not numbers of 16 bits", key) });
    if blk == 256 {
        for s in ["", " ", "-1", "65536", "65537", "70000", "100000", "4294967296", "4294967297", "18446744073709551616", "99999999999999999999", "1.0", "1.5", "1e2", "0x10", " 1", "1 ", "a", "1a", "１", "٣", "-0", "--1", "1,000", "null", "+-1", "_1", "1_000"] {
            ch.step();
            let mut x = d.clone(); x[key] = json!(s);
            if s == "-0" { continue } // not a number Sketchware writes; either answer is fine
            if Project::parse(&write(&x, 0)).is_ok() { return Err(format!("{} = {:?} was accepted", key, s)) }
        }
        for c in ODD.iter() { for n in 1..6 { for p in 0..n {
            let mut s: Vec<char> = "12345"[..n].chars().collect(); s[p] = *c;
            let s: String = s.into_iter().collect();
            if p == 0 && matches!(c, '+' | '-') { continue }
            ch.step();
            let mut x = d.clone(); x[key] = json!(s);
            if Project::parse(&write(&x, 0)).is_ok() { return Err(format!("{} = {:?} was accepted", key, s)) }
        } } }
        for v in [json!(5), json!(null), json!(true), json!(["1"]), json!({}), json!(1.5)] {
            let mut x = d.clone(); x[key] = v.clone();
            ch.step();
            if Project::parse(&write(&x, 0)).is_ok() { return Err(format!("{} = {} was accepted", key, v)) }
        }
        return Ok(())
    }
    for v in blk * 256..blk * 256 + 256 {
        let mut x = d.clone(); x[key] = json!(v.to_string());
        rt(ch, &x, &write(&x, 0))?;
    }
    ch.inner_states += 255;
    Ok(())
}

pub fn check() -> Check {
    let _ = round_trip::<swrs::parser::file::File>;
    Check { id: "C02", rule: "loading a project file yields the values of the document, saving writes a file with the same keys and values, invalid values are refused",
        assumptions: &["strings, colours and small integers are taken from the enumerated value domains; numbers written with a sign or leading zeros are outside the format"],
        scopes: vec![
            scope("fields", "every attribute over its small domain, combinations of 2 (3) deviations, 4 writing styles", fields, 2, 3),
            wide("wide", "every attribute over its wide domain", fields, 1, 1),
            wide("wide2", "pairs of attributes over their wide domains", fields, OFF, 2),
            scope("float_colors", "colours written as floating point numbers", float_colors, 1, 2),
            scope("days", "every calendar day of the years 0000-9999", days, ALL, ALL),
            scope("times", "every second of four days", times, ALL, ALL),
            scope("bad_dates", "every month, day, hour, minute, second 00..99 of 13 years", bad_dates, ALL, ALL),
            scope("misshapen", "dates that are not 14 digits", misshapen, ALL, ALL),
            scope("bad_save", "creation times around every limit", bad_save, ALL, ALL),
            scope("numbers", "all 65536 ids and version codes, and non-numbers", numbers, ALL, ALL),
        ] }
}

use crate::engine::*;
use crate::Check;
use serde_json::Value;
use std::fmt::Debug;
use swrs::parser::Parsable;

mod c01; mod c02; mod files; mod blocks; mod views; mod projects; mod screens; mod edits; mod resources; mod colors; mod faults; mod robust; mod history; mod ways; mod byhand; mod parts; mod copies;

pub use history::Pausing;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"];

pub fn get(id: &str) -> Option<Check> {
    Some(match id {
        "C01" => c01::check(), "C02" => c02::check(),
        "C03" => files::c03(), "C04" => files::c04(), "C05" => files::c05(), "C06" => files::c06(), "C07" => files::c07(),
        "C08" => blocks::c08(), "C09" => blocks::c09(), "C10" => blocks::c10(),
        "C11" => views::c11(), "C12" => views::c12(), "C13" => projects::c13(), "C14" => edits::c14(), "C15" => resources::c15(), "C16" => resources::c16(), "C17" => robust::c17(), "C18" => faults::c18(), "C19" => colors::c19(), "C20" => screens::c20(), "C21" => screens::c21(), "C22" => history::c22(), "C23" => ways::c23(), "C24" => byhand::c24(), "C25" => parts::c25(), "C26" => copies::c26(),
        _ => return None,
    })
}

/// load -> compare with the document; save -> compare with the document; load the saved text again
pub fn round_trip<T>(ch: &mut Ch, text: &str, doc: &Value, observe: fn(&T) -> Value, read: fn(&str) -> Result<Value, String>) -> Result<(), String>
where T: Parsable + PartialEq, T::ParseError: Debug, T::ReconstructionError: Debug {
    ch.note(|| format!("text: {}", text));
    let a = T::parse(text).map_err(|e| format!("well-formed input was refused: {:?}", e))?;
    ch.step();
    crate::refm::want("loaded", doc, &observe(&a))?;
    let out = a.reconstruct().map_err(|e| format!("saving failed: {:?}", e))?;
    ch.step();
    ch.note(|| format!("saved: {}", out));
    let d = read(&out).map_err(|e| format!("the saved text cannot be read: {} (saved: {})", e, trunc(&out, 400)))?;
    crate::refm::want("saved", doc, &d)?;
    let b = T::parse(&out).map_err(|e| format!("the saved text is refused: {:?}", e))?;
    ch.step();
    // (the logic file lists the screens' sections in another order than it was read in)
    crate::refm::want("loaded again", doc, &observe(&b))?;
    let out2 = b.reconstruct().map_err(|e| format!("saving again failed: {:?}", e))?;
    ch.step();
    if a == b && out2 != out { return Err(format!("saving twice gives different texts: {} / {}", trunc(&out, 300), trunc(&out2, 300))) }
    if out2 != out { crate::refm::want("saved again", doc, &read(&out2)?)? }
    Ok(())
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-scratch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

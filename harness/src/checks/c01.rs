use super::Scratch;
use crate::engine::*;
use crate::refm::aes::Aes;
use crate::Check;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use swrs::*;

const K: &[u8; 16] = b"sketchwaresecure";
fn reference() -> &'static Aes { static A: std::sync::OnceLock<Aes> = std::sync::OnceLock::new(); A.get_or_init(|| Aes::new(K)) }

fn both(ch: &mut Ch, d: &[u8]) -> Result<(), String> {
    let c = encrypt_sw(d);
    let want = reference().cbc(K, d);
    ch.steps(2);
    if c != want { return Err(format!("encrypting {:02x?} gives {:02x?}, AES-128-CBC/PKCS#7 gives {:02x?}", d, c, want)) }
    match decrypt_sw_encrypted(&want) {
        Ok(p) if p == d => Ok(()),
        r => Err(format!("decrypting the ciphertext of {:02x?} gives {:02x?}", d, r)),
    }
}

fn lengths(ch: &mut Ch) -> Result<(), String> {
    let max = if ch.wide { 5000 } else { 1201 };
    let n = ch.free(max);
    ch.state(&n);
    let fills: [&dyn Fn(usize) -> u8; 6] = [&|_| 0, &|_| 0xff, &|i| i as u8, &|i| (i * 7 + 13) as u8, &|_| 16, &|i| b"{\"a\":1}\n@x"[i % 10]];
    ch.note(|| format!("{} bytes, 6 fills", n));
    for f in fills { both(ch, &(0..n).map(f).collect::<Vec<u8>>())? }
    ch.inner_states += 5;
    Ok(())
}
fn huge(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.free_of(&[4095usize, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100_000, 1 << 20, (1 << 20) + 1]);
    ch.state(&n);
    ch.note(|| format!("{} bytes", n));
    both(ch, &(0..n).map(|i| (i * 31 + i / 251) as u8).collect::<Vec<u8>>())
}
/// texts of 2 MiB and more, in memory and through files
fn large(ch: &mut Ch) -> Result<(), String> {
    let k = ch.free(if ch.wide { 6 } else { 5 });
    let n = (1usize << (21 + k)) - 1 + ch.free(3) + *ch.free_of(&[0usize, 64]);
    ch.state(&n);
    ch.note(|| format!("{} bytes", n));
    let t: Vec<u8> = (0..n).map(|i| (i * 31 + i / 251) as u8).collect();
    let c = encrypt_sw(&t);
    // every block of the ciphertext is the encryption of the text's block and the ciphertext's block before
    if c.len() != n / 16 * 16 + 16 { return Err(format!("the ciphertext has {} bytes", c.len())) }
    let (step, blocks) = (if ch.wide { 1 } else { 61 }, c.len() / 16);
    for b in (0..blocks).filter(|b| b % step == 0 || *b < 100 || b + 100 > blocks || b % 4096 < 2 || b % 4096 == 4095) {
        let iv: [u8; 16] = if b == 0 { *K } else { c[b * 16 - 16..b * 16].try_into().unwrap() };
        let end = n.min(b * 16 + 16);
        let want = reference().cbc(&iv, &t[b * 16..end]);
        if c[b * 16..b * 16 + 16] != want[..16] { return Err(format!("block {} of {} is not the encryption of its text", b, blocks)) }
    }
    let same = |what: &str, got: Result<Vec<u8>, CryptoError>, want: &[u8]| match got { Ok(g) if g == want => Ok(()), Ok(g) => Err(format!("{} gives {} bytes, expected {} (or others)", what, g.len(), want.len())), Err(e) => Err(format!("{}: {:?}", what, e)) };
    same("decrypting", decrypt_sw_encrypted(&c), &t)?;
    let dir = Scratch::new();
    let (a, b, o) = (dir.0.join("text"), dir.0.join("cipher"), dir.0.join("out"));
    std::fs::write(&a, &t).unwrap();
    std::fs::write(&b, &c).unwrap();
    same("encrypting the file", encrypt_sw_file(&a), &c)?;
    same("decrypting the file", decrypt_sw_file(&b), &t)?;
    encrypt_sw_file_to_file(&a, Some(&o)).map_err(|e| format!("{:?}", e))?;
    if std::fs::read(&o).unwrap() != c { return Err("the file written is not the ciphertext".into()) }
    encrypt_sw_file_to_file(&a, None).map_err(|e| format!("{:?}", e))?;
    if std::fs::read(&a).unwrap() != c { return Err("the file encrypted in place is not the ciphertext".into()) }
    ch.steps(6);
    Ok(())
}
fn short(ch: &mut Ch) -> Result<(), String> {
    let a = ch.free(257);
    ch.state(&a);
    if a == 256 { ch.note(|| "empty string".into()); return both(ch, &[]) }
    ch.note(|| format!("{:02x} alone and followed by every byte", a));
    both(ch, &[a as u8])?;
    for b in 0..=255u8 { both(ch, &[a as u8, b])? }
    ch.inner_states += 256;
    Ok(())
}
fn positions(ch: &mut Ch) -> Result<(), String> {
    let n = *ch.free_of(&[1usize, 2, 3, 7, 8, 14, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 64]);
    let p = ch.free(n);
    ch.state(&(n, p));
    ch.note(|| format!("{} bytes, every byte value at position {}", n, p));
    let mut d: Vec<u8> = (0..n).map(|i| 0x20 + (i as u8 * 3) % 0x50).collect();
    for b in 0..=255u8 { d[p] = b; both(ch, &d)? }
    ch.inner_states += 255;
    Ok(())
}
/// bytes that are not a ciphertext: every padding of the last block with one byte off, and odd lengths
fn padding(ch: &mut Ch) -> Result<(), String> {
    let blocks = ch.free(3) + 1;
    let pad = ch.free(17); // 0: no padding at all
    let pos = ch.free(16);
    ch.state(&(blocks, pad, pos));
    ch.note(|| format!("{} block(s) ending in {} padding bytes, every value at byte {} of the last block", blocks, pad, pos));
    let mut p: Vec<u8> = (0..blocks * 16).map(|i| 0x41 + (i % 23) as u8).collect();
    let n = p.len();
    for i in 0..pad { p[n - 1 - i] = pad as u8 }
    for v in 0..=255u8 {
        let mut q = p.clone();
        q[n - 16 + pos] = v;
        let last = q[n - 1] as usize;
        let ok = last >= 1 && last <= 16 && q[n - last..].iter().all(|b| *b as usize == last);
        let c = reference().cbc_raw(K, &q);
        ch.step();
        match (decrypt_sw_encrypted(&c), ok) {
            (Ok(d), true) if d == q[..n - last] => {}
            (Err(_), false) => {}
            (r, _) => return Err(format!("plaintext blocks {:02x?} ({} padding): decrypting gives {:02x?}", q, if ok { "valid" } else { "invalid" }, r)),
        }
    }
    ch.inner_states += 255;
    Ok(())
}
fn partial(ch: &mut Ch) -> Result<(), String> {
    let n = ch.free(200);
    let cut = ch.free(17);
    ch.state(&(n, cut));
    let c = reference().cbc(K, &(0..n).map(|i| (i * 5) as u8).collect::<Vec<u8>>());
    // cut bytes off the front or the end, or add some
    let variants: Vec<Vec<u8>> = vec![c[..c.len() - cut.min(c.len())].to_vec(), c[cut.min(c.len())..].to_vec(), [c.clone(), vec![0; cut]].concat()];
    ch.note(|| format!("ciphertext of {} bytes with {} bytes cut or added", n, cut));
    for v in variants {
        ch.step();
        let r = decrypt_sw_encrypted(&v);
        if v.is_empty() || v.len() % 16 != 0 { if r.is_ok() { return Err(format!("{} bytes were decrypted to {:02x?}", v.len(), r)) } }
        else if v == c && r.is_err() { return Err(format!("refused: {:?}", r)) }
    }
    Ok(())
}

// ------------------------------------------------------------------ file variants: histories over a small directory

type Fs = BTreeMap<PathBuf, Vec<u8>>;
fn snapshot(d: &Path) -> Fs {
    fn go(root: &Path, d: &Path, out: &mut Fs) {
        for e in std::fs::read_dir(d).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() { out.insert(p.strip_prefix(root).unwrap().join(""), vec![]); go(root, &p, out) } else { out.insert(p.strip_prefix(root).unwrap().to_path_buf(), std::fs::read(&p).unwrap()); }
        }
    }
    let mut o = Fs::new();
    go(d, d, &mut o);
    o
}
fn files(ch: &mut Ch) -> Result<(), String> {
    let dir = Scratch::new();
    let d = &dir.0;
    let names = ["a", "b.bin", "missing", "sub/c", "nodir/d", "sub"];
    std::fs::create_dir(d.join("sub")).unwrap();
    std::fs::write(d.join("a"), b"hello").unwrap();
    std::fs::write(d.join("b.bin"), (0..=255u8).collect::<Vec<_>>()).unwrap();
    std::fs::write(d.join("sub/c"), b"").unwrap();
    let mut model = snapshot(d);
    let depth = if ch.wide { 3 } else { 2 };
    let mut hist = vec![];
    for _ in 0..depth {
        let op = ch.free(4);
        let src = *ch.free_of(&names);
        let sp = d.join(src);
        let content = model.get(Path::new(src)).cloned();
        hist.push(format!("{} {}", ["encrypt_sw_file", "decrypt_sw_file", "encrypt_sw_file_to_file", "encrypt_sw_file_to_file(in place)"][op], src));
        ch.step();
        let isdir = src == "sub";
        match op {
            0 => { let r = encrypt_sw_file(&sp); check_bytes(r.ok(), if isdir { None } else { content.map(|c| reference().cbc(K, &c)) }, &hist)? }
            1 => {
                let want = if isdir { None } else { content.and_then(|c| decrypt_sw_encrypted(&c).ok()) };
                let r = decrypt_sw_file(&sp); check_bytes(r.ok(), want, &hist)?
            }
            _ => {
                let out = if op == 2 { Some(*ch.free_of(&names)) } else { None };
                if let Some(o) = out { hist.push(format!("to {}", o)) }
                let op_path = out.map(|o| d.join(o));
                let r = encrypt_sw_file_to_file(&sp, op_path.as_deref());
                let target = out.unwrap_or(src);
                let possible = !isdir && content.is_some() && target != "nodir/d" && target != "sub";
                if r.is_ok() != possible { return Err(format!("{}: returned {:?}", hist.join("; "), r)) }
                if possible { model.insert(PathBuf::from(target), reference().cbc(K, &content.unwrap())); }
            }
        }
        let now = snapshot(d);
        if now != model {
            let diff: Vec<String> = now.keys().chain(model.keys()).filter(|k| now.get(*k) != model.get(*k)).map(|k| k.display().to_string()).collect();
            return Err(format!("{}: these files are not what they should be: {:?}", hist.join("; "), diff))
        }
    }
    ch.state(&hist);
    ch.note(|| hist.join("; "));
    Ok(())
}
/// what a file holds, through the file variants and in memory
fn on_disk(ch: &mut Ch) -> Result<(), String> {
    let mut ns: Vec<usize> = (0..=50).collect(); ns.extend([4095, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20]);
    let n = *ch.free_of(&ns);
    let kind = ch.free(8);
    ch.state(&(n, kind));
    ch.note(|| format!("{} bytes, {}", n, ["plain text ending in any byte", "plain text beginning with any byte", "a ciphertext followed by any byte", "any byte and a ciphertext", "a ciphertext without its last byte", "a ciphertext with white space or marks around it", "a plain text with white space or marks around it", "a ciphertext of a text with white space or marks around it"][kind]));
    let dir = Scratch::new();
    let (a, b) = (dir.0.join("in"), dir.0.join("out"));
    let text: Vec<u8> = (0..n).map(|i| b"{\"a\":1}\n@x"[i % 10]).collect();
    let c = reference().cbc(K, &text);
    let around: [(&[u8], &[u8]); 9] = [(b"", b"\n"), (b"", b"\r\n"), (b"", b"\n\n"), (b"\xef\xbb\xbf", b""), (b"\n", b""), (b" ", b" "), (b"", &[0; 16]), (b"", &[16; 16]), (b"\xff\xfe", b"\0\0")];
    let some: &[u8] = if n > 50 { &[0, 1, 9, 10, 13, 16, 26, 32, 0x7f, 0x80, 0xff] } else { &[] };
    let bytes: Vec<u8> = if n > 50 { some.to_vec() } else { (0..=255).collect() };
    let all: Vec<Vec<u8>> = match kind {
        0 => bytes.iter().map(|b| { let mut t = text.clone(); t.push(*b); t }).collect(),
        1 => bytes.iter().map(|b| { let mut t = text.clone(); t.insert(0, *b); t }).collect(),
        2 => bytes.iter().map(|b| { let mut t = c.clone(); t.push(*b); t }).collect(),
        3 => bytes.iter().map(|b| { let mut t = c.clone(); t.insert(0, *b); t }).collect(),
        4 => vec![c[..c.len() - 1].to_vec(), c[1..].to_vec()],
        5 => around.iter().map(|(x, y)| [x, &c[..], y].concat()).collect(),
        6 => around.iter().map(|(x, y)| [x, &text[..], y].concat()).collect(),
        _ => around.iter().map(|(x, y)| reference().cbc(K, &[x, &text[..], y].concat())).collect(),
    };
    ch.inner_states += all.len() as u64 - 1;
    for t in all {
        let short = |v: &Option<Vec<u8>>| v.as_ref().map(|v| trunc(&format!("{:02x?}", v), 300));
        std::fs::write(&a, &t).unwrap();
        ch.steps(3);
        let plain = reference().plain(K, &t);
        let got = decrypt_sw_file(&a).ok();
        if got != plain { return Err(format!("decrypting the file {} gives {:?}, expected {:?}", trunc(&format!("{:02x?}", t), 300), short(&got), short(&plain))) }
        let got = decrypt_sw_encrypted(&t).ok();
        if got != plain { return Err(format!("decrypting {} gives {:?}, expected {:?}", trunc(&format!("{:02x?}", t), 300), short(&got), short(&plain))) }
        let want = Some(reference().cbc(K, &t));
        let got = encrypt_sw_file(&a).ok();
        if got != want { return Err(format!("encrypting the file {} gives {:?}, expected {:?}", trunc(&format!("{:02x?}", t), 300), short(&got), short(&want))) }
        let r = encrypt_sw_file_to_file(&a, Some(&b));
        let got = std::fs::read(&b).ok();
        if r.is_err() || got != want || std::fs::read(&a).ok().as_ref() != Some(&t) { return Err(format!("encrypting the file {} to another file: {:?}, the other holds {:?}, expected {:?}", trunc(&format!("{:02x?}", t), 300), r, short(&got), short(&want))) }
    }
    Ok(())
}
fn check_bytes(got: Option<Vec<u8>>, want: Option<Vec<u8>>, hist: &[String]) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: returned {:02x?}, expected {:02x?}", hist.join("; "), got, want)) }
}

fn project(ch: &mut Ch) -> Result<(), String> {
    use swrs::parser::RawSketchwareProject as R;
    let with_res = ch.free(2) == 1;
    let which = ch.free(6);
    let fault = ch.free(5);
    ch.state(&(with_res, which, fault));
    let texts = ["project é", "file", "", "resource\n", "view {}", "logic 漢字"];
    let mut enc: Vec<Vec<u8>> = texts.iter().map(|t| reference().cbc(K, t.as_bytes())).collect();
    match fault {
        1 => { enc[which].pop(); }
        2 => enc[which] = reference().cbc(K, &[0xff, 0xfe]),
        3 => enc[which] = vec![],
        4 => enc[which] = reference().cbc_raw(K, &[0u8; 16]),
        _ => {}
    }
    ch.note(|| format!("file {} with fault {}", which, fault));
    ch.step();
    let mut e = enc.into_iter();
    let mut n = || e.next().unwrap();
    let r = if with_res { R::from_encrypted(n(), n(), n(), n(), n(), n(), vec![]) } else { R::from_encrypted_wo_res(n(), n(), n(), n(), n(), n()) };
    match r {
        Ok(_) if fault > 0 => Err("a damaged file was accepted".into()),
        Ok(p) => {
            let got = [&p.project, &p.file, &p.library, &p.resource, &p.view, &p.logic];
            for i in 0..6 { if got[i] != texts[i] { return Err(format!("file {} is {:?}, expected {:?}", i, got[i], texts[i])) } }
            if p.resource_files.is_some() != with_res { return Err("resource files flag".into()) }
            Ok(())
        }
        Err(e) if fault == 0 => Err(format!("refused: {:?}", e)),
        Err(_) => Ok(()),
    }
}

pub fn check() -> Check {
    Check { id: "C01", rule: "on every byte string, ciphertext and file history of the scopes, the library agrees with an independent AES-128-CBC/PKCS#7",
        assumptions: &["lengths above the ladder behave like those on it; file faults other than missing files and directories are not injected"],
        scopes: vec![
            scope("lengths", "every length 0..=1200 under 6 fills, both directions", lengths, ALL, OFF),
            wide("lengths5000", "every length 0..5000 under 6 fills", lengths, OFF, ALL),
            scope("huge", "length ladder up to 1 MiB", huge, ALL, ALL),
            scope("large", "2 to 32 MiB, each and one byte less or more, in memory and through files", large, ALL, OFF), wide("larger", "2 to 64 MiB, every block", large, OFF, ALL),
            scope("short", "all byte strings of length 0, 1 and 2", short, ALL, ALL),
            scope("positions", "every byte value at every position of messages around the block size", positions, ALL, ALL),
            scope("padding", "every padding length, every corruption of one byte of the last block, 1..3 blocks", padding, ALL, ALL),
            scope("partial", "every cut of ciphertexts of 0..200 bytes", partial, ALL, ALL),
            scope("files2", "all histories of 2 file operations over 6 paths (missing, directory, missing directory)", files, ALL, OFF),
            wide("files3", "all histories of 3 file operations", files, OFF, ALL),
            scope("on-disk", "plain texts and ciphertexts of 0..50 bytes and a ladder to 1 MiB, alone or with any byte, white space or marks around them, in memory and through files", on_disk, ALL, ALL),
            scope("project", "six encrypted files, each fault in each file", project, ALL, ALL),
        ] }
}

#![allow(dead_code)]
// Helpers of the demonstrations: database files of hand-made sectors, decoded by the crate.
use crate::decompile::decompiler::decompile_fmp12_file;
use crate::file::FmpFile;
use crate::fm_script_engine::fm_script_engine_instructions::*;

pub const PAD: u8 = 0x80;
pub fn enc(s: &str) -> Vec<u8> { s.bytes().map(|b| b ^ 0x5A).collect() }
pub fn sector(next: u32, payload: &[u8]) -> Vec<u8> {
    assert!(payload.len() <= 4076);
    let mut s = vec![0u8; 20];
    s[8..12].copy_from_slice(&next.to_be_bytes());
    s.extend_from_slice(payload);
    s.resize(4096, PAD);
    s
}
/// sectors 2.. are given; the last one ends the chain
pub fn image(payloads: &[Vec<u8>]) -> Vec<u8> {
    let mut f = vec![0u8; 4096];
    f.extend(sector(payloads.len() as u32 + 1, &[]));
    for (i, p) in payloads.iter().enumerate() {
        f.extend(sector(if i + 1 == payloads.len() { 0 } else { i as u32 + 3 }, p));
    }
    f
}
pub fn scratch(name: &str) -> std::path::PathBuf {
    std::path::Path::new(&std::env::var("VP_SCRATCH").expect("VP_SCRATCH")).join(name)
}
pub fn decode_image(img: &[u8]) -> FmpFile {
    let p = scratch("in.fmp12");
    std::fs::write(&p, img).unwrap();
    decompile_fmp12_file(&p)
}
pub fn decode(payloads: &[Vec<u8>]) -> FmpFile { decode_image(&image(payloads)) }
pub fn push(dirs: &[u32]) -> Vec<u8> {
    let mut v = vec![];
    for &d in dirs {
        if d < 128 { v.extend([0x20, d as u8]) } else { v.extend([0x28, 0xFC, (d - 128) as u8]) }
    }
    v
}
pub fn pop(n: usize) -> Vec<u8> { vec![0x40; n] }
pub fn kv(key: u8, data: &[u8]) -> Vec<u8> { let mut v = vec![6, key, data.len() as u8]; v.extend(data); v }
pub fn seg(n: u8, data: &[u8]) -> Vec<u8> { let mut v = vec![7, n, (data.len() >> 8) as u8, data.len() as u8]; v.extend(data); v }
pub fn dir(dirs: &[u32], body: &[u8]) -> Vec<u8> { let mut v = push(dirs); v.extend(body); v.extend(pop(dirs.len())); v }
pub fn step(op: u8, idx: u16, target: u8) -> Vec<u8> {
    let mut v = vec![0u8; 28];
    v[21] = op; v[8] = target;
    if idx < 128 { v[0] = 2; v[2] = idx as u8; } else { v[0] = 3; v[2] = 0xFC; v[3] = (idx - 128) as u8; }
    v
}
pub fn script_name(id: u32, name: &str) -> Vec<u8> { dir(&[17, 1, 1, id], &kv(16, &enc(name))) }
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> { parts.concat() }
pub fn steps(f: &FmpFile, id: usize) -> Vec<(u8, usize, Vec<String>)> {
    f.scripts[&id].instructions.iter().map(|s| (op_of(s), s.index, s.switches.clone())).collect()
}
fn op_of(s: &ScriptStep) -> u8 { s.opcode.clone() as u8 }

//! Calls of the hash and cipher functions (C16).
use crate::mpq;
use crate::util::*;
use mopaq::crypto::{decrypt_block, decrypt_dword, encrypt_block, hash_string, jenkins_hash, ENCRYPTION_TABLE};
use serde_json::{json, Value};
use std::path::Path;

fn words(v: &[u32]) -> Value {
    json!(v.iter().map(|w| word(*w)).collect::<Vec<_>>())
}
fn key(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => 0,
        1 => r.below(300) as u32,
        2 => u32::MAX - r.below(300) as u32,
        3 => 1 << r.below(32),
        4 => (r.below(256) as u32) << (8 * r.below(4)),
        5 => 0x8000_0000 | r.below(1 << 16) as u32,
        _ => r.next() as u32,
    }
}
fn block(r: &mut Rng, n: usize) -> Vec<u32> {
    let k = r.below(6);
    (0..n)
        .map(|i| match k {
            0 => 0,
            1 => u32::MAX,
            2 => i as u32,
            3 => 0x8000_0000,
            _ => r.next() as u32,
        })
        .collect()
}
fn name(r: &mut Rng) -> String {
    const AL: &[&str] = &["a", "b", "z", "A", "B", "Z", "/", "\\", ".", "_", "0", "9", " ", "(", ")", "@", "[", "`", "{", "~", "\u{7f}", "é", "ß", "Ж", "中", "\u{1F600}", "\u{80}", "\u{ff}", "İ", "\0", "\n", "-", "m", "M", "n"];
    let n = match r.below(8) {
        0 => r.below(3),
        1 => 100 + r.below(200),
        _ => 1 + r.below(24),
    };
    (0..n).map(|_| *r.pick(AL)).collect()
}
fn variant(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| match c {
            '/' | '\\' => if r.chance(1, 2) { '/' } else { '\\' },
            c if c.is_ascii_alphabetic() => if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() },
            c => c,
        })
        .collect()
}

fn raw(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|w| w.to_le_bytes()).collect()
}
fn unraw(v: &[u8]) -> Vec<u32> {
    v.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}
/// Blocks too long to be worked out in the specification.
fn long(r: &mut Rng, tr: &mut Tr) {
    let x = key(r).max(1);
    let small = block(r, 12);
    let (mut e, mut d) = (raw(&small), raw(&small));
    mpq::encrypt(&mut e, x);
    mpq::decrypt(&mut d, x);
    tr.ev(json!({"ev":"second","enc":true,"key":word(x),"data":words(&small),"out":words(&unraw(&e))}));
    tr.ev(json!({"ev":"second","enc":false,"key":word(x),"data":words(&small),"out":words(&unraw(&d))}));
    let n = *r.pick(&[255usize, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097, 16384, 20000, 65535, 65536, 65537, 70000]);
    let data = block(r, n);
    let mut want = raw(&data);
    mpq::encrypt(&mut want, x);
    let want = unraw(&want);
    let mut got = data.clone();
    encrypt_block(&mut got, x);
    let mut back = want.clone();
    decrypt_block(&mut back, x);
    let mut bytes = raw(&data);
    mopaq::ArchiveBuilder::new().encrypt_data(&mut bytes, x);
    let diff = |a: &[u32], b: &[u32]| if a.len() != b.len() { vec![a.len()] } else { (0..a.len()).filter(|k| a[*k] != b[*k]).take(5).collect::<Vec<_>>() };
    let mut differ = diff(&got, &want);
    differ.extend(diff(&unraw(&bytes), &want));
    tr.ev(json!({"ev":"long","n":n,"key":word(x),"differ":differ,"back":diff(&back, &data)}));
}

/// The hash commands of the command-line tool.
fn tool(exe: &Path, dir: &Path, r: &mut Rng, tr: &mut Tr) {
    let mut n = name(r);
    n.retain(|c| c != '\0');
    let ask = |args: &[&str]| -> (bool, Vec<u32>) {
        let o = std::process::Command::new(exe).args(args).env_clear().env("HOME", dir).env("LANG", "C.UTF-8").env("NO_COLOR", "1").output();
        match o {
            Ok(o) => {
                let hex = String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.rsplit(' ').next().and_then(|w| w.strip_prefix("0x")).and_then(|w| u32::from_str_radix(w.trim(), 16).ok())).collect();
                (o.status.success(), hex)
            }
            Err(_) => (false, vec![]),
        }
    };
    let t = r.below(4) as usize;
    let kind = ["table-offset", "name-a", "name-b", "file-key"][t];
    let (ok, v) = ask(&["hash", "generate", "-t", kind, "--", &n]);
    tr.ev(json!({"ev":"tool","name":jname(&n),"types":[t],"ok":ok,"out":words(&v)}));
    if !n.contains('\n') && r.chance(1, 2) {
        let (ok, v) = ask(&["hash", "generate", "--all", "--", &n]);
        tr.ev(json!({"ev":"tool","name":jname(&n),"types":[0, 1, 2, 3],"ok":ok,"out":words(&v[..v.len().min(4)])}));
    }
}

pub fn run(k: usize, sc: &Value, dir: &Path, exe: Option<&Path>, tr: &mut Tr) {
    let mut r = Rng::new(i(sc, "seed") as u64);
    tr.ev(json!({"ev":"begin"}));
    let p = guarded(|| {
        if k == 0 {
            tr.ev(json!({"ev":"table","words":words(&ENCRYPTION_TABLE[..])}));
        }
        if k < 128 {
            // every one-character name, every type
            let c = char::from_u32((k * 2) as u32).unwrap();
            let d = char::from_u32((k * 2 + 1) as u32).unwrap();
            for ch in [c, d] {
                for t in 0..4 {
                    let s: String = ch.to_string();
                    tr.ev(json!({"ev":"hash","name":jname(&s),"type":t,"out":word(hash_string(&s, t))}));
                }
            }
            // every low key byte
            for b in [2 * k as u32, 2 * k as u32 + 1] {
                let x = 0x1234_5600 | b;
                let data = block(&mut r, 5);
                let mut o = data.clone();
                encrypt_block(&mut o, x);
                tr.ev(json!({"ev":"enc","key":word(x),"data":words(&data),"out":words(&o)}));
                let mut o = data.clone();
                decrypt_block(&mut o, x);
                tr.ev(json!({"ev":"dec","key":word(x),"data":words(&data),"out":words(&o)}));
            }
        }
        for _ in 0..12 {
            let s = name(&mut r);
            let t = r.below(4) as u32;
            tr.ev(json!({"ev":"hash","name":jname(&s),"type":t,"out":word(hash_string(&s, t))}));
        }
        for _ in 0..3 {
            let s = name(&mut r);
            let v: Vec<String> = vec![s.clone(), variant(&mut r, &s), variant(&mut r, &s), s.to_ascii_uppercase(), s.to_ascii_lowercase(), s.replace('/', "\\"), s.replace('\\', "/")];
            let outs: Vec<Value> = v.iter().map(|n| { let j = jenkins_hash(n); json!([word((j >> 32) as u32), word(j as u32), word(hash_string(n, 0)), word(hash_string(n, 1)), word(hash_string(n, 2)), word(hash_string(n, 3))]) }).collect();
            tr.ev(json!({"ev":"variants","names":v.iter().map(|n| jname(n)).collect::<Vec<_>>(),"outs":outs}));
        }
        for _ in 0..2 {
            let s = name(&mut r);
            let j = jenkins_hash(&s);
            tr.ev(json!({"ev":"jenkins","name":jname(&s),"out":[word((j >> 32) as u32), word(j as u32)]}));
        }
        if let (0, Some(exe)) = (k % 4, exe) {
            tool(exe, dir, &mut r, tr);
        }
        if k % 8 == 0 {
            long(&mut r, tr);
        }
        for _ in 0..8 {
            let n = match r.below(6) {
                0 => r.below(3) as usize,
                1 => 100 + r.below(200) as usize,
                _ => r.below(20) as usize,
            };
            let data = block(&mut r, n);
            let x = key(&mut r);
            let mut o = data.clone();
            encrypt_block(&mut o, x);
            tr.ev(json!({"ev":"enc","key":word(x),"data":words(&data),"out":words(&o)}));
            if r.chance(1, 2) {
                let mut back = o.clone();
                decrypt_block(&mut back, x);
                tr.ev(json!({"ev":"dec","key":word(x),"data":words(&o),"out":words(&back)}));
            } else {
                let mut o = data.clone();
                decrypt_block(&mut o, x);
                tr.ev(json!({"ev":"dec","key":word(x),"data":words(&data),"out":words(&o)}));
            }
            let w = r.next() as u32;
            tr.ev(json!({"ev":"dword","key":word(x),"data":word(w),"out":word(decrypt_dword(w, x))}));
        }
        let b = mopaq::ArchiveBuilder::new();
        for _ in 0..6 {
            let n = r.below(70) as usize;
            let data: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            let x = key(&mut r);
            let mut o = data.clone();
            b.encrypt_data(&mut o, x);
            tr.ev(json!({"ev":"bytes","key":word(x),"data":data,"out":o}));
        }
    });
    if let Err(m) = p {
        tr.ev(json!({"ev":"panic","msg":m}));
    }
}

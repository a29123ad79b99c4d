//! Compression and decompression (C15).
use crate::util::*;
use mopaq::{compress, decompress};
use serde_json::{json, Value};
use std::path::Path;

const LOSSLESS: [u8; 5] = [0x02, 0x08, 0x10, 0x12, 0x20];
const AUDIO: [u8; 10] = [0x40, 0x42, 0x48, 0x50, 0x60, 0x80, 0x82, 0x88, 0x90, 0xA0];
const KINDS: [&str; 13] = ["zero", "const", "text", "rand", "mix", "sect", "runs", "tail", "head", "few", "edge", "ramp", "pcm"];

fn one(data: &[u8], m: u8, tr: &mut Tr) {
    let r = guarded(|| compress(data, m));
    let mut e = json!({"ev":"comp","m":m,"n":data.len(),"data":md5hex(data),"ok":false,"outn":0,"out":"","first":0,"back":{"ok":false,"n":0,"data":""}});
    match r {
        Err(p) => e = json!({"ev":"panic","msg":p,"m":m,"n":data.len()}),
        Ok(Err(_)) => {}
        Ok(Ok(out)) => {
            e["ok"] = json!(true);
            e["outn"] = json!(out.len());
            e["out"] = json!(md5hex(&out));
            e["first"] = json!(out.first().copied().unwrap_or(0));
            if out.len() < data.len() {
                match guarded(|| decompress(&out[1..], out[0], data.len())) {
                    Err(p) => e = json!({"ev":"panic","msg":p,"m":m,"n":data.len()}),
                    Ok(Ok(b)) => e["back"] = json!({"ok":true,"n":b.len(),"data":md5hex(&b)}),
                    Ok(Err(_)) => {}
                }
            }
            if m == 0x20 && data.len() <= 700 {
                let code: &[u8] = if out.len() < data.len() { &out[1..] } else { &[] };
                tr.ev(json!({"ev":"sparse","raw":data,"code":code}));
            }
        }
    }
    tr.ev(e);
}

fn samples(d: &[u8]) -> Vec<i16> {
    d.chunks_exact(2).map(|c| i16::from_le_bytes([c[0], c[1]])).collect()
}

/// Audio: the code itself, and what comes back.
fn audio(data: &[u8], m: u8, tr: &mut Tr) {
    let base = m & 0xC0;
    let channels = if base == 0x80 { 2 } else { 1 };
    let (Ok(Ok(plain)), Ok(Ok(out))) = (guarded(|| compress(data, base)), guarded(|| compress(data, m))) else { return };
    if plain.len() >= data.len() || out.len() >= data.len() {
        return;
    }
    let back = guarded(|| decompress(&out[1..], out[0], data.len()));
    let (ok, b) = match back {
        Ok(Ok(b)) => (b.len() % 2 == 0, b),
        _ => (false, vec![]),
    };
    tr.ev(json!({"ev":"audio","m":m,"channels":channels,"raw":samples(data),"code":&plain[1..],"ok":ok,"out":samples(&b)}));
}

/// Any bytes as audio.
fn listen(r: &mut Rng, tr: &mut Tr) {
    let m = *r.pick(&[0x40u8, 0x80]);
    let n = if r.chance(1, 6) { 1 + r.below(8) } else { 7 + r.below(200) } as usize;
    let mut code: Vec<u8> = (0..n).map(|_| if r.chance(1, 4) { *r.pick(&[0x80, 0x81, 0x81, 0x00, 0x40, 0x7F]) } else { r.next() as u8 }).collect();
    if n > 1 && r.chance(3, 4) {
        code[1] = r.below(8) as u8;
    }
    let most = if r.chance(1, 4) { 6 } else { 260 };
    let want = 1 + r.below(most) as usize;
    let (ok, out) = match guarded(|| decompress(&code, m, want * 2)) {
        Ok(Ok(b)) => (b.len() % 2 == 0, b),
        Ok(Err(_)) => (false, vec![]),
        Err(p) => return tr.ev(json!({"ev":"panic","msg":p,"m":m,"n":n})),
    };
    tr.ev(json!({"ev":"listen","m":m,"channels":if m == 0x80 {2} else {1},"code":code,"want":want,"ok":ok,"out":samples(&out)}));
}

fn len(r: &mut Rng) -> usize {
    (match r.below(12) {
        0 => r.below(8),
        1 => 120 + r.below(16),
        2 => 250 + r.below(12),
        3 => 508 + r.below(12),
        4 => 4088 + r.below(16),
        5 => 8184 + r.below(16),
        6 => 16380 + r.below(10),
        7 => 65530 + r.below(12),
        8 => r.below(20000),
        9 => if r.chance(1, 6) { 100_000 + r.below(2_900_000) } else { r.below(9000) },
        _ => r.below(700),
    }) as usize
}

pub fn run(k: usize, sc: &Value, _dir: &Path, tr: &mut Tr) {
    let mut r = Rng::new(i(sc, "seed") as u64);
    tr.ev(json!({"ev":"begin"}));
    if k < 256 {
        // every method byte on a few kinds of data
        for (kind, n) in [("text", 4096), ("zero", 600), ("pcm", 1000), ("const", 12), ("rand", 64), ("zero", 0), ("text", 1), ("few", 33)] {
            one(&content(kind, n, k as u64), k as u8, tr);
        }
        // every length up to 1280, for every lossless method
        for n in (k..1280).step_by(256) {
            for m in LOSSLESS {
                one(&content(KINDS[(n / 7 + m as usize) % 13], n, r.next()), m, tr);
                one(&content("runs", n, r.next()), m, tr);
            }
        }
        // every string of length 8 over {0, 1} repeated, for the run encoder
        let bits: Vec<u8> = (0..8).map(|b| ((k >> b) & 1) as u8).collect();
        for rep in [1usize, 2, 5, 17] {
            let data: Vec<u8> = bits.iter().cycle().take(8 * rep).copied().collect();
            for m in LOSSLESS {
                one(&data, m, tr);
            }
            // and each bit stretched to a run
            for w in [125usize, 126, 127, 128, 252, 253, 254] {
                if rep == 1 && (k + w) % 3 == 0 {
                    let s: Vec<u8> = bits.iter().take(5).flat_map(|b| vec![*b * 7; w]).collect();
                    one(&s, 0x20, tr);
                }
            }
        }
    }
    for _ in 0..10 {
        let m = match r.below(8) {
            0 => *r.pick(&AUDIO),
            1 => r.next() as u8,
            _ => *r.pick(&LOSSLESS),
        };
        let mut n = len(&mut r);
        if AUDIO.contains(&m) && r.chance(7, 8) {
            n &= !3;
        }
        one(&content(KINDS[r.below(13) as usize], n, r.next()), m, tr);
    }
    for _ in 0..3 {
        let m = *r.pick(&AUDIO);
        let n = 4 * (1 + r.below(150) as usize);
        let kind = *r.pick(&["pcm", "pcm", "pcm", "ramp", "text", "rand", "zero", "mix"]);
        audio(&content(kind, n, r.next()), m, tr);
        listen(&mut r, tr);
    }
    // method 0 takes data as it is
    let d = content("rand", 1 + r.below(50) as usize, r.next());
    let (ok, n, out) = match guarded(|| decompress(&d, 0, d.len())) {
        Ok(Ok(b)) => (true, b.len(), md5hex(&b)),
        _ => (false, 0, String::new()),
    };
    tr.ev(json!({"ev":"raw","n":d.len(),"data":md5hex(&d),"ok":ok,"outn":n,"out":out}));
}

//! Attribute files and name lists (C17).
use crate::util::*;
use bytes::Bytes;
use mopaq::special_files::{parse_listfile, Attributes, FileAttributes};
use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
use serde_json::{json, Value};
use std::path::Path;

fn entry(f: &FileAttributes) -> Value {
    json!({
        "crc": f.crc32.map(|x| x.to_le_bytes().to_vec()).unwrap_or_default(),
        "time": f.filetime.map(|x| x.to_le_bytes().to_vec()).unwrap_or_default(),
        "md5": f.md5.map(|x| x.to_vec()).unwrap_or_default(),
        "patch": f.is_patch.map(|x| vec![x as u8]).unwrap_or_default(),
    })
}
fn parsed(a: &Attributes, n: usize) -> Value {
    let items: Vec<Value> = (0..n).map(|k| a.get_file_attributes(k).map(entry).unwrap_or(json!("none"))).collect();
    json!({"items":items,"beyond":a.get_file_attributes(n).is_some(),"n":a.file_attributes.len(),"flags":word(a.flags.as_u32()),
           "kinds":[a.flags.has_crc32(), a.flags.has_filetime(), a.flags.has_md5(), a.flags.has_patch_bit()]})
}
/// An attributes file for n entries with the given flags, off by `cut` bytes.
fn attr_bytes(r: &mut Rng, flags: u32, n: usize, cut: i64) -> Vec<u8> {
    let mut v = vec![100, 0, 0, 0];
    v.extend_from_slice(&flags.to_le_bytes());
    let mut body = 0usize;
    for (bit, w) in [(1, 4), (2, 8), (4, 16)] {
        if flags & bit != 0 {
            body += w * n;
        }
    }
    if flags & 8 != 0 {
        body += n.div_ceil(8);
    }
    let style = r.below(4);
    for k in 0..body {
        v.push(match style {
            0 => k as u8,
            1 => 0xFF,
            _ => r.next() as u8,
        });
    }
    if cut < 0 {
        v.truncate((v.len() as i64 + cut).max(0) as usize);
    } else {
        for _ in 0..cut {
            v.push(r.next() as u8);
        }
    }
    v
}
fn attrs(r: &mut Rng, data: Vec<u8>, n: usize, tr: &mut Tr) {
    let _ = r;
    let res = guarded(|| Attributes::parse(&Bytes::from(data.clone()), n));
    let e = match res {
        Err(m) => json!({"ev":"panic","msg":m,"data":data,"n":n}),
        Ok(Err(_)) => json!({"ev":"attr","data":data,"n":n,"ok":false,"got":{},"again":[],"wrote":false}),
        Ok(Ok(a)) => {
            let w = guarded(|| a.to_bytes()).ok().and_then(|x| x.ok());
            json!({"ev":"attr","data":data,"n":n,"ok":true,"got":parsed(&a, n),"wrote":w.is_some(),"again":w.unwrap_or_default()})
        }
    };
    tr.ev(e);
}
fn line(r: &mut Rng) -> Vec<u8> {
    const AL: &[&str] = &["a", "B", "z", "/", "\\", ".", " ", "\t", ";", "#", "\r", "é", "ß", "Ж", "(", "0", "\u{b}", "\u{c}", "\0", "~", "中a", "=", "-", ",", "\"", "'"];
    let mut v = vec![];
    for _ in 0..r.below(7) {
        v.extend_from_slice(r.pick(AL).as_bytes());
    }
    v
}
fn list(r: &mut Rng, n: u64, tr: &mut Tr) {
    let mut v: Vec<u8> = vec![];
    let style = r.below(4);
    for k in 0..n {
        match r.below(if n > 20 { 9 } else { 8 }) {
            8 => v.extend(vec![b'n'; 200 + r.below(200) as usize]),
            0 => v.extend_from_slice(b""),
            1 => v.extend_from_slice(b"; comment"),
            2 => v.extend_from_slice(b"#comment"),
            3 => v.extend_from_slice(b"war3map.j;meta;more"),
            4 => v.extend_from_slice(b"  Units\\Unit Data.txt \t"),
            _ => v.extend(line(r)),
        }
        if k + 1 == n && r.chance(1, 2) {
            break;
        }
        v.extend_from_slice(match style {
            0 => b"\n",
            1 => b"\r\n",
            _ => *r.pick(&[b"\n".as_slice(), b"\r\n".as_slice(), b"\r\r\n".as_slice(), b"\n\n".as_slice(), b" \r\n".as_slice()]),
        });
    }
    let valid = !r.chance(1, 5);
    if !valid {
        for _ in 0..1 + r.below(3) {
            let p = r.below(v.len() as u64 + 1) as usize;
            v.insert(p, *r.pick(&[0xFF, 0xC3, 0xFE]));
        }
    }
    let e = match guarded(|| parse_listfile(&v)) {
        Err(m) => json!({"ev":"panic","msg":m,"data":v}),
        Ok(Err(_)) => json!({"ev":"list","data":v,"valid":std::str::from_utf8(&v).is_ok(),"ok":false,"names":[]}),
        Ok(Ok(names)) => json!({"ev":"list","data":v,"valid":std::str::from_utf8(&v).is_ok(),"ok":true,"names":names.iter().map(|s| jname(s)).collect::<Vec<_>>()}),
    };
    tr.ev(e);
}
/// An archive that carries an attributes file: what the archive reports is what the file says.
fn in_archive(r: &mut Rng, dir: &Path, tr: &mut Tr) {
    let files = r.below(12) as usize;
    let n = files + 2;
    let flags = r.below(16) as u32;
    let cut = match r.below(6) {
        0 => -1,
        1 => 1 + r.below(9) as i64,
        _ => 0,
    };
    let data = attr_bytes(r, flags, n, cut);
    let p = dir.join("a.mpq");
    let vers = [FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4];
    let v = r.below(4) as usize;
    let res = guarded(|| -> Result<Value, String> {
        let mut b = ArchiveBuilder::new().version(vers[v]).listfile_option(ListfileOption::Generate);
        for k in 0..files {
            b = b.add_file_data(content("text", 10 + k, k as u64), &format!("f{k}.txt"));
        }
        b = b.add_file_data_with_options(data.clone(), "(attributes)", *r.pick(&[0u8, 2]), r.chance(1, 3), 0);
        b.build(&p).map_err(|e| e.to_string())?;
        let mut a = Archive::open(&p).map_err(|e| e.to_string())?;
        let ok = a.load_attributes().is_ok();
        let got = a.attributes().map(|x| parsed(x, n));
        let direct: Vec<Value> = (0..=n).map(|k| a.get_file_attributes(k).map(entry).unwrap_or(json!("none"))).collect();
        let same = match &got {
            Some(g) => (0..n).all(|k| g["items"][k] == direct[k]) && direct[n] == json!("none"),
            None => direct.iter().all(|d| *d == json!("none")),
        };
        let info = a.get_info().map_err(|e| e.to_string())?;
        Ok(json!({"ev":"archattr","data":data,"n":n,"version":v + 1,"ok":ok,"loaded":got.is_some(),"got":got.unwrap_or(json!({})),"same":same,"has":info.has_attributes}))
    });
    tr.ev(match res {
        Err(m) => json!({"ev":"panic","msg":m}),
        Ok(Err(m)) => json!({"ev":"failed","msg":m}),
        Ok(Ok(e)) => e,
    });
}

pub fn run(k: usize, sc: &Value, dir: &Path, tr: &mut Tr) {
    let mut r = Rng::new(i(sc, "seed") as u64);
    tr.ev(json!({"ev":"begin"}));
    if k < 16 {
        // every combination of kinds, every small count, at and around the exact length
        for n in 0..19usize {
            for cut in [-1i64, 0, 1] {
                let d = attr_bytes(&mut r, k as u32, n, cut);
                attrs(&mut r, d, n, tr);
            }
        }
        for l in 0..8 {
            let d: Vec<u8> = vec![100, 0, 0, 0, k as u8, 0, 0, 0][..l].to_vec();
            attrs(&mut r, d, 0, tr);
        }
    }
    for _ in 0..6 {
        let mut flags = r.below(16) as u32;
        if r.chance(1, 6) {
            flags |= (r.next() as u32) << 4;
        }
        let n = match r.below(6) {
            0 => 0,
            1 => 8 * r.below(6) as usize,
            2 => 40 + r.below(40) as usize,
            _ => r.below(20) as usize,
        };
        let cut = match r.below(5) {
            0 => -(1 + r.below(20) as i64),
            1 => 1 + r.below(20) as i64,
            _ => 0,
        };
        let mut d = attr_bytes(&mut r, flags, n, cut);
        if r.chance(1, 12) && d.len() >= 4 {
            let p = r.below(4) as usize;
            d[p] = r.next() as u8;
        }
        attrs(&mut r, d, n, tr);
    }
    for _ in 0..12 {
        let n = r.below(9);
        list(&mut r, n, tr);
    }
    if k % 50 == 17 {
        // many entries, around the counts where a byte, a word of bits or a buffer fills up
        let n = *r.pick(&[127usize, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700]);
        let flags = *r.pick(&[1u32, 8, 9, 15, 10]);
        let cut = *r.pick(&[0i64, 0, 0, -1, 1]);
        let d = attr_bytes(&mut r, flags, n, cut);
        attrs(&mut r, d, n, tr);
        let n = *r.pick(&[60u64, 127, 129, 256, 300]);
        list(&mut r, n, tr);
    }
    in_archive(&mut r, dir, tr);
}

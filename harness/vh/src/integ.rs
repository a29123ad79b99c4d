//! Damage to archives: reads of checksummed files (C05), digests and signatures (C06).
use crate::arch::version;
use crate::util::*;
use md5::{Digest, Md5};
use mopaq::{Archive, ArchiveBuilder, ListfileOption};
use num_bigint::BigUint;
use serde_json::{json, Value};
use std::path::Path;

const N: &str = "92627704BFB882CC0523B90CB1AC0459272175968D025EDA47DD7C49371BF8FAEB0E0A92167557AD51B78CCB68C5426290EE9FB14BC118E430349EA4ED6AD837";
const D: &str = "36d8b3b550cc261da11358633c32b2526109f54fda3778289ae28e8db41b43f6d659c33f59f85254798faadaa1fdb408d945c5af4ae75e781eb5e6472ebfdbf1";

pub fn sign_digest(digest: &[u8; 16]) -> Vec<u8> {
    let n = BigUint::parse_bytes(N.as_bytes(), 16).unwrap();
    let d = BigUint::parse_bytes(D.as_bytes(), 16).unwrap();
    let mut m = vec![0u8, 1];
    let info = [0x30u8, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10];
    m.resize(64 - 16 - info.len() - 1, 0xFF);
    m.push(0);
    m.extend_from_slice(&info);
    m.extend_from_slice(digest);
    let s = BigUint::from_bytes_be(&m).modpow(&d, &n).to_bytes_le();
    let mut s = s;
    s.resize(64, 0);
    s
}
pub fn u32at(d: &[u8], p: usize) -> u64 {
    u32::from_le_bytes(d[p..p + 4].try_into().unwrap()) as u64
}
pub fn u64at(d: &[u8], p: usize) -> u64 {
    u64::from_le_bytes(d[p..p + 8].try_into().unwrap())
}
pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
/// Checksums of the parts of a file that carry one.
fn sums(data: &[u8], sector: usize) -> Value {
    json!(data.chunks(sector).map(|c| word(adler32(c))).collect::<Vec<_>>())
}

struct Stored {
    name: String,
    lo: usize,
    hi: usize,
    sum: (usize, usize),

    data: (usize, usize),
}
struct World {
    path: std::path::PathBuf,
    orig: Vec<u8>,
    cur: Vec<u8>,
    files: Vec<Stored>,
    regs: Vec<(&'static str, (usize, usize))>,
    sig: (usize, usize),
    arch: (usize, usize),
    sector: usize,
}

fn build(cfg: &Value, dir: &Path, tr: &mut Tr) -> Option<World> {
    let path = dir.join("a.mpq");
    let sector = 512usize << i(cfg, "bs");
    let mut bld = ArchiveBuilder::new()
        .version(version(i(cfg, "ver")))
        .block_size(i(cfg, "bs") as u16)
        .generate_crcs(b(cfg, "crc"))
        .compress_tables(b(cfg, "tcomp"))
        .listfile_option(if s(cfg, "list") == "gen" { ListfileOption::Generate } else { ListfileOption::None });
    let sign = s(cfg, "sign");
    let fs = cfg["files"].as_array().unwrap();
    let mut contents = vec![];
    let mut names = vec![];
    for k in 0..=fs.len() {
        if sign != "no" && k == (i(cfg, "at") as usize).min(fs.len()) {
            let n = if sign == "short" { 40 } else { 72 };
            bld = bld.add_file_data_with_options(vec![0u8; n], "(signature)", 0, false, 0);
        }
        if k < fs.len() {
            let f = &fs[k];
            let data = content(s(f, "kind"), i(f, "len") as usize, i(f, "seed") as u64);
            let name = format!("dir\\file{k}.bin");
            bld = match i(f, "enc") {
                0 => bld.add_file_data_with_options(data.clone(), &name, i(f, "method") as u8, false, 0),
                e => bld.add_file_data_with_encryption(data.clone(), &name, i(f, "method") as u8, e == 2, 0),
            };
            contents.push(data);
            names.push(name);
        }
    }
    if let Err(e) = guarded(|| bld.build(&path)).unwrap_or_else(|p| Err(mopaq::Error::InvalidFormat(p))) {
        tr.ev(json!({"ev":"failed","msg":e.to_string()}));
        return None;
    }
    let raw = std::fs::read(&path).unwrap();
    let arc = Archive::open(&path).ok()?;
    let ver = i(cfg, "ver");
    let pre = i(cfg, "pre") as usize;
    // positions of the tables, read from the header
    let hash = (u32at(&raw, 16), 16 * u32at(&raw, 24));
    let block = (u32at(&raw, 20), 16 * u32at(&raw, 28));
    let mut regs: Vec<(&'static str, (usize, usize))> = vec![];
    let r = |p: u64, n: u64| ((pre as u64 + p) as usize, (pre as u64 + p + n) as usize);
    let mut first_table = hash.0;
    if ver >= 3 {
        first_table = first_table.min(u64at(&raw, 60)).min(u64at(&raw, 52));
    }
    if ver == 4 {
        regs.push(("header", r(0, 208)));
        regs.push(("digests", r(112, 96)));
        regs.push(("hash", r(hash.0, u64at(&raw, 68))));
        regs.push(("block", r(block.0, u64at(&raw, 76))));
        regs.push(("het", r(u64at(&raw, 60), u64at(&raw, 92))));
        regs.push(("bet", r(u64at(&raw, 52), u64at(&raw, 100))));
    }
    let mut all: Vec<String> = names.clone();
    if s(cfg, "list") == "gen" {
        all.push("(listfile)".into());
    }
    let mut pos: Vec<(usize, String, usize, usize)> = vec![];
    let mut sig = (0, 0);
    for n in all.iter().map(|x| x.as_str()).chain(if sign != "no" { Some("(signature)") } else { None }) {
        let f = arc.find_file(n).ok()??;
        pos.push((f.file_pos as usize + pre, n.to_string(), f.file_size as usize, f.compressed_size as usize));
        if n == "(signature)" {
            sig = (pre + f.file_pos as usize, pre + f.file_pos as usize + f.compressed_size as usize);
        }
    }
    drop(arc);
    pos.sort();
    let mut bytes: Vec<u8> = content("rand", pre, 77);
    bytes.extend_from_slice(&raw);
    let arch = (pre, pre + u32at(&raw, 8) as usize);
    // a strong signature right behind the archive: the mark and a 2048-bit number (which cannot verify)
    let strong_at = bytes.len();
    let strong = s(cfg, "strong");
    if strong != "no" {
        bytes.extend(if strong == "mark" { *b"SIGN" } else { *b"NGIS" });
        bytes.extend(match strong {
            "zero" => vec![0; 256],
            "one" => [vec![1u8], vec![0; 255]].concat(),
            "short" => content("rand", 255, 79),
            _ => content("rand", 256, 79),
        });
    }
    let strong_ext = if strong == "no" || strong == "mark" { (0, 0) } else { (strong_at, strong_at + 260) };
    bytes.extend(content("rand", i(cfg, "post") as usize, 78));
    if sign == "good" || sign == "rand" {
        for x in bytes[sig.0..sig.1].iter_mut() {
            *x = 0;
        }
        let dg: [u8; 16] = Md5::digest(&bytes[arch.0..arch.1]).into();
        let num = if sign == "good" { sign_digest(&dg) } else { content("rand", 64, 5) };
        bytes[sig.0 + 8..sig.0 + 72].copy_from_slice(&num);
    }
    std::fs::write(&path, &bytes).unwrap();
    let mut files = vec![];
    for k in 0..pos.len() {
        let (lo, name, n, c) = pos[k].clone();
        let hi = if k + 1 < pos.len() { pos[k + 1].0 } else { first_table as usize + pre };
        let ns = n.div_ceil(sector).max(1);
        let multi = n > sector;
        let sum = if multi { (lo + 4 * (ns + 1), lo + 4 * (ns + 1) + 4 * ns) } else { (lo + c, hi) };
        let data = if multi { (sum.1, hi) } else { (lo, lo + c) };
        files.push(Stored { name, lo, hi, sum, data });
    }
    let w = World { path, cur: bytes.clone(), orig: bytes, files, regs, sig, arch, sector };
    // contents as they are to be read
    let mut dig = vec![];
    for f in &w.files {
        let k = names.iter().position(|x| *x == f.name);
        let c = match k {
            Some(k) => contents[k].clone(),
            None => Archive::open(&w.path).ok()?.read_file(&f.name).ok()?,
        };
        dig.push(json!({"lo":f.lo,"hi":f.hi,"n":c.len(),"dig":md5hex(&c),"sums":sums(&c, w.sector),"name":f.name}));
    }
    let mut regs = serde_json::Map::new();
    let md5pos = [("block", 112), ("hash", 128), ("bet", 160), ("het", 176), ("header", 192), ("digests", 112)];
    for (k, (lo, hi)) in &w.regs {
        let m = md5pos.iter().find(|x| x.0 == *k).unwrap().1;
        regs.insert(k.to_string(), json!({"ext":[lo, hi],"md5":[pre + m, pre + m + 16]}));
    }
    tr.ev(json!({"ev":"built","files":dig,"regs":regs,"sig":[w.sig.0, w.sig.1],"arch":[w.arch.0, w.arch.1],"strong":[strong_ext.0, strong_ext.1],"zeronum":strong == "zero","len":w.orig.len(),"signed":sign == "good","ver":ver}));
    Some(w)
}

fn diff(a: &[u8], b: &[u8]) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = vec![];
    for p in 0..a.len().min(b.len()) {
        if a[p] != b[p] {
            match v.last_mut() {
                Some(l) if l.1 == p => l.1 = p + 1,
                _ => v.push((p, p + 1)),
            }
        }
    }
    v
}

fn hit(w: &mut World, op: &Value, tr: &mut Tr) {
    if w.files.is_empty() {
        return;
    }
    let f = &w.files[i(op, "file") as usize % w.files.len()];
    let reg = |n: &str| w.regs.iter().find(|x| x.0 == n).map(|x| x.1);
    let area = s(op, "area");
    let last_file = w.files.iter().map(|f| f.hi).max().unwrap();
    let (lo, hi) = match area {
        "head" => (f.lo, (f.lo + 64).min(f.hi)),
        "tail" => (f.hi.saturating_sub(16).max(f.lo), f.hi),
        "sum" => (f.sum.0, f.sum.1.min(f.hi)),
        "sector" => f.data,
        "sig" => w.sig,
        "data" => (w.files[0].lo, last_file),
        "tables" => (last_file, w.arch.1),
        "edge" => if i(op, "at") % 2 == 0 { (w.arch.0, w.arch.0 + 4 + 204) } else { (w.arch.1 - 4, w.arch.1) },
        "before" => (0, w.arch.0),
        "after" => (w.arch.1, w.orig.len()),

        "all" => (f.lo, f.hi),
        r => reg(r).unwrap_or((f.lo, f.hi)),
    };
    let (lo, hi) = (lo, hi.min(w.cur.len()));
    if hi <= lo {
        return;
    }
    let at = lo + (i(op, "at") as usize * (hi - lo)) / 10000;
    let n = (i(op, "n") as usize).min(hi - at).min(w.cur.len() - at);
    let mut r = Rng::new(i(op, "seed") as u64);
    let before = w.cur.clone();
    match s(op, "how") {
        "flip" => w.cur[at] ^= 1 << r.below(8),
        "byte" => w.cur[at] = w.cur[at].wrapping_add(1 + r.below(255) as u8),
        "inc" => w.cur[at] = w.cur[at].wrapping_add(1),
        "zero" => w.cur[at..at + n].fill(0),
        "ones" => w.cur[at..at + n].fill(0xFF),
        "copy" => {
            let from = lo + r.below((hi - lo - n + 1) as u64) as usize;
            let src = w.cur[from..from + n].to_vec();
            w.cur[at..at + n].copy_from_slice(&src);
        }
        _ => {
            for x in w.cur[at..at + n].iter_mut() {
                *x = r.next() as u8;
            }
        }
    }
    let _ = before;
    let d = diff(&w.orig, &w.cur);
    // the harness records the whole difference from the original
    std::fs::write(&w.path, &w.cur).unwrap();
    tr.ev(json!({"ev":"damage","area":area,"ranges":d.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>(),"len":w.cur.len()}));
}

fn read_all(w: &World, a: &mut Archive, tr: &mut Tr) {
    for (k, f) in w.files.iter().enumerate() {
        let e = match guarded(|| a.read_file(&f.name)) {
            Err(m) => json!({"ev":"panic","msg":m,"file":k + 1}),
            Ok(Ok(d)) => json!({"ev":"read","file":k + 1,"ok":true,"n":d.len(),"dig":md5hex(&d),"sums":sums(&d, w.sector)}),
            Ok(Err(_)) => json!({"ev":"read","file":k + 1,"ok":false,"n":0,"dig":"","sums":[]}),
        };
        tr.ev(e);
    }
}

fn report(w: &World, tr: &mut Tr) {
    let v4 = !w.regs.is_empty();
    let mut a = match guarded(|| Archive::open(&w.path)) {
        Err(m) => return tr.ev(json!({"ev":"panic","msg":m})),
        Ok(Err(_)) => {
            if v4 {
                tr.ev(json!({"ev":"report","ok":false}));
            }
            return tr.ev(json!({"ev":"sign","st":"err"}));
        }
        Ok(Ok(a)) => a,
    };
    let info = guarded(|| a.get_info());
    if v4 {
        let no = json!({"ev":"report","ok":false});
        tr.ev(match &info {
            Err(m) => json!({"ev":"panic","msg":m}),
            Ok(Err(_)) => no,
            Ok(Ok(x)) => match &x.md5_status {
                None => no,
                Some(m) => json!({"ev":"report","ok":true,"header":m.header_valid,"hash":m.hash_table_valid,"block":m.block_table_valid,"het":m.het_table_valid,"bet":m.bet_table_valid}),
            },
        });
    }
    let st = match guarded(|| a.verify_signature()) {
        Err(m) => return tr.ev(json!({"ev":"panic","msg":m})),
        Ok(Ok(s)) => format!("{s:?}"),
        Ok(Err(_)) => "err".into(),
    };
    tr.ev(json!({"ev":"sign","st":st}));
    if let Ok(Ok(x)) = info {
        tr.ev(json!({"ev":"sign","st":format!("{:?}", x.signature_status)}));
    }
}

/// The signature digest of arbitrary bytes, before and after changing some of them.
fn digest(op: &Value, tr: &mut Tr) {
    let mut r = Rng::new(i(op, "seed") as u64);
    let begin = i(op, "begin") as usize;
    let size = i(op, "size") as usize;
    let len = (i(op, "len") as usize).max(begin + size);
    let xn = (i(op, "xn") as usize).min(size);
    let xlo = match s(op, "near") {
        "chunk" => (begin + 65536).saturating_sub(r.below(xn as u64 + 2) as usize).min(begin + size - xn),
        "start" => begin,
        "end" => begin + size - xn,
        _ => begin + (i(op, "xat") as usize * (size - xn)) / 10000,
    };
    let xhi = xlo + xn;
    let data = content("rand", len, r.next());
    let calc = |d: &[u8]| {
        let info = mopaq::crypto::SignatureInfo::new_weak(begin as u64, size as u64, xlo as u64, xn as u64, vec![1; 64]);
        guarded(|| mopaq::crypto::calculate_mpq_hash_md5(std::io::Cursor::new(d.to_vec()), &info).map(|h| h.to_vec()).unwrap_or_default()).unwrap_or_default()
    };
    let base = calc(&data);
    for _ in 0..8 {
        let p = match r.below(6) {
            0 => xlo.saturating_sub(1 + r.below(2) as usize),
            1 => xlo + r.below(xn as u64 + 1) as usize,
            2 => xhi + r.below(2) as usize,
            3 => (begin + size).saturating_sub(r.below(2) as usize),
            4 => begin + r.below(2) as usize,
            _ => r.below(len as u64) as usize,
        }
        .min(len - 1);
        let q = if r.chance(1, 3) { xlo + r.below(xn as u64 + 1) as usize } else { p }.min(len - 1);
        let mut d = data.clone();
        d[p] ^= 1 << r.below(8);
        if q != p {
            d[q] ^= 0x80;
        }
        let same = calc(&d) == base && base.len() == 16;
        tr.ev(json!({"ev":"digest","begin":begin,"stop":begin + size,"xlo":xlo,"xhi":xhi,"flips":[p, q],"same":same}));
    }
}

pub fn run(_k: usize, sc: &Value, dir: &Path, tr: &mut Tr) {
    tr.ev(json!({"ev":"begin"}));
    let mut w: Option<World> = None;
    let mut held: Option<Archive> = None;
    for op in sc.as_array().unwrap() {
        if s(op, "op") == "cfg" {
            w = build(op, dir, tr);
            continue;
        }
        let Some(w) = w.as_mut() else { return };
        match s(op, "op") {
            "hit" => hit(w, op, tr),
            "trunc" => {
                let n = w.arch.0 + (i(op, "at") as usize * (w.orig.len() - w.arch.0)) / 10000;
                w.cur.truncate(n);
                std::fs::write(&w.path, &w.cur).unwrap();
                tr.ev(json!({"ev":"damage","area":"trunc","ranges":diff(&w.orig, &w.cur).iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>(),"len":w.cur.len()}));
            }
            "restore" => {
                held = None;
                if w.cur != w.orig {
                    w.cur = w.orig.clone();
                    std::fs::write(&w.path, &w.cur).unwrap();
                }
                tr.ev(json!({"ev":"restore"}));
            }
            "open" => held = Archive::open(&w.path).ok(),
            "readall" => {
                if b(op, "keep") {
                    if let Some(a) = held.as_mut() {
                        read_all(w, a, tr);
                    }
                } else {
                    match guarded(|| Archive::open(&w.path)) {
                        Ok(Ok(mut a)) => {
                            tr.ev(json!({"ev":"open","ok":true}));
                            read_all(w, &mut a, tr);
                        }
                        Ok(Err(_)) => tr.ev(json!({"ev":"open","ok":false})),
                        Err(m) => tr.ev(json!({"ev":"panic","msg":m})),
                    }
                }
            }
            "report" => report(w, tr),
            "digest" => digest(op, tr),
            o => panic!("unknown operation {o}"),
        }
    }
}

//! Archives with many files or many sectors (ScaleGen), written by the library or by hand.
use crate::arch::{version, version_num};
use crate::layout::{Enc, COMPRESS, ENCRYPTED, EXISTS, FIX_KEY, SINGLE};
use crate::mpq;
use crate::util::*;
use mopaq::{Archive, ArchiveBuilder, Error, ListfileOption};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Read;
use std::path::Path;

const FIRST: usize = 10;
const DEEP: &str = "deep.bin";

struct Files<'a> {
    op: &'a Value,
    stem: String,
    n: usize,
}
impl Files<'_> {
    fn name(&self, k: usize) -> String {
        format!("{}{k}", self.stem)
    }
    fn len(&self, k: usize) -> usize {
        (k * i(self.op, "step") as usize) % i(self.op, "mod") as usize
    }
    fn data(&self, k: usize) -> Vec<u8> {
        content(s(self.op, "kind"), self.len(k), i(self.op, "seed") as u64 + k as u64)
    }
}

/// An archive whose size comes near 4 GiB or goes beyond it: large stored files between two small ones.
fn vast(op: &Value, dir: &Path, tr: &mut Tr) {
    let kib = i(op, "kib") as u64; // size of the content in KiB
    let parts = i(op, "parts") as u64;
    let src = dir.join("vast.src");
    let path = dir.join("vast.mpq");
    tr.ev(json!({"ev":"begin","ar":{"n":0,"m":0,"list":false,"crc":false,"ver":i(op,"ver"),"sector":512,"enc":true}}));
    let mut bld = ArchiveBuilder::new().version(version(i(op, "ver"))).block_size(22).listfile_option(ListfileOption::None);
    let (first, last) = (content("rand", 1000, 1), content("rand", 3000, 2));
    bld = bld.add_file_data_with_options(first.clone(), "first", 0, false, 0);
    let each = kib * 1024 / parts;
    std::fs::File::create(&src).unwrap().set_len(each).unwrap();
    for k in 0..parts {
        bld = bld.add_file_with_options(&src, &format!("part{k}"), 0, false, 0);
    }
    bld = bld.add_file_data_with_encryption(last.clone(), "last", 2, true, 0);
    let x = guarded(|| bld.build(&path));
    let _ = std::fs::remove_file(&src);
    let ok = matches!(x, Ok(Ok(())));
    let mut e = json!({"ev":"vast","ver":i(op,"ver"),"kib":kib,"each":kib / parts,"res":if ok {"ok"} else {"err"},"made":path.exists(),"first":false,"last":false,"sizes":false,"msg":format!("{x:?}")});
    if ok {
        if let Ok(Ok(mut a)) = guarded(|| Archive::open(&path)) {
            e["first"] = json!(matches!(guarded(|| a.read_file("first")), Ok(Ok(d)) if d == first));
            e["last"] = json!(matches!(guarded(|| a.read_file("LAST")), Ok(Ok(d)) if d == last));
            e["sizes"] = json!((0..parts).all(|k| matches!(guarded(|| a.find_file(&format!("part{k}"))), Ok(Ok(Some(f))) if f.file_size == each && f.compressed_size == each)));
        }
    }
    tr.ev(e);
    let _ = std::fs::remove_file(&path);
}

pub fn run(_k: usize, sc: &Value, dir: &Path, tr: &mut Tr) {
    let op = &sc[0];
    if s(op, "op") == "vast" {
        return vast(op, dir, tr);
    }
    let mut r = Rng::new(i(op, "seed") as u64 + 5);
    let profile = s(op, "profile");
    let sector = 512usize << i(op, "shift");
    let f = Files { op, stem: name_of(&op["stem"]), n: i(op, "n") as usize };
    let m = i(op, "m") as usize;
    let tail = i(op, "tail") as usize;
    let (method, enc) = (i(op, "method") as u8, i(op, "enc"));
    let deep_len = if m == 0 { 0 } else { (m - 1) * sector + if tail == 0 { sector } else { tail.min(sector) } };
    let deep = content(s(op, "kind"), deep_len, i(op, "seed") as u64 + 99);
    let dmethod = if b(op, "pack") { method } else { 0 };
    let by_lib = s(op, "by") == "lib";
    // sometimes only one of the files is encrypted
    let lone = if enc > 0 && by_lib && f.n > 0 && r.chance(1, 2) { Some(r.below(f.n as u64) as usize) } else { None };
    let coded = |k: usize| enc > 0 && lone.map_or(true, |x| x == k);
    let any = enc > 0 && (f.n > 0 || m > 0);
    tr.ev(json!({"ev":"begin","ar":{"n":f.n,"m":m,"list":b(op,"list"),"crc":b(op,"crc"),"ver":i(op,"ver"),"sector":sector,"enc":any}}));
    let path = dir.join("big.mpq");
    if by_lib {
        let mut bld = ArchiveBuilder::new()
            .version(version(i(op, "ver")))
            .block_size(i(op, "shift") as u16)
            .generate_crcs(b(op, "crc"))
            .listfile_option(if b(op, "list") { ListfileOption::Generate } else { ListfileOption::None });
        let add = |bld: ArchiveBuilder, d: Vec<u8>, name: &str, m: u8, coded: bool| {
            let enc = if coded { enc } else { 0 };
            if enc == 2 {
                bld.add_file_data_with_encryption(d, name, m, true, 0)
            } else {
                bld.add_file_data_with_options(d, name, m, enc == 1, 0)
            }
        };
        let at = r.below(f.n as u64 + 1) as usize;
        for k in 0..=f.n {
            if k == at && m > 0 {
                bld = add(bld, deep.clone(), DEEP, dmethod, enc > 0 && lone.is_none());
            }
            if k < f.n {
                bld = add(bld, f.data(k), &f.name(k), method, coded(k));
            }
        }
        let x = guarded(|| bld.build(&path));
        let ok = matches!(x, Ok(Ok(())));
        tr.ev(json!({"ev":"build","res": if ok {"ok"} else {"err"},"msg":format!("{x:?}")}));
        if !ok {
            return;
        }
        // the same names with one of them once more: no matter how far apart
        if profile == "c02" && f.n > 0 {
            for of in [0, f.n - 1, r.below(f.n as u64) as usize] {
                let mid = r.below(f.n as u64 + 1) as usize;
                let at = *r.pick(&[0, f.n, f.n, f.n, mid]);
                let twice = dir.join("twice.mpq");
                let mut bld = ArchiveBuilder::new().version(version(i(op, "ver"))).listfile_option(ListfileOption::None);
                for k in 0..=f.n {
                    if k == at {
                        let n = f.name(of);
                        bld = bld.add_file_data(vec![1], &if r.chance(1, 2) { n.to_ascii_uppercase() } else { n.replace('/', "\\") });
                    }
                    if k < f.n {
                        bld = bld.add_file_data(vec![], &f.name(k));
                    }
                }
                let ok = matches!(guarded(|| bld.build(&twice)), Ok(Ok(())));
                tr.ev(json!({"ev":"again","of":of,"at":at,"res": if ok {"ok"} else {"err"},"made":twice.exists()}));
                let _ = std::fs::remove_file(&twice);
            }
        }
    } else {
        write_by_hand(op, &f, &deep, dmethod, sector, &path, &mut r);
        tr.ev(json!({"ev":"build","res":"ok"}));
    }
    let mut a = match guarded(|| Archive::open(&path)) {
        Ok(Ok(a)) => a,
        x => {
            tr.ev(json!({"ev":"noopen","msg": match x { Ok(Err(e)) => e.to_string(), Err(p) => p, _ => String::new() }}));
            return;
        }
    };
    if profile == "c09" {
        raw(&f, &deep, sector, &path, tr);
        return;
    }
    // everything is looked up and read
    let mut wrong = vec![];
    let mut asked = 0;
    for k in 0..f.n {
        let k = if k % 2 == 0 { k / 2 } else { f.n - 1 - k / 2 }; // from both ends
        let name = f.name(k);
        asked += 1;
        let found = matches!(guarded(|| a.find_file(&name)), Ok(Ok(Some(x))) if x.file_size as usize == f.len(k) && x.is_encrypted() == coded(k));
        let good = matches!(guarded(|| a.read_file(&name)), Ok(Ok(d)) if d == f.data(k));
        if (!found || !good) && wrong.len() < FIRST {
            wrong.push(json!({"k":k,"found":found,"good":good}));
        }
    }
    tr.ev(json!({"ev":"sweep","asked":asked,"wrong":wrong}));
    let mut found = vec![];
    let mut asked = 0;
    for j in 0..500usize {
        for name in [format!("{}{}", f.stem, f.n + j), format!("{}{}x", f.stem, j), format!("{}0{}", f.stem, j)] {
            asked += 1;
            let none = matches!(guarded(|| a.find_file(&name)), Ok(Ok(None)));
            let missing = matches!(guarded(|| a.read_file(&name)), Ok(Err(Error::FileNotFound(_))));
            if (!none || !missing) && found.len() < FIRST {
                found.push(name);
            }
        }
    }
    tr.ev(json!({"ev":"absent","asked":asked,"found":found}));
    if m > 0 {
        tr.ev(match guarded(|| a.read_file(DEEP)) {
            Ok(Ok(d)) => json!({"ev":"deep","res":"ok","len":d.len(),"want":deep.len(),"bad":differing(&d, &deep, sector)}),
            x => json!({"ev":"deep","res":"err","len":0,"want":deep.len(),"bad":[],"msg":format!("{:?}", x.map(|y| y.map(|_| ())))}),
        });
    }
    if profile != "c05" {
        let index: HashMap<String, usize> = (0..f.n).map(|k| (f.name(k), k)).collect();
        tr.ev(match guarded(|| a.list()) {
            Ok(Ok(es)) => {
                let mut seen = vec![0u32; f.n];
                let (mut other, mut wrong) = (0, vec![]);
                for e in &es {
                    match index.get(&e.name) {
                        Some(&k) => {
                            seen[k] += 1;
                            let flags = by_lib && (e.flags & ENCRYPTED != 0) != coded(k);
                            if (e.size as usize != f.len(k) || flags) && wrong.len() < FIRST {
                                wrong.push(k);
                            }
                        }
                        None => other += 1,
                    }
                }
                let of = |c: &dyn Fn(u32) -> bool| (0..f.n).filter(|k| c(seen[*k])).take(FIRST).collect::<Vec<_>>();
                json!({"ev":"named","res":"ok","count":es.len(),"missing":of(&|x| x == 0),"twice":of(&|x| x > 1),"other":other,"wrong":wrong})
            }
            x => json!({"ev":"named","res":"err","count":0,"missing":[],"twice":[],"other":0,"wrong":[],"msg":format!("{:?}", x.map(|y| y.map(|_| ())))}),
        });
        tr.ev(match guarded(|| a.list_all()) {
            Ok(Ok(es)) => {
                // the sum of all sizes, as two numbers the specification can hold
                let listed = if b(op, "list") { guarded(|| a.read_file("(listfile)")).ok().and_then(|x| x.ok()).map(|d| d.len()).unwrap_or(0) } else { 0 };
                let got: u64 = es.iter().map(|e| e.size).sum();
                let want: u64 = (0..f.n).map(|k| f.len(k) as u64).sum::<u64>() + (deep.len() + listed) as u64;
                json!({"ev":"enum","res":"ok","count":es.len(),"size":[got >> 20, got & 0xFFFFF],"total":[want >> 20, want & 0xFFFFF]})
            }
            x => json!({"ev":"enum","res":"err","count":0,"size":0,"total":0,"msg":format!("{:?}", x.map(|y| y.map(|_| ())))}),
        });
        tr.ev(match guarded(|| a.get_info()) {
            Ok(Ok(x)) => json!({"ev":"info","res":"ok","count":x.file_count,"max":x.max_file_count,"ver":version_num(x.format_version),"sector":x.sector_size,"enc":x.is_encrypted}),
            x => json!({"ev":"info","res":"err","count":0,"max":0,"ver":0,"sector":0,"enc":false,"msg":format!("{:?}", x.map(|y| y.map(|_| ())))}),
        });
        return;
    }
    // damage, one sector at a time
    let clean = std::fs::read(&path).unwrap();
    let d = Raw::new(&clean);
    let Some(blk) = d.find(DEEP.as_bytes()) else { return };
    let (pos, offs) = d.sectors(blk, DEEP.as_bytes(), sector);
    if offs.len() != m + 1 {
        return;
    }
    let mut at: Vec<usize> = vec![0, m - 1, m / 2];
    at.extend([15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024].iter().filter(|x| **x < m));
    for _ in 0..6 {
        at.push(r.below(m as u64) as usize);
    }
    for j in at {
        let (lo, hi) = (pos + offs[j] as usize, pos + offs[j + 1] as usize);
        if lo >= hi || hi > clean.len() {
            continue;
        }
        let p = lo + r.below((hi - lo) as u64) as usize;
        let mut bad = clean.clone();
        bad[p] ^= 1 << r.below(8);
        let q = dir.join("bad.mpq");
        std::fs::write(&q, &bad).unwrap();
        let want = (deep.len() - j * sector).min(sector);
        let res = match guarded(|| Archive::open(&q).and_then(|mut a| a.read_file(DEEP))) {
            Ok(Ok(x)) if x == deep => "same",
            Ok(Ok(_)) => "changed",
            Ok(Err(_)) => "err",
            Err(_) => "panic",
        };
        tr.ev(json!({"ev":"damage","sector":j,"at":p - lo,"raw":hi - lo >= want,"res":res}));
    }
}

fn differing(a: &[u8], b: &[u8], sector: usize) -> Vec<usize> {
    b.chunks(sector).enumerate().filter(|(k, c)| a.get(*k * sector..(*k * sector + c.len()).min(a.len())) != Some(*c)).map(|x| x.0).take(FIRST).collect()
}

// ---- reading without the library ----
struct Raw<'a> {
    all: &'a [u8],
    hash: Vec<u8>,
    block: Vec<u8>,
}
fn w32(d: &[u8], p: usize) -> u32 {
    d.get(p..p + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
}
impl<'a> Raw<'a> {
    fn new(all: &'a [u8]) -> Self {
        let part = |pos: u32, n: u32, key: &[u8]| {
            let lo = (pos as usize).min(all.len());
            let mut t = all[lo..(lo + 16 * n as usize).min(all.len())].to_vec();
            mpq::decrypt(&mut t, mpq::hash(key, 3));
            t
        };
        Raw { all, hash: part(w32(all, 16), w32(all, 24), b"(hash table)"), block: part(w32(all, 20), w32(all, 28), b"(block table)") }
    }
    fn find(&self, name: &[u8]) -> Option<usize> {
        let n = self.hash.len() / 16;
        if n == 0 || !n.is_power_of_two() {
            return None;
        }
        let (a, b2) = (mpq::hash(name, 1), mpq::hash(name, 2));
        let start = mpq::hash(name, 0) as usize & (n - 1);
        for k in 0..n {
            let e = 16 * ((start + k) & (n - 1));
            let blk = w32(&self.hash, e + 12);
            if blk == 0xFFFF_FFFF {
                return None;
            }
            if blk != 0xFFFF_FFFE && w32(&self.hash, e) == a && w32(&self.hash, e + 4) == b2 {
                return ((blk as usize) < self.block.len() / 16).then_some(blk as usize);
            }
        }
        None
    }
    /// position, stored size, size, flags
    fn entry(&self, blk: usize) -> (usize, usize, usize, u32) {
        let w = |k: usize| w32(&self.block, 16 * blk + 4 * k);
        (w(0) as usize, w(1) as usize, w(2) as usize, w(3))
    }
    fn key(&self, blk: usize, name: &[u8]) -> Option<u32> {
        let (pos, _, size, flags) = self.entry(blk);
        (flags & ENCRYPTED != 0).then(|| {
            let k = mpq::hash(mpq::base_name(name), 3);
            if flags & FIX_KEY != 0 {
                k.wrapping_add(pos as u32) ^ size as u32
            } else {
                k
            }
        })
    }
    /// position of the file and the offsets of its sectors
    fn sectors(&self, blk: usize, name: &[u8], sector: usize) -> (usize, Vec<u32>) {
        let (pos, _, size, _) = self.entry(blk);
        let n = size.div_ceil(sector);
        let mut t = self.all.get(pos..pos + 4 * (n + 1)).unwrap_or(&[]).to_vec();
        if let Some(k) = self.key(blk, name) {
            mpq::decrypt(&mut t, k.wrapping_sub(1));
        }
        (pos, t.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
    }
    fn unpack(d: &[u8], want: usize, compressed: bool) -> Option<Vec<u8>> {
        if !compressed || d.len() >= want {
            return (d.len() == want).then(|| d.to_vec());
        }
        let mut out = vec![];
        let (method, body) = d.split_first()?;
        match *method {
            0 => out.extend(body),
            2 => {
                flate2::read::ZlibDecoder::new(body).read_to_end(&mut out).ok()?;
            }
            0x10 => {
                bzip2::read::BzDecoder::new(body).read_to_end(&mut out).ok()?;
            }
            _ => return None,
        }
        Some(out)
    }
    fn sector(&self, from: usize, to: usize, key: Option<u32>, want: usize, compressed: bool) -> Option<Vec<u8>> {
        let mut d = self.all.get(from..to)?.to_vec();
        if let Some(k) = key {
            mpq::decrypt(&mut d, k);
        }
        Self::unpack(&d, want, compressed)
    }
    /// the sectors that are not decoded to data, or whole file for a single unit (number 0)
    fn check(&self, blk: usize, name: &[u8], data: &[u8], sector: usize) -> Vec<usize> {
        let (pos, csize, size, flags) = self.entry(blk);
        if flags & EXISTS == 0 || size != data.len() {
            return vec![0];
        }
        let key = self.key(blk, name);
        if flags & SINGLE != 0 {
            let good = self.sector(pos, pos + csize, key, size, flags & COMPRESS != 0).as_deref() == Some(data);
            return if good { vec![] } else { vec![0] };
        }
        if flags & COMPRESS == 0 {
            return data
                .chunks(sector)
                .enumerate()
                .filter(|(k, c)| self.sector(pos + *k * sector, pos + *k * sector + c.len(), key.map(|x| x.wrapping_add(*k as u32)), c.len(), false).as_deref() != Some(*c))
                .map(|x| x.0)
                .take(FIRST)
                .collect();
        }
        let (_, offs) = self.sectors(blk, name, sector);
        if offs.len() != data.len().div_ceil(sector) + 1 {
            return vec![0];
        }
        data.chunks(sector)
            .enumerate()
            .filter(|(k, c)| {
                offs[*k] > offs[*k + 1]
                    || self.sector(pos + offs[*k] as usize, pos + offs[*k + 1] as usize, key.map(|x| x.wrapping_add(*k as u32)), c.len(), true).as_deref() != Some(*c)
            })
            .map(|x| x.0)
            .take(FIRST)
            .collect()
    }
}
fn raw(f: &Files, deep: &[u8], sector: usize, path: &Path, tr: &mut Tr) {
    let all = std::fs::read(path).unwrap();
    let d = Raw::new(&all);
    let mut wrong = vec![];
    for k in 0..f.n {
        let name = f.name(k);
        let good = d.find(name.as_bytes()).is_some_and(|x| d.check(x, name.as_bytes(), &f.data(k), sector).is_empty());
        if !good && wrong.len() < FIRST {
            wrong.push(k);
        }
    }
    let (mut bad, mut sectors) = (vec![], 0);
    if !deep.is_empty() {
        match d.find(DEEP.as_bytes()) {
            Some(x) => {
                sectors = d.entry(x).2.div_ceil(sector);
                bad = d.check(x, DEEP.as_bytes(), deep, sector);
            }
            None => bad = vec![0],
        }
    }
    tr.ev(json!({"ev":"raw","hashn":d.hash.len() / 16,"blockn":d.block.len() / 16,"asked":f.n,"wrong":wrong,"sectors":sectors,"bad":bad}));
}

// ---- writing without the library ----
fn write_by_hand(op: &Value, f: &Files, deep: &[u8], dmethod: u8, sector: usize, path: &Path, r: &mut Rng) {
    let hsize = if i(op, "ver") == 1 { 32 } else { 44 };
    let how = |m: u8| match m {
        0 => "raw",
        2 => "zlib",
        8 => "pkware",
        _ => "bzip2",
    };
    let enc = i(op, "enc");
    let mut e = Enc { packs: vec![], keep: false };
    let mut out = vec![0u8; hsize];
    let mut blocks: Vec<u8> = vec![];
    let mut names: Vec<Vec<u8>> = vec![];
    let mut put = |name: String, d: &[u8], how: &str, unit: bool, out: &mut Vec<u8>, r: &mut Rng| {
        let pos = out.len() as u32;
        let (z, stored, flags) = e.file(name.as_bytes(), d, how, unit, enc, false, 0, pos as u64, sector, r);
        for w in [pos, stored, d.len() as u32, flags] {
            blocks.extend(w.to_le_bytes());
        }
        out.extend(z);
        names.push(name.into_bytes());
    };
    let small = how(i(op, "method") as u8);
    for k in 0..f.n {
        let unit = r.chance(1, 2);
        put(f.name(k), &f.data(k), small, unit, &mut out, r);
    }
    if !deep.is_empty() {
        put(DEEP.into(), deep, how(dmethod), false, &mut out, r);
    }
    if b(op, "list") {
        let mut t = String::new();
        for k in 0..f.n {
            t += &f.name(k);
            t += "\r\n";
        }
        if !deep.is_empty() {
            t += DEEP;
            t += "\r\n";
        }
        t += "(listfile)\r\n";
        put("(listfile)".into(), t.as_bytes(), "zlib", false, &mut out, r);
    }
    let mut hn = names.len().max(1).next_power_of_two();
    if r.chance(1, 2) {
        hn *= 2;
    }
    let mut table = vec![[0xFFFF_FFFFu32; 4]; hn];
    for (k, n) in names.iter().enumerate() {
        let mut p = mpq::hash(n, 0) as usize & (hn - 1);
        while table[p][3] != 0xFFFF_FFFF {
            p = (p + 1) & (hn - 1);
        }
        table[p] = [mpq::hash(n, 1), mpq::hash(n, 2), 0, k as u32];
    }
    let mut hb: Vec<u8> = table.iter().flatten().flat_map(|w| w.to_le_bytes()).collect();
    mpq::encrypt(&mut hb, mpq::hash(b"(hash table)", 3));
    let blockn = blocks.len() as u32 / 16;
    mpq::encrypt(&mut blocks, mpq::hash(b"(block table)", 3));
    let hpos = out.len() as u32;
    out.extend(&hb);
    let bpos = out.len() as u32;
    out.extend(&blocks);
    let size = out.len() as u32;
    let mut h = vec![];
    h.extend(b"MPQ\x1a");
    h.extend((hsize as u32).to_le_bytes());
    h.extend(size.to_le_bytes());
    h.extend((i(op, "ver") as u16 - 1).to_le_bytes());
    h.extend((i(op, "shift") as u16).to_le_bytes());
    for w in [hpos, bpos, hn as u32, blockn] {
        h.extend(w.to_le_bytes());
    }
    h.resize(hsize, 0);
    out[..hsize].copy_from_slice(&h);
    std::fs::write(path, out).unwrap();
}

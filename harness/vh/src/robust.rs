//! Malformed archives and streams (C07): records outcome, processor time and peak memory of every call.
use crate::arch::version;
use crate::integ::{u32at, u64at};
use crate::mpq;
use crate::util::*;
use mopaq::{Archive, ArchiveBuilder, ListfileOption, OpenOptions};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Cursor;
use std::path::Path;

/// Counts the memory each thread holds.
pub struct Counting;
thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn cpu_ms() -> i64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec * 1000 + t.tv_nsec / 1_000_000
    }
}

/// One event per operation, outcome and round, with the largest demands seen.
#[derive(Default)]
struct Acc(Vec<(String, &'static str, Value)>);
impl Acc {
    fn add(&mut self, f: &str, res: &'static str, cpu: i64, peak: i64, inp: usize, out: usize, msg: String) {
        let (peak, inp, out) = (peak / 1024, (inp / 1024) as i64, (out / 1024) as i64);
        // keep the call with the least margin; different outcomes are kept apart
        if let Some(x) = self.0.iter_mut().find(|x| x.0 == f && x.1 == res && x.2["inp"] == inp && x.2["out"] == out) {
            let v = &mut x.2;
            v["cpu"] = json!(cpu.max(i(v, "cpu")));
            v["peak"] = json!(peak.max(i(v, "peak")));
            v["calls"] = json!(i(v, "calls") + 1);
            return;
        }
        self.0.push((f.into(), res, json!({"ev":"call","f":f,"res":res,"cpu":cpu,"peak":peak,"inp":inp,"out":out,"calls":1,"msg":msg})));
    }
    fn flush(&mut self, tr: &mut Tr) {
        for (_, _, v) in self.0.drain(..) {
            tr.ev(v);
        }
    }
}
/// Runs one call of the code under test.
fn call<T>(acc: &mut Acc, f: &str, inp: usize, g: impl FnOnce() -> mopaq::Result<T>, size: impl FnOnce(&T) -> usize) -> Option<T> {
    let t = cpu_ms();
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = guarded(g);
    let peak = PEAK.with(|p| p.get()) - base;
    let cpu = cpu_ms() - t;
    match r {
        Err(m) => {
            acc.add(f, "panic", cpu, peak, inp, 0, m);
            None
        }
        Ok(Err(_)) => {
            acc.add(f, "err", cpu, peak, inp, 0, String::new());
            None
        }
        Ok(Ok(v)) => {
            acc.add(f, "ok", cpu, peak, inp, size(&v), String::new());
            Some(v)
        }
    }
}

struct World {
    bytes: Vec<u8>,
    names: Vec<String>,
    /// stored extents: position, stored size, size, flags, name
    files: Vec<(usize, usize, usize, u32, String)>,
}

fn build(cfg: &Value, dir: &Path) -> Option<World> {
    let path = dir.join("base.mpq");
    let ver = i(cfg, "ver");
    let mut bld = ArchiveBuilder::new()
        .version(version(ver))
        .block_size(i(cfg, "bs") as u16)
        .generate_crcs(b(cfg, "crc"))
        .compress_tables(b(cfg, "tcomp"))
        .listfile_option(if s(cfg, "list") == "gen" { ListfileOption::Generate } else { ListfileOption::None });
    let mut names = vec![];
    let fs = cfg["files"].as_array().unwrap();
    for (k, f) in fs.iter().enumerate() {
        let data = content(s(f, "kind"), i(f, "len") as usize, i(f, "seed") as u64);
        let name = format!("dir\\file{k}.bin");
        bld = match i(f, "enc") {
            0 => bld.add_file_data_with_options(data, &name, i(f, "method") as u8, false, 0),
            e => bld.add_file_data_with_encryption(data, &name, i(f, "method") as u8, e == 2, 0),
        };
        names.push(name);
    }
    let seed = i(cfg, "seed") as u64;
    let mut r = Rng::new(seed);
    if s(cfg, "list") == "bad" {
        let d = bad_list(&mut r);
        bld = bld.add_file_data_with_options(d, "(listfile)", 0, false, 0);
    }
    let n = fs.len() + 3;
    if s(cfg, "attr") != "none" {
        let d = attr(&mut r, s(cfg, "attr"), n);
        bld = bld.add_file_data_with_options(d, "(attributes)", if r.chance(1, 2) { 0 } else { 2 }, false, 0);
        names.push("(attributes)".into());
    }
    if b(cfg, "sig") {
        bld = bld.add_file_data_with_options(content("rand", *r.pick(&[72, 72, 72, 10, 0, 300]), seed), "(signature)", 0, false, 0);
        names.push("(signature)".into());
    }
    if s(cfg, "list") != "none" {
        names.push("(listfile)".into());
    }
    guarded(|| bld.build(&path)).ok()?.ok()?;
    let bytes = std::fs::read(&path).ok()?;
    let arc = Archive::open(&path).ok()?;
    let mut files = vec![];
    for n in &names {
        if let Ok(Some(f)) = arc.find_file(n) {
            files.push((f.file_pos as usize, f.compressed_size as usize, f.file_size as usize, f.flags, n.clone()));
        }
    }
    Some(World { bytes, names, files })
}
fn bad_list(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => content("rand", 1 + r.below(400) as usize, r.next()),
        1 => b"\xff\xfe\r\n(listfile)\ndir\\file0.bin\rdir/FILE1.BIN\n\n;x\0y".to_vec(),
        2 => vec![b'a'; 5000],
        3 => {
            let mut v = vec![];
            for _ in 0..2000 {
                v.extend_from_slice(b"dir\\file0.bin\r\n");
            }
            v
        }
        _ => "dir\\\u{fc}\u{1F600}\r\n\u{feff}x\r\n".as_bytes().to_vec(),
    }
}
fn attr(r: &mut Rng, kind: &str, n: usize) -> Vec<u8> {
    let mut v = vec![100, 0, 0, 0];
    let fl: u32 = match r.below(4) {
        0 => 0xF,
        1 => r.next() as u32,
        2 => 1 << r.below(4),
        _ => 0x5,
    };
    v.extend_from_slice(&fl.to_le_bytes());
    let full = n * 4 + n * 8 + n * 16 + n.div_ceil(8);
    v.extend(content("rand", full, r.next()));
    match kind {
        "good" => {}
        "short" => {
            let k = r.below(v.len() as u64) as usize;
            v.truncate(k)
        }
        "rand" => v = content("rand", r.below(300) as usize, r.next()),
        _ => {
            // first byte looks like a compression method
            let z = mopaq::compress(&v, 2).unwrap_or_default();
            v = z;
            let k = v.len() as u64;
            if k > 1 && r.chance(1, 2) {
                v[(1 + r.below(k - 1)) as usize] ^= 1 << r.below(8);
            }
        }
    }
    v
}

fn value(how: &str, orig: u64, len: u64, seed: u64) -> u64 {
    let mut r = Rng::new(seed);
    match how {
        "zero" => 0,
        "one" => 1,
        "small" => 2 + r.below(64),
        "max" => u64::MAX,
        "max1" => u64::MAX - 1,
        "half" => 0x7FFFFFFF,
        "top" => 0x80000000,
        "hi" => 0x8000_0000_0000_0000,
        "big" => 1 << (16 + r.below(16)),
        "pow" => 1 << r.below(64),
        "len" => len,
        "lenm" => len.wrapping_sub(1 + r.below(40)),
        "lenp" => len + 1 + r.below(40),
        "inc" => orig.wrapping_add(1),
        "dec" => orig.wrapping_sub(1),
        "dbl" => orig.wrapping_mul(2),
        "flip" => orig ^ (1 << r.below(32)),
        "near" => orig.wrapping_add(r.below(33)).wrapping_sub(16),
        _ => r.next(),
    }
}
fn put(v: &mut [u8], at: usize, w: usize, how: &str, len: u64, seed: u64) {
    if at + w > v.len() {
        return;
    }
    let mut x = [0u8; 8];
    x[..w].copy_from_slice(&v[at..at + w]);
    let n = value(how, u64::from_le_bytes(x), len, seed);
    v[at..at + w].copy_from_slice(&n.to_le_bytes()[..w]);
}
const HEADER: [(usize, usize); 24] = [(4, 4), (8, 4), (12, 2), (14, 2), (16, 4), (20, 4), (24, 4), (28, 4), (32, 8), (40, 2), (42, 2), (44, 8), (52, 8),
    (60, 8), (68, 8), (76, 8), (84, 8), (92, 8), (100, 8), (108, 4), (0, 4), (36, 4), (56, 4), (64, 4)];

/// Changes one field; tables and sector offsets are decrypted and encrypted again around the change.
fn mutate(w: &World, v: &mut Vec<u8>, base: &mut usize, m: &Value) {
    let (idx, field, seed) = (i(m, "idx") as usize, i(m, "field") as usize, i(m, "seed") as u64);
    let how = s(m, "how");
    let len = v.len() as u64;
    let o = *base;
    let orig = &w.bytes;
    let table = |v: &mut Vec<u8>, pos: usize, n: usize, key: u32, at: usize, wd: usize| {
        if pos + n <= v.len() && n >= 4 {
            mpq::decrypt(&mut v[pos..pos + n / 4 * 4], key);
            put(v, pos + at, wd, how, len, seed);
            mpq::encrypt(&mut v[pos..pos + n / 4 * 4], key);
        }
    };
    let ver = orig[12] as u64 + 1;
    match s(m, "at") {
        "header" => {
            let (p, n) = HEADER[field % HEADER.len()];
            if p + n <= [32, 44, 68, 208][(ver - 1).min(3) as usize] || field % 7 == 0 {
                put(v, o + p, n, how, len, seed)
            }
        }
        "hash" => {
            let (pos, n) = (u32at(orig, 16) as usize + o, u32at(orig, 24) as usize);
            let (fo, fw) = [(0, 4), (4, 4), (8, 2), (10, 2), (12, 4), (12, 4), (12, 4)][field % 7];
            // entries in use are found by their block index
            let mut t = orig[pos - o..pos - o + 16 * n].to_vec();
            mpq::decrypt(&mut t, 0xc3af3770);
            let used: Vec<usize> = (0..n).filter(|k| u32at(&t, 16 * k + 12) < 0xFFFFFFFE).collect();
            if how == "fill" {
                // no free slot: every probe has to wrap
                if pos + 16 * n <= v.len() {
                    for k in 0..n {
                        if !used.contains(&k) {
                            let e = content("rand", 12, seed + k as u64);
                            t[16 * k..16 * k + 12].copy_from_slice(&e);
                            let bi: u32 = if seed % 2 == 0 { 0xFFFFFFFE } else { 0 };
                            t[16 * k + 12..16 * k + 16].copy_from_slice(&bi.to_le_bytes());
                        }
                    }
                    mpq::encrypt(&mut t, 0xc3af3770);
                    v[pos..pos + 16 * n].copy_from_slice(&t);
                }
            } else {
                let k = if idx % 4 != 0 && !used.is_empty() { used[idx % used.len()] } else { idx % n };
                table(v, pos, 16 * n, 0xc3af3770, 16 * k + fo, fw);
            }
        }
        "block" => {
            let (pos, n) = (u32at(orig, 20) as usize + o, u32at(orig, 28) as usize);
            table(v, pos, 16 * n, 0xec83b3a3, 16 * (idx % n) + 4 * (field % 4), 4);
        }
        "flags" => {
            // one flag turned over in the block table
            let (pos, n) = (u32at(orig, 20) as usize + o, u32at(orig, 28) as usize);
            if pos + 16 * n <= v.len() {
                mpq::decrypt(&mut v[pos..pos + 16 * n], 0xec83b3a3);
                let p = pos + 16 * (idx % n) + 12;
                let f = [0x100u32, 0x200, 0x10000, 0x20000, 0x01000000, 0x02000000, 0x04000000, 0x80000000][field % 8];
                let x = u32at(v, p) as u32 ^ f;
                v[p..p + 4].copy_from_slice(&x.to_le_bytes());
                mpq::encrypt(&mut v[pos..pos + 16 * n], 0xec83b3a3);
            }
        }
        t @ ("het" | "bet" | "hetx" | "betx") if ver >= 3 => {
            let het = t.starts_with("het");
            let pos = u64at(orig, if het { 60 } else { 52 }) as usize;
            let size = if ver == 4 {
                u64at(orig, if het { 92 } else { 100 }) as usize
            } else if het {
                u64at(orig, 52) as usize - pos
            } else {
                u32at(orig, 16) as usize - pos
            };
            let key = if het { 0xc3af3770 } else { 0xec83b3a3 };
            if t.ends_with('x') {
                put(v, o + pos + 4 * (field % 3), 4, how, len, seed);
            } else if size > 16 {
                // the header dwords first, then the body
                let words = (size - 12) / 4;
                let hdr = if het { 8 } else { 19 }.min(words);
                let k = if idx % 3 != 0 { field % hdr } else { (idx * 7 + field) % words };
                table(v, pos + o + 12, size - 12, key, 4 * k, if idx % 5 == 0 { 1 } else { 4 });
            }
        }
        "sector" if !w.files.is_empty() => {
            let multi: Vec<_> = w.files.iter().filter(|f| f.3 & 0x01000000 == 0).collect();
            if let Some(f) = multi.get(idx % multi.len().max(1)) {
                let sec = 512usize << (u32at(orig, 12) >> 16);
                let n = f.2.div_ceil(sec) + 1;
                let at = 4 * (if field % 3 == 0 { 0 } else { field % n });
                if f.3 & 0x10000 != 0 {
                    let mut key = mpq::hash(f.4.as_bytes(), 3);
                    if f.3 & 0x20000 != 0 {
                        key = key.wrapping_add(f.0 as u32) ^ f.2 as u32;
                    }
                    table(v, f.0 + o, 4 * n, key.wrapping_sub(1), at, 4);
                } else {
                    put(v, f.0 + o + at, 4, how, len, seed);
                }
            }
        }
        "method" if !w.files.is_empty() => {
            let f = &w.files[idx % w.files.len()];
            let mut p = f.0 + o;
            if f.3 & 0x01000000 == 0 && f.3 & 0x10000 == 0 && p + 8 <= v.len() {
                p += u32at(v, p) as usize;
            }
            if p < v.len() {
                v[p] = if field % 2 == 0 { 1 << (seed % 8) } else { seed as u8 };
            }
        }
        "data" if !w.files.is_empty() => {
            let f = &w.files[idx % w.files.len()];
            if f.1 > 0 {
                let p = f.0 + o + (field * 31 + seed as usize) % f.1;
                put(v, p, [1, 1, 2, 4][field % 4], how, len, seed);
            }
        }
        "any" => {
            if !v.is_empty() {
                let p = (seed as usize).wrapping_mul(7919) % v.len();
                put(v, p, [1, 1, 2, 4, 8][field % 5], how, len, seed);
            }
        }
        "run" => {
            if !v.is_empty() {
                let p = (seed as usize).wrapping_mul(7919) % v.len();
                let e = (p + 1 + idx * 16).min(v.len());
                let fill = content(["zero", "rand", "const"][field % 3], e - p, seed);
                v[p..e].copy_from_slice(&fill);
            }
        }
        "trunc" => {
            let n = match field % 4 {
                0 => seed as usize % (v.len() + 1),
                1 => v.len().saturating_sub(1 + seed as usize % 40),
                2 => (o + seed as usize % 240).min(v.len()),
                _ => v.len() * (seed as usize % 100) / 100,
            };
            v.truncate(n);
        }
        "append" => v.extend(content(["zero", "rand"][field % 2], 1 + seed as usize % 3000, seed)),
        "strong" => {
            v.extend_from_slice(b"NGIS");
            v.extend(content("rand", [256, 256, 255, 0, 700][field % 5], seed));
        }
        "prefix" => {
            let mut p = content(["zero", "rand"][field % 2], 512 * (1 + idx % 3), seed);
            if field % 3 == 1 {
                // a user data header whose pointer is right, off, or points at itself
                p[..4].copy_from_slice(b"MPQ\x1b");
                let h = p.len() as u32;
                let off = match seed % 8 {
                    0..=2 => h,
                    3 => 0,
                    4 => u32::MAX,
                    5 => h + 1,
                    6 => v.len() as u32 + h,
                    _ => value(how, h as u64, len, seed) as u32,
                };
                p[8..12].copy_from_slice(&off.to_le_bytes());
            } else if field % 3 == 2 {
                p[..4].copy_from_slice(b"MPQ\x1a");
            }
            *base += p.len();
            p.extend_from_slice(v);
            *v = p;
        }
        _ => {}
    }
}

fn entries(v: &Vec<mopaq::FileEntry>) -> usize {
    v.len() * std::mem::size_of::<mopaq::FileEntry>() + v.iter().map(|e| e.name.len()).sum::<usize>()
}

/// Everything a reader can do with an archive.
fn exercise(w: &World, bytes: &[u8], path: &Path, acc: &mut Acc, seed: u64) {
    let n = bytes.len();
    call(acc, "find_header", n, || mopaq::header::find_header(&mut Cursor::new(bytes)), |_| 0);
    if std::fs::write(path, bytes).is_err() {
        return;
    }
    let mut r = Rng::new(seed);
    for loaded in [true, false] {
        let Some(mut a) = call(acc, if loaded { "open" } else { "open-deferred" }, n, || OpenOptions::new().load_tables(loaded).open(path), |_| 0) else { continue };
        let mut names: Vec<String> = w.names.clone();
        let mut ops: Vec<u32> = (0..9).collect();
        for k in (1..ops.len()).rev() {
            ops.swap(k, r.below(k as u64 + 1) as usize);
        }
        for op in ops {
            match op {
                0 => {
                    if let Some(l) = call(acc, "list", n, || a.list(), entries) {
                        names.extend(l.iter().take(20).map(|e| e.name.clone()));
                    }
                }
                1 => {
                    if let Some(l) = call(acc, "list_all", n, || a.list_all(), entries) {
                        names.extend(l.iter().take(5).map(|e| e.name.clone()));
                    }
                }
                2 => {
                    call(acc, "list_with_hashes", n, || a.list_with_hashes(), entries);
                }
                3 => {
                    call(acc, "list_all_with_hashes", n, || a.list_all_with_hashes(), entries);
                }
                4 => {
                    call(acc, "get_info", n, || a.get_info(), |_| 0);
                }
                5 => {
                    call(acc, "verify_signature", n, || a.verify_signature(), |_| 0);
                }
                6 => {
                    call(acc, "load_attributes", n, || a.load_attributes(), |_| 0);
                    call(acc, "file_attributes", n, || { a.get_file_attributes(0); a.get_file_attributes(usize::MAX); a.get_file_attributes(3); Ok(()) }, |_| 0);
                }
                7 => {
                    call(acc, "load_tables", n, || a.load_tables(), |_| 0);
                }
                _ => {
                    call(acc, "tables", n, || {
                        if let Some(t) = a.bet_table() {
                            for k in [0, 1, 2, 3, 7, u32::MAX, u32::MAX / 2] {
                                t.get_file_info(k);
                            }
                        }
                        if let Some(t) = a.het_table() {
                            t.find_file("dir\\file0.bin");
                            t.find_file("");
                        }
                        if let Some(t) = a.hash_table() {
                            for l in [0, 1, 0x409] {
                                t.find_file("dir\\file0.bin", l);
                                t.find_file("", l);
                            }
                        }
                        if let Some(t) = a.hi_block_table() {
                            t.get_file_pos_high(0);
                            t.get_file_pos_high(usize::MAX);
                        }
                        a.header().get_hash_table_pos();
                        a.header().get_block_table_pos();
                        a.header().get_archive_size();
                        a.header().sector_size();
                        Ok(())
                    }, |_| 0);
                }
            }
        }
        names.push("no such file".into());
        names.push(String::new());
        names.sort();
        names.dedup();
        for name in &names {
            call(acc, "find_file", n, || a.find_file(name), |_| 0);
            call(acc, "read_file", n, || a.read_file(name), |d| d.len());
        }
    }
}

fn streams(acc: &mut Acc, r: &mut Rng) {
    let kinds = ["zero", "const", "text", "rand", "mix", "runs", "few", "edge", "ramp", "pcm"];
    for _ in 0..60 {
        let kind = *r.pick(&kinds);
        let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 13, 17, 31, 64, 100, 257, 512, 1000, 4096, 5000]);
        let data = content(kind, n, r.next());
        let method = match r.below(3) {
            0 => *r.pick(&[2u8, 8, 0x10, 0x12, 0x20, 0x40, 0x80, 1, 4]),
            1 => *r.pick(&[0x42u8, 0x82, 0x50, 0x60, 0x41, 0x81, 0xC9, 0x48, 0x88, 0x22, 0x30, 0x0A, 0x03]),
            _ => r.next() as u8,
        };
        let mut z = match r.below(3) {
            0 => data.clone(),
            _ => guarded(|| mopaq::compress(&data, method)).ok().and_then(|x| x.ok()).map(|z| if z.len() > 1 && z.len() < data.len() { z[1..].to_vec() } else { z }).unwrap_or(data.clone()),
        };
        for _ in 0..r.below(4) {
            if !z.is_empty() {
                let p = if r.chance(1, 3) { r.below(16.min(z.len() as u64)) } else { r.below(z.len() as u64) } as usize;
                match r.below(4) {
                    0 => z[p] ^= 1 << r.below(8),
                    1 => z[p] = *r.pick(&[0, 0xFF, 0x7F, 0x80, 1]),
                    2 => z[p] = r.next() as u8,
                    _ => z.truncate(p),
                }
            }
        }
        let size = match r.below(8) {
            0..=2 => n,
            3 => n + 1,
            4 => n.saturating_sub(1),
            5 => *r.pick(&[0, 1, 2, 65536, 1 << 20]),
            6 => *r.pick(&[0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 40, usize::MAX, usize::MAX - 1, isize::MAX as usize]),
            _ => r.below(10000) as usize,
        };
        call(acc, &format!("decompress-{method:02x}"), z.len(), || mopaq::decompress(&z, method, size), |d| d.len());
        call(acc, "compress", data.len(), || mopaq::compress(&data, method), |_| 0);
    }
}
/// Streams that expand far beyond the size declared for them.
fn bombs(acc: &mut Acc, r: &mut Rng) {
    use std::io::Write;
    let big = vec![0u8; 160 << 20];
    let z = if r.chance(1, 2) {
        let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
        e.write_all(&big).unwrap();
        (2u8, e.finish().unwrap())
    } else {
        let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::fast());
        e.write_all(&big).unwrap();
        (0x10u8, e.finish().unwrap())
    };
    drop(big);
    let size = *r.pick(&[1usize, 100, 4096, 1 << 20]);
    call(acc, &format!("bomb-{:02x}", z.0), z.1.len(), || mopaq::decompress(&z.1, z.0, size), |_| size);
}
fn parsers(acc: &mut Acc, r: &mut Rng) {
    for _ in 0..40 {
        let d = match r.below(3) {
            0 => bad_list(r),
            1 => content(*r.pick(&["rand", "text", "zero", "crlf"]), r.below(600) as usize, r.next()),
            _ => {
                let k = *r.pick(&["good", "short", "rand", "zipped"]);
                attr(r, k, 5)
            }
        };
        call(acc, "parse_listfile", d.len(), || mopaq::special_files::parse_listfile(&d), |v| v.len() * 24);
        let by: bytes::Bytes = d.clone().into();
        // the count comes from the caller's block table; with a kind of attribute recorded, any count has to be checked against the data
        let kinds = d.len() >= 8 && d[4] & 0xF != 0;
        for n in [0usize, 1, 5, 8, 9, 1000, 1 << 31, u32::MAX as usize] {
            if n > 1000 && !kinds {
                continue;
            }
            call(acc, "parse_attributes", d.len(), || mopaq::special_files::Attributes::parse(&by, n), |_| 0);
        }
        call(acc, "parse_weak", d.len(), || mopaq::crypto::parse_weak_signature(&d), |_| 0);
        call(acc, "parse_strong", d.len(), || mopaq::crypto::parse_strong_signature(&d), |_| 0);
        let off = *r.pick(&[0u64, 0, 1, 3, 100, u64::MAX, i64::MAX as u64, 1 << 40]);
        for n in [0u32, 1, 2, 3, 16, 1 << 20, 1 << 31, u32::MAX] {
            call(acc, "hash_table", d.len(), || mopaq::HashTable::read(&mut Cursor::new(&d), off, n), |_| 0);
            call(acc, "block_table", d.len(), || mopaq::BlockTable::read(&mut Cursor::new(&d), off, n), |_| 0);
            call(acc, "hi_table", d.len(), || mopaq::tables::HiBlockTable::read(&mut Cursor::new(&d), off, n), |_| 0);
        }
        // tables whose plain header is right and whose fields are arbitrary
        let het = r.chance(1, 2);
        let mut t: Vec<u8> = if het { b"HET\x1a".to_vec() } else { b"BET\x1a".to_vec() };
        t.extend_from_slice(&1u32.to_le_bytes());
        let mut body: Vec<u8> = vec![];
        for _ in 0..if het { 8 } else { 19 } {
            let x: u32 = match r.below(6) {
                0 => 0,
                1 => r.below(70) as u32,
                2 => r.below(10) as u32,
                3 => *r.pick(&[u32::MAX, 1 << 31, 0x7FFFFFFF, 64, 63, 65, 32]),
                _ => r.below(40) as u32,
            };
            body.extend_from_slice(&x.to_le_bytes());
        }
        body.extend(content("rand", r.below(200) as usize, r.next()));
        let decl = if r.chance(3, 4) { body.len() as u32 } else { r.next() as u32 };
        t.extend_from_slice(&decl.to_le_bytes());
        let key = *r.pick(&[0u32, 0xc3af3770]);
        if key != 0 {
            let k = body.len() / 4 * 4;
            mpq::encrypt(&mut body[..k], key);
        }
        t.extend(body);
        let size = if r.chance(3, 4) { t.len() as u64 } else { *r.pick(&[0u64, 11, 12, 13, 1 << 33, u64::MAX]) };
        if het {
            if let Some(x) = call(acc, "het_read", t.len(), || mopaq::HetTable::read(&mut Cursor::new(&t), 0, size, key), |_| 0) {
                for n in ["", "a", "dir\\file0.bin"] {
                    call(acc, "het_find", t.len(), || { x.find_file(n); Ok(()) }, |_| 0);
                }
            }
        } else if let Some(x) = call(acc, "bet_read", t.len(), || mopaq::BetTable::read(&mut Cursor::new(&t), 0, size, key), |_| 0) {
            for k in [0u32, 1, 2, 5, 40, u32::MAX] {
                call(acc, "bet_info", t.len(), || { x.get_file_info(k); Ok(()) }, |_| 0);
            }
        }
        let mut h = content("rand", 512 * 3, r.next());
        for p in [0, 512, 1024] {
            if r.chance(1, 2) {
                h[p..p + 4].copy_from_slice(if r.chance(1, 2) { b"MPQ\x1a" } else { b"MPQ\x1b" });
                h[p + 12] = r.below(5) as u8;
                h[p + 13] = 0;
                h[p + 6] = 0;
                h[p + 7] = 0;
                h[p + 10] = 0;
                h[p + 11] = 0;
            }
        }
        let k = r.below(h.len() as u64 + 1) as usize;
        h.truncate(k);
        call(acc, "find_header", h.len(), || mopaq::header::find_header(&mut Cursor::new(&h)), |_| 0);
    }
}

/// The same bytes given to the command-line tool (commands that only read).
fn tool(exe: &Path, w: &World, n: usize, path: &Path, acc: &mut Acc, r: &mut Rng) {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let arc = path.to_str().unwrap();
    let some = w.names.get(r.below(w.names.len().max(1) as u64) as usize).cloned().unwrap_or_default();
    let all: [&[&str]; 16] = [
        &["archive", "list", arc],
        &["-v", "archive", "list", "-a", "--show-hashes", arc],
        &["-o", "json", "file", "list", "-a", arc],
        &["-o", "csv", "file", "list", arc],
        &["archive", "info", arc],
        &["-v", "archive", "info", arc],
        &["-o", "json", "archive", "info", arc],
        &["-o", "csv", "archive", "info", arc],
        &["archive", "verify", "--check-crc", "--check-contents", arc],
        &["-o", "json", "archive", "verify", "--check-contents", arc],
        &["archive", "analyze", "-d", "-e", "-s", arc],
        &["-o", "json", "archive", "analyze", "-e", arc],
        &["-o", "csv", "archive", "analyze", "-d", arc],
        &["file", "find", arc, "*.*"],
        &["-v", "file", "info", arc, &some],
        &["-o", "json", "file", "info", arc, &some],
    ];
    for _ in 0..4 {
        let args = *r.pick(&all);
        let mut c = std::process::Command::new(exe);
        c.args(args).env_clear().env("HOME", path.parent().unwrap()).env("LANG", "C.UTF-8").env("NO_COLOR", "1").env("RUST_BACKTRACE", "0");
        c.stdin(std::process::Stdio::null());
        unsafe {
            c.pre_exec(|| {
                // a process that needs more is ended
                let lim = |what, n: u64| libc::setrlimit(what, &libc::rlimit { rlim_cur: n, rlim_max: n });
                lim(libc::RLIMIT_CPU, 20);
                lim(libc::RLIMIT_AS, 2 << 30);
                lim(libc::RLIMIT_CORE, 0);
                Ok(())
            });
        }
        let o = match c.output() {
            Ok(o) => o,
            Err(e) => {
                eprintln!("cannot run the tool: {e}");
                std::process::exit(2);
            }
        };
        let f = format!("tool {}", args.iter().filter(|a| **a != arc && **a != some).copied().collect::<Vec<_>>().join(" "));
        let res = match o.status.code() {
            Some(0) => "ok",
            Some(101) => "panic",
            Some(_) => "err",
            None => "killed",
        };
        let msg = if res == "panic" || res == "killed" { format!("{:?} {}", o.status.signal(), String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()) } else { String::new() };
        acc.add(&f, res, 0, 0, n, 0, msg);
    }
}

pub fn run(_k: usize, sc: &Value, dir: &Path, exe: Option<&Path>, tr: &mut Tr) {
    tr.ev(json!({"ev":"begin"}));
    let mut acc = Acc::default();
    let ops = sc.as_array().unwrap();
    let Some(w) = build(&ops[0], dir) else {
        tr.ev(json!({"ev":"unbuilt"}));
        return;
    };
    let path = dir.join("m.mpq");
    exercise(&w, &w.bytes, &path, &mut acc, 1);
    acc.flush(tr);
    for op in &ops[1..] {
        match s(op, "op") {
            "round" => {
                let mut v = w.bytes.clone();
                let mut base = 0;
                for m in op["muts"].as_array().unwrap() {
                    mutate(&w, &mut v, &mut base, m);
                }
                exercise(&w, &v, &path, &mut acc, i(op, "seed") as u64);
                if let (Some(exe), 0) = (exe, i(op, "seed") % 6) {
                    tool(exe, &w, v.len(), &path, &mut acc, &mut Rng::new(i(op, "seed") as u64 + 9));
                }
            }
            "streams" => streams(&mut acc, &mut Rng::new(i(op, "seed") as u64)),
            "bombs" => bombs(&mut acc, &mut Rng::new(i(op, "seed") as u64)),
            "parsers" => parsers(&mut acc, &mut Rng::new(i(op, "seed") as u64)),
            _ => {}
        }
        acc.flush(tr);
    }
}

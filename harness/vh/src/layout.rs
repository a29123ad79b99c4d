//! Archives laid out by an independent encoder (c08) or by the library (c09), and what the library makes of them.
use crate::arch::{version, version_num};
use crate::mpq;
use crate::util::*;
use mopaq::{Archive, ArchiveBuilder, Error, ListfileOption, OpenOptions};
use serde_json::{json, Value};
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::Path;

const IMPLODE: u32 = 0x100;
pub const COMPRESS: u32 = 0x200;
pub const ENCRYPTED: u32 = 0x10000;
pub const FIX_KEY: u32 = 0x20000;
pub const SINGLE: u32 = 0x0100_0000;
const SECTOR_CRC: u32 = 0x0400_0000;
pub const EXISTS: u32 = 0x8000_0000;

fn addr(a: u64) -> Value {
    json!([a >> 20, a & 0xFFFFF])
}
/// A multiple of 4 GiB a file in `dir` can extend to.
fn far_unit(r: &mut Rng, dir: &Path) -> u64 {
    static MAX: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let max = *MAX.get_or_init(|| {
        let p = dir.join("far.probe");
        let f = std::fs::File::create(&p).unwrap();
        let fits = [0x801u64, 0x401, 0x201, 0x101].into_iter().find(|m| f.set_len(m << 32).is_ok());
        drop(f);
        std::fs::remove_file(&p).unwrap();
        fits.unwrap_or(3)
    });
    let m = [1, 1, 2, 0x80, 0xFF, 0x100, 0x1FE, 0x102, 0x300, 0x7FF][r.below(10) as usize];
    if m < max { m } else { 1 + r.below(2) }
}
fn norm(n: &[u8]) -> Vec<u8> {
    n.iter().map(|c| if *c == b'/' { b'\\' } else { c.to_ascii_uppercase() }).collect()
}

// ---- compression without the library ----
fn zlib(d: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn bzip(d: &[u8], level: u32) -> Vec<u8> {
    let mut e = bzip2::write::BzEncoder::new(vec![], bzip2::Compression::new(level));
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
fn implode(d: &[u8], r: &mut Rng) -> Vec<u8> {
    use pklib::{explode_bytes, implode_bytes, CompressionMode, DictionarySize};
    let mode = if r.chance(1, 2) { CompressionMode::ASCII } else { CompressionMode::Binary };
    let dict = *r.pick(&[DictionarySize::Size1K, DictionarySize::Size2K, DictionarySize::Size4K]);
    match implode_bytes(d, mode, dict) {
        Ok(z) if explode_bytes(&z).is_ok_and(|x| x == d) => z,
        _ => d.to_vec(), // does not shrink: kept as it is
    }
}
/// The compressed form with its method byte, if that is smaller.
fn pack(how: &str, d: &[u8], r: &mut Rng) -> Option<Vec<u8>> {
    let z = match how {
        "zlib" => [vec![2], zlib(d, *r.pick(&[1, 6, 9]))].concat(),
        "bzip2" => [vec![0x10], bzip(d, *r.pick(&[1, 9]))].concat(),
        "pkware" => [vec![8], implode(d, r)].concat(),
        "implode" => implode(d, r),
        "mixed" => {
            let h = *r.pick(&["zlib", "bzip2", "none"]);
            return pack(h, d, r);
        }
        _ => return None,
    };
    (z.len() < d.len()).then_some(z)
}

pub struct Enc {
    pub packs: Vec<Value>,
    /// whether packs are recorded
    pub keep: bool,
}
impl Enc {
    fn pack(&mut self, how: &str, d: &[u8], r: &mut Rng) -> Vec<u8> {
        match pack(how, d, r) {
            Some(z) => {
                if self.keep {
                    self.packs.push(json!({"how": if how == "implode" {1} else {0}, "z": z, "p": d}));
                }
                z
            }
            None => d.to_vec(),
        }
    }
    /// The stored form of a file at position pos (relative to the archive), its stored size and flags.
    #[allow(clippy::too_many_arguments)]
    pub fn file(&mut self, name: &[u8], d: &[u8], how: &str, unit: bool, enc: i64, trail: bool, pad: usize, pos: u64, sector: usize, r: &mut Rng) -> (Vec<u8>, u32, u32) {
        let mut flags = EXISTS;
        let mut key = 0;
        if enc > 0 {
            flags |= ENCRYPTED;
            key = mpq::hash(mpq::base_name(name), 3);
            if enc == 2 {
                flags |= FIX_KEY;
                key = key.wrapping_add(pos as u32) ^ d.len() as u32;
            }
        }
        let crypt = |b: &mut [u8], k: u32| {
            if key != 0 {
                mpq::encrypt(b, k)
            }
        };
        match how {
            "raw" => {}
            "implode" => flags |= IMPLODE,
            _ => flags |= COMPRESS,
        }
        if unit {
            flags |= SINGLE;
            let mut z = if how == "raw" { d.to_vec() } else { self.pack(how, d, r) };
            crypt(&mut z, key);
            let n = z.len() as u32;
            return (z, n, flags);
        }
        let parts: Vec<&[u8]> = d.chunks(sector).collect();
        if how == "raw" {
            let mut out = vec![];
            for (k, p) in parts.iter().enumerate() {
                let mut p = p.to_vec();
                crypt(&mut p, key.wrapping_add(k as u32));
                out.extend(p);
            }
            return (out, d.len() as u32, flags);
        }
        if d.is_empty() {
            return (vec![], 0, flags);
        }
        let n = parts.len();
        let extra = if trail { 2 } else { 1 };
        let mut off = vec![(4 * (n + extra) + if trail { 0 } else { pad }) as u32];
        let mut body = vec![];
        let mut sums = vec![];
        for (k, p) in parts.iter().enumerate() {
            let mut z = self.pack(how, p, r);
            sums.extend(adler(&z).to_le_bytes());
            crypt(&mut z, key.wrapping_add(k as u32));
            body.extend(z);
            off.push(off[0] + body.len() as u32);
        }
        if trail {
            flags |= SECTOR_CRC;
            let z = zlib(&sums, 6);
            body.extend(if z.len() + 1 < sums.len() { [vec![2], z].concat() } else { sums });
            off.push(off[0] + body.len() as u32);
        }
        let mut head: Vec<u8> = off.iter().flat_map(|o| o.to_le_bytes()).collect();
        crypt(&mut head, key.wrapping_sub(1));
        if !trail {
            head.extend((0..pad).map(|_| r.next() as u8));
        }
        head.extend(body);
        let len = head.len() as u32;
        (head, len, flags)
    }
}
fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for &c in d {
        a = (a + c as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

// ---- the library's answers ----
fn read_ev(a: &mut Archive, name: &[u8]) -> Value {
    let n = String::from_utf8_lossy(name).into_owned();
    match guarded(|| a.read_file(&n)) {
        Ok(Ok(d)) => json!({"ev":"read","name":name,"res":"ok","bytes":d}),
        Ok(Err(Error::FileNotFound(_))) => json!({"ev":"read","name":name,"res":"missing","bytes":[]}),
        Ok(Err(e)) => json!({"ev":"read","name":name,"res":"err","bytes":[],"msg":e.to_string()}),
        Err(p) => json!({"ev":"read","name":name,"res":"panic","bytes":[],"msg":p}),
    }
}
fn find_ev(a: &Archive, name: &[u8], lead: u64) -> Value {
    let n = String::from_utf8_lossy(name).into_owned();
    match guarded(|| a.find_file(&n)) {
        Ok(Ok(Some(f))) => json!({"ev":"find","name":name,"res":"ok","pos":addr(f.file_pos.wrapping_sub(lead)),"fsize":word(f.file_size as u32),"csize":word(f.compressed_size as u32),"flags":word(f.flags)}),
        Ok(Ok(None)) => json!({"ev":"find","name":name,"res":"missing","pos":[0,0],"fsize":[0,0],"csize":[0,0],"flags":[0,0]}),
        r => json!({"ev":"find","name":name,"res":"err","pos":[0,0],"fsize":[0,0],"csize":[0,0],"flags":[0,0],"msg":format!("{r:?}")}),
    }
}
fn flip(n: &[u8], r: &mut Rng) -> Vec<u8> {
    if !n.is_ascii() {
        return n.to_vec();
    }
    n.iter()
        .map(|&c| match c {
            b'/' | b'\\' => *r.pick(b"/\\"),
            c if r.chance(1, 2) => c.to_ascii_uppercase(),
            c => c.to_ascii_lowercase(),
        })
        .collect()
}
fn ask(path: &Path, lead: u64, names: &[Vec<u8>], gone: &[Vec<u8>], r: &mut Rng, tr: &mut Tr) {
    let deferred = r.chance(1, 3);
    let opened = guarded(|| if deferred { OpenOptions::new().load_tables(false).open(path) } else { Archive::open(path) });
    let mut a = match opened {
        Ok(Ok(a)) => a,
        x => {
            tr.ev(json!({"ev":"open","res":"err","msg":match x { Ok(Err(e)) => e.to_string(), Err(p) => p, _ => String::new() }}));
            return;
        }
    };
    tr.ev(json!({"ev":"open","res":"ok"}));
    let mut asked: Vec<(Vec<u8>, bool)> = vec![];
    for n in names {
        asked.push((if r.chance(1, 2) { n.clone() } else { flip(n, r) }, r.chance(1, 3)));
    }
    for n in gone {
        asked.push((n.clone(), r.chance(1, 2)));
    }
    asked.push((b"(listfile)".to_vec(), false));
    for k in (1..asked.len()).rev() {
        asked.swap(k, r.below(k as u64 + 1) as usize);
    }
    for (k, (n, find)) in asked.iter().enumerate() {
        if *find && (!deferred || k > 0) {
            tr.ev(find_ev(&a, n, lead));
        }
        tr.ev(read_ev(&mut a, n));
    }
    tr.ev(match guarded(|| a.list()) {
        Ok(Ok(es)) => json!({"ev":"list","res":"ok","names":es.iter().map(|e| e.name.as_bytes().to_vec()).collect::<Vec<_>>()}),
        x => json!({"ev":"list","res":"err","names":[],"msg":format!("{x:?}")}),
    });
    tr.ev(match guarded(|| a.list_all()) {
        Ok(Ok(es)) => json!({"ev":"listall","res":"ok","n":es.len()}),
        x => json!({"ev":"listall","res":"err","n":0,"msg":format!("{x:?}")}),
    });
    match guarded(|| a.get_info()) {
        Ok(Ok(x)) => tr.ev(json!({"ev":"info","at":x.archive_offset as i64 - lead as i64,"ver":version_num(x.format_version),"sector":x.sector_size,"count":x.file_count,
            "hashn":x.hash_table_info.size.unwrap_or(0),"blockn":x.block_table_info.size.unwrap_or(0)})),
        x => tr.ev(json!({"ev":"info","at":-1,"ver":0,"sector":0,"count":-1,"hashn":-1,"blockn":-1,"msg":format!("{x:?}")})),
    }
}

// ---- c08 ----
fn layout(op: &Value, dir: &Path, tr: &mut Tr) {
    let mut r = Rng::new(i(op, "seed") as u64 + 77);
    let ver = i(op, "ver");
    let shift = i(op, "shift") as u32;
    let sector = 512usize << shift;
    let hbase = [32usize, 44, 68, 208][ver as usize - 1];
    let hsize = hbase + i(op, "hextra") as usize;
    let prefix = i(op, "prefix") as usize;
    let user = op["user"].as_array().unwrap().first().map(|x| x.as_u64().unwrap() as usize);
    let start = 512 * prefix + user.unwrap_or(0);
    let far = b(op, "far");

    // files; equal names need different languages
    struct F {
        name: Vec<u8>,
        loc: u16,
        plat: u16,
        data: Vec<u8>,
        how: String,
        unit: bool,
        enc: i64,
        trail: bool,
        pad: usize,
        gap: usize,
        far: bool,
        drop: bool,
        alias: Option<Vec<u8>>,
    }
    let mut files: Vec<F> = vec![];
    let mut seen: Vec<Vec<u8>> = vec![];
    for f in op["files"].as_array().unwrap() {
        let name = bytes_of(&f["name"]);
        let loc = i(f, "loc") as u16;
        if name.is_empty() || files.iter().any(|x| norm(&x.name) == norm(&name) && (x.loc == loc || x.drop)) || norm(&name).starts_with(b"(") {
            continue;
        }
        let bd = &f["body"];
        let enc = i(f, "enc");
        seen.push(norm(&name));
        files.push(F {
            name,
            loc,
            plat: i(f, "plat") as u16,
            data: content(s(bd, "kind"), i(bd, "len") as usize, i(bd, "seed") as u64),
            how: s(f, "how").into(),
            unit: b(f, "unit"),
            enc,
            trail: b(f, "trail"),
            pad: i(f, "pad") as usize,
            gap: i(f, "gap") as usize,
            far: far && b(f, "far"),
            drop: b(f, "drop"),
            alias: f["alias"].as_array().unwrap().first().map(bytes_of).filter(|_| enc == 0),
        });
    }
    for k in 0..files.len() {
        if let Some(a) = files[k].alias.clone() {
            if a.is_empty() || seen.contains(&norm(&a)) || a.starts_with(b"(") {
                files[k].alias = None;
            } else {
                seen.push(norm(&a));
            }
        }
    }
    // a name with a dropped file must not have another one
    for k in 0..files.len() {
        if files[k].drop && files.iter().enumerate().any(|(j, x)| j != k && norm(&x.name) == norm(&files[k].name)) {
            files[k].drop = false;
        }
    }
    let lk = s(op, "list");
    if lk != "none" {
        let eol: &[u8] = match lk {
            "lf" => b"\n",
            "semi" => b";comment\r\n",
            _ => b"\r\n",
        };
        let mut t = vec![];
        if lk == "extra" {
            t.extend(b"; a comment\r\n\r\n  no such file  \r\n");
        }
        for f in files.iter().filter(|f| !f.drop) {
            t.extend(&f.name);
            t.extend(eol);
        }
        files.push(F { name: b"(listfile)".to_vec(), loc: 0, plat: 0, data: t, how: s(op, "listhow").into(), unit: r.chance(1, 2), enc: i(op, "listenc"), trail: false, pad: 0, gap: 0, far: false, drop: false, alias: None });
    }
    let dead: Vec<Vec<u8>> = (0..i(op, "dead")).map(|k| format!("dead{}", k + 100 * r.below(9) as i64).into_bytes()).filter(|d| !seen.contains(&norm(d))).collect();

    // tables
    let entries = files.len() + files.iter().filter(|f| f.alias.is_some()).count() + dead.len();
    let hashn = match s(op, "fill") {
        "tight" => entries.max(1).next_power_of_two(),
        "some" => (2 * entries).max(4).next_power_of_two(),
        _ => 64,
    };
    let blockn = files.len() + i(op, "spare") as usize;
    let mut place: Vec<usize> = (0..blockn).collect();
    for k in (1..blockn).rev() {
        place.swap(k, r.below(k as u64 + 1) as usize);
    }
    let any_far = files.iter().any(|f| f.far);
    let with_hi = ver >= 2 && (any_far || b(op, "hi"));

    // parts: 0..n files, n hash, n+1 block, n+2 hi-block
    let n = files.len();
    let tabs: Vec<usize> = if with_hi { vec![n, n + 1, n + 2] } else { vec![n, n + 1] };
    let mut order: Vec<usize> = match s(op, "order") {
        "front" => tabs.iter().copied().chain(0..n).collect(),
        _ => (0..n).chain(tabs.iter().copied()).collect(),
    };
    if s(op, "order") == "mid" {
        for k in (1..order.len()).rev() {
            order.swap(k, r.below(k as u64 + 1) as usize);
        }
    }
    let mut near: Vec<u8> = vec![];
    junk(&mut near, start, s(op, "junk"), &mut r);
    if let Some(u) = user {
        let at = 512 * prefix;
        near[at..at + 4].copy_from_slice(b"MPQ\x1b");
        near[at + 4..at + 8].copy_from_slice(&(u as u32 - 16).to_le_bytes());
        near[at + 8..at + 12].copy_from_slice(&(u as u32).to_le_bytes());
        near[at + 12..at + 16].copy_from_slice(&16u32.to_le_bytes());
        // the user data says where the header is: what else lies between them means nothing
        for k in (1..).take_while(|k| 512 * k + 4 <= u) {
            near[at + 512 * k..at + 512 * k + 4].copy_from_slice(if r.chance(1, 2) { b"MPQ\x1a" } else { b"MPQ\x1b" });
        }
    }
    near.resize(start + hsize, 0);
    // far parts lie behind 4 GiB, at small distances above a multiple of it, so that lost upper bits lead to other data
    let far_base: u64 = (1u64 << 32) * far_unit(&mut r, dir) + r.below(3000);
    let mut farb: Vec<u8> = vec![];
    let mut e = Enc { packs: vec![], keep: true };
    let (mut hash_pos, mut block_pos, mut hi_pos) = (0u64, 0u64, 0u64);
    let mut blocks = vec![(0u64, 0u32, 0u32, 0u32); blockn];
    for sp in place.iter().skip(n) {
        // unused entries, possibly with what they held before
        blocks[*sp] = if r.chance(1, 2) { (0, 0, 0, 0) } else { (r.below(5000), r.below(500) as u32, r.below(500) as u32, *r.pick(&[0, COMPRESS, SINGLE | COMPRESS])) };
    }
    for p in order {
        let f = files.get(p);
        let isfar = match f {
            Some(f) => f.far,
            None => far && ver >= 2 && r.chance(1, 4) && p != n + 2 || far && p == n + 2 && r.chance(1, 4),
        };
        let gap = f.map(|f| f.gap).unwrap_or_else(|| *r.pick(&[0, 0, 4, 7]));
        let dst = if isfar { &mut farb } else { &mut near };
        for _ in 0..gap {
            dst.push(r.next() as u8);
        }
        let pos = if isfar { far_base + dst.len() as u64 } else { (dst.len() - start) as u64 };
        match f {
            Some(f) => {
                let (bytes, csize, flags) = e.file(&f.name, &f.data, &f.how, f.unit, f.enc, f.trail, f.pad, pos, sector, &mut r);
                let keep = !f.drop || r.chance(1, 2);
                blocks[place[p]] = (pos, csize, f.data.len() as u32, if keep { flags } else { flags & !EXISTS });
                if isfar { &mut farb } else { &mut near }.extend(bytes);
            }
            None if p == n => {
                hash_pos = pos;
                dst.resize(dst.len() + 16 * hashn, 0);
            }
            None if p == n + 1 => {
                block_pos = pos;
                dst.resize(dst.len() + 16 * blockn, 0);
            }
            None => {
                hi_pos = pos;
                dst.resize(dst.len() + 2 * blockn, 0);
            }
        }
    }
    // the hash table: dead entries first, then the files in any order
    let mut table = vec![(u32::MAX, u32::MAX, 0xFFFFu16, 0xFFFFu16, u32::MAX); hashn];
    let insert = |table: &mut Vec<(u32, u32, u16, u16, u32)>, name: &[u8], loc: u16, plat: u16, ix: u32| {
        let mut k = mpq::hash(name, 0) as usize & (hashn - 1);
        while table[k].4 != u32::MAX {
            k = (k + 1) & (hashn - 1);
        }
        table[k] = (mpq::hash(name, 1), mpq::hash(name, 2), loc, plat, ix);
        k
    };
    let mut gone: Vec<Vec<u8>> = vec![];
    for d in &dead {
        let k = insert(&mut table, d, 0, 0, u32::MAX - 1);
        if r.chance(1, 2) {
            table[k] = (u32::MAX, u32::MAX, 0xFFFF, 0xFFFF, u32::MAX - 1);
        }
        gone.push(d.clone());
    }
    let mut turn: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        turn.swap(k, r.below(k as u64 + 1) as usize);
    }
    let mut names = vec![];
    for k in turn {
        let f = &files[k];
        let at = insert(&mut table, &f.name, f.loc, f.plat, place[k] as u32);
        if f.drop {
            table[at].4 = u32::MAX - 1;
            gone.push(f.name.clone());
        } else {
            names.push((f.name.clone(), f.data.clone()));
        }
        if let Some(a) = &f.alias {
            insert(&mut table, a, 0, 0, place[k] as u32);
            let ok = blocks[place[k]].3 & EXISTS != 0;
            if ok {
                names.push((a.clone(), f.data.clone()));
            }
        }
    }
    // an entry whose block is not in use is no file: keep such aliases out
    let mut hb: Vec<u8> = table
        .iter()
        .flat_map(|t| [t.0.to_le_bytes().to_vec(), t.1.to_le_bytes().to_vec(), t.2.to_le_bytes().to_vec(), t.3.to_le_bytes().to_vec(), t.4.to_le_bytes().to_vec()].concat())
        .collect();
    mpq::encrypt(&mut hb, mpq::hash(b"(hash table)", 3));
    let mut bb: Vec<u8> = blocks.iter().flat_map(|t| [(t.0 as u32).to_le_bytes(), t.1.to_le_bytes(), t.2.to_le_bytes(), t.3.to_le_bytes()].concat()).collect();
    mpq::encrypt(&mut bb, mpq::hash(b"(block table)", 3));
    let ib: Vec<u8> = blocks.iter().flat_map(|t| ((t.0 >> 32) as u16).to_le_bytes()).collect();
    let put = |near: &mut Vec<u8>, farb: &mut Vec<u8>, pos: u64, d: &[u8]| {
        if pos >= far_base {
            let k = (pos - far_base) as usize;
            farb[k..k + d.len()].copy_from_slice(d);
        } else {
            let k = start + pos as usize;
            near[k..k + d.len()].copy_from_slice(d);
        }
    };
    put(&mut near, &mut farb, hash_pos, &hb);
    put(&mut near, &mut farb, block_pos, &bb);
    if with_hi {
        put(&mut near, &mut farb, hi_pos, &ib);
    }
    let size = if farb.is_empty() { (near.len() - start) as u64 } else { far_base + farb.len() as u64 };
    let mut h = vec![];
    h.extend(b"MPQ\x1a");
    h.extend((hsize as u32).to_le_bytes());
    h.extend((size as u32).to_le_bytes());
    h.extend((ver as u16 - 1).to_le_bytes());
    h.extend((shift as u16).to_le_bytes());
    h.extend((hash_pos as u32).to_le_bytes());
    h.extend((block_pos as u32).to_le_bytes());
    h.extend((hashn as u32).to_le_bytes());
    h.extend((blockn as u32).to_le_bytes());
    if ver >= 2 {
        h.extend(hi_pos.to_le_bytes());
        h.extend(((hash_pos >> 32) as u16).to_le_bytes());
        h.extend(((block_pos >> 32) as u16).to_le_bytes());
    }
    if ver >= 3 {
        h.extend(size.to_le_bytes());
        h.extend([0; 16]);
    }
    if ver >= 4 {
        for z in [hb.len() as u64, bb.len() as u64, if with_hi { ib.len() as u64 } else { 0 }, 0, 0] {
            h.extend(z.to_le_bytes());
        }
        h.extend(0u32.to_le_bytes());
        h.extend(md5full(&bb));
        h.extend(md5full(&hb));
        h.extend(if with_hi { md5full(&ib) } else { [0; 16] });
        h.extend([0; 32]);
        let m = md5full(&h);
        h.extend(m);
    }
    assert_eq!(h.len(), hbase);
    near[start..start + hbase].copy_from_slice(&h);
    if farb.is_empty() {
        for _ in 0..i(op, "after") {
            near.push(r.next() as u8);
        }
    }
    let path = dir.join("l.mpq");
    let mut out = std::fs::File::create(&path).unwrap();
    out.write_all(&near).unwrap();
    let mut runs = vec![json!({"at": [0, 0], "b": near})];
    if !farb.is_empty() {
        let at = start as u64 + far_base;
        out.seek(SeekFrom::Start(at)).unwrap();
        out.write_all(&farb).unwrap();
        runs.push(json!({"at": addr(at), "b": farb}));
    }
    drop(out);
    let total = std::fs::metadata(&path).unwrap().len();
    tr.ev(json!({"ev":"image","runs":runs,"packs":e.packs,"digests":[],"size":addr(total)}));
    // what is stored under a name in several languages is read in one of them
    let absent: Vec<Vec<u8>> = gone.iter().cloned().chain([b"nosuchfile".to_vec(), b"".to_vec()]).filter(|g| !names.iter().any(|(n, _)| norm(n) == norm(g))).collect();
    tr.ev(json!({"ev":"holds","files":names.iter().map(|(n, d)| json!({"name":n,"bytes":d})).collect::<Vec<_>>(),"absent":absent}));
    let ns: Vec<Vec<u8>> = names.iter().map(|x| x.0.clone()).collect();
    ask(&path, 0, &ns, &absent, &mut r, tr);
    // the same archive far behind the start of its file, as in a self-extracting program: nothing changes
    let lead = i(op, "lead") as u64;
    if lead > 0 {
        let mut out = std::fs::File::create(&path).unwrap();
        out.seek(SeekFrom::Start(512 * lead)).unwrap();
        out.write_all(&near).unwrap();
        if !farb.is_empty() {
            out.seek(SeekFrom::Start(512 * lead + start as u64 + far_base)).unwrap();
            out.write_all(&farb).unwrap();
        }
        drop(out);
        ask(&path, 512 * lead, &ns, &absent, &mut r, tr);
    }
    std::fs::remove_file(&path).ok();
}
fn junk(v: &mut Vec<u8>, to: usize, kind: &str, r: &mut Rng) {
    while v.len() < to {
        let c = if kind == "zero" { 0 } else { r.next() as u8 };
        v.push(c);
    }
    for k in 0..to / 512 {
        if v[512 * k] == b'M' {
            v[512 * k] = b'x';
        }
        if kind == "bait" {
            // signatures off the boundaries mean nothing, user data that leads nowhere neither
            for _ in 0..3 {
                let p = 512 * k + 1 + r.below(500) as usize;
                v[p..p + 4].copy_from_slice(if r.chance(1, 2) { b"MPQ\x1a" } else { b"MPQ\x1b" });
            }
            if r.chance(1, 3) {
                v[512 * k..512 * k + 4].copy_from_slice(b"MPQ\x1b");
                v[512 * k + 8..512 * k + 12].copy_from_slice(&(*r.pick(&[3u32, 17, 0x00F0_0000, 1])).to_le_bytes());
                v[512 * k + 17] = 0;
            } else {
                v[512 * k] = 0;
            }
        }
    }
}

// ---- c09 ----
fn u32at(v: &[u8], p: usize) -> u32 {
    v.get(p..p + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).unwrap_or(0)
}
fn u64at(v: &[u8], p: usize) -> u64 {
    u32at(v, p) as u64 | (u32at(v, p + 4) as u64) << 32
}
fn slice(v: &[u8], p: u64, n: u64) -> Option<&[u8]> {
    v.get(usize::try_from(p).ok()?..usize::try_from(p.checked_add(n)?).ok()?)
}
/// What a compressed form holds; the methods other tools share are decoded without the library.
fn unpack(z: &[u8], n: usize) -> Option<Vec<u8>> {
    let (m, d) = (*z.first()?, &z[1..]);
    let mut out = vec![];
    match m {
        2 => {
            flate2::read::ZlibDecoder::new(d).read_to_end(&mut out).ok()?;
        }
        0x10 => {
            bzip2::read::BzDecoder::new(d).read_to_end(&mut out).ok()?;
        }
        8 => out = pklib::explode_bytes(d).ok()?,
        _ => out = guarded(|| mopaq::decompress(d, m, n)).ok()?.ok()?,
    }
    Some(out)
}
/// Finds the compressed sectors of the named files and decodes them.
fn packs_of(img: &[u8], names: &[Vec<u8>]) -> Vec<Value> {
    let mut packs = vec![];
    let (hp, bp, hn, bn) = (u32at(img, 16) as u64, u32at(img, 20) as u64, u32at(img, 24) as u64, u32at(img, 28) as u64);
    let sector = 512usize << (u32at(img, 12) >> 16 & 15);
    let (Some(h), Some(bt)) = (slice(img, hp, 16 * hn), slice(img, bp, 16 * bn)) else { return packs };
    let (mut h, mut bt) = (h.to_vec(), bt.to_vec());
    mpq::decrypt(&mut h, mpq::hash(b"(hash table)", 3));
    mpq::decrypt(&mut bt, mpq::hash(b"(block table)", 3));
    for n in names {
        for k in 0..hn as usize {
            let e = &h[16 * k..16 * k + 16];
            let ix = u32at(e, 12) as usize;
            if u32at(e, 0) != mpq::hash(n, 1) || u32at(e, 4) != mpq::hash(n, 2) || ix >= bn as usize {
                continue;
            }
            let t = &bt[16 * ix..16 * ix + 16];
            let (pos, csize, fsize, flags) = (u32at(t, 0), u32at(t, 4) as usize, u32at(t, 8) as usize, u32at(t, 12));
            let key = match flags & (ENCRYPTED | FIX_KEY) {
                x if x & ENCRYPTED == 0 => 0,
                x if x & FIX_KEY != 0 => mpq::hash(mpq::base_name(n), 3).wrapping_add(pos) ^ fsize as u32,
                _ => mpq::hash(mpq::base_name(n), 3),
            };
            let plain = |p: u64, l: usize, k: u32| -> Option<Vec<u8>> {
                let mut d = slice(img, p, l as u64)?.to_vec();
                if key != 0 {
                    mpq::decrypt(&mut d, k);
                }
                Some(d)
            };
            let mut one = |p: u64, l: usize, k: u32, want: usize| {
                if l < want {
                    if let Some(z) = plain(p, l, k) {
                        if let Some(d) = unpack(&z, want) {
                            packs.push(json!({"how": 0, "z": z, "p": d}));
                        }
                    }
                }
            };
            if flags & COMPRESS == 0 {
                continue;
            }
            if flags & SINGLE != 0 {
                one(pos as u64, csize, key, fsize);
                continue;
            }
            let ns = fsize.div_ceil(sector);
            let Some(off) = plain(pos as u64, 4 * (ns + 1), key.wrapping_sub(1)) else { continue };
            for q in 0..ns {
                let (a, z) = (u32at(&off, 4 * q), u32at(&off, 4 * q + 4));
                if z >= a && z - a < 1 << 20 {
                    one(pos as u64 + a as u64, (z - a) as usize, key.wrapping_add(q as u32), sector.min(fsize - sector * q));
                }
            }
        }
    }
    packs
}
fn build(op: &Value, dir: &Path, tr: &mut Tr) {
    let mut r = Rng::new(i(op, "seed") as u64 + 99);
    let ver = i(op, "ver");
    let gen = s(op, "list") == "gen";
    let mut bld = ArchiveBuilder::new()
        .version(version(ver))
        .block_size(i(op, "shift") as u16)
        .generate_crcs(b(op, "crc"))
        .compress_tables(b(op, "tcomp"))
        .table_compression(i(op, "tmethod") as u8)
        .listfile_option(if gen { ListfileOption::Generate } else { ListfileOption::None });
    let mut names: Vec<Vec<u8>> = vec![];
    let mut files = vec![];
    for f in op["files"].as_array().unwrap() {
        let name = bytes_of(&f["name"]);
        if name.is_empty() || String::from_utf8(name.clone()).is_err() || names.iter().any(|x| norm(x) == norm(&name)) || name.starts_with(b"(") {
            continue;
        }
        let bd = &f["body"];
        let d = content(s(bd, "kind"), i(bd, "len") as usize, i(bd, "seed") as u64);
        let (m, enc, loc) = (i(f, "method") as u8, i(f, "enc"), i(f, "loc") as u16);
        let n = String::from_utf8(name.clone()).unwrap();
        bld = if enc == 0 { bld.add_file_data_with_options(d.clone(), &n, m, false, loc) } else { bld.add_file_data_with_encryption(d.clone(), &n, m, enc == 2, loc) };
        files.push(json!({"name": name, "bytes": d, "loc": loc, "enc": enc}));
        names.push(name);
    }
    let path = dir.join("l.mpq");
    match guarded(|| bld.build(&path)) {
        Ok(Ok(())) => {}
        x => {
            tr.ev(json!({"ev":"open","res":"err","msg":format!("{x:?}")}));
            return;
        }
    }
    let img = std::fs::read(&path).unwrap();
    let mut all = names.clone();
    if gen {
        all.push(b"(listfile)".to_vec());
    }
    let mut packs = packs_of(&img, &all);
    // a compressed extended block table
    if ver >= 4 {
        if let Some(t) = slice(&img, u64at(&img, 52), u64at(&img, 100)).filter(|t| t.len() > 12) {
            let (want, mut z) = (u32at(t, 8) as usize, t[12..].to_vec());
            mpq::decrypt(&mut z, mpq::hash(b"(block table)", 3));
            if z.len() < want && want < 1 << 20 {
                if let Some(d) = unpack(&z, want) {
                    packs.push(json!({"how": 0, "z": z, "p": d}));
                }
            }
        }
    }
    if gen {
        // the list has one name per line, in any order; its text is taken from the image and judged below
        let mut t: Vec<u8> = vec![];
        if let Ok(mut a) = Archive::open(&path) {
            t = a.read_file("(listfile)").unwrap_or_default();
        }
        files.push(json!({"name": b"(listfile)", "bytes": t, "loc": 0, "enc": 0}));
    }
    let mut dig = vec![];
    if ver >= 4 {
        let spans = [
            (0, 192),
            (u32at(&img, 16) as u64, 16 * u32at(&img, 24) as u64),
            (u32at(&img, 20) as u64, 16 * u32at(&img, 28) as u64),
            (u64at(&img, 60), u64at(&img, 92)),
            (u64at(&img, 52), u64at(&img, 100)),
        ];
        for (p, n) in spans {
            if let Some(d) = slice(&img, p, n) {
                dig.push(json!({"at": addr(p), "n": n, "md5": md5full(d)}));
            }
        }
    }
    tr.ev(json!({"ev":"image","runs":[{"at":[0,0],"b":img}],"packs":packs,"digests":dig,"size":addr(img.len() as u64)}));
    let absent: Vec<Vec<u8>> = [b"nosuchfile".to_vec(), b"x".to_vec(), b"(attributes)".to_vec()].into_iter().filter(|a| !names.iter().any(|n| norm(n) == norm(a))).collect();
    tr.ev(json!({"ev":"holds","files":files,"absent":absent}));
    tr.ev(json!({"ev":"format","files":files,"ver":ver,"shift":i(op, "shift"),"crc":b(op,"crc"),"list":gen,"tcomp":b(op,"tcomp")}));
    ask(&path, 0, &all, &absent, &mut r, tr);
    std::fs::remove_file(&path).ok();
}

pub fn run(k: usize, sc: &Value, dir: &Path, tr: &mut Tr) {
    let op = &sc[0];
    tr.ev(json!({"ev":"begin","run":k}));
    match s(op, "op") {
        "layout" => layout(op, dir, tr),
        _ => build(op, dir, tr),
    }
}

//! Makes C API calls described by JSON and records what they returned. Judges nothing.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use storm::*;

pub fn byte(c: i64, i: usize) -> u8 {
    ((i as i64 * 167 + (i as i64 / 253) * 29 + c * 77).rem_euclid(256)) as u8
}
pub fn data_of(c: i64, len: usize) -> Vec<u8> {
    (0..len).map(|i| byte(c, i)).collect()
}

/// Where the paths of a session lie, and what its symbolic handles stand for.
pub struct World {
    pub dir: PathBuf,
    pub slots: Mutex<HashMap<String, usize>>,
    pub extracted: AtomicUsize,
}

/// Receives the calls: `inv` when one starts (returns its position), `ret` when it is over.
pub trait Log {
    fn inv(&mut self) -> usize;
    fn ret(&mut self, id: usize, e: Value);
}
impl Log for Vec<Value> {
    fn inv(&mut self) -> usize {
        self.push(Value::Null);
        self.len() - 1
    }
    fn ret(&mut self, id: usize, mut e: Value) {
        e["ev"] = json!("call");
        if id + 1 < self.len() {
            // an enumeration whose callbacks made calls: it took its answer before them
            let mut ret = json!({"ev": "enumret", "ok": e["ok"], "err": e["err"]});
            e["ev"] = json!("enumcall");
            if b(&e, "ok") {
                e["err"] = json!(0);
            } else {
                ret["ok"] = json!(true);
                ret["err"] = json!(0);
            }
            self.push(ret);
        }
        self[id] = e;
    }
}

impl World {
    pub fn new(dir: &Path) -> Self {
        std::fs::create_dir_all(dir.join("out")).unwrap();
        std::fs::write(dir.join("junk.mpq"), content("rand", 3000, 5)).unwrap();
        std::fs::write(dir.join("plainfile"), b"x").unwrap();
        World { dir: dir.to_path_buf(), slots: Mutex::new(HashMap::new()), extracted: AtomicUsize::new(0) }
    }
    pub fn path(&self, id: &str) -> PathBuf {
        if id == "nodir" { self.dir.join("no/such/dir/x.mpq") } else { self.dir.join(format!("{id}.mpq")) }
    }
    pub fn handle(&self, h: &str) -> usize {
        if h == "0" {
            0
        } else if h == "nmax" {
            usize::MAX
        } else if let Some(n) = h.strip_prefix('n') {
            n.parse().unwrap()
        } else {
            self.slots.lock().unwrap().get(h).copied().unwrap_or(0)
        }
    }
}

/// Builds the archive a fixture describes; returns how the specification sees it.
pub fn fixture(w: &World, o: &Value) -> Value {
    use mopaq::{Archive, ArchiveBuilder, FormatVersion, ListfileOption};
    let path = w.path(s(o, "path"));
    let files = o["files"].as_array().cloned().unwrap_or_default();
    let (list, at, sig) = (b(o, "list"), b(o, "at"), b(o, "sig"));
    let total = files.len() + list as usize + at as usize + sig as usize;
    let build = |attrs: &[u8]| {
        let mut bld = ArchiveBuilder::new()
            .version([FormatVersion::V1, FormatVersion::V2, FormatVersion::V3, FormatVersion::V4][i(o, "ver") as usize - 1])
            .block_size(0)
            .generate_crcs(b(o, "crc"))
            .listfile_option(if list { ListfileOption::Generate } else { ListfileOption::None });
        for f in &files {
            let (data, name) = (data_of(i(f, "c"), i(f, "len") as usize), name_of(&f["name"]));
            let m = i(f, "method") as u8;
            bld = match i(f, "enc") {
                0 => bld.add_file_data_with_options(data, &name, m, false, 0),
                e => bld.add_file_data_with_encryption(data, &name, m, e == 2, 0),
            };
        }
        if at {
            bld = bld.add_file_data_with_options(attrs.to_vec(), "(attributes)", 0, false, 0);
        }
        if sig {
            bld = bld.add_file_data_with_options(vec![7u8; 72], "(signature)", 0, false, 0);
        }
        bld.build(&path).expect("fixture");
    };
    let mut attrs = vec![0u8; 8 + total * 20];
    attrs[0] = 100;
    attrs[4] = 5;
    build(&attrs);
    if at {
        let a = Archive::open(&path).expect("fixture opens");
        for f in &files {
            let k = a.find_file(&name_of(&f["name"])).unwrap().expect("fixture file").block_index;
            let data = data_of(i(f, "c"), i(f, "len") as usize);
            let mut crc = crc32fast::hash(&data);
            let mut md = md5full(&data);
            match s(f, "attr") {
                "badcrc" => crc ^= 1 << (i(f, "c") % 32),
                "badmd5" => md[i(f, "c") as usize % 16] ^= 4,
                _ => {}
            }
            attrs[8 + 4 * k..12 + 4 * k].copy_from_slice(&crc.to_le_bytes());
            let p = 8 + 4 * total + 16 * k;
            attrs[p..p + 16].copy_from_slice(&md);
        }
        drop(a);
        build(&attrs);
    }
    // damage
    let mut raw = std::fs::read(&path).unwrap();
    for f in &files {
        if b(f, "bad") {
            let a = Archive::open(&path).expect("fixture opens");
            let e = a.find_file(&name_of(&f["name"])).unwrap().expect("fixture file");
            let len = i(f, "len") as usize;
            let n = len.div_ceil(512);
            let at = if n > 1 { e.file_pos as usize + e.compressed_size as usize + 4 * n - 1 } else { e.file_pos as usize + len / 2 };
            raw[at] ^= 0x41;
        }
    }
    std::fs::write(&path, &raw).unwrap();
    let u = |p: usize| u32::from_le_bytes(raw[p..p + 4].try_into().unwrap());
    let mut all: Vec<Value> = files
        .iter()
        .map(|f| json!({"name": f["name"], "len": f["len"], "c": f["c"], "special": false, "bad": f["bad"], "crc": f["crc"], "attr": if at { f["attr"].clone() } else { json!("none") }}))
        .collect();
    for (p, n) in [(list, "(listfile)"), (at, "(attributes)"), (sig, "(signature)")] {
        if p {
            all.push(json!({"name": jname(n), "len": -1, "c": -1, "special": true, "bad": false, "crc": false, "attr": "none"}));
        }
    }
    json!({"ev": "fixture", "path": o["path"],
           "a": {"kind": "archive", "files": all, "list": list, "size": raw.len(), "hs": u(24), "bs": u(28), "sec": 512, "sig": sig}})
}

pub fn odd_places(events: &mut Vec<Value>) {
    for k in ["junk", "absent", "nodir"] {
        events.push(json!({"ev": "fixture", "path": k, "a": {"kind": k, "files": [], "list": false, "size": 0, "hs": 0, "bs": 0, "sec": 0, "sig": false}}));
    }
}

struct CbState<'a> {
    names: Vec<Vec<u8>>,
    stop: i64,
    at: i64,
    nested: Option<&'a Value>,
    run: &'a mut dyn FnMut(&Value),
}
extern "C" fn callback(name: *const c_char, user: *mut c_void) -> bool {
    let st = unsafe { &mut *(user as *mut CbState) };
    st.names.push(unsafe { CStr::from_ptr(name) }.to_bytes().to_vec());
    let n = st.names.len() as i64;
    if n == st.at.max(1) {
        if let Some(o) = st.nested {
            (st.run)(o);
        }
    }
    !(st.stop > 0 && n >= st.stop)
}

const SENT: usize = 0xDEAD_BEEF_DEAD_BEEF;
fn out_str(v: usize) -> String {
    if v == SENT { "none".into() } else { v.to_string() }
}
fn changed_after(buf: &[u8], from: usize) -> usize {
    buf[from.min(buf.len())..].iter().filter(|&&x| x != 0xA5).count()
}

/// Makes one call. `slot` names the handle the call may return.
pub fn call(w: &World, o: &Value, slot: &str, log: &mut dyn Log) {
    let id = log.inv();
    let f = s(o, "f").to_string();
    let mut e = o.clone();
    if let Some(m) = e.as_object_mut() {
        m.remove("op");
    }
    let h = o.get("h").map(|h| w.handle(h.as_str().unwrap())).unwrap_or(0);
    if o.get("h").is_some() {
        e["h"] = json!(h.to_string());
    }
    let hp = h as HANDLE;
    let np = b(o, "np");
    let cname = o.get("name").map(|n| CString::new(bytes_of(n)).unwrap());
    let pname = |c: &Option<CString>| if np { std::ptr::null() } else { c.as_ref().unwrap().as_ptr() };
    unsafe {
        match f.as_str() {
            "openA" | "createA" => {
                let p = CString::new(w.path(s(o, "path")).to_str().unwrap()).unwrap();
                let mut out: HANDLE = SENT as HANDLE;
                let pp = if np { std::ptr::null() } else { p.as_ptr() };
                let ok = if f == "openA" { SFileOpenArchive(pp, 0, 0, &mut out) } else { SFileCreateArchive(pp, i(o, "disp") as u32, i(o, "hs") as u32, &mut out) };
                e["ok"] = json!(ok);
                e["out"] = json!(out_str(out as usize));
                if ok {
                    w.slots.lock().unwrap().insert(slot.to_string(), out as usize);
                }
            }
            "closeA" => e["ok"] = json!(SFileCloseArchive(hp)),
            "closeF" => e["ok"] = json!(SFileCloseFile(hp)),
            "openF" => {
                let mut out: HANDLE = SENT as HANDLE;
                let ok = SFileOpenFileEx(hp, pname(&cname), 0, &mut out);
                e["ok"] = json!(ok);
                e["out"] = json!(out_str(out as usize));
                if ok {
                    w.slots.lock().unwrap().insert(slot.to_string(), out as usize);
                }
            }
            "has" => e["ok"] = json!(SFileHasFile(hp, pname(&cname))),
            "read" => {
                let n = i(o, "n").max(0) as usize;
                e["n"] = json!(n);
                let mut buf = vec![0xA5u8; n + 64];
                let mut got: u32 = 0xFFFF_FFFF;
                let hasread = b(o, "hasread");
                let ok = SFileReadFile(
                    hp,
                    if np { std::ptr::null_mut() } else { buf.as_mut_ptr() as *mut c_void },
                    n as u32,
                    if hasread { &mut got } else { std::ptr::null_mut() },
                    std::ptr::null_mut(),
                );
                let got = if !ok || !hasread { 0 } else { got as i64 as i32 as i64 };
                e["ok"] = json!(ok);
                e["got"] = json!(got);
                let end = got.clamp(0, n as i64) as usize;
                e["bytes"] = json!(buf[..end].to_vec());
                e["over"] = json!(if ok && !hasread { changed_after(&buf, n) } else { changed_after(&buf, end) });
            }
            "size" => {
                let mut hi: u32 = 77;
                let hh = b(o, "hashi");
                let r = SFileGetFileSize(hp, if hh { &mut hi } else { std::ptr::null_mut() });
                e["ok"] = json!(r != u32::MAX);
                e["lo"] = json!(r as i32);
                e["hi"] = json!(hi as i32);
            }
            "seek" => {
                let mut hi = i(o, "hi") as i32;
                let hh = b(o, "hashi");
                let r = SFileSetFilePointer(hp, i(o, "lo") as i32, if hh { &mut hi } else { std::ptr::null_mut() }, i(o, "m") as u32);
                e["ok"] = json!(r != u32::MAX);
                e["ret"] = json!(r as i32);
                e["rhi"] = json!(hi);
            }
            "info" => {
                let n = i(o, "n") as usize;
                // alignment as a C caller's variable would have
                let mut words = vec![0xA5A5_A5A5_A5A5_A5A5u64; 16];
                let buf = words.as_mut_ptr() as *mut u8;
                let mut need: u32 = 0x7FFF_FFFF;
                let hn = b(o, "hasneed");
                let nullbuf = np && n > 0;
                e["np"] = json!(nullbuf);
                let ok = SFileGetFileInfo(
                    hp,
                    i(o, "cls") as u32,
                    if np { std::ptr::null_mut() } else { buf as *mut c_void },
                    n as u32,
                    if hn { &mut need } else { std::ptr::null_mut() },
                );
                e["ok"] = json!(ok);
                e["need"] = json!(need);
                let bytes = std::slice::from_raw_parts(buf, 128);
                let width = if [7, 10, 1].contains(&i(o, "cls")) { 8 } else { 4 };
                e["over"] = json!(changed_after(bytes, if ok { width } else { 0 }));
                let v = if !ok { 0 } else if width == 8 { words[0] } else { words[0] & 0xFFFF_FFFF };
                e["val"] = json!(v.min(0x7FFF_FFFF));
            }
            "aname" => {
                // the archive's own path length decides what "too small" means
                let plen = w.path("p0").to_str().unwrap().len() as i64;
                let n = match i(o, "n") {
                    -1 => plen,
                    -2 => plen + 1,
                    -3 => plen + 2,
                    n => n,
                } as usize;
                let mut buf = vec![0xA5u8; n + 64];
                let ok = SFileGetArchiveName(hp, if np { std::ptr::null_mut() } else { buf.as_mut_ptr() as *mut c_char }, n as u32);
                let end = buf.iter().position(|&x| x == 0).map(|p| p + 1).unwrap_or(0);
                let text = if ok { String::from_utf8_lossy(&buf[..end.saturating_sub(1)]).into_owned() } else { String::new() };
                e["ok"] = json!(ok);
                e["n"] = json!(n);
                let id = ["p0", "p1", "p2", "junk", "absent", "nodir"].iter().find(|p| w.path(p).to_str() == Some(&text));
                e["val"] = json!(id.unwrap_or(&"?"));
                e["over"] = json!(changed_after(&buf, if ok { end } else { 0 }));
                let lens: serde_json::Map<String, Value> =
                    ["p0", "p1", "p2", "junk", "absent", "nodir"].iter().map(|p| (p.to_string(), json!(w.path(p).to_str().unwrap().len()))).collect();
                e["plens"] = Value::Object(lens);
            }
            "fname" => {
                let mut buf = vec![0xA5u8; 4096];
                let ok = SFileGetFileName(hp, if np { std::ptr::null_mut() } else { buf.as_mut_ptr() as *mut c_char });
                let end = buf.iter().position(|&x| x == 0).unwrap_or(0);
                e["ok"] = json!(ok);
                e["val"] = json!(if ok { buf[..end].to_vec() } else { vec![] });
            }
            "extract" => {
                let k = w.extracted.fetch_add(1, Ordering::SeqCst);
                let there = b(o, "there");
                // into a directory that may be there, into a new one, or over a longer file
                let dir = if k % 4 == 2 { w.dir.join(format!("out/n{k}")) } else { w.dir.join(format!("out/d{}", k % 3)) };
                let dest = if there { dir.join(format!("x{k}")) } else { w.dir.join(format!("plainfile/x{k}")) };
                let old = vec![0x5Au8; 9000];
                if there && k % 4 == 3 {
                    std::fs::create_dir_all(&dir).unwrap();
                    std::fs::write(&dest, &old).unwrap();
                }
                let c = CString::new(dest.to_str().unwrap()).unwrap();
                let ok = SFileExtractFile(hp, pname(&cname), c.as_ptr(), 0);
                e["ok"] = json!(ok);
                let got = std::fs::read(&dest);
                let lost = there && k % 4 == 3 && got.is_err();
                let got = got.ok().filter(|d| *d != old);
                e["written"] = json!(got.is_some() || lost || (k % 4 == 2 && dir.exists()));
                e["bytes"] = json!(got.unwrap_or_default());
            }
            "verifyF" => e["ok"] = json!(SFileVerifyFile(hp, pname(&cname), i(o, "flags") as u32)),
            "verifyA" => e["ok"] = json!(SFileVerifyArchive(hp, i(o, "flags") as u32)),
            "getErr" => {
                e["ok"] = json!(true);
                e["val"] = json!(SFileGetLastError());
            }
            "setErr" => {
                SFileSetLastError(i(o, "val") as u32);
                e["ok"] = json!(true);
            }
            "getLoc" => {
                e["ok"] = json!(true);
                e["val"] = json!(SFileGetLocale());
            }
            "setLoc" => {
                e["ok"] = json!(true);
                e["val"] = json!(SFileSetLocale(i(o, "new") as u32));
            }
            "enum" => {
                let mask = bytes_of(&o["mask"]);
                let text = match (mask.is_empty(), i(o, "form")) {
                    (true, 0) => None,
                    (true, _) => Some(b"*".to_vec()),
                    // masks that only match at the end keep their leading star, others get both
                    (false, _) if mask == b".txt" => Some([b"*".as_slice(), &mask].concat()),
                    (false, _) => Some([b"*".as_slice(), &mask, b"*"].concat()),
                };
                let c = text.map(|t| CString::new(t).unwrap());
                let nested = o["nested"].as_array().and_then(|a| a.first());
                let (stop, at) = (i(o, "stop"), i(o, "at"));
                let sub = format!("{slot}n");
                let (ok, names) = {
                    let mut run = |x: &Value| call(w, x, &sub, log);
                    let mut st = CbState { names: vec![], stop, at, nested, run: &mut run };
                    let ok = SFileEnumFiles(
                        hp,
                        c.as_ref().map(|c| c.as_ptr()).unwrap_or(std::ptr::null()),
                        std::ptr::null(),
                        if np { None } else { Some(callback) },
                        &mut st as *mut CbState as *mut c_void,
                    );
                    (ok, std::mem::take(&mut st.names))
                };
                for k in ["nested", "at", "form"] {
                    e.as_object_mut().unwrap().remove(k);
                }
                e["cbs"] = json!(names);
                e["ok"] = json!(ok);
            }
            other => panic!("unknown call {other}"),
        }
    }
    e["err"] = json!(SFileGetLastError());
    log.ret(id, e);
}

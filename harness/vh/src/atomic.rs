//! Builds observed and disturbed at every file operation (C04), by means of strace.
use crate::arch::version;
use crate::util::*;
use mopaq::{Archive, ArchiveBuilder, ListfileOption};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

fn file_content(f: &Value) -> Vec<u8> {
    content(s(f, "kind"), i(f, "len") as usize, i(f, "seed") as u64)
}
fn old_archive_bytes() -> Vec<u8> {
    content("text", 777, 3)
}

/// The build itself, in a process of its own: atomic-child <request> <root> <destination>
pub fn child() -> ! {
    let a: Vec<String> = std::env::args().collect();
    let req: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let root = PathBuf::from(&a[3]);
    let dest = PathBuf::from(&a[4]);
    let src = root.join("src");
    let wrong = s(&req, "wrong");
    std::panic::set_hook(Box::new(|_| {}));
    let list = match s(&req, "list") {
        _ if wrong == "extgone" => ListfileOption::External(src.join("no-list")),
        "gen" => ListfileOption::Generate,
        "ext" => ListfileOption::External(src.join("list.txt")),
        _ => ListfileOption::None,
    };
    let mut bld = ArchiveBuilder::new()
        .version(version(i(&req, "ver")))
        .block_size(i(&req, "bs") as u16)
        .generate_crcs(b(&req, "crc"))
        .compress_tables(b(&req, "tcomp"))
        .listfile_option(list);
    for (k, f) in req["files"].as_array().unwrap().iter().enumerate() {
        let name = format!("f{k}.bin");
        let (m, e) = (i(f, "method") as u8, i(f, "enc"));
        bld = if s(f, "src") == "mem" {
            bld.add_file_data_with_encryption(file_content(f), &name, m, e == 2, 0)
        } else {
            bld.add_file_with_encryption(src.join(&name), &name, m, e == 2, 0)
        };
    }
    if s(&req, "dest") == "self" {
        bld = bld.add_file(root.join("d").join("out.mpq"), "self.bin");
    }
    bld = match wrong {
        "dup" => bld.add_file_data(vec![1; 50], "twice.txt").add_file_data(vec![2; 50], "TWICE.TXT"),
        "gone" => bld.add_file(src.join("no-such-file"), "gone.txt"),
        "srcdir" => bld.add_file(&src, "dir.txt"),
        "method" => bld.add_file_data_with_options(vec![7; 900], "imploded.txt", 0x04, false, 0),
        _ => bld,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| bld.build(&dest)));
    std::process::exit(match r {
        Ok(Ok(())) => 0,
        Ok(Err(_)) => 1,
        Err(_) => 3,
    });
}

const CALLS: &str = "open,openat,creat,write,pwrite64,writev,pwritev,pwritev2,ftruncate,truncate,fallocate,copy_file_range,sendfile,fsync,fdatasync,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,lseek,read,pread64,readv,statx,fstat,newfstatat,fchmod,chmod";

struct Call {
    name: String,
    nth: usize,
    args: String,
    ret: i64,
    fds: String,
}

fn parse_log(p: &Path) -> Vec<Call> {
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    let mut v = vec![];
    for line in std::fs::read_to_string(p).unwrap_or_default().lines() {
        let line = line.trim_start_matches(|c: char| c.is_ascii_digit() || c == ' ');
        let Some(open) = line.find('(') else { continue };
        let name = line[..open].to_string();
        if !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
            continue;
        }
        let Some(eq) = line.rfind(") = ") else {
            // entered but not left (killed)
            *n.entry(name).or_default() += 1;
            continue;
        };
        let k = n.entry(name.clone()).or_default();
        *k += 1;
        let args = line[open + 1..eq].to_string();
        let rest = &line[eq + 4..];
        let ret: i64 = rest.split(|c: char| !(c.is_ascii_digit() || c == '-')).next().unwrap_or("").parse().unwrap_or(-1);
        v.push(Call { nth: *k, name, fds: rest.to_string(), args, ret });
    }
    v
}
/// The quoted strings of an argument list.
fn quoted(a: &str) -> Vec<String> {
    a.split('"').skip(1).step_by(2).map(|x| x.to_string()).collect()
}
/// The path of the n-th descriptor shown as 3</path>.
fn fdpath(a: &str, n: usize) -> String {
    a.split('<').skip(1).nth(n).map(|x| x.split('>').next().unwrap_or("").trim_end_matches(" (deleted)").to_string()).unwrap_or_default()
}

struct Bench {
    root: PathBuf,
    d: PathBuf,
    dest: PathBuf,
    req: Value,
    reqfile: PathBuf,
}
type Snap = BTreeMap<PathBuf, Vec<u8>>;

impl Bench {
    fn reset(&self) {
        let _ = std::fs::remove_dir_all(&self.root);
        std::fs::create_dir_all(&self.d).unwrap();
        let src = self.root.join("src");
        std::fs::create_dir_all(&src).unwrap();
        std::fs::write(src.join("list.txt"), b"f0.bin\r\n").unwrap();
        for (k, f) in self.req["files"].as_array().unwrap().iter().enumerate() {
            std::fs::write(src.join(format!("f{k}.bin")), file_content(f)).unwrap();
        }
        for k in 0..i(&self.req, "nb") {
            std::fs::write(self.d.join([".tmpABCDEF", "out.mpq.tmp", "other.mpq"][k as usize]), format!("neighbour {k}")).unwrap();
        }
        match s(&self.req, "dest") {
            "absent" => {}
            "text" => std::fs::write(&self.dest, b"not an archive").unwrap(),
            "longer" => std::fs::write(&self.dest, content("rand", 70000, 9)).unwrap(),
            "dir" => std::fs::create_dir_all(&self.dest).unwrap(),
            "empty" => std::fs::write(&self.dest, b"").unwrap(),
            "ro" => {
                use std::os::unix::fs::PermissionsExt;
                std::fs::write(&self.dest, old_archive_bytes()).unwrap();
                std::fs::set_permissions(&self.dest, std::fs::Permissions::from_mode(0o444)).unwrap();
            }
            _ => std::fs::write(&self.dest, old_archive_bytes()).unwrap(),
        }
    }
    fn snap(&self) -> Snap {
        let mut m = Snap::new();
        for sub in ["d", "src"] {
            for e in std::fs::read_dir(self.root.join(sub)).unwrap().flatten() {
                let p = e.path();
                let c = if p.is_dir() { b"<dir>".to_vec() } else { std::fs::read(&p).unwrap_or_default() };
                m.insert(p, c);
            }
        }
        m
    }
    /// The destination is the complete new archive.
    fn complete(&self) -> bool {
        let Ok(Ok(mut a)) = guarded(|| Archive::open(&self.dest)) else { return false };
        for (k, f) in self.req["files"].as_array().unwrap().iter().enumerate() {
            if !matches!(guarded(|| a.read_file(&format!("f{k}.bin"))), Ok(Ok(x)) if x == file_content(f)) {
                return false;
            }
        }
        if s(&self.req, "dest") == "self" && !matches!(guarded(|| a.read_file("self.bin")), Ok(Ok(x)) if x == old_archive_bytes()) {
            return false;
        }
        if s(&self.req, "list") != "none" && !matches!(guarded(|| a.read_file("(listfile)")), Ok(Ok(_))) {
            return false;
        }
        true
    }
    fn run(&self, inject: &[String]) -> (Option<i32>, Vec<Call>) {
        let log = self.root.with_extension("log");
        let mut c = Command::new("strace");
        c.args(["-f", "-y", "-s", "4096", "-qq", "-o"]).arg(&log).arg("-e").arg(format!("trace={CALLS}"));
        for x in inject {
            c.arg("-e").arg(x);
        }
        c.arg(std::env::current_exe().unwrap()).arg("atomic-child").arg(&self.reqfile).arg(&self.root);
        c.arg(if b(&self.req, "rel") { PathBuf::from(self.dest.strip_prefix(&self.d).unwrap()) } else { self.dest.clone() });
        c.current_dir(&self.d).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).env_remove("LD_LIBRARY_PATH");
        let st = c.status().expect("strace");
        let calls = parse_log(&log);
        let _ = std::fs::remove_file(&log);
        (st.code(), calls)
    }
    fn abs(&self, p: &str) -> PathBuf {
        let p = Path::new(p);
        let mut out = PathBuf::new();
        for c in self.d.join(p).components() {
            match c {
                std::path::Component::CurDir => {}
                c => out.push(c),
            }
        }
        out
    }
    fn class(&self, p: &str, before: &Snap) -> String {
        let a = self.abs(p);
        if a == self.dest {
            "dest".into()
        } else if before.contains_key(&a) || !a.starts_with(&self.d) {
            "other".into()
        } else {
            format!("tmp:{}", a.file_name().map(|x| x.to_string_lossy().into_owned()).unwrap_or_default())
        }
    }
    fn relevant(&self, c: &Call) -> bool {
        let q = quoted(&c.args);
        let by_path = ["open", "creat", "rename", "link", "unlink", "symlink", "truncate", "statx", "newfstatat", "chmod"].iter().any(|n| c.name.starts_with(n));
        if by_path && !q.is_empty() && !q[0].is_empty() {
            q.iter().any(|p| self.abs(p).starts_with(&self.root))
        } else {
            !by_path && (0..2).any(|n| Path::new(&fdpath(&c.args, n)).starts_with(&self.root))
        }
    }

    fn events(&self, calls: &[Call], before: &Snap, tr: &mut Tr) {
        let mut dest_exists = before.contains_key(&self.dest);
        for c in calls {
            if c.ret < 0 || c.fds.contains("INJECTED") && c.fds.starts_with('-') {
                continue;
            }
            let q = quoted(&c.args);
            let other = |x: &str| x == "other";
            match c.name.as_str() {
                "open" | "openat" | "creat" => {
                    let Some(p) = q.first() else { continue };
                    let cl = self.class(p, before);
                    let creates = c.args.contains("O_CREAT") || c.name == "creat";
                    let truncs = c.args.contains("O_TRUNC") || c.name == "creat";
                    if other(&cl) || !(truncs || creates && (cl != "dest" || !dest_exists)) {
                        continue;
                    }
                    tr.ev(json!({"ev":"create","path":cl}));
                }
                "write" | "pwrite64" | "writev" | "pwritev" | "pwritev2" | "ftruncate" | "fallocate" => {
                    let cl = self.class(&fdpath(&c.args, 0), before);
                    if !other(&cl) {
                        tr.ev(json!({"ev":"write","path":cl}));
                    }
                }
                "copy_file_range" | "sendfile" => {
                    let cl = self.class(&fdpath(&c.args, if c.name == "sendfile" { 0 } else { 1 }), before);
                    if !other(&cl) {
                        tr.ev(json!({"ev":"write","path":cl}));
                    }
                }
                "truncate" => {
                    let cl = self.class(&q[0], before);
                    if !other(&cl) {
                        tr.ev(json!({"ev":"write","path":cl}));
                    }
                }
                "rename" | "renameat" | "renameat2" | "link" | "linkat" | "symlink" | "symlinkat" => {
                    if q.len() < 2 {
                        continue;
                    }
                    let (f, t) = (self.class(&q[0], before), self.class(&q[1], before));
                    if t == "dest" {
                        dest_exists = true;
                    }
                    tr.ev(json!({"ev":"rename","from":f,"to":t}));
                }
                "unlink" | "unlinkat" => {
                    let cl = self.class(&q[0], before);
                    if !other(&cl) {
                        tr.ev(json!({"ev":"unlink","path":cl}));
                    }
                }
                _ => {}
            }
        }
    }

    fn trial(&self, inject: &[String], what: &str, tr: &mut Tr) -> Vec<Call> {
        self.reset();
        let before = self.snap();
        let (code, calls) = self.run(inject);
        let wrong = s(&self.req, "wrong") != "" || s(&self.req, "dest") == "dir";
        tr.ev(json!({"ev":"begin","before":s(&self.req,"dest"),"fault":what,"ver":i(&self.req,"ver")}));
        self.events(&calls, &before, tr);
        let after = self.snap();
        let res = match code {
            Some(0) => "ok",
            Some(1) => "err",
            Some(3) => "panic",
            None | Some(137) => "killed",
            Some(c) => {
                eprintln!("strace or child ended with {c} under {what} {}", self.req);
                std::process::exit(2)
            }
        };
        let dest = if after.get(&self.dest) == before.get(&self.dest) { "before" } else if self.complete() { "new" } else { "broken" };
        let others = before.iter().all(|(p, c)| *p == self.dest || after.get(p) == Some(c));
        let left = after.keys().filter(|p| !before.contains_key(*p) && **p != self.dest).count();
        tr.ev(json!({"ev":"end","res":res,"dest":dest,"others":others,"left":left,"mustfail":wrong,"mustok":inject.is_empty() && !wrong}));
        calls
    }
}

pub fn run(_k: usize, sc: &Value, dir: &Path, tr: &mut Tr, limit: usize) {
    let req = sc[0].clone();
    let root = dir.join("w");
    let d = root.join("d");
    let dest = if s(&req, "wrong") == "noparent" { d.join("missing").join("out.mpq") } else { d.join("out.mpq") };
    let reqfile = dir.join("req.json");
    std::fs::write(&reqfile, req.to_string()).unwrap();
    let mut req = req;
    if s(&req, "wrong") == "noparent" {
        req["dest"] = json!("absent");
        std::fs::write(&reqfile, req.to_string()).unwrap();
    }
    let bench = Bench { root, d, dest, req, reqfile };
    let calls = bench.trial(&[], "", tr);
    // one trial per operation and fault
    let mut faults: Vec<String> = vec![];
    for c in calls.iter().filter(|c| bench.relevant(c)) {
        let n = c.nth;
        let nm = &c.name;
        let e = |x: &str| format!("inject={nm}:error={x}:when={n}");
        match nm.as_str() {
            "write" | "pwrite64" | "writev" | "pwritev" => {
                faults.push(e("EIO"));
                faults.push(format!("inject={nm}:error=ENOSPC:when={n}+"));
                faults.push(e("EINTR"));
            }
            "open" | "openat" | "creat" => {
                faults.push(e("EACCES"));
                faults.push(e("ENOSPC"));
            }
            "rename" | "renameat" | "renameat2" | "link" | "linkat" => {
                faults.push(e("EACCES"));
                faults.push(e("EIO"));
                faults.push(e("ENOSPC"));
            }
            "unlink" | "unlinkat" => continue,
            "read" | "pread64" | "readv" => {
                faults.push(e("EIO"));
                continue;
            }
            "lseek" | "ftruncate" | "fsync" | "fdatasync" | "fallocate" => faults.push(e("EIO")),
            _ => {
                faults.push(e("EIO"));
                continue;
            }
        }
        faults.push(format!("inject={nm}:signal=SIGKILL:when={n}"));
    }
    if faults.len() > limit {
        // keep a spread, and everything about renames
        let mut r = Rng::new(i(&bench.req, "nb") as u64 + faults.len() as u64);
        let (mut keep, mut rest): (Vec<String>, Vec<String>) = faults.into_iter().partition(|f| f.contains("rename") || f.contains("link"));
        while keep.len() < limit && !rest.is_empty() {
            let k = r.below(rest.len() as u64) as usize;
            keep.push(rest.swap_remove(k));
        }
        faults = keep;
    }
    for f in &faults {
        bench.trial(std::slice::from_ref(f), f, tr);
    }
}

//! Sessions of the command line tool in a scratch tree, run as an unprivileged user (C13, C14).
use crate::arch::version;
use crate::integ::{u32at, u64at};
use crate::util::*;
use mopaq::{Archive, ArchiveBuilder, ListfileOption};
use serde_json::{json, Value};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const NOBODY: u32 = 65534;

fn cps(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn own(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        libc::lchown(c.as_ptr(), NOBODY, NOBODY);
    }
}
fn walk(dir: &Path, at: &mut Vec<String>, out: &mut Vec<Value>, lens: &mut Vec<Value>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).collect();
    es.sort_by_key(|e| e.file_name());
    for e in es {
        at.push(e.file_name().to_string_lossy().into_owned());
        let path = json!(at.iter().map(|c| cps(c)).collect::<Vec<_>>());
        let t = e.file_type().unwrap();
        if t.is_dir() {
            out.push(json!([path, "dir"]));
            walk(&e.path(), at, out, lens);
        } else if t.is_file() {
            let d = std::fs::read(e.path()).unwrap();
            out.push(json!([path, md5hex(&d)]));
            lens.push(json!([path, d.len()]));
        } else {
            out.push(json!([path, "other"]));
        }
        at.pop();
    }
}
fn comps(p: &str) -> Value {
    json!(p.split('/').filter(|c| !c.is_empty()).map(cps).collect::<Vec<_>>())
}

struct Ctx<'a> {
    exe: &'a Path,
    base: PathBuf,
    root: PathBuf,
    cwd: PathBuf,
    names: Vec<String>,
}
struct Done {
    exit: i64,
    out: String,
    said: bool,
}
impl Ctx<'_> {
    fn run(&self, args: &[String]) -> Done {
        let mut c = Command::new(self.exe);
        c.args(args).current_dir(&self.cwd).env_clear().env("HOME", self.base.join("home")).env("PATH", "/usr/bin:/bin").env("LANG", "C.UTF-8").env("NO_COLOR", "1");
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c.gid(NOBODY).uid(NOBODY);
        let o = match c.output() {
            Ok(o) => o,
            Err(e) => {
                eprintln!("cannot run the tool as an unprivileged user: {e}");
                std::process::exit(2);
            }
        };
        use std::os::unix::process::ExitStatusExt;
        let exit = o.status.code().map(|c| c as i64).unwrap_or_else(|| -(o.status.signal().unwrap_or(1) as i64));
        Done { exit, out: String::from_utf8_lossy(&o.stdout).into_owned(), said: !o.stderr.is_empty() }
    }
    fn tree(&self) -> (Value, Value) {
        let (mut t, mut l) = (vec![], vec![]);
        walk(&self.root, &mut vec![], &mut t, &mut l);
        (json!(t), json!(l))
    }
    fn arc(&self) -> PathBuf {
        self.root.join("a.mpq")
    }
    fn arg_arc(&self) -> String {
        self.arc().to_str().unwrap().to_string()
    }
}

fn regex_of(p: &Value, fold_flag: bool) -> String {
    let _ = fold_flag;
    let mut r = String::new();
    if b(p, "from") {
        r.push('^');
    }
    for t in p["toks"].as_array().unwrap() {
        let esc = |c: char| if c.is_ascii() && !c.is_ascii_alphanumeric() && c != ' ' && c != '/' && c != '\'' && c != '%' && c != ';' { format!("\\{c}") } else { c.to_string() };
        let cs: Vec<String> = t["cs"].as_array().unwrap().iter().map(|c| esc(char::from_u32(c.as_u64().unwrap() as u32).unwrap())).collect();
        match s(t, "t") {
            "lit" if cs.len() == 1 => r.push_str(&cs[0]),
            "lit" => r.push_str(&format!("[{}]", cs.join(""))),
            "not" => r.push_str(&format!("[^{}]", cs.join(""))),
            _ => r.push('.'),
        }
        let rep = s(t, "rep");
        if rep != "1" {
            r.push_str(rep);
        }
    }
    if b(p, "to") {
        r.push('$');
    }
    r
}
/// None: the tokens would put two stars side by side, which is not a valid glob
fn glob_of(p: &Value) -> Option<String> {
    let mut r = String::new();
    let mut star = false;
    for t in p["toks"].as_array().unwrap() {
        let cs: Vec<char> = t["cs"].as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
        let is_star = s(t, "t") == "any" && s(t, "rep") == "*";
        if is_star && star {
            return None;
        }
        star = is_star;
        match s(t, "t") {
            "any" => r.push(if is_star { '*' } else { '?' }),
            "lit" if cs.len() == 1 && "*?[".contains(cs[0]) => r.push_str(&format!("[{}]", cs[0])),
            "lit" if cs.len() == 1 => r.push(cs[0]),
            "lit" => r.push_str(&format!("[{}]", cs.iter().collect::<String>())),
            _ => r.push_str(&format!("[!{}]", cs.iter().collect::<String>())),
        }
    }
    Some(r)
}
fn pat_text(p: &Value) -> Option<String> {
    if b(p, "regex") {
        Some(regex_of(&p["pat"], false))
    } else {
        glob_of(&p["pat"])
    }
}

/// What the library makes of the archive as it is now.
fn observe(path: &Path) -> Value {
    let r = guarded(|| -> Option<Value> {
        let mut a = Archive::open(path).ok()?;
        let described = a.get_info().is_ok();
        let named = matches!(a.find_file("(listfile)"), Ok(Some(_)));
        let Ok(es) = a.list() else {
            return Some(json!({"opens": true, "described": described, "lists": false, "named": named, "view": []}));
        };
        let mut view = vec![];
        if named {
            for e in es {
                let d = a.read_file(&e.name).map(|d| md5hex(&d)).unwrap_or_else(|_| "bad".into());
                view.push(json!([cps(&e.name), d]));
            }
        }
        Some(json!({"opens": true, "described": described, "lists": true, "named": named, "view": view}))
    });
    match r {
        Ok(Some(v)) => v,
        _ => json!({"opens": false, "described": false, "lists": false, "named": false, "view": []}),
    }
}
/// The bytes of a version 4 archive its header records digests of.
fn region(raw: &[u8], area: &str) -> Option<(usize, usize)> {
    if raw.len() < 32 {
        return None;
    }
    let ver = u16::from_le_bytes([raw[12], raw[13]]);
    let r = |p: u64, n: u64| Some((p as usize, (p + n) as usize));
    match area {
        "header" => r(0, if ver == 3 { 208 } else { 32 }),
        "hash" => r(u32at(raw, 16), if ver == 3 { u64at(raw, 68) } else { 16 * u32at(raw, 24) }),
        "block" => r(u32at(raw, 20), if ver == 3 { u64at(raw, 76) } else { 16 * u32at(raw, 28) }),
        "het" if ver == 3 => r(u64at(raw, 60), u64at(raw, 92)),
        "bet" if ver == 3 => r(u64at(raw, 52), u64at(raw, 100)),
        _ => None,
    }
    .filter(|(a, b)| a < b && *b <= raw.len())
}

pub fn run(k: usize, sc: &Value, exe: &Path, scratch: &Path, tr: &mut Tr) {
    let base = scratch.join(format!("r{k}"));
    let root = base.join("root");
    let cwd = root.join("d1/d2/d3/w");
    std::fs::create_dir_all(&cwd).unwrap();
    std::fs::create_dir_all(base.join("home")).unwrap();
    let mut c = Ctx { exe, base: base.clone(), root: root.clone(), cwd, names: vec![] };
    session(k, sc, &mut c, tr);
    std::fs::remove_dir_all(&base).ok();
}

fn session(k: usize, sc: &Value, c: &mut Ctx, tr: &mut Tr) {
    let root = c.root.clone();
    let mut whole: Option<Vec<u8>> = None;
    let mut serial = 0;
    for op in sc.as_array().unwrap() {
        serial += 1;
        match s(op, "op") {
            "tree" => {
                let src = root.join("src");
                std::fs::create_dir_all(&src).unwrap();
                let put = |p: PathBuf, body: &Value| {
                    if std::fs::create_dir_all(p.parent().unwrap()).is_ok() && !p.is_dir() {
                        std::fs::write(&p, content(s(body, "kind"), i(body, "len") as usize, i(body, "seed") as u64)).ok();
                    }
                };
                for f in op["files"].as_array().unwrap() {
                    let mut p = src.clone();
                    for x in f["path"].as_array().unwrap() {
                        p.push(text(x));
                    }
                    put(p, &f["body"]);
                }
                for (at, body) in ["d1/secret", "d1/d2/x.txt", "d1/d2/d3/a", "d1/d2/d3/w/b"].iter().zip(op["around"].as_array().unwrap()) {
                    put(root.join(at), body);
                }
                for e in [&root, &root.join("d1"), &root.join("d1/d2"), &root.join("d1/d2/d3"), &c.cwd, &src] {
                    own(e);
                }
                own(&c.base.join("home"));
                chown_all(&root);
                tr.ev(json!({"ev":"begin","run":k,"tree":c.tree().0}));
            }
            "create" => {
                let (_, lens) = c.tree();
                let files: Vec<&Value> = lens.as_array().unwrap().iter().filter(|x| text(&x[0][0]) == "src").collect();
                let pathtext = |v: &Value| v.as_array().unwrap().iter().map(text).collect::<Vec<_>>().join("/");
                let (src, path) = match s(op, "src") {
                    "file" if !files.is_empty() => (files[serial % files.len()][0].clone(), pathtext(&files[serial % files.len()][0])),
                    "sub" if files.iter().any(|f| f[0].as_array().unwrap().len() > 2) => {
                        let f = files.iter().find(|f| f[0].as_array().unwrap().len() > 2).unwrap();
                        let v = json!([f[0][0], f[0][1]]);
                        let t = pathtext(&v);
                        (v, t)
                    }
                    "gone" => (comps("src/not there"), "src/not there".into()),
                    _ => (comps("src"), "src".into()),
                };
                let given = if b(op, "rel") { format!("../../../../{path}") } else { format!("{}/{path}", root.display()) };
                let mut a: Vec<String> = vec![];
                let stored = b(op, "stored");
                let cfg = b(op, "cfg") && !stored;
                if cfg {
                    let cfg = c.base.join("home/cfg.toml");
                    std::fs::write(&cfg, format!("default_compression = \"{}\"\ndefault_version = {}\ndefault_block_size = {}\n", s(op, "method"), i(op, "ver"), i(op, "bs"))).unwrap();
                    a.extend(["-C".into(), cfg.to_str().unwrap().to_string()]);
                }
                a.extend(["archive".into(), "create".into()]);
                if !cfg && !stored {
                    a.extend(["-V".into(), i(op, "ver").to_string(), "-c".into(), s(op, "method").into(), "-b".into(), i(op, "bs").to_string()]);
                }
                if !b(op, "deep") {
                    a.push("--no-recursive".into());
                }
                if s(op, "list") == "none" {
                    a.push("--no-listfile".into());
                }
                let mut ign = vec![];
                for g in op["ignore"].as_array().unwrap() {
                    let glob = b(g, "glob");
                    let t = if glob { glob_of(&g["pat"]) } else { Some(text(&g["text"])) };
                    let Some(t) = t else { continue };
                    a.push(format!("--ignore={t}"));
                    ign.push(json!({"glob": glob, "text": cps(&t), "pat": g["pat"]}));
                }
                a.extend(["--".into(), c.arg_arc(), given]);
                let d = c.run(&a);
                let (tree, _) = c.tree();
                if d.exit == 0 {
                    whole = std::fs::read(c.arc()).ok();
                    c.names = files.iter().map(|f| {
                        let p = f[0].as_array().unwrap();
                        let skip = if s(op, "src") == "file" { p.len() - 1 } else { src.as_array().unwrap().len().min(p.len() - 1) };
                        p[skip..].iter().map(text).collect::<Vec<_>>().join("/")
                    }).collect();
                }
                tr.ev(json!({"ev":"create","run":k,"src":src,"deep":b(op,"deep"),"stored":stored,"ver":i(op,"ver"),"bs":i(op,"bs"),"list":s(op,"list"),"ignore":ign,"lens":lens,"exit":d.exit,"tree":tree,"args":a}));
            }
            "config" => {
                let mut a: Vec<String> = vec!["config".into(), s(op, "act").into()];
                if s(op, "act") == "set" {
                    a.extend(["--".into(), s(op, "key").into(), s(op, "val").into()]);
                }
                let d = c.run(&a);
                let show = c.run(&["config".into(), "show".into()]);
                let mut shown = json!({"default_compression":"","default_version":"","default_block_size":"","default_output":""});
                for l in show.out.lines() {
                    if let Some((x, v)) = l.trim().split_once(": ") {
                        let x = x.to_lowercase().replace(' ', "_");
                        if shown.get(&x).is_some() {
                            shown[x] = json!(v);
                        }
                    }
                }
                tr.ev(json!({"ev":"config","run":k,"act":s(op,"act"),"key":s(op,"key"),"val":s(op,"val"),"exit":d.exit,"shown":shown,"tree":c.tree().0,"args":a}));
            }
            "put" => {
                let mut bld = ArchiveBuilder::new().version(version(i(op, "ver"))).block_size(i(op, "bs") as u16).generate_crcs(b(op, "crc"))
                    .compress_tables(b(op, "tcomp")).listfile_option(ListfileOption::Generate);
                let mut rec: Vec<Value> = vec![];
                let mut names: Vec<String> = vec![];
                for f in op["files"].as_array().unwrap() {
                    let mut n = f["parts"].as_array().unwrap().iter().map(text).collect::<Vec<_>>().join(s(f, "sep"));
                    match s(f, "lead") {
                        "abs" => n = format!("{}/{}", root.display(), n),
                        l => n = format!("{l}{n}"),
                    }
                    if b(f, "trail") {
                        n.push('/');
                    }
                    let fold = |x: &str| x.to_ascii_uppercase().replace('/', "\\");
                    if n.is_empty() || names.iter().any(|m| fold(m) == fold(&n)) || fold(&n) == "(LISTFILE)" {
                        continue;
                    }
                    let body = &f["body"];
                    let data = content(s(body, "kind"), i(body, "len") as usize, i(body, "seed") as u64);
                    rec.push(json!({"name": cps(&n), "d": md5hex(&data), "len": data.len()}));
                    bld = match i(op, "enc") {
                        0 => bld.add_file_data_with_options(data, &n, i(op, "method") as u8, false, 0),
                        e => bld.add_file_data_with_encryption(data, &n, i(op, "method") as u8, e == 2, 0),
                    };
                    names.push(n);
                }
                if names.is_empty() {
                    continue;
                }
                if bld.build(c.arc()).is_err() {
                    continue;
                }
                own(&c.arc());
                c.names = names;
                whole = std::fs::read(c.arc()).ok();
                tr.ev(json!({"ev":"put","run":k,"files":rec,"list":"gen","ver":i(op,"ver"),"bs":i(op,"bs"),"tree":c.tree().0}));
            }
            "damage" => {
                let Some(raw) = whole.clone() else { continue };
                let mut r = Rng::new(i(op, "seed") as u64);
                let mut cur = raw.clone();
                let area = s(op, "area");
                let at = i(op, "at") as usize;
                let mut changed = false;
                let mut digested = false;
                match area {
                    "trunc" => cur.truncate(at * raw.len() / 10000),
                    "junk" => cur = content("rand", 2000, i(op, "seed") as u64),
                    "gone" => {}
                    _ => {
                        let reg = region(&raw, area).unwrap_or((32.min(raw.len()), raw.len()));
                        digested = region(&raw, area).is_some() && u16::from_le_bytes([raw[12], raw[13]]) == 3;
                        let n = (i(op, "n") as usize).min(reg.1 - reg.0);
                        let p = reg.0 + at * (reg.1 - reg.0 - n) / 10000;
                        for x in cur[p..p + n].iter_mut() {
                            *x = r.next() as u8;
                        }
                        changed = cur != raw;
                        // a hit meant for the data may lie in a table
                        if !digested && u16::from_le_bytes([raw[12], raw[13]]) == 3 {
                            digested = ["header", "hash", "block", "het", "bet"].iter().filter_map(|a| region(&raw, a)).any(|(x, y)| (x..y).any(|q| cur[q] != raw[q]));
                        }
                    }
                }
                if area == "gone" {
                    std::fs::remove_file(c.arc()).ok();
                } else {
                    std::fs::write(c.arc(), &cur).unwrap();
                    own(&c.arc());
                }
                let obs = observe(&c.arc());
                tr.ev(json!({"ev":"damage","run":k,"region":if digested {"digested"} else {"other"},"area":area,"changed":changed,"obs":obs,"tree":c.tree().0}));
            }
            "restore" => {
                let Some(raw) = whole.clone() else { continue };
                std::fs::write(c.arc(), &raw).unwrap();
                own(&c.arc());
                tr.ev(json!({"ev":"restore","run":k,"tree":c.tree().0}));
            }
            "list" => {
                let form = s(op, "form");
                let p = &op["pat"];
                let pt = if b(p, "on") { pat_text(p) } else { None };
                if b(p, "on") && pt.is_none() {
                    continue;
                }
                let mut a: Vec<String> = vec![];
                match form {
                    "json" => a.extend(["-o".into(), "json".into()]),
                    "long" => a.push(if serial % 2 == 0 { "-v".into() } else { "-vv".into() }),
                    _ => {}
                }
                a.extend([if b(op, "alias") { "archive".into() } else { "file".into() }, "list".into()]);
                if b(op, "all") {
                    a.push("--all".into());
                }
                if b(op, "hashes") && form != "text" {
                    a.push("--show-hashes".into());
                }
                if let Some(t) = pt {
                    a.push(format!("--pattern={t}"));
                    if b(p, "regex") {
                        a.push("--regex".into());
                    }
                }
                a.extend(["--".into(), c.arg_arc()]);
                let d = c.run(&a);
                let names: Vec<Value> = if form == "json" {
                    serde_json::from_str::<Value>(&d.out).ok().and_then(|v| v.as_array().map(|x| x.iter().map(|e| cps(e.as_str().or(e["name"].as_str()).unwrap_or("?"))).collect())).unwrap_or_default()
                } else {
                    vec![]
                };
                let lines: Vec<Value> = if form == "text" { d.out.lines().map(cps).collect() } else { vec![] };
                tr.ev(json!({"ev":"list","run":k,"form":form,"all":b(op,"all"),"pat":p,"exit":d.exit,"names":names,"lines":lines,"tree":c.tree().0,"args":a}));
            }
            "find" => {
                let p = &op["pat"];
                let Some(t) = pat_text(p) else { continue };
                let mut a: Vec<String> = vec!["-q".into(), "file".into(), "find".into()];
                if b(p, "regex") {
                    a.push("-r".into());
                }
                if b(&p["pat"], "fold") {
                    a.push("-i".into());
                }
                a.extend(["--".into(), c.arg_arc(), t]);
                let d = c.run(&a);
                tr.ev(json!({"ev":"find","run":k,"pat":p,"exit":d.exit,"lines":d.out.lines().map(cps).collect::<Vec<_>>(),"tree":c.tree().0,"args":a}));
            }
            "ainfo" => {
                let a: Vec<String> = vec!["-o".into(), "json".into(), "archive".into(), "info".into(), c.arg_arc()];
                let d = c.run(&a);
                let v: Value = serde_json::from_str(&d.out).unwrap_or(json!({}));
                tr.ev(json!({"ev":"ainfo","run":k,"exit":d.exit,"ver":v["format_version"].as_i64().unwrap_or(-1),"sector":v["sector_size"].as_i64().unwrap_or(-1),"count":v["file_count"].as_i64().unwrap_or(-1),"tree":c.tree().0}));
            }
            "info" => {
                let n = variant(c, op);
                let a: Vec<String> = vec!["-o".into(), "json".into(), "file".into(), "info".into(), "--".into(), c.arg_arc(), n.clone()];
                let d = c.run(&a);
                let v: Value = serde_json::from_str(&d.out).unwrap_or(json!({}));
                tr.ev(json!({"ev":"info","run":k,"name":cps(&n),"exit":d.exit,"size":v["size"].as_i64().unwrap_or(-1),"tree":c.tree().0,"args":a}));
            }
            "verify" => {
                let mut a: Vec<String> = vec!["-o".into(), s(op, "form").into(), "archive".into(), "verify".into()];
                if b(op, "loud") {
                    a.push("-v".into());
                }
                if b(op, "contents") {
                    a.push("--check-contents".into());
                }
                if b(op, "crc") {
                    a.push("--check-crc".into());
                }
                a.extend(["--".into(), c.arg_arc()]);
                let d = c.run(&a);
                tr.ev(json!({"ev":"verify","run":k,"contents":b(op,"contents"),"exit":d.exit,"tree":c.tree().0,"args":a}));
            }
            "extract" => {
                let (t, given) = match s(op, "to") {
                    "here" => ("d1/d2/d3/w".to_string(), None),
                    "new" => (format!("d1/d2/d3/w/new{serial}/er"), Some(format!("new{serial}/er"))),
                    "abs" => ("d1/d2/d3/w/o2".to_string(), Some(format!("{}/d1/d2/d3/w/o2", root.display()))),
                    _ => ("d1/d2/d3/w/out".to_string(), Some("out".to_string())),
                };
                let mut a: Vec<String> = vec![];
                if b(op, "quiet") {
                    a.push("-q".into());
                }
                a.extend(["file".into(), "extract".into()]);
                if b(op, "keep") {
                    a.push("-p".into());
                }
                if let Some(g) = given {
                    a.extend(["-t".into(), g]);
                }
                a.extend(["--".into(), c.arg_arc()]);
                let d = c.run(&a);
                tr.ev(json!({"ev":"extract","run":k,"target":comps(&t),"keep":b(op,"keep"),"exit":d.exit,"said":d.said,"tree":c.tree().0,"args":a}));
            }
            "extract1" => {
                let n = variant(c, op);
                let to = s(op, "to");
                let plain = !n.starts_with('/') && n.split('/').all(|x| x != ".." && x != "." && !x.is_empty()) && !n.contains('\\');
                let keep = b(op, "keep") && plain;
                let w = "d1/d2/d3/w";
                let (kind, t, given) = match to {
                    "file" => ("file", format!("{w}/one{serial}/f.bin"), Some(format!("one{serial}/f.bin"))),
                    "slash" => ("dir", format!("{w}/sl{serial}"), Some(format!("sl{serial}/"))),
                    "dir" => ("dir", "d1/d2".into(), Some("../../../d2".to_string())),
                    _ => ("here", w.to_string(), None),
                };
                let mut a: Vec<String> = vec!["file".into(), "extract".into()];
                if keep {
                    a.push("-p".into());
                }
                if let Some(g) = given {
                    a.extend(["-t".into(), g]);
                }
                a.extend(["--".into(), c.arg_arc(), n.clone()]);
                let d = c.run(&a);
                tr.ev(json!({"ev":"extract1","run":k,"name":cps(&n),"to":kind,"target":comps(&t),"keep":keep,"exit":d.exit,"said":d.said,"tree":c.tree().0,"args":a}));
            }
            other => panic!("unknown operation {other}"),
        }
    }
}

fn variant(c: &Ctx, op: &Value) -> String {
    if c.names.is_empty() {
        return "nothing".into();
    }
    // a NUL cannot be typed
    let ok: Vec<&String> = c.names.iter().filter(|n| !n.contains('\0')).collect();
    if ok.is_empty() {
        return "nothing".into();
    }
    let n = ok[i(op, "pick") as usize % ok.len()];
    match s(op, "how") {
        "case" => n.chars().map(|x| if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() }).collect(),
        "slash" => n.replace('/', "\\"),
        "other" => format!("{n}.not"),
        _ => n.clone(),
    }
}

fn chown_all(p: &Path) {
    own(p);
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap() {
            chown_all(&e.unwrap().path());
        }
    }
}

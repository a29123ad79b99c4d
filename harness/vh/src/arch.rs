//! Runs archive scenarios (ArchiveGen) against the library and records what it answers.
use crate::util::*;
use mopaq::{Archive, ArchiveBuilder, Error, FileEntry, FormatVersion, ListfileOption, OpenOptions};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub fn version(v: i64) -> FormatVersion {
    match v {
        1 => FormatVersion::V1,
        2 => FormatVersion::V2,
        3 => FormatVersion::V3,
        _ => FormatVersion::V4,
    }
}
pub fn version_num(v: FormatVersion) -> i64 {
    match v {
        FormatVersion::V1 => 1,
        FormatVersion::V2 => 2,
        FormatVersion::V3 => 3,
        FormatVersion::V4 => 4,
    }
}

pub fn builder_of(cfg: &Value, dir: &Path) -> ArchiveBuilder {
    let list = match s(cfg, "list") {
        "gen" => ListfileOption::Generate,
        "none" => ListfileOption::None,
        "ext" => {
            let p = dir.join("ext.txt");
            std::fs::write(&p, b"readme.txt\r\nx1\r\n(listfile)\r\n").unwrap();
            ListfileOption::External(p)
        }
        _ => ListfileOption::External(dir.join("does-not-exist.txt")),
    };
    ArchiveBuilder::new()
        .version(version(i(cfg, "ver")))
        .block_size(i(cfg, "bs") as u16)
        .default_compression(i(cfg, "def") as u8)
        .generate_crcs(b(cfg, "crc"))
        .compress_tables(b(cfg, "tcomp"))
        .table_compression(i(cfg, "tmethod") as u8)
        .listfile_option(list)
}

/// Adds the file an "add" operation describes.
pub fn add_to(bld: ArchiveBuilder, op: &Value, data: Vec<u8>, dir: &Path, k: usize) -> ArchiveBuilder {
    let name = name_of(&op["name"]);
    let (m, e, loc) = (i(op, "method") as u8, i(op, "enc"), i(op, "loc") as u16);
    let p = dir.join(format!("src{k}"));
    match s(op, "src") {
        "mem" => match s(op, "api") {
            "plain" => bld.add_file_data(data, &name),
            "opt" => bld.add_file_data_with_options(data, &name, m, e > 0, loc),
            _ => bld.add_file_data_with_encryption(data, &name, m, e == 2, loc),
        },
        src => {
            if src == "disk" {
                std::fs::write(&p, &data).unwrap();
            }
            match s(op, "api") {
                "plain" => bld.add_file(&p, &name),
                "opt" => bld.add_file_with_options(&p, &name, m, e > 0, loc),
                _ => bld.add_file_with_encryption(&p, &name, m, e == 2, loc),
            }
        }
    }
}

pub fn item(e: &FileEntry) -> Value {
    json!({"name": jname(&e.name), "size": e.size, "csize": e.compressed_size, "enc": e.is_encrypted(), "fix": e.has_fix_key(),
           "comp": e.is_compressed(), "crc": e.has_sector_crc(),
           "h": e.hashes.map(|(a, b)| json!([word(a), word(b)])).unwrap_or(json!([]))})
}

pub fn read_event(h: i64, name: &str, r: Result<Result<Vec<u8>, Error>, String>) -> Value {
    let islist = name.eq_ignore_ascii_case("(listfile)");
    match r {
        Ok(Ok(d)) => {
            let has = islist && d.len() <= 3000;
            json!({"ev":"read","h":h,"name":jname(name),"res":"ok","len":d.len(),"dig":md5hex(&d),"sig":md5hex(&d),
                   "hastext":has,"text": if has {json!(d)} else {json!([])}})
        }
        Ok(Err(e)) => {
            let res = if matches!(e, Error::FileNotFound(_)) { "notfound" } else { "err" };
            json!({"ev":"read","h":h,"name":jname(name),"res":res,"sig":format!("{e:?}"),"len":0,"dig":"","hastext":false,"text":[],"msg":e.to_string()})
        }
        Err(p) => json!({"ev":"read","h":h,"name":jname(name),"res":"panic","sig":"panic","len":0,"dig":"","hastext":false,"text":[],"msg":p}),
    }
}

pub fn run(_k: usize, sc: &Value, dir: &Path, tr: &mut Tr) {
    let ops = sc.as_array().expect("scenario is a list");
    let mut bld: Option<ArchiveBuilder> = None;
    let mut handles: BTreeMap<i64, Archive> = BTreeMap::new();
    let mut names: Vec<String> = vec![];
    let mut listed = false;
    let mut built = false;
    let path = dir.join("out.mpq");
    for (k, op) in ops.iter().enumerate() {
        match s(op, "op") {
            "cfg" => {
                bld = Some(builder_of(op, dir));
                listed = s(op, "list") != "none";
                tr.ev(json!({"ev":"begin","cfg":{"ver":i(op,"ver"),"sector":512u64 << i(op,"bs"),"crc":b(op,"crc"),"list":s(op,"list"),
                    "def":i(op,"def"),"extdig":md5hex(b"readme.txt\r\nx1\r\n(listfile)\r\n")}}));
            }
            "add" => {
                let data = content(s(op, "kind"), i(op, "len") as usize, i(op, "seed") as u64);
                tr.ev(json!({"ev":"add","name":op["name"],"loc":op["loc"],"len":data.len(),"dig":md5hex(&data),"method":op["method"],"enc":op["enc"],"src":op["src"],"kind":op["kind"]}));
                names.push(name_of(&op["name"]));
                bld = Some(add_to(bld.take().unwrap(), op, data, dir, k));
            }
            "build" => {
                let x = bld.take().unwrap();
                let r = guarded(|| x.build(&path));
                built = matches!(r, Ok(Ok(())));
                tr.ev(match r {
                    Ok(Ok(())) => json!({"ev":"build","res":"ok"}),
                    Ok(Err(e)) => json!({"ev":"build","res":"err","msg":e.to_string()}),
                    Err(p) => json!({"ev":"build","res":"panic","msg":p}),
                });
                if built {
                    file_event(&path, tr);
                }
            }
            _ if !built => {}
            "open" => {
                let h = i(op, "h");
                let d = b(op, "deferred");
                match guarded(|| if d { OpenOptions::new().load_tables(false).open(&path) } else { Archive::open(&path) }) {
                    Ok(Ok(a)) => {
                        handles.insert(h, a);
                        tr.ev(json!({"ev":"open","h":h,"deferred":d,"res":"ok"}));
                    }
                    Ok(Err(e)) => tr.ev(json!({"ev":"open","h":h,"deferred":d,"res":"err","msg":e.to_string()})),
                    Err(p) => tr.ev(json!({"ev":"open","h":h,"deferred":d,"res":"panic","msg":p})),
                }
            }
            "close" => {
                let h = i(op, "h");
                if handles.remove(&h).is_some() {
                    tr.ev(json!({"ev":"close","h":h}));
                }
            }
            "file" => file_event(&path, tr),
            "end" => {
                // finally everything stored is read back, in order and then backwards
                if let Some((h, a)) = handles.iter_mut().next() {
                    let mut all = names.clone();
                    if listed {
                        all.push("(listfile)".into());
                    }
                    let fwd = all.clone();
                    all.reverse();
                    for n in fwd.iter().chain(if all.len() <= 12 { all.iter() } else { [].iter() }) {
                        let r = guarded(|| a.read_file(n));
                        tr.ev(read_event(*h, n, r));
                    }
                }
                file_event(&path, tr);
                tr.ev(json!({"ev":"end"}));
            }
            q => {
                let h = i(op, "h");
                if let Some(a) = handles.get_mut(&h) {
                    query(q, h, op, a, &path, tr);
                }
            }
        }
    }
}

fn file_event(path: &Path, tr: &mut Tr) {
    let d = std::fs::read(path).unwrap_or_default();
    tr.ev(json!({"ev":"file","dig":format!("{}-{}", d.len(), md5hex(&d))}));
}

pub fn find_event(h: i64, name: &str, a: &Archive) -> Value {
    let base = json!({"ev":"find","h":h,"name":jname(name),"size":0,"csize":0,"enc":false,"fix":false,"comp":false,"crc":false});
    let mut v = base;
    match guarded(|| a.find_file(name)) {
        Ok(Ok(Some(f))) => {
            v["res"] = json!("some");
            v["size"] = json!(f.file_size);
            v["csize"] = json!(f.compressed_size);
            v["enc"] = json!(f.is_encrypted());
            v["fix"] = json!(f.has_fix_key());
            v["comp"] = json!(f.is_compressed());
            v["crc"] = json!(f.has_sector_crc());
            v["sig"] = json!(format!("{f:?}"));
        }
        Ok(Ok(None)) => {
            v["res"] = json!("none");
            v["sig"] = json!("none");
        }
        Ok(Err(e)) => {
            v["res"] = json!("err");
            v["msg"] = json!(e.to_string());
            v["sig"] = json!("err");
        }
        Err(p) => {
            v["res"] = json!("panic");
            v["msg"] = json!(p);
            v["sig"] = json!("panic");
        }
    }
    v
}

fn query(q: &str, h: i64, op: &Value, a: &mut Archive, path: &Path, tr: &mut Tr) {
    match q {
        "load" => {
            let r = guarded(|| a.load_tables());
            tr.ev(json!({"ev":"load","h":h,"res": match r {Ok(Ok(())) => "ok", Ok(Err(_)) => "err", _ => "panic"}}));
        }
        "find" => {
            let name = name_of(&op["name"]);
            tr.ev(find_event(h, &name, a));
        }
        "read" => {
            let name = name_of(&op["name"]);
            let r = guarded(|| a.read_file(&name));
            tr.ev(read_event(h, &name, r));
        }
        "list" => {
            let kind = s(op, "kind");
            let r = guarded(|| match kind {
                "list" => a.list(),
                "all" => a.list_all(),
                "listh" => a.list_with_hashes(),
                _ => a.list_all_with_hashes(),
            });
            tr.ev(list_event(h, kind, r));
        }
        "readlisted" => {
            // every listed name can be read
            if let Ok(Ok(items)) = guarded(|| a.list()) {
                let generic = items.iter().all(|e| e.name.starts_with("file_") && e.name.ends_with(".dat"));
                if !generic {
                    for e in items.iter().take(30) {
                        let r = guarded(|| a.read_file(&e.name));
                        tr.ev(read_event(h, &e.name, r));
                    }
                }
            }
        }
        "info" => {
            let r = guarded(|| a.get_info());
            let mut v = json!({"ev":"info","h":h,"res":"err","sig":"err"});
            match r {
                Ok(Ok(x)) => {
                    v = json!({"ev":"info","h":h,"res":"ok","count":x.file_count,"max":x.max_file_count,"ver":version_num(x.format_version),
                        "sector":x.sector_size,"offset":x.archive_offset,"fsize":x.file_size,"truesize":std::fs::metadata(path).unwrap().len(),
                        "haslist":x.has_listfile,"hasattr":x.has_attributes,"hassig":x.has_signature,"enc":x.is_encrypted,"user":x.user_data_info.is_some(),
                        "sig":md5hex(format!("{x:?}").as_bytes())});
                }
                Ok(Err(e)) => v["msg"] = json!(e.to_string()),
                Err(p) => {
                    v["res"] = json!("panic");
                    v["msg"] = json!(p)
                }
            }
            tr.ev(v);
        }
        "attrs" => {
            let r = guarded(|| a.load_attributes());
            let res = match r {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            let n = a.attributes().map(|x| x.file_attributes.len() as i64).unwrap_or(-1);
            let each = (0..n.max(0) as usize).all(|k| a.get_file_attributes(k) == a.attributes().unwrap().file_attributes.get(k));
            let sig = md5hex(format!("{res} {:?}", a.attributes()).as_bytes());
            tr.ev(json!({"ev":"attrs","h":h,"res":res,"n":n,"each":each,"sig":sig}));
        }
        "peek" => {
            let sig = md5hex(format!("{:?} {:?} {} {:?}", a.header(), a.user_data(), a.archive_offset(), a.path()).as_bytes());
            tr.ev(json!({"ev":"peek","h":h,"offset":a.archive_offset(),"sig":sig}));
        }
        "verify" => {
            let r = guarded(|| a.verify_signature());
            let res = match r {
                Ok(Ok(st)) => format!("{st:?}"),
                Ok(Err(_)) => "err".into(),
                Err(_) => "panic".into(),
            };
            tr.ev(json!({"ev":"verify","h":h,"res":res,"sig":res}));
        }
        other => panic!("unknown operation {other}"),
    }
}

pub fn list_event(h: i64, kind: &str, r: Result<Result<Vec<FileEntry>, Error>, String>) -> Value {
    match r {
        Ok(Ok(items)) => {
            let its: Vec<Value> = items.iter().map(item).collect();
            let sig = md5hex(format!("{items:?}").as_bytes());
            json!({"ev":"list","h":h,"kind":kind,"res":"ok","items":its,"sig":sig})
        }
        Ok(Err(e)) => json!({"ev":"list","h":h,"kind":kind,"res":"err","items":[],"sig":"err","msg":e.to_string()}),
        Err(p) => json!({"ev":"list","h":h,"kind":kind,"res":"panic","items":[],"sig":"panic","msg":p}),
    }
}

//! Shared parts: random numbers, content generation, trace output, sharded execution.
use md5::{Digest, Md5};
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, k: u64, n: u64) -> bool {
        self.below(n) < k
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
}

pub fn md5hex(data: &[u8]) -> String {
    let d = Md5::digest(data);
    d.iter().take(8).map(|b| format!("{b:02x}")).collect()
}
pub fn md5full(data: &[u8]) -> [u8; 16] {
    Md5::digest(data).into()
}

/// Content of a given kind; the same arguments always give the same bytes.
pub fn content(kind: &str, len: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0x5555);
    let mut v: Vec<u8> = Vec::with_capacity(len);
    match kind {
        "zero" => v.resize(len, 0),
        "const" => v.resize(len, (r.next() % 255 + 1) as u8),
        "attrs" => {
            // a well-formed attributes file for up to 60 blocks
            v.extend(100u32.to_le_bytes());
            v.extend((1 + r.below(15) as u32).to_le_bytes());
            for _ in 0..60 * 29 {
                v.push(r.next() as u8);
            }
        }
        "text" => {
            const W: [&str; 12] = ["orc ", "human ", "the ", "map\r\n", "unit=", "12 ", "sword ", "a ", "peon ", "gold ", "zug ", "x"];
            while v.len() < len {
                v.extend_from_slice(W[r.below(12) as usize].as_bytes());
            }
            v.truncate(len);
        }
        "rand" => {
            while v.len() < len {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(len);
        }
        "mix" => {
            while v.len() < len {
                let z = r.chance(1, 2);
                for _ in 0..512 {
                    v.push(if z { 0 } else { r.next() as u8 });
                }
            }
            v.truncate(len);
        }
        "sect" => {
            // blocks of 512: compressible text or random, never both in one block
            while v.len() < len {
                let z = r.chance(1, 2);
                let c = r.next() as u8;
                for i in 0..512u32 {
                    v.push(if z { c.wrapping_add((i / 64) as u8) } else { r.next() as u8 });
                }
            }
            v.truncate(len);
        }
        "runs" => {
            while v.len() < len {
                let n = match r.below(5) {
                    0 => 1 + r.below(4),
                    1 => 125 + r.below(6),
                    2 => 1 + r.below(40),
                    3 => 252 + r.below(8),
                    _ => 1 + r.below(300),
                };
                let zero = r.chance(1, 2);
                for _ in 0..n {
                    v.push(if zero { 0 } else { (r.next() % 255 + 1) as u8 });
                }
            }
            v.truncate(len);
        }
        "tail" => {
            v.resize(len, 0);
            let k = (1 + r.below(8)).min(len as u64) as usize;
            for b in v[len - k..].iter_mut() {
                *b = r.next() as u8;
            }
        }
        "head" => {
            v.resize(len, 0);
            let k = r.below(len as u64 + 1) as usize;
            for b in v[..k].iter_mut() {
                *b = r.next() as u8;
            }
        }
        "few" => {
            let m = 2 + r.below(6);
            for _ in 0..len {
                v.push(65 + r.below(m) as u8);
            }
        }
        "edge" => {
            // random, then a short repetition: compression gains or loses a few bytes
            let k = r.below(24).min(len as u64) as usize;
            for _ in 0..len - k {
                v.push(r.next() as u8);
            }
            let c = r.next() as u8;
            v.resize(len, c);
        }
        "ramp" => {
            for i in 0..len {
                v.push((i % 251) as u8);
            }
        }
        "crlf" => {
            while v.len() < len {
                v.extend_from_slice(b"\r\n\x1a\0\xff\xfe");
            }
            v.truncate(len);
        }
        "pcm" => {
            let mut x = 0f64;
            while v.len() < len {
                x += 0.05;
                let s = ((x.sin() * 9000.0) as i16).to_le_bytes();
                v.extend_from_slice(&s);
            }
            v.truncate(len);
        }
        other => panic!("unknown content kind {other}"),
    }
    v
}

pub fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub fn name_of(v: &Value) -> String {
    String::from_utf8(bytes_of(v)).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned())
}
pub fn jname(s: &str) -> Value {
    json!(s.as_bytes())
}
pub fn word(w: u32) -> Value {
    json!([w >> 16, w & 0xFFFF])
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("field {k} missing in {v}"))
}
pub fn b(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or_else(|| panic!("field {k} missing in {v}"))
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("field {k} missing in {v}"))
}

/// Scenario files hold one JSON text per line, written by TLC as a quoted string, or plain JSON.
pub fn read_scenarios(path: &str) -> Vec<Value> {
    let text = std::fs::read_to_string(path).expect("scenario file");
    text.lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("scenario line");
            match v {
                Value::String(t) => serde_json::from_str(&t).expect("scenario text"),
                v => v,
            }
        })
        .collect()
}

/// Events of one run.
pub struct Tr {
    pub run: usize,
    pub events: Vec<Value>,
}
impl Tr {
    pub fn ev(&mut self, v: Value) {
        self.events.push(v);
    }
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

pub struct Opts {
    pub scen: String,
    pub out: PathBuf,
    pub limit_s: u64,
    pub only: Option<usize>,
    pub threads: usize,
    /// this process handles the scenarios k with k % of == part
    pub part: usize,
    pub of: usize,
}
impl Opts {
    pub fn from_args() -> Self {
        let a: Vec<String> = std::env::args().collect();
        let arg = |k: &str| a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).cloned();
        let num = |k: &str, d: usize| arg(k).and_then(|x| x.parse().ok()).unwrap_or(d);
        unsafe {
            let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
        }
        Opts {
            scen: arg("--scen").unwrap_or_default(),
            out: arg("--out").unwrap_or_else(|| "out".into()).into(),
            limit_s: num("--limit", 120) as u64,
            only: arg("--only").and_then(|x| x.parse().ok()),
            threads: num("--threads", 8),
            part: num("--part", 0),
            of: num("--of", 1),
        }
    }
}

/// Runs every scenario; worker w writes out/trace.<w>.ndjson. A scenario that exceeds the time limit
/// ends the process with status 70 after naming it in out/hang; the scenario each worker is on is in
/// out/cur.<w>, so that an abort can be attributed.
pub fn run_all(o: &Opts, scen: Vec<Value>, f: impl Fn(usize, &Value, &Path, &mut Tr) + Sync) {
    std::fs::create_dir_all(&o.out).unwrap();
    let n = o.threads.min(scen.len()).max(1);
    let next = AtomicUsize::new(0);
    let cur: Vec<(AtomicUsize, AtomicU64)> = (0..n).map(|_| (AtomicUsize::new(usize::MAX), AtomicU64::new(0))).collect();
    let t0 = Instant::now();
    let active = AtomicUsize::new(n);
    let lock = Mutex::new(());
    let work = std::env::temp_dir().join(format!("vh-{}", std::process::id()));
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|sc| {
        for w in 0..n {
            let (next, cur, scen, f, o, active, work) = (&next, &cur, &scen, &f, &o, &active, &work);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut out = std::io::BufWriter::new(std::fs::File::create(o.out.join(format!("trace.{}.ndjson", w + 100 * o.part))).unwrap());
                    let curf = o.out.join(format!("cur.{}", w + 100 * o.part));
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= scen.len() {
                            break;
                        }
                        if o.only.is_some_and(|x| x != k) || k % o.of != o.part {
                            continue;
                        }
                        let _ = std::fs::write(&curf, format!("{k}"));
                        cur[w].1.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        cur[w].0.store(k, Ordering::SeqCst);
                        let dir = work.join(format!("{k}"));
                        std::fs::create_dir_all(&dir).unwrap();
                        let mut tr = Tr { run: k, events: vec![] };
                        f(k, &scen[k], &dir, &mut tr);
                        let _ = std::fs::remove_dir_all(&dir);
                        cur[w].0.store(usize::MAX, Ordering::SeqCst);
                        for e in tr.events.iter_mut() {
                            e["run"] = json!(k);
                            serde_json::to_writer(&mut out, e).unwrap();
                            out.write_all(b"\n").unwrap();
                        }
                    }
                    out.flush().unwrap();
                    let _ = std::fs::remove_file(&curf);
                    active.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        let (cur, active, lock) = (&cur, &active, &lock);
        sc.spawn(move || {
            while active.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                let _g = lock.lock();
                for c in cur.iter() {
                    let k = c.0.load(Ordering::SeqCst);
                    let now = t0.elapsed().as_millis() as u64;
                    if k != usize::MAX && now.saturating_sub(c.1.load(Ordering::SeqCst)) > o.limit_s * 1000 && c.0.load(Ordering::SeqCst) == k {
                        let _ = std::fs::write(o.out.join("hang"), format!("{k}"));
                        std::process::exit(70);
                    }
                }
            }
        });
    });
    let _ = std::fs::remove_dir_all(&work);
}

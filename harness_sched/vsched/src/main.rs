//! Explores the interleavings of small concurrent C API programs and records the histories.
#![allow(dead_code)]
#[path = "../../../harness/vffi/src/api.rs"]
mod api;
#[path = "../../../harness/vh/src/util.rs"]
mod util;
use api::{call, Log, World};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};
use util::*;
use vstd::sched;

struct ConcLog {
    t: usize,
    evs: Arc<Mutex<Vec<Value>>>,
}
impl Log for ConcLog {
    fn inv(&mut self) -> usize {
        let mut g = self.evs.lock().unwrap();
        g.push(json!({"ev": "inv", "t": self.t}));
        g.len() - 1
    }
    fn ret(&mut self, id: usize, e: Value) {
        let mut g = self.evs.lock().unwrap();
        g[id]["id"] = json!(id);
        g.push(json!({"ev": "ret", "t": self.t, "id": id, "enum": e["f"] == "enum" && e["ok"] == true}));
        g[id]["e"] = e;
    }
}

/// Names handles by the order in which they appear, so that equal histories look equal.
fn normalize(v: &mut Value, names: &mut HashMap<String, String>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| normalize(x, names)),
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                if k == "h" || k == "out" {
                    if let Value::String(s) = x {
                        if s != "0" && s != "none" {
                            let n = names.len() + 1;
                            *s = names.entry(s.clone()).or_insert(format!("{n}")).clone();
                        }
                    }
                } else {
                    normalize(x, names);
                }
            }
        }
        _ => {}
    }
}

struct Run {
    events: Vec<Value>,
    trail: Vec<sched::Decision>,
    deadlock: bool,
}

fn execute(scen: &Value, w: &Arc<World>, fixtures: &[Value], prefix: Vec<usize>, seed: Option<u64>) -> Run {
    w.slots.lock().unwrap().clear();
    storm::SFileSetLastError(0);
    storm::SFileSetLocale(0);
    let evs = Arc::new(Mutex::new(vec![json!({"ev": "begin"})]));
    evs.lock().unwrap().extend_from_slice(fixtures);
    let mut log = ConcLog { t: 0, evs: evs.clone() };
    for (n, o) in scen["setup"].as_array().unwrap().iter().enumerate() {
        call(w, o, &format!("s{n}"), &mut log);
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (k, ops) in scen["threads"].as_array().unwrap().iter().enumerate() {
        let (ops, w, evs) = (ops.clone(), w.clone(), evs.clone());
        bodies.push(Box::new(move || {
            let mut log = ConcLog { t: k + 1, evs };
            for (n, o) in ops.as_array().unwrap().iter().enumerate() {
                sched::point();
                call(&w, o, &format!("t{}_{n}", k + 1), &mut log);
            }
        }));
    }
    let out = sched::run(bodies, prefix, seed);
    if !out.deadlock {
        // what is still usable afterwards
        let mut slots: Vec<(String, usize)> = w.slots.lock().unwrap().iter().map(|(a, b)| (a.clone(), *b)).collect();
        slots.sort();
        for (s, _) in &slots {
            call(w, &json!({"f": "size", "h": s, "np": false, "hashi": false}), "", &mut log);
            call(w, &json!({"f": "has", "h": s, "np": false, "utf8": true, "name": [120]}), "", &mut log);
        }
        call(w, &json!({"f": "getLoc", "np": false}), "", &mut log);
        for (_, h) in &slots {
            storm::SFileCloseFile(*h as storm::HANDLE);
        }
        for (_, h) in &slots {
            storm::SFileCloseArchive(*h as storm::HANDLE);
        }
    }
    let mut events = evs.lock().unwrap().clone();
    // calls that never returned
    events.retain(|e| e["ev"] != "inv" || e.get("e").is_some());
    Run { events, trail: out.trail, deadlock: out.deadlock }
}

/// The next decision prefix in depth-first order with at most `bound` preemptions.
fn next_prefix(trail: &[sched::Decision], bound: usize) -> Option<Vec<usize>> {
    let mut d = trail.len();
    while d > 0 {
        d -= 1;
        let used = trail[..d].iter().filter(|x| x.could_stay && x.taken > 0).count();
        let x = &trail[d];
        if x.taken + 1 < x.n && (!x.could_stay || used < bound) {
            let mut p: Vec<usize> = trail[..d].iter().map(|y| y.taken).collect();
            p.push(x.taken + 1);
            return Some(p);
        }
    }
    None
}

fn main() {
    let o = Opts::from_args();
    let a: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: usize| a.iter().position(|x| x == k).and_then(|p| a.get(p + 1)).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (max, random, bound) = (num("--max", 300), num("--random", 60), num("--bound", 2));
    let out = o.out.clone();
    let part = o.part;
    let total = Mutex::new((0usize, 0usize));
    run_all(&o, read_scenarios(&o.scen), |k, scen, dir, tr| {
        let w = Arc::new(World::new(dir));
        let mut fx = vec![];
        api::odd_places(&mut fx);
        for f in scen["fixtures"].as_array().unwrap() {
            fx.push(api::fixture(&w, f));
        }
        let mut seen: HashSet<String> = HashSet::new();
        let mut n = 0;
        let mut complete = false;
        let mut handle = |r: Run, tr: &mut Tr| {
            let mut evs = Value::Array(r.events);
            normalize(&mut evs, &mut HashMap::new());
            if r.deadlock {
                let d = json!({"scenario": k, "history": evs, "schedule": r.trail.iter().map(|d| d.taken).collect::<Vec<_>>()});
                std::fs::write(out.join(format!("deadlock.{part}")), d.to_string()).unwrap();
                std::fs::write(out.join("hang"), format!("{k}")).unwrap();
                std::process::exit(70);
            }
            if seen.insert(evs.to_string()) {
                tr.events.extend(evs.as_array().unwrap().iter().cloned());
                tr.ev(json!({"ev": "end"}));
            }
        };
        let mut prefix = vec![];
        while n < max {
            let r = execute(scen, &w, &fx, prefix, None);
            n += 1;
            let np = next_prefix(&r.trail, bound);
            handle(r, tr);
            match np {
                Some(p) => prefix = p,
                None => {
                    complete = true;
                    break;
                }
            }
        }
        if !complete {
            for x in 0..random {
                let r = execute(scen, &w, &fx, vec![], Some((k * 1000 + x) as u64 + 17));
                n += 1;
                handle(r, tr);
            }
        }
        let mut t = total.lock().unwrap();
        t.0 += n;
        t.1 += complete as usize;
        std::fs::write(out.join(format!("stats.{part}")), json!({"executions": t.0, "complete_programs": t.1}).to_string()).unwrap();
    });
}

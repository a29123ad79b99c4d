#![allow(dead_code)]
mod api;
#[path = "../../vh/src/util.rs"]
mod util;
use serde_json::json;
use util::*;

fn run(_k: usize, scen: &serde_json::Value, dir: &std::path::Path, tr: &mut Tr) {
    let w = api::World::new(dir);
    tr.ev(json!({"ev": "begin"}));
    storm::SFileSetLastError(0);
    storm::SFileSetLocale(0);
    api::odd_places(&mut tr.events);
    for (n, o) in scen.as_array().unwrap().iter().enumerate() {
        match s(o, "op") {
            "fixture" => {
                let f = api::fixture(&w, o);
                tr.ev(f);
            }
            _ => api::call(&w, o, &format!("s{n}"), &mut tr.events),
        }
    }
    tr.ev(json!({"ev": "end"}));
    for h in w.slots.lock().unwrap().values() {
        storm::SFileCloseFile(*h as storm::HANDLE);
    }
    for h in w.slots.lock().unwrap().values() {
        storm::SFileCloseArchive(*h as storm::HANDLE);
    }
}

fn main() {
    let o = Opts::from_args();
    run_all(&o, read_scenarios(&o.scen), run);
}

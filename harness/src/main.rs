mod bind;
mod case;
mod conc;
mod das;
mod fs;
mod libs;
mod setup;
mod util;

use serde_json::Value;
use std::collections::HashMap;

pub struct Args {
    pub files: Vec<String>,
    pub opts: HashMap<String, String>,
}
impl Args {
    pub fn get(&self, k: &str, d: &str) -> String {
        self.opts.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn num(&self, k: &str, d: usize) -> usize {
        self.opts.get(k).map(|x| x.parse().expect("number")).unwrap_or(d)
    }
}
pub fn read_cases(files: &[String]) -> Vec<Value> {
    let mut v = Vec::new();
    for f in files {
        let s = std::fs::read_to_string(f).unwrap_or_else(|e| panic!("{f}: {e}"));
        for l in s.lines() {
            if !l.trim().is_empty() {
                v.push(serde_json::from_str(l).expect("case line"));
            }
        }
    }
    v
}

fn main() {
    let mut it = std::env::args().skip(1);
    let cmd = it.next().expect("usage: kzgconf <family> --k=v ... files");
    let mut a = Args { files: vec![], opts: HashMap::new() };
    for x in it {
        if let Some(r) = x.strip_prefix("--") {
            let (k, v) = r.split_once('=').unwrap_or((r, "1"));
            a.opts.insert(k.into(), v.into());
        } else {
            a.files.push(x);
        }
    }
    // A panic in the code under test is data, reported in the outcome; keep stderr quiet.
    if std::env::var("KZG_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let r = match cmd.as_str() {
        "bindref" => bind::main(&a),
        "conc" => conc::main(&a),
        "das" => das::main(&a),
        "fs" => fs::main(&a),
        "lib" => libs::main(&a),
        "setup" => setup::main(&a),
        _ => panic!("unknown family {cmd}"),
    };
    println!("{}", serde_json::to_string(&r).unwrap());
}

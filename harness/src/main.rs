#![feature(set_stdio)]
mod formats;
mod model;
mod util;
mod zk;
mod protocol;
mod basics;
mod coding;
#[cfg(feature = "ffi")]
mod ffi;
#[cfg(feature = "js")]
mod js;

#[global_allocator]
static ALLOC: basics::watch::A = basics::watch::A;

use std::time::{Duration, Instant};
use util::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = args[1].clone();
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let secs: u64 = get("--secs").map_or(5, |s| s.parse().unwrap());
    let ints: Vec<u64> = get("--ints").map_or(vec![], |f| std::fs::read_to_string(f).unwrap().split_whitespace().filter_map(|x| x.parse().ok()).collect());
    let only = get("--case").map(|s| {
        let i = s.find('#').unwrap();
        (s[..i].to_string(), s[i + 1..].parse().unwrap())
    });
    std::panic::set_hook(Box::new(|_| {}));
    let mut h = H {
        prop: prop.clone(), seed, ints, evals: 0, distinct: Default::default(), fails: vec![], samples: vec![], only,
        deadline: Instant::now() + Duration::from_secs(secs), iters: get("--iters").map_or(0, |s| s.parse().unwrap()), progress: get("--progress"),
    };
    let mut known: Vec<String> = vec![];
    match &prop[..] {
        "MODEL" => model::model(&mut h),
        "C01" => basics::c01(&mut h),
        "C02" => basics::c02(&mut h),
        "C03" => basics::c03(&mut h),
        "C04" => basics::c04(&mut h),
        "C05" => protocol::c05(&mut h),
        "C06" => {
            protocol::c06(&mut h);
            if protocol::c06_known(&mut h) {
                known.push("issuance-proof-does-not-bind-attribute".into());
            }
        }
        "C07" => protocol::c07(&mut h),
        "C08" => protocol::c08(&mut h),
        "C09" => protocol::c09(&mut h),
        "C10" => protocol::c10(&mut h),
        "C11" => protocol::c11(&mut h),
        "C12" => basics::c12(&mut h),
        "C13" => basics::c13(&mut h),
        "C14" => basics::c14(&mut h),
        "C15" => basics::c15(&mut h),
        "C16" => coding::c16(&mut h),
        "C17" => coding::c17(&mut h),
        "C18" => coding::c18(&mut h),
        "C19" => coding::c19(&mut h),
        "C20" => coding::c20(&mut h),
        "C21" => basics::c21(&mut h),
        "C22" => basics::c22(&mut h),
        "C23" => basics::c23(&mut h),
        "C24" => coding::c24(&mut h),
        "C25" => formats::c25(&mut h),
        #[cfg(feature = "ffi")]
        "C26" => ffi::c26(&mut h),
        #[cfg(feature = "js")]
        "C27" => js::c27(&mut h),
        "C29" => coding::c29(&mut h),
        x => panic!("no such property: {}", x),
    }
    let fails: Vec<_> = h.fails.iter().map(|f| serde_json::json!({"case": format!("{}#{}", f.0, f.1), "what": f.2})).collect();
    println!("{}", serde_json::json!({"property": prop, "seed": seed, "evaluations": h.evals, "distinct": h.distinct.len(), "fails": fails, "samples": h.samples, "known": known}));
}

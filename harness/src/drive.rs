//! Replays trace files on several threads and writes the results as JSON.
use crate::{common::*, svm};
use serde_json::{json, Value as V};
use std::sync::{
    atomic::{AtomicUsize, Ordering},
    Mutex,
};

/// trace files; @FILE names a file that lists them
fn files(args: &[String]) -> Vec<String> {
    args.iter()
        .flat_map(|a| match a.strip_prefix('@') {
            Some(f) => std::fs::read_to_string(f).expect("list").lines().map(String::from).collect(),
            None => vec![a.clone()],
        })
        .collect()
}

pub fn run(out: &str, args: &[String], install: fn(), replay: fn(&V, &mut Stats, bool) -> Vec<(usize, Div)>) {
    let files = &files(args);
    let next = AtomicUsize::new(0);
    let acc: Mutex<(Stats, Vec<V>)> = Mutex::new(Default::default());
    let verbose = std::env::var_os("CONFORM_LOGS").is_some();
    if verbose {
        svm::LOGS.store(true, Ordering::Relaxed);
    }
    let nt = if verbose { 1 } else { 8.min(files.len()) };
    std::thread::scope(|sc| {
        for _ in 0..nt {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    install();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let Some(f) = files.get(i) else { break };
                        let t: V = serde_json::from_slice(&std::fs::read(f).expect("trace file")).expect("trace json");
                        let mut stats = Stats::default();
                        let d = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay(&t, &mut stats, verbose))).unwrap_or_else(|_| {
                            vec![(
                                0,
                                Div {
                                    cat: "state",
                                    action: "Harness".into(),
                                    detail: vec!["panic".into()],
                                    info: "the state left by the programs could not be interpreted".into(),
                                },
                            )]
                        });
                        let mut g = acc.lock().unwrap();
                        g.0.merge(&stats);
                        for (n, x) in d {
                            g.1.push(json!({"trace": f, "step": n, "cat": x.cat, "action": x.action, "detail": x.detail, "info": x.info}));
                        }
                    }
                })
                .unwrap();
        }
    });
    let (s, d) = acc.into_inner().unwrap();
    let res = json!({
        "traces": files.len(), "steps": s.steps, "probes": s.probes,
        "actions": s.actions.iter().map(|(k, v)| (k.clone(), json!({"accepted": v.0, "rejected": v.1}))).collect::<serde_json::Map<_, _>>(),
        "guards": s.guards, "divergences": d });
    std::fs::write(out, serde_json::to_string(&res).unwrap()).expect("result file");
    println!("traces {} steps {} probes {} divergences {}", files.len(), s.steps, s.probes, res["divergences"].as_array().unwrap().len());
}

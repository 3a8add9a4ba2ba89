//! wsym: a symbolic executor for WebAssembly.
//! usage: wsym MODULE.wasm --entry NAME [--args a,b] [--threads N] [--time SECS]
//!        [--max-instrs N] [--samples N] [--seed N] [--profile]
mod exec;
mod expr;
mod solver;
mod wasm;
mod z3;
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!(
        "[{}]",
        v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    )
}
fn fail(m: &str) -> ! {
    println!("{{\"status\":\"error\",\"errors\":[{}]}}", js(m));
    std::process::exit(2)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = String::new();
    let mut args: Vec<u64> = vec![];
    let mut threads = 1;
    let mut time = 600.0f64;
    let mut max_instrs = 50_000_000u64;
    let mut samples = 16;
    let mut seed = 1;
    let mut profile = false;
    let mut only = None;
    let mut i = 1;
    while i < a.len() {
        let val = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--entry" => entry = val(),
            "--args" => {
                args = val()
                    .split(',')
                    .filter(|s| !s.is_empty())
                    .map(|s| s.parse().unwrap())
                    .collect()
            }
            "--threads" => threads = val().parse().unwrap(),
            "--time" => time = val().parse().unwrap(),
            "--max-instrs" => max_instrs = val().parse().unwrap(),
            "--samples" => samples = val().parse().unwrap(),
            "--seed" => seed = val().parse().unwrap(),
            "--only" => only = Some(val()),
            "--profile" => {
                profile = true;
                i += 1;
                continue;
            }
            f => {
                file = Some(f.to_string());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let bytes = std::fs::read(file.unwrap_or_else(|| fail("no module"))).unwrap_or_else(|e| fail(&e.to_string()));
    let m = wasm::parse(&bytes).unwrap_or_else(|e| fail(&e));
    let (k, e) = *m
        .exports
        .get(&entry)
        .unwrap_or_else(|| fail(&format!("no export {entry}")));
    if k != 0 || m.funcs[e as usize].nparams as usize != args.len() {
        fail(&format!("{entry}: wrong number of arguments"));
    }
    let ctors = m.exports.get("__wasm_call_ctors").map(|x| x.1).filter(|_| true);
    let hb = m
        .exports
        .get("__heap_base")
        .map(|x| m.globals[x.1 as usize].init as u32)
        .unwrap_or_else(|| fail("no __heap_base"));
    let sh = Arc::new(exec::Shared {
        heap: (hb + 1023) / 1024 * 1024,
        entry: e,
        args,
        ctors,
        max_instrs,
        deadline: Instant::now() + Duration::from_secs_f64(time),
        nthreads: threads,
        max_samples: samples,
        queue: Mutex::new(vec![exec::root()]),
        qlen: AtomicUsize::new(1),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        stats: Mutex::new(Default::default()),
        violations: Mutex::new(vec![]),
        errors: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        seed,
        forks_at: Mutex::new(Default::default()),
        profile,
        only,
        m,
    });
    let hs: Vec<_> = (0..threads)
        .map(|i| {
            let sh = sh.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let e = exec::Exec::new(sh.clone(), i as u64);
                    match e {
                        Ok(e) => e.run(),
                        Err(m) => {
                            sh.errors.lock().unwrap().push(m);
                            sh.stop.store(true, std::sync::atomic::Ordering::SeqCst);
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    let mut crashed = false;
    for h in hs {
        if h.join().is_err() {
            crashed = true;
        }
    }
    if crashed {
        fail("engine thread panicked");
    }
    let st = sh.stats.lock().unwrap();
    let vio = sh.violations.lock().unwrap();
    let errs = sh.errors.lock().unwrap();
    let status = if !vio.is_empty() {
        "violation"
    } else if !errs.is_empty() {
        "error"
    } else {
        "ok"
    };
    let mut o = String::new();
    o += &format!("{{\"status\":{},\"entry\":{},\n", js(status), js(&entry));
    o += &format!(
        "\"errors\":[{}],\n",
        errs.iter().map(|e| js(e)).collect::<Vec<_>>().join(",")
    );
    o += &format!(
        "\"violations\":[{}],\n",
        vio.iter()
            .map(|v| format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"log\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                nums(&v.inputs),
                nums(&v.log),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    o += &format!(
        "\"paths\":{},\"panic_paths\":{},\"infeasible\":{},\"forks\":{},\"instrs\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"checks_symbolic\":{},\"checks_concrete\":{},\"concretized\":{},\"solver_ms\":{:.1},\"solver_max_ms\":{:.1},\"max_inputs\":{},\"max_path_instrs\":{},\"exprs\":{},\"items\":{},\"seconds\":{:.2},\n",
        st.paths, st.panics, st.infeasible, st.forks, st.instrs, st.sat, st.unsat, st.cached, st.checks_symbolic, st.checks_concrete, st.concretized, st.solver_ms, st.solver_max_ms, st.max_inputs, st.max_path_instrs, st.exprs, st.items, t0.elapsed().as_secs_f64()
    );
    o += &format!(
        "\"covers\":{{{}}},\n",
        st.covers
            .iter()
            .map(|(k, v)| format!("\"{k}\":{v}"))
            .collect::<Vec<_>>()
            .join(",")
    );
    let sm = sh.samples.lock().unwrap();
    o += &format!(
        "\"samples\":[{}],\n",
        sm.iter()
            .map(|s| format!(
                "{{\"inputs\":{},\"log\":{},\"panicked\":{}}}",
                nums(&s.inputs),
                nums(&s.log),
                s.panicked
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    if profile {
        let p = sh.forks_at.lock().unwrap();
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        o += &format!(
            "\"fork_sites\":[{}],\n",
            v.iter()
                .take(25)
                .map(|(k, n)| format!("[{n},{}]", js(k)))
                .collect::<Vec<_>>()
                .join(",\n ")
        );
    }
    o += &format!(
        "\"functions\":[{}]}}",
        st.fns
            .iter()
            .map(|f| js(&sh.m.funcs[*f as usize].name))
            .collect::<Vec<_>>()
            .join(",")
    );
    println!("{o}");
    std::process::exit(match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    });
}

mod exec;
mod expr;
mod ir;
mod solver;
use std::fmt::Write;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let t = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(real_main)
        .unwrap();
    let c = t.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()) };
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let out = get("--out");
    let timeout: f64 = get("--timeout").map(|s| s.parse().unwrap()).unwrap_or(600.0);
    let qt: u32 = get("--query-timeout-ms").map(|s| s.parse().unwrap()).unwrap_or(60000);
    let params: Vec<u64> = get("--params")
        .map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
        .unwrap_or_default();
    let shard = get("--shard")
        .map(|s| {
            let (a, b) = s.split_once('/').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .unwrap_or((0, 1));
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR load error: {}", e);
            return 3;
        }
    };
    let tl = t0.elapsed().as_secs_f64();
    let mut x = exec::Exec::new(&m, qt, t0 + Duration::from_secs_f64(timeout));
    x.params = params.clone();
    if args.iter().any(|a| a == "--z3-only") {
        x.sv.fast = false;
    }
    if let Some(n) = get("--samples") {
        x.sample_cap = n.parse().unwrap();
    }
    if let Some(n) = get("--max-viols") {
        x.max_viols = n.parse().unwrap();
    }
    if let Some(n) = get("--max-insts") {
        x.max_insts = n.parse().unwrap();
    }
    if let Some(d) = get("--dump-queries") {
        std::fs::create_dir_all(&d).ok();
        x.sv.dump = Some(d.into());
        x.sv.dump_every = get("--dump-every").map(|s| s.parse().unwrap()).unwrap_or(50);
    }
    if let Err(e) = x.run(&entry, shard) {
        eprintln!("run error: {}", e);
        return 3;
    }
    let mut o = String::new();
    let s = &x.sv.st;
    let complete = !x.timed_out && x.errors.is_empty() && s.unknown == 0 && x.pending() == 0;
    write!(
        o,
        "{{\"entry\":\"{}\",\"params\":{:?},\"shard\":[{},{}],\"complete\":{},\"timed_out\":{},\"paths\":{},\"killed\":{},\"panics_allowed\":{},\"longest\":{},\"insts\":{},\"forks\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"dom_hits\":{},\"z3_calls\":{},\"z3_time\":{:.3},\"max_query\":{:.3},\"load_s\":{:.2},\"wall\":{:.2},\"nvars\":{},\"z3\":\"{}\",",
        esc(&entry), params, shard.0, shard.1, complete, x.timed_out, x.paths, x.killed, x.panics_allowed, x.longest, x.insts, x.forks, x.asserts, x.assert_queries,
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.dom_hits, s.z3_calls, s.z3_time, s.max_query, tl, t0.elapsed().as_secs_f64(), x.nvars_max, esc(&solver::z3_version())
    )
    .unwrap();
    let errs: Vec<String> = x.errors.iter().map(|(k, v)| format!("[\"{}\",{}]", esc(k), v)).collect();
    let reach: Vec<String> = x.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let viols: Vec<String> = x
        .viols
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect();
            format!("{{\"kind\":\"{}\",\"id\":{},\"input\":\"{}\",\"stack\":[{}]}}", esc(&v.kind), v.id, hex(&v.input), st.join(","))
        })
        .collect();
    let fns: Vec<String> = x.used.iter().map(|&f| format!("\"{}\"", esc(&m.fns[f as usize].name))).collect();
    let samples: Vec<String> = x.samples.iter().map(|(i, h)| format!("[\"{}\",\"{:016x}\"]", hex(i), h)).collect();
    write!(
        o,
        "\"errors\":[{}],\"reached\":{{{}}},\"violations\":[{}],\"functions\":[{}],\"samples\":[{}]}}\n",
        errs.join(","),
        reach.join(","),
        viols.join(","),
        fns.join(","),
        samples.join(",")
    )
    .unwrap();
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
    if !x.viols.is_empty() {
        1
    } else if complete {
        0
    } else {
        2
    }
}

mod blast;
mod builtins;
mod exec;
mod expr;
mod ir;
mod z3;
use std::io::Write;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}
/// result of a worker process, one item per line
fn dump(e: &exec::Engine) -> String {
    let mut s = format!(
        "n {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}\n",
        e.paths,
        e.exits,
        e.dead,
        e.forks,
        e.instrs,
        e.asserts_c,
        e.asserts_s,
        e.qhits,
        e.mhits,
        e.z3.queries,
        e.z3.sat,
        e.z3.unsat,
        e.z3.unknown,
        e.z3.second,
        (e.z3.time * 1e6) as u64,
        (e.z3.slowest * 1e6) as u64,
        e.z3.tables
    );
    for (k, v) in &e.reached {
        s += &format!("r {} {}\n", k, v);
    }
    for (k, v) in &e.incomplete {
        s += &format!("i {} {}\n", v, k.replace('\n', " "));
    }
    for (k, v) in &e.fork_at {
        s += &format!("f {} {}\n", v, k);
    }
    for k in &e.fns_used {
        s += &format!("u {}\n", k);
    }
    for w in &e.wits {
        s += "w \n";
        for x in &w.inputs {
            s += &format!("1 {}\n", x);
        }
        for x in &w.outs {
            s += &format!("2 {}\n", x);
        }
        for x in &w.labels {
            s += &format!("3 {}\n", x);
        }
    }
    for v in &e.viols {
        let one = |x: &str| x.replace('\n', " ");
        s += &format!("k {}\nd {}\n", one(&v.kind), one(&v.detail));
        for x in &v.stack {
            s += &format!("s {}\n", x);
        }
        for x in &v.inputs {
            s += &format!("x {}\n", x);
        }
    }
    s + "end\n"
}
fn merge(e: &mut exec::Engine, t: &str) {
    let mut vs: Vec<exec::Violation> = vec![];
    for l in t.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        let two = || {
            let (a, b) = r.split_once(' ').unwrap();
            (a.parse::<u64>().unwrap(), b.to_string())
        };
        match k {
            "n" => {
                let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                e.paths += v[0];
                e.exits += v[1];
                e.dead += v[2];
                e.forks += v[3];
                e.instrs += v[4];
                e.asserts_c += v[5];
                e.asserts_s += v[6];
                e.qhits += v[7];
                e.mhits += v[8];
                e.z3.queries += v[9];
                e.z3.sat += v[10];
                e.z3.unsat += v[11];
                e.z3.unknown += v[12];
                e.z3.second += v[13];
                e.z3.time += v[14] as f64 / 1e6;
                e.z3.slowest = e.z3.slowest.max(v[15] as f64 / 1e6);
                e.z3.tables += v[16];
            }
            "r" => {
                let (a, b) = two();
                *e.reached.entry(a).or_insert(0) += b.parse::<u64>().unwrap();
            }
            "i" => {
                let (a, b) = two();
                *e.incomplete.entry(b).or_insert(0) += a;
            }
            "f" => {
                let (a, b) = two();
                *e.fork_at.entry(b).or_insert(0) += a;
            }
            "u" => {
                e.fns_used.insert(r.parse().unwrap());
            }
            "w" => e.wits.push(exec::Witness { inputs: vec![], outs: vec![], labels: vec![] }),
            "1" => e.wits.last_mut().unwrap().inputs.push(r.parse().unwrap()),
            "2" => e.wits.last_mut().unwrap().outs.push(r.parse().unwrap()),
            "3" => e.wits.last_mut().unwrap().labels.push(r.parse().unwrap()),
            "k" => vs.push(exec::Violation { kind: r.into(), detail: String::new(), stack: vec![], inputs: vec![] }),
            "d" => vs.last_mut().unwrap().detail = r.into(),
            "s" => vs.last_mut().unwrap().stack.push(r.into()),
            "x" => vs.last_mut().unwrap().inputs.push(r.parse().unwrap()),
            _ => {}
        }
    }
    for v in vs {
        if !e.viols.iter().any(|w| w.kind == v.kind && w.detail == v.detail && w.stack == v.stack) {
            e.viols.push(v);
        }
    }
}

fn real() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut timeout = 60_000u32;
    let mut jobs = 1i64;
    let mut cfg = exec::Config {
        args: vec![],
        max_time: 600.0,
        max_paths: 10_000_000,
        max_alloc: 1 << 28,
        simd: 2,
        witness: 0,
        max_viol: 8,
        trace: false,
        split: false,
        conc: None,
        max_conc: 1000,
        nopanic_ok: vec![],
    };
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let mut i = 1;
    while i < a.len() {
        let v = || a[i + 1].clone();
        match a[i].as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--args" => cfg.args = nums(&v()),
            "--time" => cfg.max_time = v().parse().unwrap(),
            "--paths" => cfg.max_paths = v().parse().unwrap(),
            "--alloc" => cfg.max_alloc = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--qtimeout" => timeout = v().parse().unwrap(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--simd" => cfg.simd = v().parse().unwrap(),
            "--conc" => cfg.conc = Some(nums(&v())),
            "--witness" => cfg.witness = v().parse().unwrap(),
            "--split" => cfg.split = v() == "1",
            "--trace" => {
                cfg.trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {}", x);
                return 2;
            }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let src = std::fs::read(&ll).expect("ll file");
    let m = ir::Module::load(src);
    let trace = cfg.trace;
    let mut e = exec::Engine::new(&m, cfg, timeout);
    let root = std::process::id();
    let file = |pid: u32| format!("/tmp/sx-{}-{}", root, pid);
    if jobs > 1 {
        unsafe {
            let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut AtomicI64;
            *p = AtomicI64::new(jobs - 1);
            e.slots = p;
        }
    }
    if let Err(s) = e.run(&entry) {
        eprintln!("engine error: {}", s);
        return 2;
    }
    if !e.slots.is_null() {
        unsafe { &*e.slots }.fetch_add(1, SeqCst);
        for k in e.kids.clone() {
            let mut st = 0i32;
            unsafe { waitpid(k, &mut st, 0) };
            let f = file(k as u32);
            let t = std::fs::read_to_string(&f).unwrap_or_default();
            let _ = std::fs::remove_file(&f);
            if st != 0 || !t.ends_with("end\n") {
                *e.incomplete.entry("worker process failed".into()).or_insert(0) += 1;
            }
            merge(&mut e, &t);
        }
        if e.is_child {
            let t = dump(&e);
            let _ = std::fs::write(file(std::process::id()), t);
            unsafe { _exit(0) };
        }
    }
    if trace {
        let mut v: Vec<_> = e.fork_at.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("fork {} {}", n, k);
        }
    }
    let mut s = String::from("{");
    s += &format!("\"entry\":{},", esc(&entry));
    s += &format!("\"args\":{:?},", e.cfg.args);
    s += &format!("\"paths\":{},\"exits\":{},\"dead\":{},\"forks\":{},", e.paths, e.exits, e.dead, e.forks);
    s += &format!("\"instructions\":{},", e.instrs);
    s += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"second_solver\":{},\"truth_tables\":{},\"cache_hits\":{},\"model_hits\":{},",
        e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.unknown, e.z3.second, e.z3.tables, e.qhits, e.mhits
    );
    s += &format!("\"solver_seconds\":{:.3},\"slowest_query\":{:.3},", e.z3.time, e.z3.slowest);
    s += &format!("\"seconds\":{:.3},", t0.elapsed().as_secs_f64());
    s += &format!("\"assert_concrete\":{},\"assert_symbolic\":{},", e.asserts_c, e.asserts_s);
    s += &format!("\"nodes\":{},", e.ar.nodes.len());
    s += "\"reached\":{";
    s += &e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    s += "},\"incomplete\":{";
    s += &e.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    s += "},\"witnesses\":[";
    s += &e
        .wits
        .iter()
        .map(|w| format!("{{\"inputs\":{:?},\"outs\":{:?},\"labels\":{:?}}}", w.inputs, w.outs, w.labels))
        .collect::<Vec<_>>()
        .join(",");
    s += "],\"functions\":[";
    s += &e.fns_used.iter().map(|f| esc(&m.fn_name(*f))).collect::<Vec<_>>().join(",");
    s += "],\"violations\":[";
    s += &e
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"detail\":{},\"stack\":[{}],\"inputs\":{:?}}}",
                esc(&v.kind),
                esc(&v.detail),
                v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
                v.inputs
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    s += "]}";
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::File::create(&out).unwrap().write_all(s.as_bytes()).unwrap();
    }
    let bad = !e.viols.is_empty();
    let inc = !e.incomplete.is_empty();
    std::process::exit(if bad {
        1
    } else if inc {
        3
    } else {
        0
    })
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}

mod exec;
mod expr;
mod func;
mod ir;
mod mem;
mod z3;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn inputs(v: &[(String, Vec<u8>)]) -> String {
    format!("[{}]", v.iter().map(|(n, b)| format!("[{},\"{}\"]", js(n), hex(b))).collect::<Vec<_>>().join(","))
}

fn main() {
    // deep recursion in expression handling
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(70));
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut ir = String::new();
    let mut f = String::new();
    let mut out = String::new();
    let mut lim = exec::Limits { max_time: 600.0, max_steps: 2_000_000_000, max_paths: u64::MAX, max_viol: 1, samples: 8 };
    let mut to = 60_000u32;
    let mut params = vec![];
    let mut dump = None;
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ir" => ir = v,
            "--fn" => f = v,
            "--out" => out = v,
            "--max-time" => lim.max_time = v.parse().unwrap(),
            "--max-paths" => lim.max_paths = v.parse().unwrap(),
            "--max-steps" => lim.max_steps = v.parse().unwrap(),
            "--max-viol" => lim.max_viol = v.parse().unwrap(),
            "--samples" => lim.samples = v.parse().unwrap(),
            "--solver-timeout" => to = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "-p" => {
                let (k, x) = v.split_once('=').unwrap();
                params.push((k.to_string(), x.parse::<u64>().unwrap()));
            }
            x => panic!("argument {}", x),
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::parse(std::fs::read_to_string(&ir).unwrap());
    let (mut ex, st) = exec::Exec::new(m, to, lim);
    ex.params = params.into_iter().collect();
    if let Some(gb) = ex.params.get("heapgb") {
        ex.heap_max = gb << 30;
        ex.used_params.insert("heapgb".into(), *gb);
    }
    if let Some(d) = dump {
        ex.z.dump = Some((std::fs::File::create(d).unwrap(), 1, 0));
    }
    let err = ex.run(&f, st).err();
    if let Some(e) = &err {
        ex.inconclusive.push(e.clone());
    }
    let fns = ex.functions().iter().map(|(n, s, t)| format!("[{},{},{}]", js(n), s, t)).collect::<Vec<_>>().join(",");
    let viol = ex
        .viol
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{},\"trace_hash\":\"{:016x}\",\"trace_len\":{}}}",
                js(&v.kind),
                js(&v.msg),
                v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                inputs(&v.inputs),
                v.trace_hash,
                v.trace_len
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    let samples = ex
        .samples
        .iter()
        .map(|v| format!("{{\"end\":{},\"inputs\":{},\"trace_hash\":\"{:016x}\",\"trace_len\":{}}}", js(v.end), inputs(&v.inputs), v.trace_hash, v.trace_len))
        .collect::<Vec<_>>()
        .join(",");
    let mp = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let ends = ex.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",");
    let status = if !ex.viol.is_empty() {
        "violation"
    } else if !ex.inconclusive.is_empty() {
        "inconclusive"
    } else {
        "holds"
    };
    let res = format!(
        "{{\"status\":\"{}\",\"fn\":{},\"params\":{{{}}},\"paths\":{},\"ends\":{{{}}},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_symbolic\":{},\"mem_checks\":{},\"checkpoints\":{},\"distinct_states\":{},\"queries\":{},\"solver_queries\":{},\"byte_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"time\":{:.3},\"exprs\":{},\"vars\":{},\"max_forks_on_path\":{},\"reached\":{{{}}},\"solver\":{},\"violations\":[{}],\"inconclusive\":[{}],\"samples\":[{}],\"functions\":[{}]}}",
        status, js(&f), mp(&ex.used_params), ex.paths, ends, ex.forks, ex.steps, ex.asserts, ex.asserts_sym, ex.mem_checks,
        ex.checkpoints, ex.distinct, ex.z.queries, ex.z.z3_queries, ex.z.byte_queries, ex.z.sat, ex.z.unsat, ex.z.unknown, ex.z.time, ex.z.max_time,
        t0.elapsed().as_secs_f64(), ex.ar.nodes.len(), ex.ar.var_w.len(), ex.max_depth, mp(&ex.reached), js(&z3::Solver::version()), viol,
        ex.inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), samples, fns
    );
    if out.is_empty() {
        println!("{}", res);
    } else {
        std::fs::write(&out, res).unwrap();
    }
    match status {
        "holds" => 0,
        "violation" => 1,
        _ => 3,
    }
}

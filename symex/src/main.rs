mod dbg; mod exec; mod expr; mod ll; mod mem; mod z3;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};

fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// usage: symex FILE.ll [key=value...]; jobs on stdin: `ENTRY p0 p1 ...`, one JSON line per job on stdout
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| args.iter().find_map(|a| a.strip_prefix(&format!("{}=", k))).unwrap_or(d).to_string();
    let text: &'static str = Box::leak(std::fs::read_to_string(&args[1]).expect("read IR").into_boxed_str());
    let m = ll::Module::load(text);
    let num = |k: &str, d: &str| opt(k, d).parse::<f64>().unwrap();
    let stdin = std::io::stdin();
    let repo = opt("repo", "/repo/");
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() { continue; }
        let params: Vec<u64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
        let cfg = exec::Cfg { max_insts: num("max_insts", "1e9") as u64, max_paths: num("max_paths", "1e8") as u64, max_total_secs: num("secs", "600"), samples: num("samples", "6") as usize, max_viol: num("max_viol", "40") as usize, seed: num("seed", "1") as u64, max_mem: num("max_mem", "4e8") as usize, xcheck: num("xcheck", "200") as u64 };
        let mut e = exec::Engine::new(&m, cfg, params);
        let dd = opt("dump", ""); if !dd.is_empty() { e.z3.dump_dir = Some(dd); e.z3.dump_every = num("dump_every", "50") as u64; }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(w[0])));
        let err = match res { Ok(Ok(())) => None, Ok(Err(s)) => Some(s), Err(p) => Some(format!("engine panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
        let mut o = String::new();
        let s = &e.st;
        o.push_str(&format!("{{\"job\":\"{}\",\"ok\":{},\"error\":\"{}\",\"paths\":{},\"forks\":{},\"states\":{},\"insts\":{},\"branches\":{},\"dom_decided\":{},\"cache_hits\":{},\"asserts\":{},\"asserts_sym\":{},\"asserts_const\":{},\"infeasible\":{},\"concretised\":{},\"symloads\":{},\"vars\":{},\"xchecks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"nodes\":{},\"wall_s\":{:.3}",
            esc(&line), err.is_none(), esc(err.as_deref().unwrap_or("")), s.paths, s.forks, s.states, s.insts, s.branches, s.dom_decided, s.cache_hits, s.asserts, s.asserts_sym, s.asserts_const, s.infeasible, s.conc, s.symloads, s.max_vars, s.xchecks, e.z3.queries, e.z3.sat, e.z3.unsat, e.z3.time, e.z3.max, e.dag.nodes.len(), e.start.elapsed().as_secs_f64()));
        o.push_str(&format!(",\"covers\":{{{}}}", e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!(",\"assert_ids\":{{{}}}", e.assert_ids.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
        o.push_str(&format!(",\"violations\":[{}]", e.viol.iter().map(|v| format!("{{\"kind\":\"{}\",\"what\":\"{}\",\"inputs\":\"{}\",\"stack\":[{}]}}", v.kind, esc(&v.what), hex(&v.inputs), v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        o.push_str(&format!(",\"traces\":[{}]", e.traces.iter().map(|(i, t)| format!("{{\"inputs\":\"{}\",\"outs\":[{}]}}", hex(i), t.iter().map(|(k, v)| format!("[{},{}]", k, v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        o.push('}');
        println!("{}", o);
        std::io::stdout().flush().unwrap();
    }
    // coverage of the code under test, by debug info of executed blocks
    if opt("cov", "0") == "1" {
        let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new(); let mut funs: BTreeSet<String> = BTreeSet::new(); let mut irf = 0; let mut irb = 0;
        let mut seen = std::collections::HashSet::new();
        for f in &m.funcs { if let Some(c) = &*f.code.borrow() { irf += 1; for b in &c.blocks { if b.seen.get() { irb += 1; for d in &b.dbg { let mut cur = Some(*d); while let Some(i) = cur { if i == 0 || !seen.insert(i) { break; } let Some((line, scope, inl)) = dbg::dil(&m, i) else { break }; if let Some((_, name, file)) = dbg::subprogram(&m, scope) { if file.starts_with(&repo) { lines.entry(file[repo.len()..].to_string()).or_default().insert(line); funs.insert(format!("{}::{}", &file[repo.len()..], name)); } } cur = inl; } } } } } }
        println!("{{\"cov\":1,\"ir_functions\":{},\"ir_blocks\":{},\"functions\":[{}],\"lines\":{{{}}}}}", irf, irb, funs.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","), lines.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v.len())).collect::<Vec<_>>().join(","));
    }
}

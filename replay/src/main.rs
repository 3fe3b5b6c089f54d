//! Native runs of the harness entry points on recorded inputs: reads `ENTRY p0 p1 ... | HEX` lines, writes one line each.
use std::cell::RefCell;
use std::io::{BufRead, Write};
#[path = "../../harness/src/lib.rs"]
mod harness;

#[derive(Default)]
struct S { input: Vec<u8>, pos: usize, params: Vec<u64>, outs: Vec<(u32, u64)>, covers: Vec<u32>, fail: Option<u32>, over: bool }
thread_local! { static ST: RefCell<S> = RefCell::new(S::default()); }
struct Stop;
fn stop() -> ! { std::panic::resume_unwind(Box::new(Stop)) }
#[no_mangle] extern "C-unwind" fn sym_u8() -> u8 { ST.with(|s| { let mut s = s.borrow_mut(); let p = s.pos; s.pos += 1; if p >= s.input.len() { s.over = true; } s.input.get(p).copied().unwrap_or(0) }) }
#[no_mangle] extern "C-unwind" fn sym_assume(c: bool) { if !c { stop() } }
#[no_mangle] extern "C-unwind" fn sym_assert(c: bool, id: u32) { if !c { ST.with(|s| s.borrow_mut().fail = Some(id)); stop() } }
#[no_mangle] extern "C-unwind" fn sym_cover(id: u32) { ST.with(|s| s.borrow_mut().covers.push(id)) }
#[no_mangle] extern "C-unwind" fn sym_out(t: u32, v: u64) { ST.with(|s| s.borrow_mut().outs.push((t, v))) }
#[no_mangle] extern "C-unwind" fn sym_conc(v: u64) -> u64 { v }
#[no_mangle] extern "C-unwind" fn sym_param(i: u32) -> u64 { ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0)) }
#[no_mangle] extern "C-unwind" fn sym_fmt_stub(_: bool) {}
#[no_mangle] extern "C-unwind" fn sym_split_loads(_: bool) {}

fn main() {
    // the code under test prints to stdout; results go to fd 3 of the parent, here: a file given as argument
    let mut res = std::fs::OpenOptions::new().append(true).create(true).open(std::env::args().nth(1).expect("result file")).unwrap();
    let quiet = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let q2 = quiet.clone();
    std::panic::set_hook(Box::new(move |i| { *q2.lock().unwrap() = i.to_string().replace('\n', " "); }));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (job, hex) = line.split_once('|').unwrap();
        let w: Vec<&str> = job.split_whitespace().collect();
        let params: Vec<u64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
        let hex = hex.trim();
        let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        ST.with(|s| *s.borrow_mut() = S { input, params, ..S::default() });
        let f = harness::ENTRIES.iter().find(|e| e.0 == w[0]).expect("entry").1;
        *quiet.lock().unwrap() = String::new();
        let r = std::panic::catch_unwind(|| f());
        let s = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let verdict = match r { Ok(()) => "ok".to_string(), Err(e) if e.is::<Stop>() => match s.fail { Some(id) => format!("assert {}", id), None => "assume".to_string() }, Err(_) => format!("panic {}", quiet.lock().unwrap().replace('"', "'").replace('\\', "/")) };
        let outs: Vec<String> = s.outs.iter().map(|(t, v)| format!("[{},{}]", t, v)).collect();
        writeln!(res, "{{\"r\":\"{}\",\"short\":{},\"used\":{},\"outs\":[{}]}}", verdict.chars().map(|c| if (c as u32) < 32 { ' ' } else { c }).collect::<String>(), s.over, s.pos, outs.join(",")).unwrap();
        res.flush().unwrap();
    }
}

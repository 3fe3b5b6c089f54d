//! Path-forking symbolic interpreter over the bytecode of `ll`.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hook { None, Panic, RandomKeys, Print, FmtWrite, Malloc, Calloc, Realloc, Free, MemAlign, MemCmp, MemCpy, MemSet, StrLen, SymU8, SymAssume, SymAssert, SymCover, SymOut, SymConc, SymParam, SymFmt, SymBegin, SymLimit, Abort, GetRandom, Zero, RNoop, UnknownExt }

pub fn hook_for(n: &str, defined: bool) -> Hook {
    match n {
        "malloc" => return Hook::Malloc, "calloc" => return Hook::Calloc, "realloc" => return Hook::Realloc, "free" => return Hook::Free, "posix_memalign" => return Hook::MemAlign,
        "memcmp" | "bcmp" => return Hook::MemCmp, "memcpy" | "memmove" => return Hook::MemCpy, "memset" => return Hook::MemSet, "strlen" => return Hook::StrLen,
        "sym_u8" => return Hook::SymU8, "sym_assume" => return Hook::SymAssume, "sym_assert" => return Hook::SymAssert, "sym_cover" => return Hook::SymCover, "sym_out" => return Hook::SymOut,
        "sym_conc" => return Hook::SymConc, "sym_param" => return Hook::SymParam, "sym_fmt_stub" => return Hook::SymFmt, "sym_split_loads" => return Hook::SymLimit, "sym_begin" => return Hook::SymBegin,
        "abort" => return Hook::Abort, "getrandom" => return Hook::GetRandom, "getenv" | "__errno_location" | "pthread_self" | "gettid" => return Hook::Zero,
        _ => {}
    }
    if n.contains("4core9panicking") || n.contains("3std9panicking") && !n.contains("panic_count") || n.contains("18handle_alloc_error") || n.contains("3std7process5abort") || n.contains("14rust_begin_unwind") { return Hook::Panic; }
    if n.contains("19hashmap_random_keys") { return Hook::RandomKeys; }
    if n.contains("5stdio6_print") || n.contains("5stdio7_eprint") { return Hook::Print; }
    if n.contains("___rust_no_alloc_shim_is_unstable") { return Hook::RNoop; }
    if n.ends_with("4core3fmt5write") { return Hook::FmtWrite; }
    if !defined && !n.starts_with("llvm.") { return Hook::UnknownExt; }
    Hook::None
}

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub fp: u32, pub block: u32, pub pc: u32, pub ret_d: u32, pub ret_n: u16, pub allocas: Vec<u32> }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, pub regs: Vec<Val>, pub mem: Mem,
    pub cons: Vec<u32>, pub dom: Vec<[u64; 4]>, pub mv: u128, pub model: Vec<u8>,
    pub conc: Vec<(u32, u64)>, pub outs: Vec<(u32, Val)>, pub fmt_stub: bool, pub split_loads: bool, pub insts: u64, pub forks: u32,
}
#[derive(Debug)]
pub enum End { Ret, Panic(String), Infeasible, Err(String) }
type R<T> = Result<T, End>;

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub what: String, pub inputs: Vec<u8>, pub stack: Vec<String>, pub path: u64 }
#[derive(Default)]
pub struct Stats { pub paths: u64, pub forks: u64, pub insts: u64, pub branches: u64, pub asserts: u64, pub asserts_sym: u64, pub asserts_const: u64, pub infeasible: u64, pub dom_decided: u64, pub cache_hits: u64, pub states: u64, pub max_vars: usize, pub conc: u64, pub symloads: u64, pub xchecks: u64 }

pub struct Cfg { pub max_insts: u64, pub max_paths: u64, pub max_total_secs: f64, pub samples: usize, pub max_viol: usize, pub seed: u64, pub max_mem: usize, pub xcheck: u64 }
pub struct Engine<'m> {
    pub m: &'m Module, pub dag: Dag, pub z3: Z3, pub work: Vec<State>, pub st: Stats, pub cfg: Cfg,
    pub params: Vec<u64>, pub viol: Vec<Violation>, vkeys: HashSet<String>, pub covers: BTreeMap<u32, u64>, pub traces: Vec<(Vec<u8>, Vec<(u32, u64)>)>,
    cache: HashMap<Vec<u64>, Option<Vec<(u32, u8)>>, BuildFx>, pub start: std::time::Instant, pub assert_ids: BTreeMap<u32, u64>, pub called: HashMap<u32, u64>, dbg: bool,
}

#[inline(always)]
fn g(regs: &[Val], fp: u32, consts: &[Val], o: Opd, i: u32) -> Val { if o >= 0 { regs[(fp + o as u32 + i) as usize] } else { consts[(-o - 1) as usize + i as usize] } }

fn bop(b: B) -> Op { match b { B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr } }

#[inline(always)]
fn conc_bin(op: B, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    (match op {
        B::Add => a.wrapping_add(b), B::Sub => a.wrapping_sub(b), B::Mul => a.wrapping_mul(b), B::And => a & b, B::Or => a | b, B::Xor => a ^ b,
        B::Shl => if b >= w as u64 { 0 } else { a << b }, B::LShr => if b >= w as u64 { 0 } else { a >> b },
        B::AShr => (sext64(a, w) >> b.min(w as u64 - 1).min(63)) as u64,
        B::UDiv => if b == 0 { m } else { a / b }, B::URem => if b == 0 { a } else { a % b },
        B::SDiv => if b == 0 { m } else { sext64(a, w).wrapping_div(sext64(b, w)) as u64 }, B::SRem => if b == 0 { a } else { sext64(a, w).wrapping_rem(sext64(b, w)) as u64 },
    }) & m
}
#[inline(always)]
fn conc_cmp(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b,
        Pred::Sgt => sext64(a, w) > sext64(b, w), Pred::Sge => sext64(a, w) >= sext64(b, w), Pred::Slt => sext64(a, w) < sext64(b, w), Pred::Sle => sext64(a, w) <= sext64(b, w) }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, cfg: Cfg, params: Vec<u64>) -> Engine<'m> {
        Engine { m, dag: Dag::new(), z3: Z3::new(120_000), work: vec![], st: Stats::default(), cfg, params, viol: vec![], vkeys: HashSet::new(), covers: BTreeMap::new(), traces: vec![], cache: HashMap::default(), start: std::time::Instant::now(), assert_ids: BTreeMap::new(), called: HashMap::new(), dbg: std::env::var_os("SYMDBG").is_some() }
    }
    // ---------- solver interface ----------
    fn sat(&mut self, st: &State, c: u32, force_z3: bool) -> R<Option<Vec<(u32, u8)>>> {
        if let Some(k) = self.dag.kval(c) { return Ok(if k != 0 { Some(vec![]) } else { None }); }
        if !force_z3 { if let Some(v) = self.dag.single_var(c) {
            let ts = self.dag.truth_set(c);
            let d = st.dom[v as usize];
            let x = [ts[0] & d[0], ts[1] & d[1], ts[2] & d[2], ts[3] & d[3]];
            if self.cfg.xcheck != 0 && self.st.dom_decided % self.cfg.xcheck == 0 && st.mv >> v & 1 == 0 {
                let r = self.z3.check(&mut self.dag, &[(v, d)], &[c]);
                let same = match &r { Res::Sat(m) => m.iter().all(|(i, b)| *i != v || x[(*b >> 6) as usize] >> (*b & 63) & 1 == 1) && x != [0; 4], Res::Unsat => x == [0; 4], Res::Unknown => true };
                self.st.xchecks += 1;
                if !same { return Err(End::Err("byte-domain decision contradicted by z3".into())); }
            }
            if x == [0; 4] { self.st.dom_decided += 1; return Ok(None); }
            if st.mv >> v & 1 == 0 { self.st.dom_decided += 1; let b = (0..256u32).find(|i| x[(*i >> 6) as usize] >> (i & 63) & 1 == 1).unwrap(); return Ok(Some(vec![(v, b as u8)])); }
        } }
        // relevant constraints
        let mut sup = self.dag.support[c as usize];
        let mut used = vec![false; st.cons.len()];
        let mut cs = vec![];
        loop {
            let mut ch = false;
            for (i, k) in st.cons.iter().enumerate() { if !used[i] && self.dag.support[*k as usize] & sup != 0 { used[i] = true; ch = true; sup |= self.dag.support[*k as usize]; cs.push(*k); } }
            if !ch { break; }
        }
        cs.sort();
        let doms: Vec<(u32, [u64; 4])> = (0..128u32).filter(|i| sup >> i & 1 == 1).map(|i| (i, st.dom[i as usize])).collect();
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + doms.len() * 5 + 1);
        key.push(c as u64 | if force_z3 { 1 << 63 } else { 0 });
        for k in &cs { key.push(*k as u64); }
        for (v, d) in &doms { key.push(*v as u64 | 1 << 40); key.extend_from_slice(d); }
        if let Some(r) = self.cache.get(&key) { self.st.cache_hits += 1; return Ok(r.clone()); }
        cs.push(c);
        let r = match self.z3.check(&mut self.dag, &doms, &cs) { Res::Sat(m) => Some(m), Res::Unsat => None, Res::Unknown => return Err(End::Err("solver returned unknown".into())) };
        if self.cache.len() > 200_000 { self.cache.clear(); }
        self.cache.insert(key, r.clone());
        Ok(r)
    }
    fn evalm(&mut self, st: &State, n: u32) -> u128 { self.dag.begin_eval(); let m = &st.model; self.dag.eval(n, &|i| *m.get(i as usize).unwrap_or(&0)) }
    fn assume(&mut self, st: &mut State, c: u32) {
        let n = self.dag.n(c);
        if n.op == Op::Const { return; }
        if let Some(v) = self.dag.single_var(c) { let ts = self.dag.truth_set(c); let d = &mut st.dom[v as usize]; for i in 0..4 { d[i] &= ts[i]; } return; }
        if n.op == Op::And { self.assume(st, n.a); self.assume(st, n.b); return; }
        if n.op == Op::Xor && self.dag.is_k(n.b, 1) { let m = self.dag.n(n.a); if m.op == Op::Or { let x = self.dag.not(m.a); let y = self.dag.not(m.b); self.assume(st, x); self.assume(st, y); return; } }
        st.mv |= self.dag.support[c as usize];
        if !st.cons.contains(&c) { st.cons.push(c); }
    }
    fn set_model(st: &mut State, m: &[(u32, u8)]) { for (v, b) in m { st.model[*v as usize] = *b; } }
    /// decide a symbolic condition: pushes the other side as a new state; returns the side taken
    fn branch(&mut self, st: &mut State, c: u32) -> R<bool> {
        self.st.branches += 1;
        let mv = self.evalm(st, c) != 0;
        let nc = self.dag.not(c);
        let (tk, ot) = if mv { (c, nc) } else { (nc, c) };
        if let Some(m) = self.sat(st, ot, false)? {
            let mut s2 = st.clone();
            Engine::set_model(&mut s2, &m);
            self.assume(&mut s2, ot);
            s2.forks += 1;
            self.push(s2);
            self.assume(st, tk);
        }
        Ok(mv)
    }
    fn push(&mut self, s: State) { if self.dbg { eprintln!("FORK {}", self.stack(&s).join(" <- ").chars().take(300).collect::<String>()); } self.st.forks += 1; self.st.states += 1; self.work.push(s); }
    /// make a value concrete, forking over its other feasible values (instruction is re-executed there)
    fn conc(&mut self, st: &mut State, v: Val, w: u32) -> R<u64> {
        if v.sym == 0 { return Ok(v.bits); }
        if let Some(x) = st.conc.iter().find(|x| x.0 == v.sym) { return Ok(x.1); }
        let x = self.evalm(st, v.sym);
        let k = self.dag.konst(w, x);
        let eq = self.dag.bin(Op::Eq, v.sym, k);
        let ne = self.dag.not(eq);
        if let Some(m) = self.sat(st, ne, false)? {
            self.st.conc += 1;
            if self.dbg { eprintln!("CONC {}", self.stack(st).join(" <- ").chars().take(300).collect::<String>()); }
            let mut s2 = st.clone();
            Engine::set_model(&mut s2, &m);
            self.assume(&mut s2, ne);
            self.push(s2);
            self.assume(st, eq);
        }
        st.conc.push((v.sym, x as u64));
        Ok(x as u64)
    }
    // ---------- memory ----------
    #[inline]
    fn with_obj<'a>(&'a self, st: &'a State, id: u32) -> Option<ObjRef<'a>> {
        if id >= st.mem.base { return st.mem.get(id).map(ObjRef::B); }
        if let Some(o) = st.mem.glob.get(&id) { return Some(ObjRef::B(o)); }
        if id as usize >= self.m.globs.len() { return None; }
        self.m.glob_obj(id).map(ObjRef::R)
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= st.mem.base { return st.mem.get_mut(id); }
        if !st.mem.glob.contains_key(&id) { if id as usize >= self.m.globs.len() { return None; } let o = self.m.glob_obj(id)?; st.mem.glob.insert(id, o); }
        Some(Rc::make_mut(st.mem.glob.get_mut(&id).unwrap()))
    }
    fn memerr(&self, st: &State, a: u64, n: usize, what: &str) -> End {
        End::Err(format!("bad {} of {} bytes at object {} offset {} (size {:?}) [{}]", what, n, a >> 32, a as u32, self.with_obj(st, (a >> 32) as u32).map(|o| o.get().data.len()), self.stack(st).join(" <- ")))
    }
    #[inline]
    fn load(&mut self, st: &State, a: u64, w: u32) -> R<Val> {
        let n = (w as usize + 7) / 8; let id = (a >> 32) as u32; let off = a as u32 as usize;
        let tmp;
        let o: &Obj = if id >= st.mem.base { match st.mem.get(id) { Some(o) => o, None => return Err(self.memerr(st, a, n, "load")) } } else { match self.with_obj(st, id) { Some(ObjRef::B(o)) => o, Some(ObjRef::R(r)) => { tmp = r; &tmp } None => return Err(self.memerr(st, a, n, "load")) } };
        if off + n > o.data.len() { return Err(self.memerr(st, a, n, "load")); }
        if !o.has_sym(off, n) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); return Ok(Val::k(u64::from_le_bytes(b) & mask(w))); }
            let mut v = 0u128; for i in (0..n).rev() { v = v << 8 | o.data[off + i] as u128; }
            let k = self.dag.konst(w, v); return Ok(Val::s(k));
        }
        let mut bs = [(0u32, 0u8); 32];
        for i in 0..n { bs[i] = (o.sym[off + i], o.data[off + i]); }
        let mut e = 0u32;
        for i in 0..n {
            let (s, d) = bs[i];
            let b = if s != 0 { s } else { self.dag.konst(8, d as u128) };
            e = if i == 0 { b } else { self.dag.concat(b, e) };
        }
        if w % 8 != 0 { e = self.dag.extract(e, 0, w); }
        Ok(self.dag.val(e))
    }
    #[inline]
    fn store(&mut self, st: &mut State, a: u64, w: u32, v: Val) -> R<()> {
        let n = (w as usize + 7) / 8; let id = (a >> 32) as u32; let off = a as u32 as usize;
        let o: &mut Obj = if id >= st.mem.base { match st.mem.get_mut(id) { Some(o) => o, None => return Err(self.memerr(st, a, n, "store")) } } else { let ok = self.obj_mut(st, id).is_some(); if !ok { return Err(self.memerr(st, a, n, "store")); } self.obj_mut(st, id).unwrap() };
        if off + n > o.data.len() { return Err(self.memerr(st, a, n, "store")); }
        if v.sym == 0 && n <= 8 {
            o.data[off..off + n].copy_from_slice(&v.bits.to_le_bytes()[..n]);
            if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = 0; } }
            return Ok(());
        }
        let mut e = if v.sym != 0 { v.sym } else { self.dag.konst(w, v.bits as u128) };
        if w % 8 != 0 { e = self.dag.zext(e, n as u32 * 8); }
        if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
        for i in 0..n {
            let b = self.dag.extract(e, i as u32 * 8, 8);
            if let Some(k) = self.dag.kval(b) { o.data[off + i] = k as u8; o.sym[off + i] = 0; } else { o.sym[off + i] = b; o.data[off + i] = 0; }
        }
        Ok(())
    }
    /// load through a symbolic address
    fn load_sym(&mut self, st: &mut State, p: u32, w: u32) -> R<Val> {
        if let Some(x) = st.conc.iter().find(|x| x.0 == p) { let a = x.1; return self.load(st, a, w); }
        self.st.symloads += 1;
        let a0 = self.evalm(st, p) as u64;
        let id = (a0 >> 32) as u32; let n = (w as usize + 7) / 8;
        let size = match self.with_obj(st, id) { Some(o) => o.get().data.len(), None => return Err(self.memerr(st, a0, n, "load")) };
        if size < n { return Err(self.memerr(st, a0, n, "load")); }
        let base = (id as u64) << 32;
        let bk = self.dag.konst(64, base as u128);
        let off = self.dag.bin(Op::Sub, p, bk);
        let lim = self.dag.konst(64, (size - n + 1) as u128);
        let inb = self.dag.bin(Op::Ult, off, lim);
        if self.dag.kval(inb) != Some(1) {
            let b = self.branch_inst(st, inb)?;
            if !b { return Err(self.memerr(st, a0, n, "load (symbolic)")); }
        }
        if let Some(v) = self.dag.single_var(p) {
            let t = *self.dag.table(p);
            let d = st.dom[v as usize];
            let mut leaf: Vec<Option<u32>> = vec![None; 256];
            for i in 0..256usize { if d[i >> 6] >> (i & 63) & 1 == 1 { let a = t[i]; if (a >> 32) as u32 == id && a as u32 as usize + n <= size { let x = self.load(st, a, w)?; leaf[i] = Some(self.dag.of(x, w)); } } }
            let vn = self.dag.var(v);
            let r = self.tree(vn, &leaf, 0, 256);
            return Ok(match r { Some(r) => self.dag.val(r), None => Val::k(0) });
        }
        if st.split_loads { let a = self.conc(st, Val::s(p), 64)?; return self.load(st, a, w); }
        // general index: ite chain over the object at the stride of the address
        let mut k = 0; { let no = self.dag.n(off); let z = |d: &Dag, x: u32| { let n = d.n(x); if n.op == Op::Concat && d.is_k(n.b, 0) { d.w(n.b) } else { 0 } };
            if no.op == Op::Concat { k = z(&self.dag, off) } else if no.op == Op::ZExt { k = z(&self.dag, no.a) } }
        let stride = 1usize << k.min(12);
        let um = self.dag.umax[off as usize];
        let top = (size - n).min(um as usize);
        if top / stride > 4096 { let a = self.conc(st, Val::s(p), 64)?; return self.load(st, a, w); }
        let mut r: Option<u32> = None;
        let mut i = 0;
        while i <= top {
            let x = self.load(st, base + i as u64, w)?; let x = self.dag.of(x, w);
            r = Some(match r { None => x, Some(rr) if rr == x => rr, Some(rr) => { let kk = self.dag.konst(64, i as u128); let c = self.dag.bin(Op::Eq, off, kk); self.dag.ite(c, x, rr) } });
            i += stride;
        }
        Ok(self.dag.val(r.unwrap()))
    }
    fn tree(&mut self, v: u32, leaf: &[Option<u32>], lo: usize, hi: usize) -> Option<u32> {
        if hi - lo == 1 { return leaf[lo]; }
        let mid = (lo + hi) / 2;
        let a = self.tree(v, leaf, lo, mid); let b = self.tree(v, leaf, mid, hi);
        match (a, b) { (None, x) | (x, None) => x, (Some(a), Some(b)) if a == b => Some(a), (Some(a), Some(b)) => { let k = self.dag.konst(8, mid as u128); let c = self.dag.bin(Op::Ult, v, k); Some(self.dag.ite(c, a, b)) } }
    }
    /// branch whose other side re-executes the current instruction
    fn branch_inst(&mut self, st: &mut State, c: u32) -> R<bool> { self.branch(st, c) }

    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sid, so) = ((s >> 32) as u32, s as u32 as usize);
        let (data, sym) = {
            let Some(o) = self.with_obj(st, sid) else { return Err(self.memerr(st, s, n, "copy source")) };
            let o = o.get();
            if so + n > o.data.len() { return Err(self.memerr(st, s, n, "copy source")); }
            (o.data[so..so + n].to_vec(), if o.has_sym(so, n) { o.sym[so..so + n].to_vec() } else { vec![] })
        };
        let (did, dof) = ((d >> 32) as u32, d as u32 as usize);
        let ok = match self.obj_mut(st, did) { Some(o) => dof + n <= o.data.len(), None => false };
        if !ok { return Err(self.memerr(st, d, n, "copy target")); }
        let o = self.obj_mut(st, did).unwrap();
        o.data[dof..dof + n].copy_from_slice(&data);
        if !sym.is_empty() { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } o.sym[dof..dof + n].copy_from_slice(&sym); }
        else if !o.sym.is_empty() { for x in &mut o.sym[dof..dof + n] { *x = 0; } }
        Ok(())
    }
    fn fill(&mut self, st: &mut State, d: u64, v: Val, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let (did, dof) = ((d >> 32) as u32, d as u32 as usize);
        let ok = match self.obj_mut(st, did) { Some(o) => dof + n <= o.data.len(), None => false };
        if !ok { return Err(self.memerr(st, d, n, "fill")); }
        let o = self.obj_mut(st, did).unwrap();
        for x in &mut o.data[dof..dof + n] { *x = v.bits as u8; }
        if v.sym != 0 { if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; } }
        if !o.sym.is_empty() { for x in &mut o.sym[dof..dof + n] { *x = v.sym; } }
        Ok(())
    }
    fn bytes_of(&self, st: &State, a: u64, n: usize) -> R<Vec<Val>> {
        if n == 0 { return Ok(vec![]); }
        let Some(o) = self.with_obj(st, (a >> 32) as u32) else { return Err(self.memerr(st, a, n, "read")) };
        let o = o.get(); let off = a as u32 as usize;
        if off + n > o.data.len() { return Err(self.memerr(st, a, n, "read")); }
        Ok((0..n).map(|i| { let s = if o.sym.is_empty() { 0 } else { o.sym[off + i] }; if s != 0 { Val::s(s) } else { Val::k(o.data[off + i] as u64) } }).collect())
    }
    pub fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| {
            let dbg = f.f.blocks[f.block as usize].dbg.get(f.pc as usize).copied().unwrap_or(0);
            let loc = if dbg != 0 { crate::dbg::loc(self.m, dbg) } else { String::new() };
            format!("{}@{}", crate::dbg::short(&f.f.name), loc)
        }).collect()
    }
    fn find_location(&self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if a.sym != 0 || a.bits >> 32 == 0 { continue; }
            let Some(o) = self.with_obj(st, (a.bits >> 32) as u32) else { continue };
            let o = o.get(); let off = a.bits as u32 as usize;
            if off + 24 > o.data.len() || o.has_sym(off, 24) { continue; }
            let r64 = |p: usize| u64::from_le_bytes(o.data[p..p + 8].try_into().unwrap());
            let r32 = |p: usize| u32::from_le_bytes(o.data[p..p + 4].try_into().unwrap());
            let (fp, len, line, col) = (r64(off), r64(off + 8), r32(off + 16), r32(off + 20));
            if len == 0 || len > 300 || line == 0 || line > 1_000_000 || col > 1000 { continue; }
            if let Ok(b) = self.bytes_of(st, fp, len as usize) { let s: String = b.iter().map(|v| v.bits as u8 as char).collect(); if s.ends_with(".rs") { return format!("{}:{}:{}", s, line, col); } }
        }
        String::new()
    }
    fn find_msg(&self, st: &State, args: &[Val]) -> String {
        for (i, a) in args.iter().enumerate() {
            if a.sym != 0 || a.bits >> 32 == 0 || i + 1 >= args.len() { continue; }
            let n = args[i + 1]; if n.sym != 0 || n.bits == 0 || n.bits > 400 { continue; }
            if let Ok(b) = self.bytes_of(st, a.bits, n.bits as usize) { if b.iter().all(|v| v.sym == 0 && (v.bits as u8).is_ascii_graphic() || v.bits == 32) { return b.iter().map(|v| v.bits as u8 as char).collect(); } }
        }
        String::new()
    }
    pub fn violation(&mut self, st: &State, kind: &str, what: String, model: Option<&[(u32, u8)]>) {
        let mut inputs = st.model.clone();
        if let Some(m) = model { for (v, b) in m { inputs[*v as usize] = *b; } }
        inputs.truncate(st.dom.len());
        let key = format!("{}|{}", kind, what);
        if self.vkeys.len() >= self.cfg.max_viol || !self.vkeys.insert(key) { return; }
        let stack = self.stack(st);
        self.viol.push(Violation { kind: kind.into(), what, inputs, stack, path: self.st.paths });
    }

    // ---------- driver ----------
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let Some(fi) = self.m.fmap.get(entry).copied() else { return Err(format!("no entry {}", entry)) };
        for (k, (w, v)) in self.m.wide.borrow().iter().enumerate() { self.dag.wide(k, *w, *v); }
        let f = self.m.func(fi, &mut self.dag);
        let mut st = State { frames: vec![], regs: vec![], mem: Mem::new(1 << 20), cons: vec![], dom: vec![], mv: 0, model: vec![], conc: vec![], outs: vec![], fmt_stub: false, split_loads: false, insts: 0, forks: 0 };
        self.enter(&mut st, f, &[], 0, 0);
        self.st.states = 1;
        self.work.push(st);
        let mut err = None;
        while let Some(mut s) = self.work.pop() {
            let e = self.exec(&mut s);
            self.st.insts += s.insts; s.insts = 0;
            match e {
                End::Ret => { self.st.paths += 1; self.sample(&s); }
                End::Panic(w) => { self.st.paths += 1; self.violation(&s, "panic", w, None); self.sample(&s); }
                End::Infeasible => self.st.infeasible += 1,
                End::Err(m) => { err = Some(format!("{} [{}]", m, self.stack(&s).join(" <- "))); break; }
            }
            self.st.max_vars = self.st.max_vars.max(s.dom.len());
            if self.st.paths >= self.cfg.max_paths { err = Some("path limit reached".into()); break; }
            if self.start.elapsed().as_secs_f64() > self.cfg.max_total_secs { err = Some(format!("time limit reached with {} states pending", self.work.len())); if self.work.is_empty() { err = None; } break; }
            if self.dag.nodes.len() > 60_000_000 { err = Some("expression limit reached".into()); break; }
        }
        match err { Some(e) => Err(e), None => Ok(()) }
    }
    fn sample(&mut self, s: &State) {
        // spread samples over the exploration: reservoir keyed by a hash of (seed, path number)
        let n = self.st.paths;
        let h = (n ^ self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_mul(0xBF58476D1CE4E5B9); let h = (h ^ h >> 31).wrapping_mul(0x94D049BB133111EB);
        let slot = if self.traces.len() < self.cfg.samples { self.traces.len() } else if self.cfg.samples > 0 { let r = (h % n) as usize; if r < self.cfg.samples { r } else { return } } else { return };
        self.dag.begin_eval();
        let mut outs = vec![];
        let m = s.model.clone();
        for (t, v) in &s.outs { let x = if v.sym != 0 { self.dag.eval(v.sym, &|i| *m.get(i as usize).unwrap_or(&0)) as u64 } else { v.bits }; outs.push((*t, x)); }
        let mut inp = m; inp.truncate(s.dom.len());
        if slot < self.traces.len() { self.traces[slot] = (inp, outs) } else { self.traces.push((inp, outs)) }
    }
    fn enter(&mut self, st: &mut State, f: Rc<Func>, args: &[Val], ret_d: u32, ret_n: u16) {
        let fp = st.regs.len() as u32;
        st.regs.resize(fp as usize + f.nslots as usize, Val::k(0));
        let mut k = 0;
        for (s, n) in &f.params { for i in 0..*n as usize { st.regs[fp as usize + *s as usize + i] = args[k]; k += 1; } }
        f.blocks[0].seen.set(true);
        st.frames.push(Frame { f, fp, block: 0, pc: 0, ret_d, ret_n, allocas: vec![] });
    }

    fn exec(&mut self, st: &mut State) -> End {
        loop {
            match self.exec_frame(st) { Ok(true) => continue, Ok(false) => return End::Ret, Err(e) => return e }
        }
    }
    /// run until the frame stack changes; Ok(false) when the entry function returned
    fn exec_frame(&mut self, st: &mut State) -> R<bool> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone(); let fp = fr.fp; let mut block = fr.block; let mut pc = fr.pc;
        let consts: &[Val] = &f.consts;
        macro_rules! get { ($o:expr) => { g(&st.regs, fp, consts, $o, 0) }; ($o:expr, $i:expr) => { g(&st.regs, fp, consts, $o, $i as u32) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.regs[(fp + $d) as usize] = v; }}; ($d:expr, $i:expr, $v:expr) => {{ let v = $v; st.regs[(fp + $d + $i as u32) as usize] = v; }} }
        macro_rules! sync { () => {{ let fr = st.frames.last_mut().unwrap(); fr.block = block; fr.pc = pc; }} }
        macro_rules! goto { ($e:expr) => {{
            let e: &Edge = $e;
            let mv: &[(u32, Opd, u16)] = &e.moves;
            if mv.len() == 1 { let (d, s, n) = mv[0]; if n == 1 { let v = get!(s); set!(d, v); } else { let t: Vec<Val> = (0..n).map(|i| get!(s, i)).collect(); for (i, v) in t.into_iter().enumerate() { set!(d, i, v); } } }
            else if mv.len() > 1 { let mut t: [Val; 24] = [Val::k(0); 24]; let tot: usize = mv.iter().map(|m| m.2 as usize).sum();
                if tot <= 24 { let mut k = 0; for (_, s, n) in mv { for i in 0..*n { t[k] = get!(*s, i); k += 1; } } let mut k = 0; for (d, _, n) in mv { for i in 0..*n { set!(*d, i, t[k]); k += 1; } } }
                else { let mut t = vec![]; for (_, s, n) in mv { for i in 0..*n { t.push(get!(*s, i)); } } let mut k = 0; for (d, _, n) in mv { for i in 0..*n { set!(*d, i, t[k]); k += 1; } } } }
            block = e.to; pc = 0; f.blocks[block as usize].seen.set(true);
        }} }
        loop {
            let inst = &f.blocks[block as usize].insts[pc as usize];
            st.insts += 1;
            match inst {
                I::Bin { op, w, n, d, a, b } => {
                    let w = *w as u32;
                    for i in 0..*n {
                        let (x, y) = (get!(*a, i), get!(*b, i));
                        let r = if x.sym | y.sym == 0 { Val::k(conc_bin(*op, w, x.bits, y.bits)) } else { self.bin_sym(*op, w, x, y) };
                        set!(*d, i, r);
                    }
                }
                I::ICmp { p, w, n, d, a, b } => {
                    let w = *w as u32;
                    for i in 0..*n {
                        let (x, y) = (get!(*a, i), get!(*b, i));
                        let r = if x.sym | y.sym == 0 { Val::k(conc_cmp(*p, w, x.bits, y.bits) as u64) } else { self.cmp_sym(*p, w, x, y) };
                        set!(*d, i, r);
                    }
                }
                I::Load { d, p, w } => {
                    let a = get!(*p);
                    let v = if a.sym == 0 { sync!(); self.load(st, a.bits, *w as u32)? } else { sync!(); self.load_sym(st, a.sym, *w as u32)? };
                    set!(*d, v);
                }
                I::Store { v, p, w } => {
                    let a = get!(*p); let x = get!(*v);
                    sync!();
                    let a = if a.sym == 0 { a.bits } else { self.conc(st, a, 64)? };
                    self.store(st, a, *w as u32, x)?;
                }
                I::Gep { d, p, off, terms } => {
                    let b = get!(*p);
                    let mut acc = b.bits.wrapping_add(*off as u64); let mut sym = b.sym;
                    for (o, _, _) in terms.iter() { sym |= get!(*o).sym; }
                    if sym == 0 {
                        for (o, w, sc) in terms.iter() { acc = acc.wrapping_add((sext64(get!(*o).bits, *w as u32) as u64).wrapping_mul(*sc as u64)); }
                        set!(*d, Val::k(acc));
                    } else {
                        let mut e = self.dag.of(b, 64); let k = self.dag.konst(64, *off as u64 as u128); e = self.dag.bin(Op::Add, e, k);
                        for (o, w, sc) in terms.iter() { let x = get!(*o); let x = self.dag.of(x, *w as u32); let x = self.dag.sext(x, 64); let k = self.dag.konst(64, *sc as u64 as u128); let t = self.dag.bin(Op::Mul, x, k); e = self.dag.bin(Op::Add, e, t); }
                        set!(*d, self.dag.val(e));
                    }
                }
                I::Mov { d, a, n } => { for i in 0..*n { let v = get!(*a, i); set!(*d, i, v); } }
                I::Br(e) => { goto!(e); continue; }
                I::CondBr { c, t, f: fe } => {
                    let v = get!(*c);
                    let b = if v.sym == 0 { v.bits != 0 } else { sync!(); self.branch(st, v.sym)? };
                    if b { goto!(t) } else { goto!(fe) }
                    continue;
                }
                I::Switch { v, w, cases, def } => {
                    let x = get!(*v);
                    if x.sym == 0 {
                        let e = cases.iter().find(|c| c.0 == x.bits).map(|c| &c.1).unwrap_or(def);
                        goto!(e);
                    } else {
                        sync!();
                        // group cases by target; the alternative side re-executes the switch under the negated condition
                        let mut conds: Vec<(u32, u32, &Edge)> = vec![]; // (target, cond, edge)
                        let mv = self.evalm(st, x.sym) as u64;
                        let hit = cases.iter().find(|c| c.0 == mv).map(|c| &c.1);
                        let target_is = |e: &Edge, h: &Edge| e.to == h.to && e.moves.iter().zip(h.moves.iter()).all(|(p, q)| p == q);
                        let (cond, e): (u32, &Edge) = match hit {
                            Some(h) => { let mut c = self.dag.fls(); for (k, e) in cases.iter() { if target_is(e, h) { let kk = self.dag.konst(*w as u32, *k as u128); let q = self.dag.bin(Op::Eq, x.sym, kk); c = self.dag.or1(c, q); } }
                                if target_is(def, h) { let mut dn = self.dag.tru(); for (k, _) in cases.iter() { let kk = self.dag.konst(*w as u32, *k as u128); let q = self.dag.bin(Op::Eq, x.sym, kk); let nq = self.dag.not(q); dn = self.dag.and1(dn, nq); } c = self.dag.or1(c, dn); }
                                (c, h) }
                            None => { let mut dn = self.dag.tru(); for (k, e) in cases.iter() { if !target_is(e, def) { let kk = self.dag.konst(*w as u32, *k as u128); let q = self.dag.bin(Op::Eq, x.sym, kk); let nq = self.dag.not(q); dn = self.dag.and1(dn, nq); } } (dn, def) }
                        };
                        conds.clear();
                        if self.dag.kval(cond).is_none() { let b = self.branch(st, cond)?; if !b { return Err(End::Err("switch model mismatch".into())); } }
                        goto!(e);
                    }
                    continue;
                }
                I::Cast { op, wf, wt, n, d, a } => {
                    let (wf, wt) = (*wf as u32, *wt as u32);
                    for i in 0..*n {
                        let x = get!(*a, i);
                        let r = if x.sym == 0 && wt <= 64 && wf <= 64 {
                            Val::k(match op { C::Trunc => x.bits & mask(wt), C::ZExt => x.bits, C::SExt => sext64(x.bits, wf) as u64 & mask(wt),
                                C::UiToFp => if wt == 32 { (x.bits as f32).to_bits() as u64 } else { (x.bits as f64).to_bits() }, C::SiToFp => { let s = sext64(x.bits, wf); if wt == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } }
                                C::FpToUi | C::FpToSi => Dag::fold(if *op == C::FpToUi { Op::FpToUi } else { Op::FpToSi }, wt, wf, x.bits as u128, 0, 0, 0, 0) as u64,
                                C::FpExt => (f32::from_bits(x.bits as u32) as f64).to_bits(), C::FpTrunc => (f64::from_bits(x.bits) as f32).to_bits() as u64 })
                        } else {
                            let e = self.dag.of(x, wf);
                            let r = match op { C::Trunc => self.dag.extract(e, 0, wt), C::ZExt => self.dag.zext(e, wt), C::SExt => self.dag.sext(e, wt),
                                C::UiToFp => self.dag.fop(Op::UiToFp, wt, e, 0, 0), C::SiToFp => self.dag.fop(Op::SiToFp, wt, e, 0, 0), C::FpToUi => self.dag.fop(Op::FpToUi, wt, e, 0, 0), C::FpToSi => self.dag.fop(Op::FpToSi, wt, e, 0, 0), C::FpExt => self.dag.fop(Op::FpExt, wt, e, 0, 0), C::FpTrunc => self.dag.fop(Op::FpTrunc, wt, e, 0, 0) };
                            self.dag.val(r)
                        };
                        set!(*d, i, r);
                    }
                }
                I::Select { d, c, a, b, ws, vec } => {
                    let n = ws.len();
                    let mut cv = get!(*c);
                    for i in 0..n {
                        if *vec { cv = get!(*c, i); }
                        if cv.sym != 0 { if let Some(v) = self.dag.single_var(cv.sym) {
                            let t = self.dag.truth_set(cv.sym); let dm = st.dom[v as usize];
                            if (0..4).all(|k| dm[k] & !t[k] == 0) { cv = Val::k(1); } else if (0..4).all(|k| dm[k] & t[k] == 0) { cv = Val::k(0); }
                        } }
                        let (x, y) = (get!(*a, i), get!(*b, i));
                        let r = if cv.sym == 0 { if cv.bits != 0 { x } else { y } } else if x == y { x } else { let w = ws[i] as u32; let (p, q) = (self.dag.of(x, w), self.dag.of(y, w)); let e = self.dag.ite(cv.sym, p, q); self.dag.val(e) };
                        set!(*d, i, r);
                    }
                }
                I::Alloca { d, size } => {
                    let id = st.mem.alloc(Obj::new(*size as usize));
                    st.frames.last_mut().unwrap().allocas.push(id);
                    set!(*d, Val::k((id as u64) << 32));
                }
                I::LoadN { d, p, lay } => {
                    let a = get!(*p); sync!();
                    let a = if a.sym == 0 { a.bits } else { self.conc(st, a, 64)? };
                    for (i, (o, w)) in lay.iter().enumerate() { let v = self.load(st, a + *o as u64, *w as u32)?; set!(*d, i, v); }
                }
                I::StoreN { v, p, lay } => {
                    let a = get!(*p); sync!();
                    let a = if a.sym == 0 { a.bits } else { self.conc(st, a, 64)? };
                    for (i, (o, w)) in lay.iter().enumerate() { let x = get!(*v, i); self.store(st, a + *o as u64, *w as u32, x)?; }
                }
                I::FBin { op, w, n, d, a, b } => {
                    let w = *w as u32;
                    for i in 0..*n {
                        let (x, y) = (get!(*a, i), get!(*b, i));
                        let o = match op { FB::Add => Op::FAdd, FB::Sub => Op::FSub, FB::Mul => Op::FMul, FB::Div => Op::FDiv, FB::Rem => { if x.sym | y.sym != 0 { return Err(End::Err("symbolic frem".into())); } Op::FAdd } };
                        let r = if x.sym | y.sym == 0 { Val::k(if *op == FB::Rem { if w == 32 { (f32::from_bits(x.bits as u32) % f32::from_bits(y.bits as u32)).to_bits() as u64 } else { (f64::from_bits(x.bits) % f64::from_bits(y.bits)).to_bits() } } else { Dag::fold(o, w, w, x.bits as u128, y.bits as u128, 0, 0, 0) as u64 }) }
                            else { let (p, q) = (self.dag.of(x, w), self.dag.of(y, w)); let e = self.dag.fop(o, w, p, q, 0); self.dag.val(e) };
                        set!(*d, i, r);
                    }
                }
                I::FCmp { p, w, n, d, a, b } => {
                    let w = *w as u32;
                    for i in 0..*n {
                        let (x, y) = (get!(*a, i), get!(*b, i));
                        let r = if x.sym | y.sym == 0 {
                            let cv = |v: u64| if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                            let (x, y) = (cv(x.bits), cv(y.bits));
                            let bit = if x < y { 1 } else if x == y { 2 } else if x > y { 4 } else { 8 };
                            Val::k((*p & bit != 0) as u64)
                        } else {
                            let (x, y) = (self.dag.of(x, w), self.dag.of(y, w));
                            let mut e = self.dag.fls();
                            if p & 1 != 0 { let t = self.dag.fop(Op::FLt, 1, x, y, 0); e = self.dag.or1(e, t); }
                            if p & 2 != 0 { let t = self.dag.fop(Op::FEq, 1, x, y, 0); e = self.dag.or1(e, t); }
                            if p & 4 != 0 { let t = self.dag.fop(Op::FLt, 1, y, x, 0); e = self.dag.or1(e, t); }
                            if p & 8 != 0 { let t = self.dag.fop(Op::FUno, 1, x, y, 0); e = self.dag.or1(e, t); }
                            self.dag.val(e)
                        };
                        set!(*d, i, r);
                    }
                }
                I::FNeg { w, n, d, a } => { let w = *w as u32; for i in 0..*n { let x = get!(*a, i); let r = self.bin_any(B::Xor, w, x, Val::k(1u64 << (w - 1))); set!(*d, i, r); } }
                I::Bitcast { d, a, from, to } => {
                    let conc = (0..from.len()).all(|i| get!(*a, i).sym == 0);
                    if conc {
                        let mut bits: Vec<u8> = vec![]; // little endian bit string, in bytes when possible
                        let tot: usize = from.iter().map(|x| *x as usize).sum(); bits.resize(tot, 0);
                        let mut p = 0; for (i, w) in from.iter().enumerate() { let v = get!(*a, i).bits; for k in 0..*w as usize { bits[p] = (v >> k & 1) as u8; p += 1; } }
                        let mut p = 0; for (i, w) in to.iter().enumerate() {
                            if *w <= 64 { let mut v = 0u64; for k in 0..*w as usize { v |= (bits[p] as u64) << k; p += 1; } set!(*d, i, Val::k(v)); }
                            else { let mut v = 0u128; for k in 0..*w as usize { v |= (bits[p] as u128) << k; p += 1; } let e = self.dag.konst(*w as u32, v); set!(*d, i, Val::s(e)); } }
                    } else {
                        let tot: u32 = from.iter().map(|x| *x as u32).sum();
                        if tot > 128 { return Err(End::Err("wide symbolic bitcast".into())); }
                        let mut e = 0; for (i, w) in from.iter().enumerate() { let v = get!(*a, i); let v = self.dag.of(v, *w as u32); e = if i == 0 { v } else { self.dag.concat(v, e) }; }
                        let mut p = 0; for (i, w) in to.iter().enumerate() { let x = self.dag.extract(e, p, *w as u32); p += *w as u32; set!(*d, i, self.dag.val(x)); }
                    }
                }
                I::ExtractEl { d, v, n, idx } => { let i = get!(*idx); sync!(); let i = self.conc(st, i, 64)?; if i >= *n as u64 { return Err(End::Err("extractelement".into())); } let x = get!(*v, i); set!(*d, x); }
                I::InsertEl { d, v, n, idx, e } => { let i = get!(*idx); sync!(); let i = self.conc(st, i, 64)?; let x = get!(*e); for k in 0..*n { let y = get!(*v, k); set!(*d, k, if k as u64 == i { x } else { y }); } }
                I::Shuffle { d, a, b, na, m } => { let t: Vec<Val> = m.iter().map(|k| if *k < 0 { Val::k(0) } else if (*k as u32) < *na as u32 { get!(*a, *k) } else { get!(*b, *k as u32 - *na as u32) }).collect(); for (i, v) in t.into_iter().enumerate() { set!(*d, i, v); } }
                I::InsVal { d, a, n, at, e, en } => { let mut t: Vec<Val> = (0..*n).map(|i| get!(*a, i)).collect(); for i in 0..*en { t[(*at + i) as usize] = get!(*e, i); } for (i, v) in t.into_iter().enumerate() { set!(*d, i, v); } }
                I::Rmw { d, p, v, op, w } => {
                    let a = get!(*p); let x = get!(*v); sync!(); let a = self.conc(st, a, 64)?; let w = *w as u32;
                    let old = self.load(st, a, w)?;
                    let nv = match op.as_str() { "xchg" => x, "add" => self.bin_any(B::Add, w, old, x), "sub" => self.bin_any(B::Sub, w, old, x), "and" => self.bin_any(B::And, w, old, x), "or" => self.bin_any(B::Or, w, old, x), "xor" => self.bin_any(B::Xor, w, old, x), o => return Err(End::Err(format!("atomicrmw {}", o))) };
                    self.store(st, a, w, nv)?; set!(*d, old);
                }
                I::CmpXchg { d, p, c, v, w } => {
                    let a = get!(*p); let (cv, nv) = (get!(*c), get!(*v)); sync!(); let a = self.conc(st, a, 64)?; let w = *w as u32;
                    let old = self.load(st, a, w)?;
                    if old.sym | cv.sym != 0 { return Err(End::Err("symbolic cmpxchg".into())); }
                    let ok = old.bits == cv.bits; if ok { self.store(st, a, w, nv)?; }
                    set!(*d, 0, old); set!(*d, 1, Val::k(ok as u64));
                }
                I::Nop => {}
                I::Ret { a, n } => {
                    let vals: [Val; 4] = { let mut t = [Val::k(0); 4]; for i in 0..(*n).min(4) { t[i as usize] = get!(*a, i); } t };
                    let long: Vec<Val> = if *n > 4 { (0..*n).map(|i| get!(*a, i)).collect() } else { vec![] };
                    let fr = st.frames.pop().unwrap();
                    for id in fr.allocas { st.mem.free(id); }
                    st.regs.truncate(fp as usize);
                    if st.frames.is_empty() { return Ok(false); }
                    let k = (*n).min(fr.ret_n);
                    for i in 0..k { st.regs[(fr.ret_d + i as u32) as usize] = if *n > 4 { long[i as usize] } else { vals[i as usize] }; }
                    if st.insts > self.cfg.max_insts { return Err(End::Panic(format!("hang: no return within {} instructions", self.cfg.max_insts))); }
                    return Ok(true);
                }
                I::Unreachable => { sync!(); return Err(End::Panic(format!("unreachable code reached ({})", self.stack(st)[0]))); }
                I::Unsupported(s) => { sync!(); return Err(End::Err(format!("unsupported instruction: {}", s.trim()))); }
                I::Call(c) => {
                    sync!();
                    match &c.callee {
                        Callee::Asm => { for i in 0..c.n { set!(c.d, i, Val::k(0)); } }
                        Callee::Intr(name) => {
                            if name.starts_with("llvm.memcpy") || name.starts_with("llvm.memmove") {
                                let (d, s, n) = (get!(c.args[0].0), get!(c.args[1].0), get!(c.args[2].0));
                                let d = self.conc(st, d, 64)?; let n = self.conc(st, n, c.args[2].2 as u32)?;
                                if s.sym != 0 && n <= 16 && self.dag.single_var(s.sym).is_some() && !st.conc.iter().any(|x| x.0 == s.sym) {
                                    // table row picked by one input byte: copy each byte as a function of it
                                    let mut vs = Vec::with_capacity(n as usize);
                                    for i in 0..n { let k = self.dag.konst(64, i as u128); let p = self.dag.bin(Op::Add, s.sym, k); vs.push(if self.dag.kval(p).is_some() { let a = self.dag.kval(p).unwrap() as u64; self.load(st, a, 8)? } else { self.load_sym(st, p, 8)? }); }
                                    for (i, v) in vs.into_iter().enumerate() { self.store(st, d + i as u64, 8, v)?; }
                                } else {
                                let s = self.conc(st, s, 64)?;
                                self.copy(st, d, s, n as usize)?;
                                }
                            } else if name.starts_with("llvm.memset") {
                                let (d, v, n) = (get!(c.args[0].0), get!(c.args[1].0), get!(c.args[2].0));
                                let d = self.conc(st, d, 64)?; let n = self.conc(st, n, c.args[2].2 as u32)?;
                                self.fill(st, d, v, n as usize)?;
                            } else {
                                let args: Vec<Vec<Val>> = c.args.iter().map(|(o, n, _)| (0..*n).map(|i| get!(*o, i)).collect()).collect();
                                let r = self.intrinsic(st, name, c, &args)?;
                                for (i, v) in r.into_iter().enumerate() { set!(c.d, i, v); }
                            }
                        }
                        callee => {
                            let fi = match callee { Callee::Fn(i) => *i, Callee::Ind(o) => { let v = get!(*o); let a = self.conc(st, v, 64)?; let id = (a >> 32) as usize; match self.m.globs.get(id).map(|x| &x.kind) { Some(GKind::Fn(i)) if a as u32 == 0 => *i, _ => return Err(self.memerr(st, a, 0, "indirect call")) } } _ => unreachable!() };
                            let slot = &self.m.funcs[fi as usize];
                            let mut args: Vec<Val> = Vec::with_capacity(c.args.len());
                            for (o, n, _) in &c.args { for i in 0..*n { args.push(get!(*o, i)); } }
                            let mut hook = slot.hook;
                            if hook == Hook::FmtWrite && !st.fmt_stub { hook = Hook::None; }
                            if hook == Hook::None {
                                let callee = self.m.func(fi, &mut self.dag);
                                st.frames.last_mut().unwrap().pc = pc + 1;
                                if st.frames.len() > 400 { return Err(End::Err("call depth".into())); }
                                self.enter(st, callee, &args, fp + c.d, c.n);
                                return Ok(true);
                            }
                            let r = self.hook(st, hook, slot.name, c, &args)?;
                            for (i, v) in r.into_iter().enumerate() { if i < c.n as usize { set!(c.d, i, v); } }
                        }
                    }
                }
            }
            pc += 1;
            if st.insts & 0xfffff == 0 {
                if st.insts > self.cfg.max_insts { sync!(); return Err(End::Panic(format!("hang: no return within {} instructions", self.cfg.max_insts))); }
                if self.start.elapsed().as_secs_f64() > self.cfg.max_total_secs { sync!(); return Err(End::Err("time limit inside one path".into())); }
            }
        }
    }
    fn bin_any(&mut self, op: B, w: u32, x: Val, y: Val) -> Val { if x.sym | y.sym == 0 { Val::k(conc_bin(op, w, x.bits, y.bits)) } else { self.bin_sym(op, w, x, y) } }
    #[inline(never)]
    fn bin_sym(&mut self, op: B, w: u32, x: Val, y: Val) -> Val { let (a, b) = (self.dag.of(x, w), self.dag.of(y, w)); let e = self.dag.bin(bop(op), a, b); self.dag.val(e) }
    #[inline(never)]
    fn cmp_sym(&mut self, p: Pred, w: u32, x: Val, y: Val) -> Val {
        let (a, b) = (self.dag.of(x, w), self.dag.of(y, w));
        let d = &mut self.dag;
        let e = match p {
            Pred::Eq => d.bin(Op::Eq, a, b), Pred::Ne => { let t = d.bin(Op::Eq, a, b); d.not(t) }
            Pred::Ult => d.bin(Op::Ult, a, b), Pred::Ugt => d.bin(Op::Ult, b, a), Pred::Uge => { let t = d.bin(Op::Ult, a, b); d.not(t) } Pred::Ule => { let t = d.bin(Op::Ult, b, a); d.not(t) }
            Pred::Slt => d.bin(Op::Slt, a, b), Pred::Sgt => d.bin(Op::Slt, b, a), Pred::Sge => { let t = d.bin(Op::Slt, a, b); d.not(t) } Pred::Sle => { let t = d.bin(Op::Slt, b, a); d.not(t) }
        };
        d.val(e)
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<Val> {
        if n > 1 << 31 || st.mem.bytes + n as usize > self.cfg.max_mem { return Err(End::Panic(format!("allocation of {} bytes exceeds the memory bound", n))); }
        let id = st.mem.alloc(Obj::new(n as usize));
        Ok(Val::k((id as u64) << 32))
    }
    fn hook(&mut self, st: &mut State, h: Hook, name: &str, c: &CallI, a: &[Val]) -> R<Vec<Val>> {
        Ok(match h {
            Hook::Panic => { let l = self.find_location(st, a); let m = self.find_msg(st, a); return Err(End::Panic(format!("{} {} [{}]", l, m, crate::dbg::short(name)))); }
            Hook::Abort => return Err(End::Panic("abort()".into())),
            Hook::RandomKeys => vec![Val::k(0x0123456789abcdef), Val::k(0xfedcba9876543210)],
            Hook::Print | Hook::RNoop => vec![Val::k(0); c.n as usize],
            Hook::FmtWrite => vec![Val::k(0); c.n as usize],
            Hook::Malloc => { let n = self.conc(st, a[0], 64)?; vec![self.alloc(st, n)?] }
            Hook::Calloc => { let n = self.conc(st, a[0], 64)?; let m = self.conc(st, a[1], 64)?; vec![self.alloc(st, n * m)?] }
            Hook::Realloc => {
                let p = self.conc(st, a[0], 64)?; let n = self.conc(st, a[1], 64)?;
                let q = self.alloc(st, n)?;
                if p != 0 { let old = match self.with_obj(st, (p >> 32) as u32) { Some(o) => o.get().data.len(), None => return Err(self.memerr(st, p, 0, "realloc")) }; self.copy(st, q.bits, p, old.min(n as usize))?; st.mem.free((p >> 32) as u32); }
                vec![q]
            }
            Hook::Free => { let p = self.conc(st, a[0], 64)?; if p != 0 { if (p >> 32) as u32 >= st.mem.base { if p as u32 != 0 || !st.mem.free((p >> 32) as u32) { return Err(self.memerr(st, p, 0, "free")); } } else { return Err(self.memerr(st, p, 0, "free")); } } vec![] }
            Hook::MemAlign => { let pp = self.conc(st, a[0], 64)?; let n = self.conc(st, a[2], 64)?; let q = self.alloc(st, n)?; self.store(st, pp, 64, q)?; vec![Val::k(0)] }
            Hook::MemCmp => {
                let n = self.conc(st, a[2], 64)?; let p = self.conc(st, a[0], 64)?; let q = self.conc(st, a[1], 64)?;
                let (x, y) = (self.bytes_of(st, p, n as usize)?, self.bytes_of(st, q, n as usize)?);
                let zero = self.dag.konst(32, 0);
                let mut r = zero;
                for i in (0..n as usize).rev() {
                    if x[i].sym | y[i].sym == 0 { if x[i].bits != y[i].bits { r = self.dag.konst(32, if x[i].bits < y[i].bits { 0xffffffff } else { 1 }); } continue; }
                    let (u, v) = (self.dag.of(x[i], 8), self.dag.of(y[i], 8));
                    let eq = self.dag.bin(Op::Eq, u, v); let k1 = self.dag.konst(32, 1);
                    let ne = if name == "bcmp" { k1 } else { let lt = self.dag.bin(Op::Ult, u, v); let km = self.dag.konst(32, 0xffffffff); self.dag.ite(lt, km, k1) };
                    r = self.dag.ite(eq, r, ne);
                }
                vec![self.dag.val(r)]
            }
            Hook::MemCpy => { let d = self.conc(st, a[0], 64)?; let s = self.conc(st, a[1], 64)?; let n = self.conc(st, a[2], 64)?; self.copy(st, d, s, n as usize)?; vec![Val::k(d)] }
            Hook::MemSet => { let d = self.conc(st, a[0], 64)?; let n = self.conc(st, a[2], 64)?; let v = if a[1].sym != 0 { let e = self.dag.extract(a[1].sym, 0, 8); self.dag.val(e) } else { Val::k(a[1].bits & 255) }; self.fill(st, d, v, n as usize)?; vec![Val::k(d)] }
            Hook::StrLen => { let p = self.conc(st, a[0], 64)?; let mut n = 0u64; loop { let v = self.load(st, p + n, 8)?; let b = self.conc(st, v, 8)?; if b == 0 { break; } n += 1; } vec![Val::k(n)] }
            Hook::SymU8 => { let i = st.dom.len() as u32; if i >= 128 { return Err(End::Err("more than 128 symbolic bytes".into())); } st.dom.push([!0; 4]); st.model.push(0); let v = self.dag.var(i); vec![Val::s(v)] }
            Hook::SymAssume => {
                if a[0].sym == 0 { if a[0].bits & 1 == 0 { return Err(End::Infeasible); } return Ok(vec![]); }
                let c = a[0].sym;
                if self.evalm(st, c) == 0 { match self.sat(st, c, false)? { None => return Err(End::Infeasible), Some(m) => Engine::set_model(st, &m) } }
                self.assume(st, c); vec![]
            }
            Hook::SymAssert => {
                let id = self.conc(st, a[1], 32)? as u32;
                self.st.asserts += 1; *self.assert_ids.entry(id).or_insert(0) += 1;
                if a[0].sym == 0 { self.st.asserts_const += 1; if a[0].bits & 1 == 0 { self.violation(st, "assert", format!("assertion {}", id), None); return Err(End::Infeasible); } return Ok(vec![]); }
                self.st.asserts_sym += 1;
                let nc = self.dag.not(a[0].sym);
                if let Some(m) = self.sat(st, nc, true)? { self.violation(st, "assert", format!("assertion {}", id), Some(&m));
                    match self.sat(st, a[0].sym, false)? { None => return Err(End::Infeasible), Some(m) => { if self.evalm(st, a[0].sym) == 0 { Engine::set_model(st, &m); } } }
                    self.assume(st, a[0].sym); }
                vec![]
            }
            Hook::SymCover => { let id = self.conc(st, a[0], 32)? as u32; *self.covers.entry(id).or_insert(0) += 1; vec![] }
            Hook::SymOut => { let t = self.conc(st, a[0], 32)? as u32; st.outs.push((t, a[1])); vec![] }
            Hook::SymConc => { vec![Val::k(self.conc(st, a[0], 64)?)] }
            Hook::SymParam => { let i = self.conc(st, a[0], 32)? as usize; vec![Val::k(self.params.get(i).copied().unwrap_or(0))] }
            Hook::SymFmt => { st.fmt_stub = a[0].bits & 1 != 0; vec![] }
            Hook::SymLimit => { st.split_loads = a[0].bits & 1 != 0; vec![] }
            Hook::SymBegin => vec![],
            Hook::GetRandom => { let p = self.conc(st, a[0], 64)?; let n = self.conc(st, a[1], 64)?; self.fill(st, p, Val::k(7), n as usize)?; vec![Val::k(n)] }
            Hook::Zero => vec![Val::k(0); c.n as usize],
            Hook::UnknownExt => return Err(End::Err(format!("call to external function {}", name))),
            Hook::None => unreachable!(),
        })
    }
    fn intrinsic(&mut self, st: &mut State, name: &str, c: &CallI, a: &[Vec<Val>]) -> R<Vec<Val>> {
        let base = name.strip_prefix("llvm.").unwrap();
        let w = c.rw.first().copied().unwrap_or(0) as u32;
        let lanes = c.n as usize;
        macro_rules! lanewise { ($f:expr) => {{ let mut r = vec![]; for i in 0..lanes { let f = $f; r.push(f(self, i)); } r }} }
        let st_ = |s: &str| base.starts_with(s);
        if st_("threadlocal.address") { return Ok(vec![a[0][0]]); }
        if st_("expect") { return Ok(vec![a[0][0]]); }
        if st_("is.constant") { return Ok(vec![Val::k(0)]); }
        if st_("trap") || st_("ubsantrap") { return Err(End::Panic("trap".into())); }
        if st_("x86.sse2.pause") || st_("prefetch") || st_("donothing") { return Ok(vec![]); }
        if st_("x86.xgetbv") { return Ok(vec![Val::k(0)]); }
        if let Some((sgn, mn)) = [("umin.", (false, true)), ("umax.", (false, false)), ("smin.", (true, true)), ("smax.", (true, false))].iter().find(|x| st_(x.0)).map(|x| x.1) {
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let (x, y) = (a[0][i], a[1][i]); let p = if sgn { Pred::Slt } else { Pred::Ult }; let lt = e.cmp_any(p, w, x, y); let (t, f) = if mn { (x, y) } else { (y, x) }; e.sel(lt, t, f, w) }));
        }
        if st_("abs.") { return Ok(lanewise!(|e: &mut Engine, i: usize| { let x = a[0][i]; let neg = e.bin_any(B::Sub, w, Val::k(0), x); let lt = e.cmp_any(Pred::Slt, w, x, Val::k(0)); e.sel(lt, neg, x, w) })); }
        if base.contains(".with.overflow.") {
            let (x, y) = (a[0][0], a[1][0]);
            return Ok(match &base[..4] {
                "uadd" => { let r = self.bin_any(B::Add, w, x, y); let o = if self.fits(x, y, w, |p, q| p.checked_add(q)) { Val::k(0) } else { self.cmp_any(Pred::Ult, w, r, x) }; vec![r, o] }
                "usub" => { let r = self.bin_any(B::Sub, w, x, y); let o = self.cmp_any(Pred::Ult, w, x, y); vec![r, o] }
                "umul" => { let r = self.bin_any(B::Mul, w, x, y);
                    let o = if x.sym | y.sym == 0 { Val::k(((x.bits as u128 * y.bits as u128) >> w != 0) as u64) } else if self.fits(x, y, w, |p, q| p.checked_mul(q)) { Val::k(0) } else { let (p, q) = (self.dag.of(x, w), self.dag.of(y, w)); let (p, q) = (self.dag.zext(p, 2 * w), self.dag.zext(q, 2 * w)); let m = self.dag.bin(Op::Mul, p, q); let h = self.dag.extract(m, w, w); let z = self.dag.konst(w, 0); let e = self.dag.bin(Op::Eq, h, z); let e = self.dag.not(e); self.dag.val(e) };
                    vec![r, o] }
                "sadd" => { let r = self.bin_any(B::Add, w, x, y); let p = self.bin_any(B::Xor, w, x, r); let q = self.bin_any(B::Xor, w, y, r); let t = self.bin_any(B::And, w, p, q); vec![r, self.cmp_any(Pred::Slt, w, t, Val::k(0))] }
                "ssub" => { let r = self.bin_any(B::Sub, w, x, y); let p = self.bin_any(B::Xor, w, x, y); let q = self.bin_any(B::Xor, w, x, r); let t = self.bin_any(B::And, w, p, q); vec![r, self.cmp_any(Pred::Slt, w, t, Val::k(0))] }
                "smul" => { let r = self.bin_any(B::Mul, w, x, y); let (p, q) = (self.dag.of(x, w), self.dag.of(y, w)); let (p, q) = (self.dag.sext(p, 2 * w), self.dag.sext(q, 2 * w)); let m = self.dag.bin(Op::Mul, p, q); let rr = self.dag.of(r, w); let s = self.dag.sext(rr, 2 * w); let e = self.dag.bin(Op::Eq, m, s); let e = self.dag.not(e); vec![r, self.dag.val(e)] }
                _ => return Err(End::Err(format!("intrinsic {}", name))),
            });
        }
        if st_("uadd.sat") { return Ok(lanewise!(|e: &mut Engine, i: usize| { let (x, y) = (a[0][i], a[1][i]); let r = e.bin_any(B::Add, w, x, y); let o = e.cmp_any(Pred::Ult, w, r, x); e.sel(o, Val::k(mask(w)), r, w) })); }
        if st_("usub.sat") { return Ok(lanewise!(|e: &mut Engine, i: usize| { let (x, y) = (a[0][i], a[1][i]); let r = e.bin_any(B::Sub, w, x, y); let o = e.cmp_any(Pred::Ult, w, x, y); e.sel(o, Val::k(0), r, w) })); }
        if st_("sadd.sat") || st_("ssub.sat") { let add = st_("sadd"); return Ok(lanewise!(|e: &mut Engine, i: usize| { let (x, y) = (a[0][i], a[1][i]); let r = e.bin_any(if add { B::Add } else { B::Sub }, w, x, y); let p = e.bin_any(B::Xor, w, x, if add { r } else { y }); let q = e.bin_any(B::Xor, w, if add { y } else { x }, r); let t = e.bin_any(B::And, w, p, q); let o = e.cmp_any(Pred::Slt, w, t, Val::k(0)); let neg = e.cmp_any(Pred::Slt, w, x, Val::k(0)); let s = e.sel(neg, Val::k(1u64 << (w - 1)), Val::k(mask(w - 1)), w); e.sel(o, s, r, w) })); }
        if st_("bswap") || st_("bitreverse") {
            let unit = if st_("bswap") { 8 } else { 1 };
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let x = a[0][i]; let n = e.dag.of(x, w); let mut r = 0; let mut p = 0; while p < w { let b = e.dag.extract(n, p, unit); r = if p == 0 { b } else { e.dag.concat(r, b) }; p += unit; } e.dag.val(r) }));
        }
        if st_("ctpop") || st_("ctlz") || st_("cttz") {
            let k = if st_("ctpop") { 0 } else if st_("ctlz") { 1 } else { 2 };
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let x = a[0][i];
                if x.sym == 0 { return Val::k(match k { 0 => x.bits.count_ones() as u64, 1 => (x.bits.leading_zeros() as u64 + w as u64 - 64), _ => if x.bits == 0 { w as u64 } else { x.bits.trailing_zeros() as u64 } }); }
                let n = x.sym;
                match k { 0 => { let mut s = e.dag.konst(w, 0); for j in 0..w { let b = e.dag.extract(n, j, 1); let b = e.dag.zext(b, w); s = e.dag.bin(Op::Add, s, b); } e.dag.val(s) }
                    _ => { let mut s = e.dag.konst(w, w as u128); for j in 0..w { let bit = if k == 1 { j } else { w - 1 - j }; let b = e.dag.extract(n, bit, 1); let kk = e.dag.konst(w, if k == 1 { (w - 1 - j) as u128 } else { bit as u128 }); s = e.dag.ite(b, kk, s); } e.dag.val(s) } }
            }));
        }
        if st_("fshl") || st_("fshr") {
            let left = st_("fshl");
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let (x, y, s) = (a[0][i], a[1][i], a[2][i]);
                if s.sym != 0 { // symbolic amount: (x:y) shifted
                    let (p, q) = (e.dag.of(x, w), e.dag.of(y, w)); let cc = e.dag.concat(p, q); let kk = e.dag.konst(w, w as u128); let sm = e.dag.bin(Op::URem, s.sym, kk); let sz = e.dag.zext(sm, 2 * w);
                    let r = if left { let t = e.dag.bin(Op::Shl, cc, sz); e.dag.extract(t, w, w) } else { let t = e.dag.bin(Op::LShr, cc, sz); e.dag.extract(t, 0, w) }; return e.dag.val(r); }
                let s = s.bits % w as u64; if s == 0 { return if left { x } else { y }; }
                let (l, r) = if left { (s, w as u64 - s) } else { (w as u64 - s, s) };
                let p = e.bin_any(B::Shl, w, x, Val::k(l)); let q = e.bin_any(B::LShr, w, y, Val::k(r)); e.bin_any(B::Or, w, p, q) }));
        }
        if st_("ucmp") || st_("scmp") {
            let sg = st_("scmp"); let wa = c.args[0].2 as u32;
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let (x, y) = (a[0][i], a[1][i]); let lt = e.cmp_any(if sg { Pred::Slt } else { Pred::Ult }, wa, x, y); let eq = e.cmp_any(Pred::Eq, wa, x, y); let t = e.sel(eq, Val::k(0), Val::k(1), w); e.sel(lt, Val::k(mask(w)), t, w) }));
        }
        if st_("vector.reduce.") {
            let wa = c.args[0].2 as u32; let mut r = a[0][0];
            for v in &a[0][1..] { r = if base.contains(".add.") { self.bin_any(B::Add, wa, r, *v) } else if base.contains(".or.") { self.bin_any(B::Or, wa, r, *v) } else if base.contains(".and.") { self.bin_any(B::And, wa, r, *v) } else if base.contains(".xor.") { self.bin_any(B::Xor, wa, r, *v) } else if base.contains(".mul.") { self.bin_any(B::Mul, wa, r, *v) } else if base.contains(".umax.") { let lt = self.cmp_any(Pred::Ult, wa, r, *v); self.sel(lt, *v, r, wa) } else if base.contains(".umin.") { let lt = self.cmp_any(Pred::Ult, wa, r, *v); self.sel(lt, r, *v, wa) } else { return Err(End::Err(format!("intrinsic {}", name))) } }
            return Ok(vec![r]);
        }
        if let Some(k) = ["floor.", "ceil.", "trunc.", "round.", "rint.", "nearbyint.", "roundeven."].iter().position(|x| st_(x)) {
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let x = a[0][i]; let n = e.dag.of(x, w); let r = e.dag.fop(Op::FRound, w, n, 0, k.min(4) as u32); e.dag.val(r) }));
        }
        if st_("fabs") { return Ok(lanewise!(|e: &mut Engine, i: usize| e.bin_any(B::And, w, a[0][i], Val::k(mask(w - 1))))); }
        if st_("copysign") { return Ok(lanewise!(|e: &mut Engine, i: usize| { let m = e.bin_any(B::And, w, a[0][i], Val::k(mask(w - 1))); let s = e.bin_any(B::And, w, a[1][i], Val::k(1u64 << (w - 1))); e.bin_any(B::Or, w, m, s) })); }
        if st_("fptoui.sat") || st_("fptosi.sat") {
            let wf = c.args[0].2 as u32; let op = if st_("fptoui") { Op::FpToUi } else { Op::FpToSi };
            return Ok(lanewise!(|e: &mut Engine, i: usize| { let n = e.dag.of(a[0][i], wf); let r = e.dag.fop(op, w, n, 0, 0); e.dag.val(r) }));
        }
        if st_("maximumnum") || st_("minimumnum") || st_("maxnum") || st_("minnum") || st_("sqrt") || st_("fma") {
            let f = |v: Val| if w == 32 { f32::from_bits(v.bits as u32) as f64 } else { f64::from_bits(v.bits) };
            if a.iter().any(|v| v.iter().any(|x| x.sym != 0)) { return Err(End::Err(format!("symbolic {}", name))); }
            return Ok((0..lanes).map(|i| { let x = f(a[0][i]); let r = if st_("sqrt") { x.sqrt() } else { let y = f(a[1][i]); if st_("fma") { x.mul_add(y, f(a[2][i])) } else if st_("max") { x.max(y) } else { x.min(y) } }; Val::k(if w == 32 { (r as f32).to_bits() as u64 } else { r.to_bits() }) }).collect());
        }
        if st_("x86.sse2.psad.bw") {
            if a.iter().any(|v| v.iter().any(|x| x.sym != 0)) { return Err(End::Err("symbolic psadbw".into())); }
            return Ok((0..lanes).map(|l| Val::k((0..8).map(|k| (a[0][l * 8 + k].bits as i64 - a[1][l * 8 + k].bits as i64).unsigned_abs()).sum())).collect());
        }
        let _ = st;
        Err(End::Err(format!("intrinsic {}", name)))
    }
    fn cmp_any(&mut self, p: Pred, w: u32, x: Val, y: Val) -> Val { if x.sym | y.sym == 0 { Val::k(conc_cmp(p, w, x.bits, y.bits) as u64) } else { self.cmp_sym(p, w, x, y) } }
    fn sel(&mut self, c: Val, x: Val, y: Val, w: u32) -> Val { if c.sym == 0 { return if c.bits != 0 { x } else { y }; } if x == y { return x; } let (p, q) = (self.dag.of(x, w), self.dag.of(y, w)); let e = self.dag.ite(c.sym, p, q); self.dag.val(e) }
    fn fits(&self, x: Val, y: Val, w: u32, f: impl Fn(u64, u64) -> Option<u64>) -> bool {
        let u = |v: Val| if v.sym == 0 { v.bits } else { self.dag.umax[v.sym as usize] };
        matches!(f(u(x), u(y)), Some(r) if r <= mask(w))
    }
}
pub enum ObjRef<'a> { B(&'a Obj), R(Rc<Obj>) }
impl<'a> ObjRef<'a> { pub fn get(&self) -> &Obj { match self { ObjRef::B(o) => o, ObjRef::R(r) => r } } }

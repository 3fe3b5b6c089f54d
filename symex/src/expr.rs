//! Hash-consed bit-vector expression DAG with local simplification.
//! Node id 0 is reserved ("concrete").  Width 1 is used for booleans.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite, ZExt, SExt, Extract, Concat,
    // IEEE float operations on bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FLt, FLe, FEq, FUno, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc, FRound,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32, pub d: u32 }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Val { pub bits: u64, pub sym: u32 }
impl Val {
    #[inline(always)] pub const fn k(b: u64) -> Val { Val { bits: b, sym: 0 } }
    #[inline(always)] pub const fn s(n: u32) -> Val { Val { bits: 0, sym: n } }
}

#[inline(always)]
pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline(always)]
pub fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline(always)]
pub fn sext64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }
pub fn sext128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub struct Dag {
    pub nodes: Vec<Node>,
    pub support: Vec<u128>,
    pub umax: Vec<u64>,
    map: HashMap<Node, u32, BuildFx>,
    memo: Vec<u128>,
    memo_epoch: Vec<u32>,
    epoch: u32,
    tables: HashMap<u32, Box<[u64; 256]>, BuildFx>,
    sets: HashMap<u32, [u64; 4], BuildFx>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
#[derive(Clone, Copy, Default)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx { type Hasher = Fx; fn build_hasher(&self) -> Fx { Fx(0) } }

fn f2(w: u32, x: u128) -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) } }

pub const WIDE: usize = 4000;
impl Dag {
    pub fn new() -> Dag {
        let z = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, d: 0 };
        let n = 1 + WIDE;
        Dag { nodes: vec![z; n], support: vec![0; n], umax: vec![0; n], map: HashMap::default(), memo: vec![0; n], memo_epoch: vec![0; n], epoch: 1,
              tables: HashMap::default(), sets: HashMap::default() }
    }
    /// constants wider than 64 bits that appear in the code: node 1+k, the same in every job (code is compiled once per process)
    pub fn wide(&mut self, k: usize, w: u32, v: u128) -> u32 {
        assert!(k < WIDE, "too many wide constants");
        let n = Node { op: Op::Const, w: w as u8, a: v as u32, b: (v >> 32) as u32, c: (v >> 64) as u32, d: (v >> 96) as u32 };
        self.nodes[1 + k] = n; self.umax[1 + k] = u64::MAX;
        self.map.entry(n).or_insert(1 + k as u32);
        1 + k as u32
    }
    #[inline] pub fn n(&self, i: u32) -> Node { self.nodes[i as usize] }
    #[inline] pub fn w(&self, i: u32) -> u32 { self.nodes[i as usize].w as u32 }
    fn intern(&mut self, n: Node) -> u32 {
        if let Some(&i) = self.map.get(&n) { return i; }
        let i = self.nodes.len() as u32;
        let sup = match n.op {
            Op::Const => 0,
            Op::Var => { assert!(n.a < 128, "too many symbolic inputs"); 1u128 << n.a }
            Op::ZExt | Op::SExt | Op::Extract | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc | Op::FRound => self.support[n.a as usize],
            Op::Ite => self.support[n.a as usize] | self.support[n.b as usize] | self.support[n.c as usize],
            _ => self.support[n.a as usize] | self.support[n.b as usize],
        };
        let w = n.w as u32;
        let full = mask(w);
        let um = |x: u32| self.umax[x as usize];
        let umax = match n.op {
            Op::Const => if w <= 64 { n.a as u64 | ((n.b as u64) << 32) } else { !0 },
            Op::ZExt => um(n.a),
            Op::And => um(n.a).min(um(n.b)),
            Op::Ite => um(n.b).max(um(n.c)),
            Op::Concat if w <= 64 => { let wl = self.w(n.b); (um(n.a) << wl) | mask(wl) }
            Op::Extract if n.b == 0 => um(n.a).min(full),
            Op::Add if w <= 64 => um(n.a).checked_add(um(n.b)).filter(|x| *x <= full).unwrap_or(full),
            Op::Mul if w <= 64 => um(n.a).checked_mul(um(n.b)).filter(|x| *x <= full).unwrap_or(full),
            Op::Or | Op::Xor if w <= 64 => { let m = um(n.a) | um(n.b); if m == 0 { 0 } else { mask(64 - m.leading_zeros()) } }
            Op::UDiv if w <= 64 => um(n.a),
            Op::URem if w <= 64 => { let mb = um(n.b); if mb > 0 && self.n(n.b).op == Op::Const { um(n.a).min(mb - 1) } else { um(n.a) } }
            _ => full,
        };
        self.nodes.push(n); self.support.push(sup); self.umax.push(umax);
        self.memo.push(0); self.memo_epoch.push(0);
        self.map.insert(n, i);
        i
    }
    pub fn konst(&mut self, w: u32, v: u128) -> u32 {
        let v = v & mask128(w);
        self.intern(Node { op: Op::Const, w: w as u8, a: v as u32, b: (v >> 32) as u32, c: (v >> 64) as u32, d: (v >> 96) as u32 })
    }
    pub fn var(&mut self, i: u32) -> u32 { self.intern(Node { op: Op::Var, w: 8, a: i, b: 0, c: 0, d: 0 }) }
    #[inline] pub fn kval(&self, i: u32) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const { Some(n.a as u128 | (n.b as u128) << 32 | (n.c as u128) << 64 | (n.d as u128) << 96) } else { None }
    }
    pub fn is_k(&self, i: u32, v: u128) -> bool { self.kval(i) == Some(v) }
    /// to Val, normalising consts of width<=64 to concrete
    pub fn val(&self, i: u32) -> Val {
        if self.w(i) <= 64 { if let Some(k) = self.kval(i) { return Val::k(k as u64); } }
        Val::s(i)
    }
    #[inline] pub fn of(&mut self, v: Val, w: u32) -> u32 { if v.sym != 0 { v.sym } else { self.konst(w, v.bits as u128) } }
    fn raw(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> u32 { self.intern(Node { op, w: w as u8, a, b, c, d: 0 }) }

    pub fn fold(op: Op, w: u32, wa: u32, x: u128, y: u128, z: u128, extra: u32, wb: u32) -> u128 {
        let m = mask128(w);
        (match op {
            Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
            Op::UDiv => if y == 0 { m } else { x / y }, Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => { let (a, b) = (sext128(x, wa), sext128(y, wa)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
            Op::SRem => { let (a, b) = (sext128(x, wa), sext128(y, wa)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
            Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
            Op::Shl => if y >= wa as u128 { 0 } else { x << y }, Op::LShr => if y >= wa as u128 { 0 } else { x >> y },
            Op::AShr => (sext128(x, wa) >> (y.min(wa as u128 - 1) as u32).min(127)) as u128,
            Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Slt => (sext128(x, wa) < sext128(y, wa)) as u128,
            Op::Ite => if x != 0 { y } else { z },
            Op::ZExt => x, Op::SExt => sext128(x, wa) as u128, Op::Extract => x >> extra,
            Op::Concat => (x << wb) | y,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => if w == 32 {
                let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, _ => a / b }).to_bits() as u128
            } else {
                let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                (match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, _ => a / b }).to_bits() as u128
            },
            Op::FLt => (f2(wa, x) < f2(wa, y)) as u128, Op::FLe => (f2(wa, x) <= f2(wa, y)) as u128,
            Op::FEq => (f2(wa, x) == f2(wa, y)) as u128, Op::FUno => (f2(wa, x).is_nan() || f2(wa, y).is_nan()) as u128,
            Op::UiToFp => if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
            Op::SiToFp => { let s = sext128(x, wa); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
            // saturating semantics (fptoui is only reached in range)
            Op::FpToUi => { let f = f2(wa, x); if f.is_nan() || f <= 0.0 { 0 } else { (f as u128).min(m) } }
            Op::FpToSi => { let f = f2(wa, x); if f.is_nan() { 0 } else { let hi = (mask128(w - 1)) as i128; (f as i128).clamp(-hi - 1, hi) as u128 } }
            Op::FpExt => f2(32, x).to_bits() as u128, Op::FpTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
            Op::FRound => { let f = f2(w, x); let r = match extra { 0 => f.floor(), 1 => f.ceil(), 2 => f.trunc(), 3 => f.round(), _ => f.round_ties_even() };
                if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 } }
            Op::Const | Op::Var => unreachable!(),
        }) & m
    }

    pub fn not(&mut self, a: u32) -> u32 {
        debug_assert_eq!(self.w(a), 1);
        let one = self.konst(1, 1);
        self.bin(Op::Xor, a, one)
    }
    pub fn and1(&mut self, a: u32, b: u32) -> u32 { self.bin(Op::And, a, b) }
    pub fn or1(&mut self, a: u32, b: u32) -> u32 { self.bin(Op::Or, a, b) }
    pub fn tru(&mut self) -> u32 { self.konst(1, 1) }
    pub fn fls(&mut self) -> u32 { self.konst(1, 0) }

    pub fn zext(&mut self, a: u32, w: u32) -> u32 {
        let n = self.n(a); let wa = n.w as u32;
        if wa == w { return a; }
        if let Some(k) = self.kval(a) { return self.konst(w, k); }
        if n.op == Op::ZExt { return self.zext(n.a, w); }
        self.raw(Op::ZExt, w, a, 0, 0)
    }
    pub fn sext(&mut self, a: u32, w: u32) -> u32 {
        let n = self.n(a); let wa = n.w as u32;
        if wa == w { return a; }
        if let Some(k) = self.kval(a) { return self.konst(w, sext128(k, wa) as u128); }
        if n.op == Op::ZExt && (self.w(n.a)) < wa { return self.zext(n.a, w); }
        if wa <= 64 && self.umax[a as usize] < (1u64 << (wa - 1)) { return self.zext(a, w); }
        self.raw(Op::SExt, w, a, 0, 0)
    }
    /// bits [lo, lo+w) of a
    pub fn extract(&mut self, a: u32, lo: u32, w: u32) -> u32 {
        let n = self.n(a); let wa = n.w as u32;
        debug_assert!(lo + w <= wa, "extract {}+{} of {}", lo, w, wa);
        if w == wa { return a; }
        if let Some(k) = self.kval(a) { return self.konst(w, k >> lo); }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi { return self.konst(w, 0); }
                if lo + w <= wi { return self.extract(n.a, lo, w); }
                let t = self.extract(n.a, lo, wi - lo); return self.zext(t, w);
            }
            Op::SExt => { let wi = self.w(n.a); if lo + w <= wi { return self.extract(n.a, lo, w); } if lo == 0 { return self.sext(n.a, w); } }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - wl); let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            Op::Ite => {
                let (kb, kc) = (self.kval(n.b).is_some(), self.kval(n.c).is_some());
                if kb || kc || true { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); }
            }
            _ => {}
        }
        if wa <= 64 && lo < 64 && (self.umax[a as usize] >> lo) == 0 { return self.konst(w, 0); }
        self.raw(Op::Extract, w, a, lo, 0)
    }
    pub fn concat(&mut self, h: u32, l: u32) -> u32 {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w as u32 + nl.w as u32;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.kval(h), self.kval(l)) { return self.konst(w, (x << nl.w) | y); }
        if self.is_k(h, 0) { return self.zext(l, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 { return self.extract(nh.a, nl.b, w); }
        // whole-node low part: Extract(x, lo=k) ++ x[0..k] handled above; ZExt low
        if nl.op == Op::Concat {
            // reassociate so that adjacent extracts meet: h ++ (a ++ b)
            let na = self.n(nl.a);
            if nh.op == Op::Extract && na.op == Op::Extract && nh.a == na.a && nh.b == na.b + na.w as u32 { let t = self.concat(h, nl.a); return self.concat(t, nl.b); }
        }
        if nh.op == Op::Concat {
            let nb = self.n(nh.b);
            if nb.op == Op::Extract && nl.op == Op::Extract && nb.a == nl.a && nb.b == nl.b + nl.w as u32 { let t = self.concat(nh.b, l); return self.concat(nh.a, t); }
            if self.kval(nh.b).is_some() && self.kval(l).is_some() { let t = self.concat(nh.b, l); return self.concat(nh.a, t); }
        }
        if nh.op == Op::ZExt { let hi = self.n(nh.a).w as u32; let t = self.concat(nh.a, l); debug_assert!(hi + nl.w as u32 <= w); return self.zext(t, w); }
        self.raw(Op::Concat, w, h, l, 0)
    }
    pub fn ite(&mut self, c: u32, a: u32, b: u32) -> u32 {
        if a == b { return a; }
        if let Some(k) = self.kval(c) { return if k != 0 { a } else { b }; }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.is_k(nc.b, 1) { return self.ite(nc.a, b, a); }
        // minimum and maximum in one form, whichever operand comes first
        if nc.op == Op::Ult && nc.a > nc.b && ((a == nc.a && b == nc.b) || (a == nc.b && b == nc.a)) && self.kval(nc.a).is_none() && self.kval(nc.b).is_none() {
            let c = self.bin(Op::Ult, nc.b, nc.a);
            return self.ite(c, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if self.is_k(a, 1) { return self.or1(c, b); }
            if self.is_k(a, 0) { let nn = self.not(c); return self.and1(nn, b); }
            if self.is_k(b, 0) { return self.and1(c, a); }
            if self.is_k(b, 1) { let nn = self.not(c); return self.or1(nn, a); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Op::Ite && na.c == b { let cc = self.and1(c, na.a); return self.ite(cc, na.b, b); }
        if nb.op == Op::Ite && nb.b == a { let cc = self.or1(c, nb.a); return self.ite(cc, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.ite(c, na.a, nb.a); return self.zext(t, w); }
        self.raw(Op::Ite, w, c, a, b)
    }

    /// (is maximum, operands) of a minimum or maximum
    fn minmax(&self, e: u32) -> Option<(bool, u32, u32)> {
        let n = self.n(e);
        if n.op != Op::Ite { return None; }
        let c = self.n(n.a);
        if c.op != Op::Ult { return None; }
        if n.b == c.b && n.c == c.a { Some((true, c.a, c.b)) } else if n.b == c.a && n.c == c.b { Some((false, c.a, c.b)) } else { None }
    }
    /// a >= b (unsigned) by structure
    fn is_ge(&self, a: u32, b: u32, depth: u32) -> bool {
        if a == b { return true; }
        if depth == 0 { return false; }
        if let Some((true, p, q)) = self.minmax(a) { if self.is_ge(p, b, depth - 1) || self.is_ge(q, b, depth - 1) { return true; } }
        if let Some((false, p, q)) = self.minmax(b) { if self.is_ge(a, p, depth - 1) || self.is_ge(a, q, depth - 1) { return true; } }
        false
    }

    pub fn bin(&mut self, op: Op, mut a: u32, mut b: u32) -> u32 {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b), "{:?}", op);
        let w = match op { Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FLe | Op::FEq | Op::FUno => 1, _ => wa };
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) { let r = Dag::fold(op, w, wa, x, y, 0, 0, 0); return self.konst(w, r); }
        let (mut ka, mut kb) = (ka, kb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ka, &mut kb);
        }
        let (na, nb) = (self.n(a), self.n(b));
        let ones = mask128(wa);
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(y) = kb {
                    if na.op == Op::Add { if let Some(x) = self.kval(na.b) { let k = self.konst(wa, x.wrapping_add(y)); return self.bin(Op::Add, na.a, k); } }
                }
                if na.op == Op::Sub && na.b == b { return na.a; }
                // a + (x - a)
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                // keep constants outermost
                if kb.is_none() {
                    if na.op == Op::Add && self.kval(na.b).is_some() { let t = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, t, na.b); }
                    if nb.op == Op::Add && self.kval(nb.b).is_some() { let t = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, t, nb.b); }
                }
                if let Some(r) = self.disjoint_or(a, b) { return r; }
            }
            Op::Sub => {
                if a == b { return self.konst(wa, 0); }
                if let Some(y) = kb { if y == 0 { return a; } let k = self.konst(wa, y.wrapping_neg()); return self.bin(Op::Add, a, k); }
                if na.op == Op::Add && na.b == b { return na.a; }
                if na.op == Op::Add && na.a == b { return na.b; }
                if na.op == Op::Add && self.kval(na.b).is_some() { let t = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, t, na.b); }
                if nb.op == Op::Add && self.kval(nb.b).is_some() { let k = self.kval(nb.b).unwrap(); let t = self.bin(Op::Sub, a, nb.a); let kk = self.konst(wa, k.wrapping_neg()); return self.bin(Op::Add, t, kk); }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(y) = kb { if y.is_power_of_two() { let k = self.konst(wa, y.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); } }
                if wa <= 64 {
                    let m = self.umax[a as usize] as u128 * self.umax[b as usize] as u128;
                    let k = 128 - m.leading_zeros();
                    if k > 0 && k < wa {
                        let x = self.extract(a, 0, k); let y = self.extract(b, 0, k);
                        let r = self.bin(Op::Mul, x, y);
                        return self.zext(r, wa);
                    }
                }
            }
            Op::UDiv | Op::URem if wa <= 64 && self.div_bits(a, b) < wa && kb != Some(1) && self.umax[a as usize] >= kb.unwrap_or(0) as u64 && !kb.map_or(false, |y| y.is_power_of_two()) => {
                // the operands fit into fewer bits
                let k = self.div_bits(a, b);
                let x = self.extract(a, 0, k); let y = self.extract(b, 0, k);
                let r = self.bin(op, x, y);
                return self.zext(r, wa);
            }
            Op::UDiv => if let Some(y) = kb {
                if y == 1 { return a; }
                if y.is_power_of_two() { let k = self.konst(wa, y.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); }
                if wa <= 64 && y > self.umax[a as usize] as u128 { return self.konst(wa, 0); }
            },
            Op::URem => if let Some(y) = kb {
                if y == 1 { return self.konst(wa, 0); }
                if y.is_power_of_two() { let k = self.konst(wa, y - 1); return self.bin(Op::And, a, k); }
                if wa <= 64 && y > self.umax[a as usize] as u128 { return a; }
            },
            Op::SDiv | Op::SRem => if kb == Some(1) { return if op == Op::SDiv { a } else { self.konst(wa, 0) }; }
                else if wa <= 64 && self.umax[a as usize] < (1u64 << (wa - 1)) && self.umax[b as usize] < (1u64 << (wa - 1)) { return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); },
            Op::And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(ones) { return a; }
                if let Some(y) = kb {
                    if na.op == Op::And { if let Some(x) = self.kval(na.b) { let k = self.konst(wa, x & y); return self.bin(Op::And, na.a, k); } }
                    if wa <= 64 && self.umax[a as usize] as u128 & !y == 0 {
                        // mask covers every possibly set bit if it is all-ones up to the top
                        let um = self.umax[a as usize]; let cover = if um == 0 { 0 } else { mask(64 - um.leading_zeros()) };
                        if cover as u128 & !y == 0 { return a; }
                    }
                    // contiguous run of ones -> extract
                    let tz = y.trailing_zeros(); let run = (!(y >> tz)).trailing_zeros();
                    if wa > 1 && (y >> tz) & !mask128(run) == 0 {
                        let e = self.extract(a, tz, run);
                        let z = if tz > 0 { let k = self.konst(tz, 0); self.concat(e, k) } else { e };
                        return self.zext(z, wa);
                    }
                    if na.op == Op::ZExt { let wi = self.w(na.a); let k = self.konst(wi, y); let t = self.bin(Op::And, na.a, k); return self.zext(t, wa); }
                    if na.op == Op::Concat { let wl = self.w(na.b); let kh = self.konst(wa - wl, y >> wl); let kl = self.konst(wl, y); let h = self.bin(Op::And, na.a, kh); let l = self.bin(Op::And, na.b, kl); return self.concat(h, l); }
                }
                if wa == 1 {
                    if self.is_not_of(a, b) { return self.konst(1, 0); }
                    if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if kb == Some(0) { return a; }
                if kb == Some(ones) { return b; }
                if wa == 1 {
                    if self.is_not_of(a, b) { return self.konst(1, 1); }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::And && (na.a == b || na.b == b) { return b; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
                }
                if let Some(r) = self.disjoint_or(a, b) { return r; }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let h = self.bin(op, na.a, nb.a); let l = self.bin(op, na.b, nb.b); return self.concat(h, l); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let t = self.bin(op, na.a, nb.a); return self.zext(t, wa); }
            }
            Op::Xor => {
                if a == b { return self.konst(wa, 0); }
                if kb == Some(0) { return a; }
                if let Some(y) = kb { if na.op == Op::Xor { if let Some(x) = self.kval(na.b) { let k = self.konst(wa, x ^ y); return self.bin(Op::Xor, na.a, k); } }
                    if wa > 1 { if na.op == Op::ZExt && wa <= 128 { let wi = self.w(na.a); if y >> wi == 0 { let k = self.konst(wi, y); let t = self.bin(Op::Xor, na.a, k); return self.zext(t, wa); } } } }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(y) = kb {
                    if y == 0 { return a; }
                    if y >= wa as u128 && op != Op::AShr { return self.konst(wa, 0); }
                    let y = y as u32;
                    if op == Op::Shl { let e = self.extract(a, 0, wa - y); let z = self.konst(y, 0); return self.concat(e, z); }
                    if op == Op::LShr { let e = self.extract(a, y, wa - y); return self.zext(e, wa); }
                    let y = y.min(wa - 1);
                    let e = self.extract(a, y, wa - y); return self.sext(e, wa);
                }
                if ka == Some(0) { return a; }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if wa == 1 {
                    if kb == Some(1) { return a; }
                    if kb == Some(0) { return self.not(a); }
                    let t = self.bin(Op::Xor, a, b); return self.not(t);
                }
                if let Some(y) = kb {
                    if wa <= 64 && y > self.umax[a as usize] as u128 { return self.konst(1, 0); }
                    match na.op {
                        Op::ZExt => { let wi = self.w(na.a); if y >> wi != 0 { return self.konst(1, 0); } let k = self.konst(wi, y); return self.bin(Op::Eq, na.a, k); }
                        Op::SExt => { let wi = self.w(na.a); let t = y & mask128(wi); if (sext128(t, wi) as u128 & ones) != y { return self.konst(1, 0); } let k = self.konst(wi, t); return self.bin(Op::Eq, na.a, k); }
                        Op::Add => if let Some(x) = self.kval(na.b) { let k = self.konst(wa, y.wrapping_sub(x)); return self.bin(Op::Eq, na.a, k); },
                        Op::Xor => if let Some(x) = self.kval(na.b) { let k = self.konst(wa, y ^ x); return self.bin(Op::Eq, na.a, k); },
                        Op::Sub => if y == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Concat => { let wl = self.w(na.b); let kh = self.konst(wa - wl, y >> wl); let kl = self.konst(wl, y);
                            let h = self.bin(Op::Eq, na.a, kh); if self.is_k(h, 0) { return h; } let l = self.bin(Op::Eq, na.b, kl); return self.and1(h, l); }
                        Op::Ite => {
                            let (x, z) = (self.kval(na.b), self.kval(na.c));
                            if x.is_some() || z.is_some() {
                                let p = self.bin(Op::Eq, na.b, b); let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        Op::Or if y == 0 => { let p = self.bin(Op::Eq, na.a, b); let q = self.bin(Op::Eq, na.b, b); return self.and1(p, q); }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt { let (x, y) = (self.w(na.a), self.w(nb.a)); let m = x.max(y); let p = self.zext(na.a, m); let q = self.zext(nb.a, m); return self.bin(Op::Eq, p, q); }
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) { let h = self.bin(Op::Eq, na.a, nb.a); let l = self.bin(Op::Eq, na.b, nb.b); return self.and1(h, l); }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.bin(Op::Eq, na.a, nb.a); }
                }
            }
            Op::Ult => {
                if a == b { return self.konst(1, 0); }
                if wa == 1 { let n = self.not(a); return self.and1(n, b); }
                if ka.is_none() && kb.is_none() && self.is_ge(a, b, 4) { return self.konst(1, 0); }
                if let Some(y) = kb {
                    if y == 0 { return self.konst(1, 0); }
                    if wa <= 64 && (self.umax[a as usize] as u128) < y { return self.konst(1, 1); }
                    if y == 1 { let k = self.konst(wa, 0); return self.bin(Op::Eq, a, k); }
                    if na.op == Op::ZExt { let wi = self.w(na.a); if y >> wi != 0 { return self.konst(1, 1); } let k = self.konst(wi, y); return self.bin(Op::Ult, na.a, k); }
                    if na.op == Op::Ite && self.kval(na.b).is_some() && self.kval(na.c).is_some() { let p = self.bin(op, na.b, b); let q = self.bin(op, na.c, b); return self.ite(na.a, p, q); }
                }
                if let Some(x) = ka {
                    if x == ones { return self.konst(1, 0); }
                    if wa <= 64 && (self.umax[b as usize] as u128) <= x { return self.konst(1, 0); }
                    if x == 0 { let k = self.konst(wa, 0); let e = self.bin(Op::Eq, b, k); return self.not(e); }
                    if nb.op == Op::ZExt { let wi = self.w(nb.a); if x >> wi != 0 { return self.konst(1, 0); } let k = self.konst(wi, x); return self.bin(Op::Ult, k, nb.a); }
                    if nb.op == Op::Ite && self.kval(nb.b).is_some() && self.kval(nb.c).is_some() { let p = self.bin(op, a, nb.b); let q = self.bin(op, a, nb.c); return self.ite(nb.a, p, q); }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt { let (x, y) = (self.w(na.a), self.w(nb.a)); let m = x.max(y); let p = self.zext(na.a, m); let q = self.zext(nb.a, m); return self.bin(Op::Ult, p, q); }
            }
            Op::Slt => {
                if a == b { return self.konst(1, 0); }
                if wa <= 64 {
                    let h = 1u64 << (wa - 1);
                    let (ua, ub) = (self.umax[a as usize], self.umax[b as usize]);
                    if ua < h && ub < h { return self.bin(Op::Ult, a, b); }
                    if ua < h { if let Some(y) = kb { if y as u64 & h != 0 { return self.konst(1, 0); } } }
                    if ub < h { if let Some(x) = ka { if x as u64 & h != 0 { return self.konst(1, 1); } } }
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Slt, na.a, nb.a); }
                if na.op == Op::SExt { if let Some(y) = kb { let wi = self.w(na.a); let t = y & mask128(wi); if (sext128(t, wi) as u128 & ones) == y { let k = self.konst(wi, t); return self.bin(Op::Slt, na.a, k); } } }
                if nb.op == Op::SExt { if let Some(x) = ka { let wi = self.w(nb.a); let t = x & mask128(wi); if (sext128(t, wi) as u128 & ones) == x { let k = self.konst(wi, t); return self.bin(Op::Slt, k, nb.a); } } }
            }
            _ => {}
        }
        self.raw(op, w, a, b, 0)
    }
    fn div_bits(&self, a: u32, b: u32) -> u32 { (64 - (self.umax[a as usize] | self.umax[b as usize]).leading_zeros()).max(1) }
    fn is_not_of(&self, a: u32, b: u32) -> bool {
        let (na, nb) = (self.n(a), self.n(b));
        (na.op == Op::Xor && na.a == b && self.is_k(na.b, 1)) || (nb.op == Op::Xor && nb.a == a && self.is_k(nb.b, 1))
    }
    /// x | y (or x + y) where one has known-zero low bits covering the other
    fn disjoint_or(&mut self, a: u32, b: u32) -> Option<u32> {
        let wa = self.w(a);
        for (x, y) in [(a, b), (b, a)] {
            let nx = self.n(x);
            if nx.op == Op::Concat && self.is_k(nx.b, 0) {
                let k = self.w(nx.b);
                let ny = self.n(y);
                let small = (wa <= 64 && k < 64 && self.umax[y as usize] >> k == 0) || (ny.op == Op::ZExt && self.w(ny.a) <= k);
                if small { let l = self.extract(y, 0, k); return Some(self.concat(nx.a, l)); }
            }
            if nx.op == Op::ZExt {
                let ni = self.n(nx.a);
                if ni.op == Op::Concat && self.is_k(ni.b, 0) {
                    let k = self.w(ni.b);
                    let ny = self.n(y);
                    let small = (wa <= 64 && k < 64 && self.umax[y as usize] >> k == 0) || (ny.op == Op::ZExt && self.w(ny.a) <= k);
                    if small { let l = self.extract(y, 0, k); let t = self.concat(ni.a, l); return Some(self.zext(t, wa)); }
                }
            }
        }
        None
    }
    /// floating point op (binary), width of operands wa
    pub fn fop(&mut self, op: Op, w: u32, a: u32, b: u32, extra: u32) -> u32 {
        let wa = self.w(a);
        let unary = matches!(op, Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc | Op::FRound);
        if unary { if let Some(x) = self.kval(a) { let r = Dag::fold(op, w, wa, x, 0, 0, extra, 0); return self.konst(w, r); } let r = self.raw(op, w, a, if op == Op::FRound { extra } else { 0 }, 0); return if matches!(op, Op::FpToUi | Op::FpToSi) { self.by_table(r) } else { r }; }
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) { let r = Dag::fold(op, w, wa, x, y, 0, extra, 0); return self.konst(w, r); }
        let r = self.raw(op, w, a, b, 0);
        if w == 1 { self.by_table(r) } else { r }
    }
    /// a float computation over one byte that is constant, or the byte itself, is replaced by that
    fn by_table(&mut self, r: u32) -> u32 {
        let Some(v) = self.single_var(r) else { return r };
        let w = self.w(r);
        if w > 64 { return r; }
        let t = *self.table(r);
        if t.iter().all(|x| *x == t[0]) { return self.konst(w, t[0] as u128); }
        if w >= 8 && t.iter().enumerate().all(|(i, x)| *x == i as u64) { let b = self.var(v); return self.zext(b, w); }
        r
    }

    pub fn children(n: &Node) -> ([u32; 3], usize) {
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::ZExt | Op::SExt | Op::Extract | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc | Op::FRound => ([n.a, 0, 0], 1),
            Op::Ite => ([n.a, n.b, n.c], 3),
            _ => ([n.a, n.b, 0], 2),
        }
    }
    pub fn begin_eval(&mut self) { self.epoch += 1; }
    /// evaluate under assignment of input bytes; call begin_eval when the assignment changes
    pub fn eval(&mut self, root: u32, model: &dyn Fn(u32) -> u8) -> u128 {
        if let Some(k) = self.kval(root) { return k; }
        if self.memo_epoch[root as usize] == self.epoch { return self.memo[root as usize]; }
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.memo_epoch[xi] == self.epoch { stack.pop(); continue; }
            let n = self.nodes[xi];
            let v = match n.op {
                Op::Const => self.kval(x).unwrap(),
                Op::Var => model(n.a) as u128,
                Op::Ite => {
                    if self.memo_epoch[n.a as usize] != self.epoch { stack.push(n.a); continue; }
                    let t = if self.memo[n.a as usize] != 0 { n.b } else { n.c };
                    if self.memo_epoch[t as usize] != self.epoch { stack.push(t); continue; }
                    self.memo[t as usize]
                }
                _ => {
                    let (ch, k) = Dag::children(&n);
                    let mut ready = true;
                    for c in &ch[..k] { if self.memo_epoch[*c as usize] != self.epoch { stack.push(*c); ready = false; } }
                    if !ready { continue; }
                    let g = |i: usize| if i < k { self.memo[ch[i] as usize] } else { 0 };
                    let wb = if k > 1 { self.w(ch[1]) } else { 0 };
                    Dag::fold(n.op, n.w as u32, self.w(ch[0]), g(0), g(1), g(2), n.b, wb)
                }
            };
            self.memo[xi] = v; self.memo_epoch[xi] = self.epoch;
            stack.pop();
        }
        self.memo[root as usize]
    }
    /// set of values of the single support variable for which boolean node is true
    pub fn truth_set(&mut self, root: u32) -> [u64; 4] {
        if let Some(s) = self.sets.get(&root) { return *s; }
        let mut s = [0u64; 4];
        for v in 0..256u32 {
            self.begin_eval();
            if self.eval(root, &move |_| v as u8) != 0 { s[(v >> 6) as usize] |= 1 << (v & 63); }
        }
        self.begin_eval();
        self.sets.insert(root, s);
        s
    }
    /// all 256 values of a node depending on a single byte
    pub fn table(&mut self, root: u32) -> &[u64; 256] {
        if !self.tables.contains_key(&root) {
            if self.tables.len() > 20000 { self.tables.clear(); }
            let mut t = Box::new([0u64; 256]);
            for v in 0..256u32 { self.begin_eval(); t[v as usize] = self.eval(root, &move |_| v as u8) as u64; }
            self.begin_eval();
            self.tables.insert(root, t);
        }
        &self.tables[&root]
    }
    pub fn single_var(&self, n: u32) -> Option<u32> {
        let s = self.support[n as usize];
        if s != 0 && s & (s - 1) == 0 { Some(s.trailing_zeros()) } else { None }
    }
    pub fn show(&self, i: u32, depth: u32) -> String {
        let n = self.n(i);
        if let Some(k) = self.kval(i) { return format!("{}", k); }
        if n.op == Op::Var { return format!("b{}", n.a); }
        if depth == 0 { return format!("#{}", i); }
        let (ch, k) = Dag::children(&n);
        let s: Vec<String> = ch[..k].iter().map(|c| self.show(*c, depth - 1)).collect();
        if n.op == Op::Extract { format!("{}[{}+{}]", s[0], n.b, n.w) } else { format!("({:?}{} {})", n.op, n.w, s.join(" ")) }
    }
}

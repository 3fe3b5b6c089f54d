//! Textual LLVM IR reader: lazily turns functions into register bytecode.
use crate::expr::{Dag, Val};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Vec(u32, Box<Ty>), Arr(u64, Box<Ty>), Struct(bool, Vec<Ty>), Other }
fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl Ty {
    pub fn slots(&self) -> u32 { match self { Ty::Void | Ty::Other => 0, Ty::Vec(n, t) => n * t.slots(), Ty::Arr(n, t) => *n as u32 * t.slots(), Ty::Struct(_, v) => v.iter().map(|t| t.slots()).sum(), _ => 1 } }
    pub fn width(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(_, t) => t.width(), _ => 0 } }
    pub fn align(&self) -> u64 { match self { Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 }, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
        Ty::Vec(n, t) => ((*n as u64 * t.width() as u64 + 7) / 8).next_power_of_two(), Ty::Arr(_, t) => t.align(), Ty::Struct(p, v) => if *p { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) }, _ => 1 } }
    pub fn size(&self) -> u64 { match self { Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()), Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
        Ty::Vec(n, t) => up((*n as u64 * t.width() as u64 + 7) / 8, self.align()), Ty::Arr(n, t) => n * t.size(),
        Ty::Struct(p, v) => { let mut o = 0; for t in v { if !*p { o = up(o, t.align()); } o += t.size(); } if *p { o } else { up(o, self.align()) } } _ => 0 } }
    pub fn field_off(&self, i: usize) -> u64 { match self { Ty::Struct(p, v) => { let mut o = 0; for (k, t) in v.iter().enumerate() { if !*p { o = up(o, t.align()); } if k == i { return o; } o += t.size(); } panic!("field") }
        Ty::Arr(_, t) => i as u64 * t.size(), Ty::Vec(_, t) => i as u64 * (t.width() as u64 / 8), _ => panic!("field_off {:?}", self) } }
    pub fn layout(&self, base: u64, out: &mut Vec<(u32, u8)>) { match self {
        Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => out.push((base as u32, self.width() as u8)),
        Ty::Vec(n, t) => for i in 0..*n { out.push(((base + i as u64 * (t.width() as u64 / 8)) as u32, t.width() as u8)) },
        Ty::Arr(n, t) => for i in 0..*n { t.layout(base + i * t.size(), out) },
        Ty::Struct(_, v) => for (i, t) in v.iter().enumerate() { t.layout(base + self.field_off(i), out) },
        _ => {} } }
    pub fn widths(&self) -> Vec<u8> { let mut l = vec![]; self.layout(0, &mut l); l.iter().map(|x| x.1).collect() }
    fn has_bitvec(&self) -> bool { matches!(self, Ty::Vec(_, t) if t.width() % 8 != 0) }
}

pub type Opd = i32;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FB { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C { Trunc, ZExt, SExt, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Debug, Clone)]
pub struct Edge { pub to: u32, pub moves: Rc<[(u32, Opd, u16)]> }
#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ind(Opd), Intr(String), Asm }
#[derive(Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<(Opd, u16, u8)>, pub d: u32, pub n: u16, pub rw: Vec<u8> }
#[derive(Debug)]
pub enum I {
    Bin { op: B, w: u8, n: u16, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u8, n: u16, d: u32, a: Opd, b: Opd },
    FBin { op: FB, w: u8, n: u16, d: u32, a: Opd, b: Opd },
    FCmp { p: u8, w: u8, n: u16, d: u32, a: Opd, b: Opd },
    FNeg { w: u8, n: u16, d: u32, a: Opd },
    Cast { op: C, wf: u8, wt: u8, n: u16, d: u32, a: Opd },
    Bitcast { d: u32, a: Opd, from: Box<[u8]>, to: Box<[u8]> },
    Mov { d: u32, a: Opd, n: u16 },
    Select { d: u32, c: Opd, a: Opd, b: Opd, ws: Rc<[u8]>, vec: bool },
    Alloca { d: u32, size: u64 },
    Load { d: u32, p: Opd, w: u8 },
    LoadN { d: u32, p: Opd, lay: Rc<[(u32, u8)]> },
    Store { v: Opd, p: Opd, w: u8 },
    StoreN { v: Opd, p: Opd, lay: Rc<[(u32, u8)]> },
    Gep { d: u32, p: Opd, off: i64, terms: Box<[(Opd, u8, i64)]> },
    Call(Box<CallI>),
    ExtractEl { d: u32, v: Opd, n: u16, idx: Opd },
    InsertEl { d: u32, v: Opd, n: u16, idx: Opd, e: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, na: u16, m: Box<[i32]> },
    InsVal { d: u32, a: Opd, n: u16, at: u16, e: Opd, en: u16 },
    Rmw { d: u32, p: Opd, v: Opd, op: String, w: u8 },
    CmpXchg { d: u32, p: Opd, c: Opd, v: Opd, w: u8 },
    Nop,
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u8, cases: Box<[(u64, Edge)]>, def: Edge },
    Ret { a: Opd, n: u16 },
    Unreachable,
    Unsupported(String),
}
pub struct Block { pub insts: Vec<I>, pub dbg: Vec<u32>, pub seen: Cell<bool>, pub npreds: u32 }
pub struct Func { pub name: String, pub idx: u32, pub nslots: u32, pub params: Vec<(u32, u16)>, pub blocks: Vec<Block>, pub consts: Vec<Val>, pub loopy: bool }

pub enum GKind { Fn(u32), Data }
pub struct Glob { pub name: &'static str, pub line: &'static str, pub kind: GKind, pub obj: RefCell<Option<Rc<crate::mem::Obj>>>, pub konst: bool }
pub struct FnSlot { pub name: &'static str, pub text: Option<&'static str>, pub code: RefCell<Option<Rc<Func>>>, pub gid: u32, pub hook: crate::exec::Hook }
pub struct Module {
    pub funcs: Vec<FnSlot>, pub fmap: HashMap<&'static str, u32>,
    pub globs: Vec<Glob>, pub gmap: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>, pub aliases: HashMap<&'static str, &'static str>,
    pub meta: RefCell<Option<HashMap<u32, &'static str>>>, pub wide: RefCell<Vec<(u32, u128)>>, pub text: &'static str,
}

fn unq(s: &str) -> &str { s }

pub struct Lx<'a> { pub s: &'a str, pub p: usize }
impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Lx<'a> { Lx { s, p: 0 } }
    #[inline] fn b(&self) -> &'a [u8] { self.s.as_bytes() }
    pub fn ws(&mut self) { let b = self.b(); while self.p < b.len() && (b[self.p] == b' ' || b[self.p] == b'\n' || b[self.p] == b'\t') { self.p += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.b()[self.p] } else { 0 } }
    pub fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.p..].starts_with(t) { self.p += t.len(); true } else { false } }
    pub fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at {:?}", t, &self.s[self.p.min(self.s.len())..(self.p + 80).min(self.s.len())]) } }
    /// bare word [A-Za-z0-9_.+-]
    pub fn word(&mut self) -> &'a str { self.ws(); let b = self.b(); let s = self.p; while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b"_.-+".contains(&b[self.p])) { self.p += 1; } &self.s[s..self.p] }
    pub fn peek_word(&mut self) -> &'a str { let p = { self.ws(); self.p }; let w = self.word(); self.p = p; w }
    pub fn eat_word(&mut self, t: &str) -> bool { if self.peek_word() == t { self.word(); true } else { false } }
    /// after % or @: name, possibly quoted
    pub fn name(&mut self) -> &'a str {
        let b = self.b();
        if self.p < b.len() && b[self.p] == b'"' { let s = self.p; self.p += 1; while b[self.p] != b'"' { self.p += 1; } self.p += 1; return &self.s[s..self.p]; }
        let s = self.p; while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b"_.$-".contains(&b[self.p])) { self.p += 1; } &self.s[s..self.p]
    }
    pub fn skip_group(&mut self) { // at '(' '[' '{'
        let b = self.b(); let mut d = 0;
        while self.p < b.len() { match b[self.p] { b'(' | b'[' | b'{' => d += 1, b')' | b']' | b'}' => { d -= 1; if d == 0 { self.p += 1; return; } } b'"' => { self.p += 1; while b[self.p] != b'"' { self.p += 1; } } _ => {} } self.p += 1; }
    }
    pub fn rest(&self) -> &'a str { &self.s[self.p..] }
}

pub fn is_type_start(w: &str) -> bool { matches!(w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())) }

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module { funcs: vec![], fmap: HashMap::new(), globs: vec![], gmap: HashMap::new(), types: HashMap::new(), aliases: HashMap::new(), meta: RefCell::new(None), wide: RefCell::new(vec![]), text };
        m.globs.push(Glob { name: "", line: "", kind: GKind::Data, obj: RefCell::new(None), konst: true }); // id 0 = null
        let b = text.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = memchr(b, b'\n', p);
            let line: &'static str = &text[p..e];
            match b[p] {
                b'@' => {
                    let mut lx = Lx { s: line, p: 1 }; let n = lx.name();
                    if line.contains(" alias ") && !line.contains(" global ") && !line.contains(" constant ") {
                        let t = line.rfind('@').unwrap(); let mut l2 = Lx { s: line, p: t + 1 }; let tn = l2.name(); m.aliases.insert(n, tn);
                    } else { let id = m.globs.len() as u32; m.gmap.insert(n, id); m.globs.push(Glob { name: n, line, kind: GKind::Data, obj: RefCell::new(None), konst: false }); }
                }
                b'%' => { let mut lx = Lx { s: line, p: 1 }; let n = lx.name(); lx.expect("="); lx.expect("type"); m.types.insert(n, lx.rest()); }
                b'd' if line.starts_with("define") || line.starts_with("declare") => {
                    let at = line.find('@').unwrap(); let mut lx = Lx { s: line, p: at + 1 }; let n = lx.name();
                    let mut txt = None;
                    let mut e2 = e;
                    if line.starts_with("define") {
                        e2 = p; loop { let l = memchr(b, b'\n', e2); if b[e2] == b'}' { e2 = l; break; } e2 = l + 1; }
                        txt = Some(&text[p..e2]);
                    }
                    let gid = m.globs.len() as u32; let fi = m.funcs.len() as u32;
                    m.globs.push(Glob { name: n, line: "", kind: GKind::Fn(fi), obj: RefCell::new(None), konst: true });
                    m.gmap.insert(n, gid); m.fmap.insert(n, fi);
                    m.funcs.push(FnSlot { name: n, text: txt, code: RefCell::new(None), gid, hook: crate::exec::hook_for(n, txt.is_some()) });
                    p = e2 + 1; continue;
                }
                _ => {}
            }
            p = e + 1;
        }
        m
    }
    pub fn gid(&self, name: &str) -> u32 {
        let n = unq(name);
        if let Some(g) = self.gmap.get(n) { return *g; }
        if let Some(a) = self.aliases.get(n) { return self.gid(a); }
        panic!("unknown global @{}", n)
    }
    pub fn ty(&self, lx: &mut Lx) -> Ty {
        let mut t = match lx.peek() {
            b'[' => { lx.expect("["); let n: u64 = lx.word().parse().unwrap(); lx.expect("x"); let t = self.ty(lx); lx.expect("]"); Ty::Arr(n, Box::new(t)) }
            b'{' => { lx.expect("{"); let mut v = vec![]; if !lx.eat("}") { loop { v.push(self.ty(lx)); if lx.eat("}") { break; } lx.expect(","); } } Ty::Struct(false, v) }
            b'<' => {
                lx.expect("<");
                if lx.eat("{") { let mut v = vec![]; if !lx.eat("}") { loop { v.push(self.ty(lx)); if lx.eat("}") { break; } lx.expect(","); } } lx.expect(">"); Ty::Struct(true, v) }
                else { let n: u32 = lx.word().parse().unwrap(); lx.expect("x"); let t = self.ty(lx); lx.expect(">"); Ty::Vec(n, Box::new(t)) }
            }
            b'%' => { lx.p += 1; let n = lx.name(); match self.types.get(n) { Some(d) => { let d: &str = d; self.ty(&mut Lx::new(d)) } None => panic!("type %{}", n) } }
            _ => { let w = lx.word(); match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other } }
        };
        if t == Ty::Ptr && lx.peek_word() == "addrspace" { lx.word(); lx.ws(); lx.skip_group(); }
        let _ = &mut t;
        t
    }
    /// parse a constant of type ty, writing its bytes
    pub fn const_into(&self, lx: &mut Lx, ty: &Ty, buf: &mut Vec<u8>, off: usize) {
        let sz = ty.size() as usize;
        let put = |buf: &mut Vec<u8>, v: u128, n: usize| { if buf.len() < off + n { buf.resize(off + n, 0); } for i in 0..n { buf[off + i] = if i < 16 { (v >> (8 * i)) as u8 } else { 0 }; } };
        if buf.len() < off + sz { buf.resize(off + sz, 0); }
        let c = lx.peek();
        if let Ty::Int(w) = ty { if c.is_ascii_digit() || c == b'-' || c == b'u' && false {
            let t = lx.word(); let v: u128 = if let Some(t) = t.strip_prefix('-') { (t.parse::<u128>().unwrap()).wrapping_neg() } else { t.parse().unwrap() };
            let v = v & crate::expr::mask128(*w); put(buf, v, sz); return; } }
        match c {
            b'c' if lx.s[lx.p..].starts_with("c\"") => {
                lx.p += 2; let b = lx.b(); let mut o = off;
                loop { match b[lx.p] { b'"' => { lx.p += 1; break; } b'\\' => { if b[lx.p + 1] == b'\\' { buf[o] = b'\\'; lx.p += 2; } else { buf[o] = u8::from_str_radix(&lx.s[lx.p + 1..lx.p + 3], 16).unwrap(); lx.p += 3; } o += 1; } x => { buf[o] = x; o += 1; lx.p += 1; } } }
            }
            b'[' => { lx.expect("["); let mut o = off; if !lx.eat("]") { loop { let t = self.ty(lx); self.const_into(lx, &t, buf, o); o += t.size() as usize; if lx.eat("]") { break; } lx.expect(","); } } }
            b'{' => { lx.expect("{"); let mut i = 0; if !lx.eat("}") { loop { let t = self.ty(lx); let o = off + ty.field_off(i) as usize; self.const_into(lx, &t, buf, o); i += 1; if lx.eat("}") { break; } lx.expect(","); } } }
            b'<' => {
                lx.expect("<");
                if lx.eat("{") { let mut i = 0; if !lx.eat("}") { loop { let t = self.ty(lx); let o = off + ty.field_off(i) as usize; self.const_into(lx, &t, buf, o); i += 1; if lx.eat("}") { break; } lx.expect(","); } } lx.expect(">"); }
                else {
                    let bits = ty.has_bitvec(); let mut acc = 0u128; let mut o = off; let mut i = 0;
                    loop { let t = self.ty(lx); if bits { let mut tmp = vec![]; self.const_into(lx, &t, &mut tmp, 0); acc |= ((tmp[0] & 1) as u128) << i; } else { self.const_into(lx, &t, buf, o); o += t.width() as usize / 8; } i += 1; if lx.eat(">") { break; } lx.expect(","); }
                    if bits { put(buf, acc, sz.max(1)); }
                }
            }
            b'@' => { lx.p += 1; let n = lx.name(); let a = (self.gid(n) as u64) << 32; put(buf, a as u128, 8); }
            b'f' if lx.s[lx.p..].starts_with("f0x") => { // new hex float syntax
                lx.p += 3; let t = lx.word(); let v = u64::from_str_radix(t, 16).unwrap(); put(buf, v as u128, sz); }
            _ if matches!(ty, Ty::F32 | Ty::F64) && (c.is_ascii_digit() || c == b'-' || c == b'+') => {
                let t = lx.word();
                let d = if let Some(h) = t.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { t.parse::<f64>().unwrap() };
                if *ty == Ty::F32 { let f = if t.starts_with("0x") { d as f32 } else { t.parse::<f32>().unwrap() }; put(buf, f.to_bits() as u128, 4) } else { put(buf, d.to_bits() as u128, 8) }
            }
            _ => {
                let w = lx.word();
                match w {
                    "true" => put(buf, 1, sz), "false" | "null" | "none" => {}
                    "zeroinitializer" | "undef" | "poison" => {}
                    "splat" => { lx.expect("("); let t = self.ty(lx); let mut tmp = vec![]; self.const_into(lx, &t, &mut tmp, 0); lx.expect(")");
                        if let Ty::Vec(n, e) = ty { if ty.has_bitvec() { let v = if tmp[0] & 1 == 1 { crate::expr::mask128(*n) } else { 0 }; put(buf, v, sz) } else { let es = e.width() as usize / 8; for i in 0..*n as usize { buf[off + i * es..off + (i + 1) * es].copy_from_slice(&tmp[..es]); } } } }
                    "nan" => { let v = if *ty == Ty::F32 { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 }; put(buf, v, sz) }
                    "getelementptr" | "inttoptr" | "ptrtoint" | "trunc" | "bitcast" | "add" | "sub" | "ptrtoaddr" | "addrspacecast" | "xor" | "and" | "shl" | "mul" => { let v = self.const_expr(lx, w); put(buf, v as u128, sz.min(8)); }
                    _ => panic!("const word {:?} for {:?} in {:?}", w, ty, &lx.s[..lx.s.len().min(200)]),
                }
            }
        }
    }
    fn const_u64(&self, lx: &mut Lx) -> (Ty, u64) { let t = self.ty(lx); let mut b = vec![]; self.const_into(lx, &t, &mut b, 0); let mut v = 0u64; for i in (0..b.len().min(8)).rev() { v = v << 8 | b[i] as u64; } (t, v) }
    fn const_expr(&self, lx: &mut Lx, w: &str) -> u64 {
        while matches!(lx.peek_word(), "inbounds" | "nuw" | "nsw" | "nusw" | "inrange" | "exact" | "disjoint") { let x = lx.word(); if x == "inrange" { lx.ws(); if lx.peek() == b'(' { lx.skip_group(); } } }
        lx.expect("(");
        match w {
            "getelementptr" => {
                let bt = self.ty(lx); lx.expect(","); let (_, base) = self.const_u64(lx);
                let mut off = 0i64; let mut t = bt; let mut first = true;
                while lx.eat(",") { if lx.eat_word("inrange") { lx.ws(); if lx.peek() == b'(' { lx.skip_group(); } } let (it, v) = self.const_u64(lx); let v = crate::expr::sext64(v, it.width());
                    if first { off += v * t.size() as i64; first = false; } else { match t.clone() { Ty::Struct(_, f) => { off += t.field_off(v as usize) as i64; t = f[v as usize].clone(); } Ty::Arr(_, e) => { off += v * e.size() as i64; t = *e; } x => panic!("gep into {:?}", x) } } }
                lx.expect(")"); base.wrapping_add(off as u64)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => { let (_, v) = self.const_u64(lx); lx.expect("to"); let t = self.ty(lx); lx.expect(")"); v & crate::expr::mask(t.width()) }
            _ => { let (t, a) = self.const_u64(lx); lx.expect(","); let (_, b) = self.const_u64(lx); lx.expect(")"); (match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "and" => a & b, "shl" => a << b, _ => a.wrapping_mul(b) }) & crate::expr::mask(t.width()) }
        }
    }
    pub fn glob_obj(&self, id: u32) -> Option<Rc<crate::mem::Obj>> {
        let g = &self.globs[id as usize];
        if let Some(o) = &*g.obj.borrow() { return Some(o.clone()); }
        if let GKind::Fn(_) = g.kind { return None; }
        if id == 0 { return None; }
        let mut lx = Lx { s: g.line, p: 1 }; lx.name(); lx.expect("=");
        let mut external = false;
        loop { let w = lx.peek_word(); if w == "global" || w == "constant" { lx.word(); break; } if w == "external" || w == "extern_weak" { external = true; } lx.word(); lx.ws(); if lx.peek() == b'(' { lx.skip_group(); } }
        let t = self.ty(&mut lx);
        let mut buf = vec![0u8; t.size() as usize];
        if !external { self.const_into(&mut lx, &t, &mut buf, 0); }
        let o = Rc::new(crate::mem::Obj { data: buf, sym: vec![] });
        *g.obj.borrow_mut() = Some(o.clone());
        Some(o)
    }
    pub fn func(&self, idx: u32, dag: &mut Dag) -> Rc<Func> {
        let s = &self.funcs[idx as usize];
        if let Some(f) = &*s.code.borrow() { return f.clone(); }
        let f = Rc::new(FP::parse(self, dag, s.text.expect("external function body"), s.name, idx));
        *s.code.borrow_mut() = Some(f.clone());
        f
    }
    pub fn metadata(&self, id: u32) -> Option<&'static str> {
        if self.meta.borrow().is_none() {
            let mut h = HashMap::new(); let b = self.text.as_bytes(); let mut p = 0;
            while p < b.len() { let e = memchr(b, b'\n', p); if b[p] == b'!' && p + 1 < b.len() && b[p + 1].is_ascii_digit() { let l = &self.text[p..e]; let sp = l.find(' ').unwrap_or(l.len()); if let Ok(n) = l[1..sp].parse() { h.insert(n, &l[(sp + 3).min(l.len())..]); } } p = e + 1; }
            *self.meta.borrow_mut() = Some(h);
        }
        self.meta.borrow().as_ref().unwrap().get(&id).copied()
    }
}
pub fn memchr(b: &[u8], c: u8, p: usize) -> usize { extern "C" { fn memchr(s: *const u8, c: i32, n: usize) -> *const u8; } if p >= b.len() { return b.len(); } unsafe { let r = memchr(b.as_ptr().add(p), c as i32, b.len() - p); if r.is_null() { b.len() } else { r.offset_from(b.as_ptr()) as usize } } }

struct FP<'m> { m: &'m Module, regs: HashMap<&'m str, (u32, u32)>, nslots: u32, consts: Vec<Val>, ccache: HashMap<(u8, u64), Opd>, labels: HashMap<&'m str, u32>, phis: HashMap<u32, Vec<(u32, u16, Vec<(Opd, u32)>)>>, extra: Option<I> }
impl<'m> FP<'m> {
    fn reg(&mut self, n: &'m str, slots: u32) -> u32 { if let Some(r) = self.regs.get(n) { return r.0; } let s = self.nslots; self.nslots += slots.max(1); self.regs.insert(n, (s, slots)); s }
    fn label(&mut self, n: &'m str) -> u32 { let k = self.labels.len() as u32; *self.labels.entry(n).or_insert(k) }
    fn konst(&mut self, dag: &mut Dag, ty: &Ty, buf: &[u8]) -> Opd {
        if ty.has_bitvec() { // vector of i1
            if let Ty::Vec(n, _) = ty { let s = self.consts.len() as i32; for i in 0..*n as usize { self.consts.push(Val::k((buf[i / 8] >> (i % 8) & 1) as u64)); } return -s - 1; }
        }
        let mut lay = vec![]; ty.layout(0, &mut lay);
        if lay.len() == 1 && lay[0].1 <= 64 { let mut v = 0u64; for i in (0..(lay[0].1 as usize + 7) / 8).rev() { v = v << 8 | buf[i] as u64; } let k = (lay[0].1, v); if let Some(o) = self.ccache.get(&k) { return *o; } let s = self.consts.len() as i32; self.consts.push(Val::k(v)); self.ccache.insert(k, -s - 1); return -s - 1; }
        let s = self.consts.len() as i32;
        for (o, w) in lay { let mut v = 0u128; for i in (0..(w as usize + 7) / 8).rev() { v = v << 8 | buf[o as usize + i] as u128; } if w <= 64 { self.consts.push(Val::k(v as u64)) } else { let mut wd = self.m.wide.borrow_mut(); let k = match wd.iter().position(|x| *x == (w as u32, v)) { Some(k) => k, None => { wd.push((w as u32, v)); wd.len() - 1 } }; let n = dag.wide(k, w as u32, v); self.consts.push(Val::s(n)) } }
        if s as usize == self.consts.len() { self.consts.push(Val::k(0)); }
        -s - 1
    }
    fn val(&mut self, lx: &mut Lx<'m>, dag: &mut Dag, ty: &Ty) -> Opd {
        if lx.peek() == b'%' { lx.p += 1; let n = lx.name(); return self.reg(n, ty.slots()) as i32; }
        if *ty == Ty::Other { // metadata operand etc
            if lx.peek() == b'!' { lx.p += 1; if lx.peek() == b'{' { lx.skip_group(); } else { lx.name(); if lx.peek() == b'(' { lx.skip_group(); } } }
            else { let t = self.m.ty(lx); if lx.peek() != b',' && lx.peek() != b')' { return self.val(lx, dag, &t); } }
            return self.konst(dag, &Ty::Int(1), &[0]);
        }
        let mut buf = vec![]; self.m.const_into(lx, ty, &mut buf, 0);
        if buf.is_empty() { buf.push(0); }
        self.konst(dag, ty, &buf)
    }
    fn tval(&mut self, lx: &mut Lx<'m>, dag: &mut Dag) -> (Ty, Opd) { let t = self.m.ty(lx); let v = self.val(lx, dag, &t); (t, v) }
    fn flags(&self, lx: &mut Lx, fl: &[&str]) { loop { let w = lx.peek_word(); if fl.contains(&w) { lx.word(); } else { break; } } }

    fn parse(m: &'m Module, dag: &mut Dag, text: &'m str, name: &str, idx: u32) -> Func {
        let mut f = FP { m, regs: HashMap::new(), nslots: 0, consts: vec![], ccache: HashMap::new(), labels: HashMap::new(), phis: HashMap::new(), extra: None };
        // header
        let at = text.find('@').unwrap();
        let mut lx = Lx { s: text, p: at + 1 }; lx.name();
        let mut params = vec![]; let mut unnamed = 0;
        lx.expect("(");
        if !lx.eat(")") { loop {
            if lx.eat("...") { lx.expect(")"); break; }
            let t = m.ty(&mut lx);
            // attributes up to the name
            loop { let c = lx.peek(); if c == b'%' || c == b',' || c == b')' { break; } if c == b'(' { lx.skip_group(); } else if c == b'"' { lx.p += 1; while text.as_bytes()[lx.p] != b'"' { lx.p += 1; } lx.p += 1; if lx.s[lx.p..].starts_with("=\"") { lx.p += 2; while text.as_bytes()[lx.p] != b'"' { lx.p += 1; } lx.p += 1; } } else { let w = lx.word(); if w.is_empty() { lx.p += 1; } } }
            if lx.peek() == b'%' { lx.p += 1; let n = lx.name(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } let s = t.slots(); params.push((f.reg(n, s), s as u16)); } else { params.push((f.nslots, t.slots() as u16)); f.nslots += t.slots().max(1); unnamed += 1; }
            if lx.eat(")") { break; } lx.expect(",");
        } }
        let nl = memchr(text.as_bytes(), b'\n', lx.p);
        let mut bodies: Vec<(u32, Vec<(I, u32)>)> = vec![];
        let mut p = nl + 1;
        let b = text.as_bytes();
        let mut started = false;
        let mut cur: Vec<(I, u32)> = vec![]; let mut cur_l = 0u32;
        while p < text.len() {
            let mut e = memchr(b, b'\n', p);
            let mut line: &'m str = &text[p..e];
            if line.is_empty() { p = e + 1; continue; }
            if line == "}" { break; }
            if !line.starts_with(' ') {
                let lab: &'m str = if line.starts_with('"') { let q = line[1..].find('"').unwrap(); &line[..q + 2] } else { &line[..line.find(':').unwrap()] };
                if started { bodies.push((cur_l, std::mem::take(&mut cur))); }
                started = true; cur_l = f.label(lab); p = e + 1; continue;
            }
            if !started { started = true; let s: &'static str = Box::leak(unnamed.to_string().into_boxed_str()); cur_l = f.label(s); }
            if (line.contains("switch ") && line.ends_with('[')) || line.trim_start().starts_with("indirectbr") { while !text[p..e].trim_end().ends_with(']') && !text[..e].lines().last().unwrap().trim_start().starts_with("],") && !text[..e].ends_with(']') { let e2 = memchr(b, b'\n', e + 1); let l = &text[e + 1..e2]; e = e2; if l.trim_start().starts_with(']') { break; } } line = &text[p..e]; }
            if line.contains("landingpad ") { loop { let e2 = memchr(b, b'\n', e + 1); let l = text[e + 1..e2].trim_start(); if l.starts_with("catch") || l.starts_with("filter") || l.starts_with("cleanup") { e = e2; } else { break; } } line = &text[p..e]; }
            // invoke: the normal/unwind destinations are on the following line
            if line.contains("invoke ") && { let e2 = memchr(b, b'\n', e + 1); text[e + 1..e2].trim_start().starts_with("to label") } { e = memchr(b, b'\n', e + 1); line = &text[p..e]; }
            let dbg = line.rfind("!dbg !").and_then(|i| { let t = &line[i + 6..]; let n = t.bytes().take_while(|c| c.is_ascii_digit()).count(); t[..n].parse().ok() }).unwrap_or(0);
            let inst = f.inst(line, dag, cur_l);
            if let Some(i) = inst { cur.push((i, dbg)); }
            if let Some(i) = f.extra.take() { cur.push((i, dbg)); }
            p = e + 1;
        }
        if started { bodies.push((cur_l, cur)); }
        let nb = f.labels.len();
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { insts: vec![], dbg: vec![], seen: Cell::new(false), npreds: 0 }).collect();
        let mut npreds = vec![0u32; nb];
        // edges
        let phis = std::mem::take(&mut f.phis);
        let fix = |e: &mut Edge, from: u32, np: &mut Vec<u32>| {
            np[e.to as usize] += 1;
            if let Some(ps) = phis.get(&e.to) {
                let mv: Vec<(u32, Opd, u16)> = ps.iter().map(|(d, n, ins)| { let o = ins.iter().find(|x| x.1 == from).unwrap_or_else(|| panic!("phi edge in {}", name)).0; (*d, o, *n) }).filter(|x| x.1 != x.0 as i32).collect();
                e.moves = mv.into();
            }
        };
        let mut order = vec![];
        for (l, mut body) in bodies {
            if let Some((t, _)) = body.last_mut() { match t {
                I::Br(e) => fix(e, l, &mut npreds),
                I::CondBr { t, f, .. } => { fix(t, l, &mut npreds); fix(f, l, &mut npreds); }
                I::Switch { cases, def, .. } => { for c in cases.iter_mut() { fix(&mut c.1, l, &mut npreds); } fix(def, l, &mut npreds); }
                _ => {}
            } }
            order.push(l);
            let bl = &mut blocks[l as usize];
            for (i, d) in body { bl.insts.push(i); bl.dbg.push(d); }
        }
        for i in 0..nb { blocks[i].npreds = npreds[i]; }
        // entry must be block 0
        if let Some(e) = order.first() { assert_eq!(*e, 0, "entry label order in {}", name); }
        Func { name: name.to_string(), idx, nslots: f.nslots, params, blocks, consts: f.consts, loopy: false }
    }
    fn edge(&mut self, lx: &mut Lx<'m>) -> Edge { lx.expect("label"); lx.ws(); lx.expect("%"); let n = lx.name(); Edge { to: self.label(n), moves: Rc::new([]) } }

    fn inst(&mut self, line: &'m str, dag: &mut Dag, cur: u32) -> Option<I> {
        let mut lx = Lx::new(line);
        let mut dst: Option<&'m str> = None;
        if lx.peek() == b'%' { lx.p += 1; let n = lx.name(); lx.expect("="); dst = Some(n); }
        let op = lx.word();
        let m = self.m;
        macro_rules! d { ($n:expr) => { self.reg(dst.unwrap(), $n) } }
        Some(match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(&mut lx, &["nuw", "nsw", "exact", "disjoint"]);
                let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let b = self.val(&mut lx, dag, &t);
                let op = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "shl" => B::Shl, "lshr" => B::LShr, _ => B::AShr };
                I::Bin { op, w: t.width() as u8, n: t.slots() as u16, d: d!(t.slots()), a, b }
            }
            "icmp" => {
                self.flags(&mut lx, &["samesign"]);
                let p = match lx.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let b = self.val(&mut lx, dag, &t);
                I::ICmp { p, w: t.width() as u8, n: t.slots() as u16, d: d!(t.slots()), a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(&mut lx, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let b = self.val(&mut lx, dag, &t);
                I::FBin { op: match op { "fadd" => FB::Add, "fsub" => FB::Sub, "fmul" => FB::Mul, "fdiv" => FB::Div, _ => FB::Rem }, w: t.width() as u8, n: t.slots() as u16, d: d!(t.slots()), a, b }
            }
            "fcmp" => {
                self.flags(&mut lx, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                // bit0: less, bit1: equal, bit2: greater, bit3: unordered
                let p = match lx.word() { "false" => 0, "olt" => 1, "oeq" => 2, "ole" => 3, "ogt" => 4, "one" => 5, "oge" => 6, "ord" => 7, "uno" => 8, "ult" => 9, "ueq" => 10, "ule" => 11, "ugt" => 12, "une" => 13, "uge" => 14, "true" => 15, x => panic!("fcmp {}", x) };
                let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let b = self.val(&mut lx, dag, &t);
                I::FCmp { p, w: t.width() as u8, n: t.slots() as u16, d: d!(t.slots()), a, b }
            }
            "fneg" => { self.flags(&mut lx, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]); let (t, a) = self.tval(&mut lx, dag); I::FNeg { w: t.width() as u8, n: t.slots() as u16, d: d!(t.slots()), a } }
            "trunc" | "zext" | "sext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.flags(&mut lx, &["nuw", "nsw", "nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (t, a) = self.tval(&mut lx, dag); lx.expect("to"); let t2 = m.ty(&mut lx);
                let (wf, wt) = (t.width() as u8, t2.width() as u8); let n = t2.slots() as u16; let d = d!(t2.slots());
                let c = match op { "trunc" => C::Trunc, "zext" => C::ZExt, "sext" => C::SExt, "fptoui" => C::FpToUi, "fptosi" => C::FpToSi, "uitofp" => C::UiToFp, "sitofp" => C::SiToFp, "fpext" => C::FpExt, "fptrunc" => C::FpTrunc,
                    "bitcast" => { let (f, to) = (t.widths(), t2.widths()); if f == to { return Some(I::Mov { d, a, n }); } return Some(I::Bitcast { d, a, from: f.into(), to: to.into() }); }
                    _ => { if wf == wt { return Some(I::Mov { d, a, n }); } if wf > wt { C::Trunc } else { C::ZExt } } };
                I::Cast { op: c, wf, wt, n, d, a }
            }
            "freeze" => { let (t, a) = self.tval(&mut lx, dag); I::Mov { d: d!(t.slots()), a, n: t.slots() as u16 } }
            "select" => {
                self.flags(&mut lx, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (tc, c) = self.tval(&mut lx, dag); lx.expect(","); let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let (_, b) = self.tval(&mut lx, dag);
                I::Select { d: d!(t.slots()), c, a, b, ws: t.widths().into(), vec: matches!(tc, Ty::Vec(..)) }
            }
            "alloca" => { let t = m.ty(&mut lx); let mut cnt = 1; if lx.eat(",") { if is_type_start(lx.peek_word()) { let (ct, v) = m.const_u64(&mut lx); let _ = ct; cnt = v; } } I::Alloca { d: d!(1), size: t.size() * cnt } }
            "load" => {
                self.flags(&mut lx, &["atomic", "volatile"]);
                let t = m.ty(&mut lx); lx.expect(","); let (_, p) = self.tval(&mut lx, dag);
                if t.has_bitvec() { return Some(I::Unsupported(line.to_string())); }
                if t.slots() == 1 && t.width() <= 64 { I::Load { d: d!(1), p, w: t.width() as u8 } } else { let mut l = vec![]; t.layout(0, &mut l); I::LoadN { d: d!(t.slots()), p, lay: l.into() } }
            }
            "store" => {
                self.flags(&mut lx, &["atomic", "volatile"]);
                let (t, v) = self.tval(&mut lx, dag); lx.expect(","); let (_, p) = self.tval(&mut lx, dag);
                if t.has_bitvec() { return Some(I::Unsupported(line.to_string())); }
                if t.slots() == 1 && t.width() <= 64 { I::Store { v, p, w: t.width() as u8 } } else { let mut l = vec![]; t.layout(0, &mut l); I::StoreN { v, p, lay: l.into() } }
            }
            "getelementptr" => {
                self.flags(&mut lx, &["inbounds", "nuw", "nusw", "nsw"]);
                let bt = m.ty(&mut lx); lx.expect(","); let (_, p) = self.tval(&mut lx, dag);
                let mut off = 0i64; let mut terms = vec![]; let mut t = bt; let mut first = true;
                while lx.eat(",") {
                    if lx.peek() == b'!' { break; }
                    let it = m.ty(&mut lx);
                    if lx.peek() == b'%' {
                        let o = self.val(&mut lx, dag, &it);
                        let sc = if first { t.size() as i64 } else { match t.clone() { Ty::Arr(_, e) => { t = *e; t.size() as i64 } Ty::Vec(_, e) => { t = *e; t.size() as i64 } x => panic!("gep {:?}", x) } };
                        terms.push((o, it.width() as u8, sc));
                    } else {
                        let mut b = vec![]; m.const_into(&mut lx, &it, &mut b, 0); let mut v = 0u64; for i in (0..b.len().min(8)).rev() { v = v << 8 | b[i] as u64; } let v = crate::expr::sext64(v, it.width());
                        if first { off += v * t.size() as i64; } else { match t.clone() { Ty::Struct(_, f) => { off += t.field_off(v as usize) as i64; t = f[v as usize].clone(); } Ty::Arr(_, e) => { off += v * e.size() as i64; t = *e; } x => panic!("gep {:?}", x) } }
                    }
                    first = false;
                }
                I::Gep { d: d!(1), p, off, terms: terms.into() }
            }
            "phi" => {
                self.flags(&mut lx, &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = m.ty(&mut lx); let mut ins = vec![];
                loop { lx.expect("["); let v = self.val(&mut lx, dag, &t); lx.expect(","); lx.ws(); lx.expect("%"); let l = lx.name(); let l = self.label(l); lx.expect("]"); ins.push((v, l)); if !lx.eat(",") { break; } if lx.peek() == b'!' { break; } }
                let d = d!(t.slots()); self.phis.entry(cur).or_default().push((d, t.slots() as u16, ins)); return None;
            }
            "br" => {
                if lx.peek_word() == "label" { let e = self.edge(&mut lx); I::Br(e) }
                else { let (_, c) = self.tval(&mut lx, dag); lx.expect(","); let t = self.edge(&mut lx); lx.expect(","); let f = self.edge(&mut lx); I::CondBr { c, t, f } }
            }
            "switch" => {
                let (t, v) = self.tval(&mut lx, dag); lx.expect(","); let def = self.edge(&mut lx); lx.expect("["); let mut cases = vec![];
                while !lx.eat("]") { let (_, k) = m.const_u64(&mut lx); lx.expect(","); let e = self.edge(&mut lx); cases.push((k, e)); }
                if t.width() > 64 { return Some(I::Unsupported(line.to_string())); }
                I::Switch { v, w: t.width() as u8, cases: cases.into(), def }
            }
            "ret" => { let t = m.ty(&mut lx); if t == Ty::Void { I::Ret { a: 0, n: 0 } } else { let a = self.val(&mut lx, dag, &t); I::Ret { a, n: t.slots() as u16 } } }
            "unreachable" => I::Unreachable,
            "fence" => I::Nop,
            "extractvalue" => {
                let (t, a) = self.tval(&mut lx, dag); let (mut off, mut cur_t) = (0u32, t);
                while lx.eat(",") { if lx.peek() == b'!' { break; } let i: usize = lx.word().parse().unwrap(); match cur_t.clone() { Ty::Struct(_, f) => { off += f[..i].iter().map(|x| x.slots()).sum::<u32>(); cur_t = f[i].clone(); } Ty::Arr(_, e) => { off += i as u32 * e.slots(); cur_t = *e; } x => panic!("{:?}", x) } }
                let a2 = if a >= 0 { a + off as i32 } else { a - off as i32 };
                I::Mov { d: d!(cur_t.slots()), a: a2, n: cur_t.slots() as u16 }
            }
            "insertvalue" => {
                let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let (et, e) = self.tval(&mut lx, dag); let (mut off, mut cur_t) = (0u32, t.clone());
                while lx.eat(",") { if lx.peek() == b'!' { break; } let i: usize = lx.word().parse().unwrap(); match cur_t.clone() { Ty::Struct(_, f) => { off += f[..i].iter().map(|x| x.slots()).sum::<u32>(); cur_t = f[i].clone(); } Ty::Arr(_, e) => { off += i as u32 * e.slots(); cur_t = *e; } x => panic!("{:?}", x) } }
                I::InsVal { d: d!(t.slots()), a, n: t.slots() as u16, at: off as u16, e, en: et.slots() as u16 }
            }
            "extractelement" => { let (t, v) = self.tval(&mut lx, dag); lx.expect(","); let (_, i) = self.tval(&mut lx, dag); I::ExtractEl { d: d!(1), v, n: t.slots() as u16, idx: i } }
            "insertelement" => { let (t, v) = self.tval(&mut lx, dag); lx.expect(","); let (_, e) = self.tval(&mut lx, dag); lx.expect(","); let (_, i) = self.tval(&mut lx, dag); I::InsertEl { d: d!(t.slots()), v, n: t.slots() as u16, idx: i, e } }
            "shufflevector" => {
                let (t, a) = self.tval(&mut lx, dag); lx.expect(","); let (_, b) = self.tval(&mut lx, dag); lx.expect(",");
                let mt = m.ty(&mut lx); let n = mt.slots() as usize; let mut buf = vec![]; m.const_into(&mut lx, &mt, &mut buf, 0);
                let mk: Vec<i32> = (0..n).map(|i| i32::from_le_bytes(buf[i * 4..i * 4 + 4].try_into().unwrap())).collect();
                I::Shuffle { d: d!(n as u32), a, b, na: t.slots() as u16, m: mk.into() }
            }
            "atomicrmw" => { self.flags(&mut lx, &["volatile"]); let o = lx.word().to_string(); let (_, p) = self.tval(&mut lx, dag); lx.expect(","); let (t, v) = self.tval(&mut lx, dag); I::Rmw { d: d!(1), p, v, op: o, w: t.width() as u8 } }
            "cmpxchg" => { self.flags(&mut lx, &["weak", "volatile"]); let (_, p) = self.tval(&mut lx, dag); lx.expect(","); let (t, c) = self.tval(&mut lx, dag); lx.expect(","); let (_, v) = self.tval(&mut lx, dag); I::CmpXchg { d: d!(2), p, c, v, w: t.width() as u8 } }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && !inv { lx.expect("call"); }
                // calling convention, flags, return attributes
                let rt = loop {
                    let c = lx.peek();
                    if c == b'{' || c == b'[' || c == b'<' || c == b'%' { break m.ty(&mut lx); }
                    let w = lx.peek_word();
                    if is_type_start(w) { break m.ty(&mut lx); }
                    if w == "align" { lx.word(); if lx.peek() == b'(' { lx.skip_group() } else { lx.word(); } continue; }
                    if w.is_empty() { panic!("call parse: {}", line); }
                    lx.word(); if lx.peek() == b'(' { lx.skip_group(); }
                };
                if lx.peek() == b'(' { lx.skip_group(); } // vararg function type
                let mut callee = match lx.peek() {
                    b'@' => { lx.p += 1; let n = lx.name(); if n.starts_with("llvm.") { Callee::Intr(n.to_string()) } else { let n2 = *m.aliases.get(n).unwrap_or(&n); Callee::Fn(*m.fmap.get(n2).unwrap_or_else(|| panic!("callee {}", n))) } }
                    b'%' => { lx.p += 1; let n = lx.name(); Callee::Ind(self.reg(n, 1) as i32) }
                    _ => { let w = lx.peek_word(); if w == "asm" { lx.word(); self.flags(&mut lx, &["sideeffect", "alignstack", "inteldialect", "unwind"]); for _ in 0..2 { lx.ws(); lx.eat(","); lx.ws(); lx.expect("\""); while line.as_bytes()[lx.p] != b'"' { lx.p += 1; } lx.p += 1; } Callee::Asm } else { let v = self.val(&mut lx, dag, &Ty::Ptr); Callee::Ind(v) } }
                };
                lx.expect("("); let mut args = vec![];
                if !lx.eat(")") { loop {
                    let t = m.ty(&mut lx);
                    loop { let c = lx.peek(); if c == b'"' { lx.p += 1; while line.as_bytes()[lx.p] != b'"' { lx.p += 1; } lx.p += 1; if lx.s[lx.p..].starts_with("=\"") { lx.p += 2; while line.as_bytes()[lx.p] != b'"' { lx.p += 1; } lx.p += 1; } continue; }
                        let w = lx.peek_word();
                        if w.is_empty() || !is_attr(w) { break; } lx.word(); if w == "align" { if lx.peek() == b'(' { lx.skip_group(); } else { lx.word(); } } else if lx.peek() == b'(' { lx.skip_group(); } }
                    let o = self.val(&mut lx, dag, &t); args.push((o, t.slots() as u16, t.width() as u8));
                    if lx.eat(")") { break; } lx.expect(",");
                } }
                if let Callee::Intr(n) = &callee { if n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant") { return None; } }
                let n = rt.slots() as u16; let d = if let Some(x) = dst { self.reg(x, n as u32) } else { let s = self.nslots; self.nslots += (n as u32).max(1); s };
                if let Callee::Intr(x) = &mut callee { if x == "llvm.trap" { *x = "llvm.trap".into(); } }
                let call = I::Call(Box::new(CallI { callee, args, d, n, rw: rt.widths() }));
                if inv {
                    let at = line.rfind("to label").expect("invoke destination");
                    let mut l2 = Lx { s: line, p: at + 2 };
                    self.extra = Some(I::Br(self.edge(&mut l2)));
                }
                call
            }
            "landingpad" | "resume" | "va_arg" | "indirectbr" => I::Unsupported(line.to_string()),
            _ => I::Unsupported(line.to_string()),
        })
    }
}
fn is_attr(w: &str) -> bool { matches!(w, "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "align" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "nocapture" | "range" | "zeroext" | "signext" | "inreg" | "byval" | "sret" | "returned" | "immarg" | "allocptr" | "allocalign" | "initializes" | "dead_on_unwind" | "dead_on_return" | "writable" | "nofpclass" | "swiftself" | "swifterror" | "nest" | "inalloca" | "preallocated" | "elementtype" | "noext" | "dead_on_return_or_unwind" | "nosync" | "allockind" | "nooutline" | "inrange") }

//! P21: QR codes are stored and printed as commanded. The encoder (qr_code, third party) is a stand-in whose modules spell the
//! model, version, error correction level and data it was given.
use super::mock::*;
use super::sym::*;
use thermal_parser::context::Context;

const GS: u8 = 29;
/// bytes that fit at levels L, M, Q, H in versions 14 and 40
const LAST: [[usize; 4]; 2] = [[458, 362, 258, 194], [2953, 2331, 1663, 1273]];
/// does it fit at all, and into which versions
fn fits(model: u8, ec: usize, n: usize) -> bool { match model { 51 => n <= [15, 13, 9, 0][ec] && ec < 3, 50 => n <= LAST[1][ec], _ => n <= LAST[0][ec] } }
struct Symbol { model: u8, ec: usize, data: Vec<u8>, size: u32 }
fn nothing(_n: usize, c: &mut Context, r: &mut Rec) { r.snaps.push(snap(c)); let w = c.get_width() as u64; r.val.push(w); }
/// params: items: 1 print, 2 any model, 3 any level, 4 any size, 5 a store of another symbology, 6 its print, 7 text, 8 justification, 9 ESC @; 20 + level; 30 + model; 40 + size; 100 + n: store n bytes, one of them arbitrary; 10000 + n: store n bytes
pub fn p21_qr() {
    fmt_stub(true);
    let mut s = PROBE.to_vec();
    let fun = |cn: u8, f: u8, d: &[u8]| { let l = d.len() + 2; let mut v = vec![GS, b'(', b'k', l as u8, (l >> 8) as u8, cn, f]; v.extend_from_slice(d); v };
    let (mut model, mut ec, mut size) = (49u8, 0usize, 3u32);
    let mut stored: Option<Symbol> = None;
    let mut want: Vec<Option<Option<Symbol>>> = vec![];
    let mut i = 0;
    let mut just = 0;
    let mut justs = vec![];
    let mut first = true;
    while param(i) != 0 {
        let mut out = None;
        match param(i) {
            1 => { s.extend(fun(49, 81, &[48])); out = Some(stored.as_ref().map(|q| Symbol { model: q.model, ec: q.ec, data: q.data.clone(), size: q.size })); }
            2 => { let n = below(3); model = 49 + conc(n as u64) as u8; s.extend(fun(49, 65, &[model, 0])); }
            3 => { let n = below(4); ec = conc(n as u64) as usize; s.extend(fun(49, 69, &[48 + ec as u8])); }
            4 => { let n = below(4); size = 1 + conc(n as u64) as u32; s.extend(fun(49, 67, &[size as u8])); }
            5 => { let cn = [48, 50, 51, 52, 53, 54][conc(below(6) as u64) as usize]; s.extend(fun(cn, 80, b"0ab")); stored = None; }
            6 => { let cn = [48, 50, 51, 52, 53, 54][conc(below(6) as u64) as usize]; s.extend(fun(cn, 81, b"0")); }
            7 => s.extend_from_slice(b"ab"),
            8 => { just = conc(below(3) as u64) as u32; s.extend_from_slice(&[27, b'a', just as u8]); }
            9 => { s.extend_from_slice(&[27, b'@']); stored = None; just = 0; }
            v @ 20..=23 => { ec = v as usize - 20; s.extend(fun(49, 69, &[48 + ec as u8])); }
            v @ 30..=32 => { model = v as u8 - 30 + 49; s.extend(fun(49, 65, &[model, 0])); }
            v @ 40..=48 => { size = v as u32 - 40; s.extend(fun(49, 67, &[size as u8])); }
            v @ 100..=20000 => {
                let n = (v % 10000) as usize - if v < 10000 { 100 } else { 0 };
                let mut d: Vec<u8> = (0..n).map(|k| (k * 7 + 33) as u8).collect();
                if v < 10000 && first && n > 0 { let at = conc(below(3) as u64) as usize; d[[0, n / 2, n - 1][at]] = any(); first = false; }
                let mut m = vec![48];
                m.extend_from_slice(&d);
                s.extend(fun(49, 80, &m));
                // an empty symbol and the defaults of the printer are not specified here
                stored = if fits(model, ec, n) { Some(Symbol { model, ec, data: d, size }) } else { None };
            }
            _ => return,
        }
        s.extend_from_slice(&PROBE);
        want.push(out);
        justs.push(just);
        i += 1;
    }
    let (rec, o) = run(&s, nothing);
    let mut errors = 0;
    let mut ev = rec.ev.iter().peekable();
    while !matches!(ev.next(), Some(Ev::Probe) | None) {}
    for (k, w) in want.iter().enumerate() {
        let mut shown: Option<&Vec<[u32; 4]>> = None;
        loop {
            match ev.next() {
                Some(Ev::Probe) | None => break,
                Some(Ev::Graphics(g)) => { check(shown.is_none(), 2100); shown = Some(g); }
                _ => {}
            }
        }
        match w {
            None => check(shown.map_or(true, |g| g.len() == 0) || param(k as u32) == 6, 2101),
            Some(None) => { errors += 1; check(shown.is_none(), 2102); cover(2); }
            Some(Some(q)) => {
                let g = match shown { Some(g) => g, None => { check(false, 2103); return } };
                let at = |f: F| rec.snaps[k][f as usize] as u32;
                let paper = rec.val[k] as u32;
                symbol(q, g, at(F::X), at(F::Y), paper, justs[k]);
                // below the symbol
                let bottom = g.iter().map(|r| r[1] + r[3]).max().unwrap_or(0);
                check(rec.snaps[k + 1][F::Y as usize] as u32 >= bottom, 2104);
                cover(1);
            }
        }
        if param(k as u32) == 6 { if stored.is_none() && want.iter().all(|w| w.is_none()) { check(shown.is_none(), 2105); } }
    }
    check(o.errors.len() == errors, 2106);
}
fn symbol(q: &Symbol, g: &Vec<[u32; 4]>, _x: u32, _y: u32, paper: u32, just: u32) {
    if g.len() == 0 { check(false, 2107); return }
    for r in g { check((r[2] == q.size) & (r[3] == q.size), 2108); }
    let y0 = g.iter().map(|r| r[1]).min().unwrap_or(0);
    // the first module of the stand-in's symbols is dark for micro symbols only: find the width by the version, which is in the modules
    let cell = |w: usize, x0: u32, k: usize| -> bool { let (x, y) = (x0 + (k % w) as u32 * q.size, y0 + (k / w) as u32 * q.size); g.iter().any(|r| (r[0] == x) & (r[1] == y)) };
    let mut found = false;
    let versions: Vec<usize> = if q.model == 51 { (1..=4).collect() } else { (1..=if q.model == 50 { 40 } else { 14 }).collect() };
    for v in versions {
        let w = if q.model == 51 { 2 * v + 9 } else { 4 * v + 17 };
        let wide = w as u32 * q.size;
        if wide > paper { continue }
        let x0 = match just { 0 => 0, 1 => (paper - wide) / 2, _ => paper - wide };
        // every dark module is on the grid
        if g.iter().any(|r| r[0] < x0 || r[0] >= x0 + wide || (r[0] - x0) % q.size != 0) { continue }
        let byte = |n: usize| (0..8).fold(0u8, |b, k| b | (cell(w, x0, n * 8 + k) as u8) << k);
        if byte(1) as usize != v || byte(0) != (q.model == 51) as u8 { continue }
        found = true;
        check(byte(2) as usize == q.ec, 2109);
        check(byte(3) as usize | (byte(4) as usize) << 8 == q.data.len(), 2110);
        for (k, b) in q.data.iter().enumerate().take(40) { check(byte(5 + k) == *b, 2111); }
        // all modules, row by row
        let mut dark = 0;
        for k in 0..w * w { let bit = if k / 8 < 5 { cell(w, x0, k) } else if k / 8 < 5 + q.data.len() { q.data[k / 8 - 5] >> (k % 8) & 1 == 1 } else { k % 2 == 1 }; if bit { dark += 1; } }
        check(g.len() == dark, 2112);
        for r in g {
            let k = ((r[1] - y0) / q.size) as usize * w + ((r[0] - x0) / q.size) as usize;
            let bit = if k / 8 < 5 { true } else if k / 8 < 5 + q.data.len() { q.data[k / 8 - 5] >> (k % 8) & 1 == 1 } else { k % 2 == 1 };
            check(bit & ((r[1] - y0) % q.size == 0), 2113);
        }
        break;
    }
    check(found, 2114);
}

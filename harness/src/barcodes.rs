//! P11: UPC-E; P12: every other barcode system. The symbologies are written down here independently of the barcoders crate.
use super::sym::*;
use thermal_parser::context::*;
use thermal_parser::graphics::{Barcode, GraphicsCommand};

const GS: u8 = 29;
/// `GS k m ...`: the symbol the parsed command stands for, or None when it reports an error
fn symbol(m: u8, data: &[u8]) -> Option<Barcode> {
    let mut s = vec![GS, b'k', m];
    if m >= 65 { s.push(data.len() as u8); }
    s.extend_from_slice(data);
    if m < 65 { s.push(0); }
    let mut found = None;
    let mut n = 0;
    let ctx = Context::new();
    for c in &thermal_parser::parse_esc_pos(&s) {
        match c.handler.get_graphics(c, &ctx) {
            Some(GraphicsCommand::Barcode(b)) => { n += 1; found = Some(b); }
            Some(GraphicsCommand::Error(_)) => n += 1,
            Some(_) => check(false, 1201),
            None => {}
        }
    }
    check(n == 1, 1200);
    found
}
fn modules(s: &str) -> Vec<u8> { s.bytes().map(|b| b - b'0').collect() }
// EAN/UPC left hand odd parity digits; even parity is the mirrored complement, right hand the complement
const L: [u8; 10] = [0b0001101, 0b0011001, 0b0010011, 0b0111101, 0b0100011, 0b0110001, 0b0101111, 0b0111011, 0b0110111, 0b0001011];
fn rev(x: u8) -> u8 { (0..7).fold(0, |a, i| a | (x >> i & 1) << (6 - i)) }
/// set 0 = odd, 1 = even, 2 = right
fn ean(out: &mut Vec<u8>, set: u8, d: u8) {
    let l = L[d as usize];
    let x = match set { 0 => l, 1 => rev(l ^ 0x7f), _ => l ^ 0x7f };
    for i in 0..7 { out.push(x >> (6 - i) & 1); }
}
fn same(points: &[u8], want: &[u8], id: u32) {
    check(points.len() == want.len(), id);
    if points.len() != want.len() { return; }
    for i in 0..want.len() { check(points[i] == want[i], id); }
}
fn hri_is(b: &Barcode, data: &[u8], id: u32) {
    let t = b.text.text.as_bytes();
    check(t.len() == data.len(), id);
    if t.len() != data.len() { return; }
    for i in 0..data.len() { check(t[i] == data[i], id); }
}
/// the mod 10 check digit with weight 3 on the rightmost digit
fn check10(d: &[u8], odd_first: bool) -> u8 {
    // same grouping as the usual formula: 3 * (one half) + other half
    let (mut a, mut b) = (0u8, 0u8);
    for (i, x) in d.iter().enumerate() { if i % 2 == 0 { a += *x } else { b += *x } }
    let s = if odd_first { a * 3 + b } else { a + b * 3 };
    let r = 10 - s % 10;
    if r == 10 { 0 } else { r }
}
// UPC-E: number system 0 parities by check digit (even = 1); number system 1 is the complement
const EPAR: [u8; 10] = [0b111000, 0b110100, 0b110010, 0b110001, 0b101100, 0b100110, 0b100011, 0b101010, 0b101001, 0b100101];
/// the UPC-A digits (without check digit) of a zero-suppressed number
fn expand(n: u8, e: &[u8]) -> [u8; 11] {
    match e[5] {
        0 | 1 | 2 => [n, e[0], e[1], e[5], 0, 0, 0, 0, e[2], e[3], e[4]],
        3 => [n, e[0], e[1], e[2], 0, 0, 0, 0, 0, e[3], e[4]],
        4 => [n, e[0], e[1], e[2], e[3], 0, 0, 0, 0, 0, e[4]],
        _ => [n, e[0], e[1], e[2], e[3], e[4], 0, 0, 0, 0, e[5]],
    }
}
/// zero suppression: four rules, tried from the one that keeps most of the manufacturer code
fn compress(a: &[u8; 11]) -> Option<[u8; 6]> {
    let (m, p) = (&a[1..6], &a[6..11]);
    if m[4] != 0 { return if p[0] | p[1] | p[2] | p[3] == 0 && p[4] >= 5 { Some([m[0], m[1], m[2], m[3], m[4], p[4]]) } else { None }; }
    if m[3] != 0 { return if p[0] | p[1] | p[2] | p[3] == 0 { Some([m[0], m[1], m[2], m[3], p[4], 4]) } else { None }; }
    if m[2] > 2 { return if p[0] | p[1] | p[2] == 0 { Some([m[0], m[1], m[2], p[3], p[4], 3]) } else { None }; }
    if p[0] | p[1] == 0 { Some([m[0], m[1], p[2], p[3], p[4], m[2]]) } else { None }
}
/// p11_upce n form kind: n payload bytes (form 0: NUL terminated, 1: counted); kind 0: digits, 1: one of them any byte
pub fn p11_upce() {
    let (n, form, kind, at) = (param(0) as usize, param(1), param(2), param(3) as usize);
    fmt_stub(true);
    split_loads(true);
    let mut data: Vec<u8> = (0..n).map(|i| if kind == 1 { b'0' + (i * 7 % 10) as u8 } else { let b = any(); assume(b >= b'0' && b <= b'9'); b }).collect();
    if kind == 1 { let b = any(); assume(b != 0); data[at] = b; if b >= b'0' && b <= b'9' { return; } }
    if kind == 2 { // split by number system and by the manufacturer code's trailing zeros
        let (sys, z) = (at / 4, at % 4);
        assume(if sys < 2 { data[0] == b'0' + sys as u8 } else { data[0] > b'1' });
        assume((data[5] != b'0') == (z == 0));
        if z > 0 { assume((data[4] != b'0') == (z == 1)); }
        if z > 1 { assume((data[3] > b'2') == (z == 2)); }
    }
    if kind == 3 { assume(data[n - if n == 8 { 2 } else { 1 }] == b'0' + at as u8); }
    let b = symbol(if form == 0 { 1 } else { 66 }, &data);
    if kind == 1 || !matches!(n, 6 | 7 | 8 | 11 | 12) { check(b.is_none(), 1100); cover(10); return; }
    let d: Vec<u8> = data.iter().map(|b| b - b'0').collect();
    let a: [u8; 11] = match n { 6 => expand(0, &d), 7 | 8 => expand(d[0], &d[1..7]), _ => { let mut a = [0; 11]; a.copy_from_slice(&d[..11]); a } };
    let chk = check10(&a, true);
    let bad = (a[0] > 1) | ((n == 8 || n == 12) && d[n - 1] != chk);
    let e = if bad { None } else { compress(&a) };
    match (b, e) {
        (None, None) => cover(1),
        (Some(_), None) => check(false, 1101),
        (None, Some(_)) => check(false, 1102),
        (Some(b), Some(e)) => {
            cover(2);
            let chk = conc(chk as u64) as u8;
            let x = expand(a[0], &e);
            for i in 0..11 { check(x[i] == a[i], 1103); }
            let mut w = vec![1, 0, 1];
            let par = EPAR[chk as usize] ^ if a[0] == 1 { 0x3f } else { 0 };
            for i in 0..6 { ean(&mut w, par >> (5 - i) & 1, e[i]); }
            w.extend([0, 1, 0, 1, 0, 1]);
            same(&b.points, &w, 1104);
            hri_is(&b, &data, 1105);
            out_bytes(1, &b.points);
        }
    }
}
// ---------------------------------------------------------------- P12
const EAN13_PAR: [u8; 10] = [0b000000, 0b001011, 0b001101, 0b001110, 0b010011, 0b011001, 0b011100, 0b010101, 0b010110, 0b011010];
fn ean13(d: &[u8]) -> Vec<u8> {
    let mut w = vec![1, 0, 1];
    let par = EAN13_PAR[d[0] as usize];
    for i in 0..6 { ean(&mut w, par >> (5 - i) & 1, d[i + 1]); }
    w.extend([0, 1, 0, 1, 0]);
    for i in 7..12 { ean(&mut w, 2, d[i]); }
    ean(&mut w, 2, check10(d, false));
    w.extend([1, 0, 1]);
    w
}
fn ean8(d: &[u8]) -> Vec<u8> {
    let mut w = vec![1, 0, 1];
    for i in 0..4 { ean(&mut w, 0, d[i]); }
    w.extend([0, 1, 0, 1, 0]);
    for i in 4..7 { ean(&mut w, 2, d[i]); }
    ean(&mut w, 2, check10(d, true));
    w.extend([1, 0, 1]);
    w
}
// two of five: which of the five elements of digit d is wide
const TOF: [&str; 10] = ["00110", "10001", "01001", "11000", "00101", "10100", "01100", "00011", "10010", "01010"];
fn itf(d: &[u8]) -> Vec<u8> {
    let mut w = vec![1, 0, 1, 0];
    for p in d.chunks(2) {
        for i in 0..5 { for k in 0..2 { for _ in 0..if TOF[p[k] as usize].as_bytes()[i] == b'1' { 3 } else { 1 } { w.push(1 - k as u8); } } }
    }
    w.extend([1, 1, 0, 1]);
    w
}
/// Code 39: ten bar patterns in four rows told apart by the wide space, three more characters with three wide spaces
fn code39(out: &mut Vec<u8>, c: u8) -> bool {
    const BARS: [&str; 10] = ["10001", "01001", "11000", "00101", "10100", "01100", "00011", "10010", "01010", "00110"];
    const ROWS: [&[u8; 10]; 4] = [b"1234567890", b"ABCDEFGHIJ", b"KLMNOPQRST", b"UVWXYZ-. *"];
    const WIDE: [usize; 4] = [1, 2, 3, 0];
    let mut el = [0u8; 9];
    let mut known = false;
    for r in 0..4 { for k in 0..10 { if ROWS[r][k] == c {
        known = true;
        for i in 0..5 { el[2 * i] = BARS[k].as_bytes()[i] - b'0'; }
        el[2 * WIDE[r] + 1] = 1;
    } } }
    if let Some(k) = b"$/+%".iter().position(|x| *x == c) { known = true; for i in 0..4 { if i != 3 - k { el[2 * i + 1] = 1; } } }
    for (i, x) in el.iter().enumerate() { for _ in 0..1 + x { out.push(1 - (i % 2) as u8); } }
    known
}
/// Codabar, seven elements each; `quirk`: as the barcoders crate draws + B and C (known finding)
fn codabar(out: &mut Vec<u8>, c: u8, quirk: bool) -> bool {
    let e = match c {
        b'0' => "0000011", b'1' => "0000110", b'2' => "0001001", b'3' => "1100000", b'4' => "0010010", b'5' => "1000010", b'6' => "0100001", b'7' => "0100100", b'8' => "0110000", b'9' => "1001000",
        b'-' => "0001100", b'$' => "0011000", b':' => "1000101", b'/' => "1010001", b'.' => "1010100", b'A' => "0011010", b'D' => "0001110",
        b'+' => if quirk { "0011111" } else { "0010101" },
        b'B' => if quirk { "0001011" } else { "0101001" },
        b'C' => if quirk { "0101001" } else { "0001011" },
        _ => return false,
    };
    for (i, x) in e.bytes().enumerate() { for _ in 0..x - b'0' + 1 { out.push(1 - (i % 2) as u8); } }
    true
}
const C93: &[u8; 43] = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ-. $/+%";
const C93W: [u32; 47] = [131112, 111213, 111312, 111411, 121113, 121212, 121311, 111114, 131211, 141111, 211113, 211212, 211311, 221112, 221211, 231111, 112113, 112212, 112311, 122112, 132111, 111123, 111222, 111321, 121122, 131121,
    212112, 212211, 211122, 211221, 221121, 222111, 112122, 112221, 122121, 123111, 121131, 311112, 311211, 321111, 112131, 113121, 211131, 121221, 312111, 311121, 122211];
fn widths(out: &mut Vec<u8>, w: u32) { let s = w.to_string(); for (i, x) in s.bytes().enumerate() { for _ in 0..x - b'0' { out.push(1 - (i % 2) as u8); } } }
fn code93(v: &[usize], quirk: bool) -> Vec<u8> {
    let q = |x: usize| if quirk && x == 46 { 45 } else { x };
    let sum = |v: &[usize], m: usize| { let n = v.len(); (0..n).map(|i| v[i] * ((n - 1 - i) % m + 1)).sum::<usize>() % 47 };
    let mut w = vec![];
    widths(&mut w, 111141);
    let mut v = v.to_vec();
    for m in [20, 15] { let c = q(sum(&v, m)); v.push(c); }
    for x in &v { widths(&mut w, C93W[*x]); }
    widths(&mut w, 111141);
    w.push(1);
    w
}
const C128W: [u32; 107] = [212222, 222122, 222221, 121223, 121322, 131222, 122213, 122312, 132212, 221213, 221312, 231212, 112232, 122132, 122231, 113222, 123122, 123221, 223211, 221132, 221231, 213212, 223112, 312131, 311222, 321122, 321221, 312212, 322112, 322211,
    212123, 212321, 232121, 111323, 131123, 131321, 112313, 132113, 132311, 211313, 231113, 231311, 112133, 112331, 132131, 113123, 113321, 133121, 313121, 211331, 231131, 213113, 213311, 213131, 311123, 311321, 331121, 312113, 312311, 332111,
    314111, 221411, 431111, 111224, 111422, 121124, 121421, 141122, 141221, 112214, 112412, 122114, 122411, 142112, 142211, 241211, 221114, 413111, 241112, 134111, 111242, 121142, 121241, 114212, 124112, 124211, 411212, 421112, 421211, 212141,
    214121, 412121, 111143, 111341, 131141, 114113, 114311, 411113, 411311, 113141, 114131, 311141, 411131, 211412, 211214, 211232, 2331112];
/// the symbol values and human readable text of ESC/POS CODE128 data ({A {B {C select a set, {{ is one brace), None: invalid
fn code128(data: &[u8]) -> Option<(Vec<usize>, Vec<u8>)> {
    let mut v: Vec<usize> = vec![];
    let mut t = vec![];
    let mut set = 0u8;
    let mut i = 0;
    let mut half: Option<u8> = None;
    while i < data.len() {
        let mut c = data[i];
        i += 1;
        if c >= 128 { return None; }
        if c == b'{' {
            if i == data.len() { return None; }
            let k = data[i];
            i += 1;
            if k == b'A' || k == b'B' || k == b'C' {
                if half.is_some() { return None; }
                if set == 0 { v.push(103 + (k - b'A') as usize); } else if k == set { return None; } else { v.push(match k { b'A' => 101, b'B' => 100, _ => 99 }); }
                set = k;
                continue;
            }
            if k != b'{' { return None; }
            c = k;
        }
        t.push(c);
        match set {
            b'A' => { if c >= 96 { return None; } v.push(if c < 32 { c as usize + 64 } else { c as usize - 32 }); }
            b'B' => { if c < 32 || c == 127 { return None; } v.push(c as usize - 32); }
            b'C' => { if c < b'0' || c > b'9' { return None; } match half { None => half = Some(c - b'0'), Some(h) => { v.push(h as usize * 10 + (c - b'0') as usize); half = None; } } }
            _ => return None,
        }
    }
    if v.is_empty() || half.is_some() { return None; }
    Some((v, t))
}
/// what `GS k` with system 0..8 (UPC-A, -, EAN13, EAN8, CODE39, ITF, Codabar, CODE93, CODE128) must print: modules, text
fn spec(sys: u64, data: &[u8], quirk: bool) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = data.len();
    let digits = || -> Option<Vec<u8>> { for b in data { if *b < b'0' || *b > b'9' { return None; } } Some(data.iter().map(|b| conc((*b - b'0') as u64) as u8).collect()) };
    let mut w = vec![];
    match sys {
        0 => { if n != 11 && n != 12 { return None; } let mut d = digits()?; d.insert(0, 0); w = ean13(&d[..12]); }
        2 => { if n != 12 && n != 13 { return None; } let d = digits()?; w = ean13(&d[..12]); }
        3 => { if n != 7 && n != 8 { return None; } let d = digits()?; if n == 8 && check10(&d[..7], true) != d[7] { return None; } w = ean8(&d[..7]); }
        4 => {
            if n == 0 || n > 255 { return None; }
            let mut v = data.to_vec();
            if v[0] == b'*' { v.remove(0); }
            if v.last() == Some(&b'*') { v.pop(); }
            if v.is_empty() || v.contains(&b'*') { return None; }
            code39(&mut w, b'*'); w.push(0);
            for c in &v { if !code39(&mut w, conc(*c as u64) as u8) { return None; } w.push(0); }
            code39(&mut w, b'*');
        }
        5 => { if n < 3 { return None; } let mut d = digits()?; if n % 2 == 1 { let s: usize = d.iter().enumerate().map(|(i, x)| *x as usize * if i % 2 == 0 { 3 } else { 1 }).sum(); d.push(((10 - s % 10) % 10) as u8); } w = itf(&d); }
        6 => { if n < 3 { return None; } for (i, c) in data.iter().enumerate() { if i > 0 { w.push(0); } if !codabar(&mut w, conc(*c as u64) as u8, quirk) { return None; } } }
        7 => { if n == 0 { return None; } let mut v = vec![]; for c in data { v.push(C93.iter().position(|x| *x == *c)?); } w = code93(&v, quirk); }
        8 => {
            if n < 2 { return None; }
            let d: Vec<u8> = data.iter().map(|b| conc(*b as u64) as u8).collect();
            let (v, t) = code128(&d)?;
            for x in &v { widths(&mut w, C128W[*x]); }
            let sum = v.iter().enumerate().map(|(i, x)| x * i.max(1)).sum::<usize>() % 103;
            widths(&mut w, C128W[sum]);
            widths(&mut w, C128W[106]);
            return Some((w, t));
        }
        _ => return None,
    }
    Some((w, data.to_vec()))
}
/// the fixed part of the payloads: base number `b` of system `sys`, n bytes long
fn base(sys: u64, n: usize, b: u64) -> Vec<u8> {
    let pool: &[u8] = match (sys, b) { (4, 0) | (7, 0) => b"A1-Z. $/+%KQ09UJ", (4, _) | (7, _) => b"*B2%+C3*", (6, 0) => b"A12-$:/.B", (6, _) => b"C9+D",
        (8, 0) => b"{Bab{C1234{A\x01Z{{", (8, 1) => b"{C98{Bx{{y{A", (8, _) => b"{A{Bq~{A\x1fB ", _ => if b == 0 { b"590123412345" } else { b"0417093826" } };
    (0..n).map(|i| pool[i % pool.len()]).collect()
}
/// p12_symbol sys form n base k: n payload bytes, the k at positions param(5..) arbitrary (digits: kind 100 + k, decimal digits)
pub fn p12_symbol() {
    let (sys, form, n, bs, k) = (param(0), param(1), param(2) as usize, param(3), param(4) as usize);
    fmt_stub(sys != 0 && sys != 8); // the symbol itself is built through format! for UPC-A and CODE128
    let mut data = base(sys, n, bs);
    for j in 0..k % 100 {
        let c = any();
        if k >= 100 { assume(c >= b'0' && c <= b'9'); } else if form == 0 { assume(c != 0); }
        data[param(5 + j as u32) as usize] = c;
    }
    let m = if form == 0 { sys as u8 } else { sys as u8 + 65 };
    if sys == 4 { for c in [data.first(), data.last()] { if c == Some(&b'*') { cover(41) } } } // split here: the data is stripped of *
    let b = symbol(m, &data);
    let want = spec(sys, &data, true);
    match (b, want) {
        (None, None) => cover(30 + sys as u32),
        (Some(_), None) => check(false, 1210),
        (None, Some(_)) => check(false, 1211),
        (Some(b), Some((w, t))) => {
            cover(10 + sys as u32);
            same(&b.points, &w, 1212);
            hri_is(&b, &t, 1213);
            if sys == 6 || sys == 7 { let (s, _) = spec(sys, &data, false).unwrap(); same(&b.points, &s, 1214 + (sys - 6) as u32); }
            out_bytes(1, &b.points);
        }
    }
}
/// p12_other m n: the counted systems that are not implemented report an error, whatever the data
pub fn p12_other() {
    fmt_stub(true);
    let data = any_vec(param(1) as usize);
    check(symbol(param(0) as u8, &data).is_none(), 1216);
    cover(40);
}

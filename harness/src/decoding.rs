//! P05: text bytes decode through the selected code page and national character set
use super::mock::*;
use super::sym::*;
use super::tables::*;
use thermal_parser::context::Context;

fn page(p: u8) -> &'static [u16; 128] { for (i, t) in PAGES { if *i == p { return t } } &PAGES[0].1 }
fn national(l: u8) -> &'static [(u8, u16)] { for (i, t) in NATIONAL { if *i == l { return t } } &[] }
fn expected(p: u8, l: u8, b: u8) -> u16 {
    for (i, c) in national(l) { if *i == b { return *c } }
    if b < 128 { b as u16 } else { page(p)[b as usize - 128] }
}
fn on_probe(_n: usize, c: &mut Context, r: &mut Rec) {
    let mut b = any_vec(param(4) as usize);
    // 1, 2: bytes that form UTF-8 sequences; 3..: all but two neighbouring bytes are fixed
    let n = b.len();
    match param(7) {
        1 => { assume(b[0] >= 0xe0 && b[0] < 0xf0); for x in &b[1..] { assume(*x >= 0x80 && *x < 0xc0); } }
        2 => { assume(b[0] >= 0xf0 && b[0] < 0xf5); for (k, x) in b[1..].iter().enumerate() { assume(*x >= 0x80 && *x < if k == 2 { 0x84 } else { 0xc0 }); } }
        m if m > 2 => { let fixed = b"A\xe2\x82\xac\xc3\xa9\x7f\xff\x20z{|"; for k in 0..n { if k != m as usize - 3 && k != (m as usize - 2) % n { b[k] = fixed[k]; } } }
        _ => {}
    }
    if param(6) == 1 { for x in b.iter_mut() { *x = conc(*x as u64) as u8; } }
    let s = c.text.decoder.decode_utf8(&b);
    r.val.push(b.len() as u64);
    for x in &b { r.val.push(*x as u64); }
    for ch in s.chars() { r.val.push(ch as u64); }
}
/// params: page lo, hi, language lo, hi, number of text bytes, order of the two commands, split bytes, form of the text
pub fn p05_page() {
    let (p, l) = (any(), any());
    assume(p as u64 >= param(0)); assume(p as u64 <= param(1)); assume(p != 255);
    assume(l as u64 >= param(2)); assume(l as u64 <= param(3));
    let mut s = vec![];
    if param(5) == 2 { s.extend_from_slice(&[27, b't', 255]); } // UTF-8 before has no effect after
    if param(5) == 1 { s.extend_from_slice(&[27, b't', p, 27, b'R', l]); } else { s.extend_from_slice(&[27, b'R', l, 27, b't', p]); }
    s.extend_from_slice(&PROBE);
    let (rec, _) = run(&s, on_probe);
    check(!rec.val.is_empty(), 501);
    let n = rec.val[0] as usize;
    let got = &rec.val[1 + n..];
    // positions without a character print nothing
    let mut want: Vec<u64> = vec![];
    for b in &rec.val[1..1 + n] { let c = expected(p, l, *b as u8); if c != NONE { want.push(c as u64); } }
    check(got.len() == want.len(), 502);
    for k in 0..want.len() { check(got[k] == want[k], 503); }
    cover(1);
    if p == 13 { cover(2); }
    if l == 82 { cover(3); }
    for v in got { out(1, *v); }
}
/// number of bytes and scalar value of the well-formed UTF-8 sequence at the start of b (Unicode table 3-7)
fn utf8(b: &[u8]) -> Option<(usize, u32)> {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let cont = |x: u8, lo: u8, hi: u8| x >= lo && x <= hi;
    let c = |x: u8| (x & 63) as u32;
    match b[0] {
        0..=0x7f => Some((1, b[0] as u32)),
        0xc2..=0xdf => if cont(at(1), 0x80, 0xbf) { Some((2, (b[0] as u32 & 31) << 6 | c(b[1]))) } else { None },
        0xe0..=0xef => {
            let (lo, hi) = match b[0] { 0xe0 => (0xa0, 0xbf), 0xed => (0x80, 0x9f), _ => (0x80, 0xbf) };
            if cont(at(1), lo, hi) && cont(at(2), 0x80, 0xbf) { Some((3, (b[0] as u32 & 15) << 12 | c(b[1]) << 6 | c(b[2]))) } else { None }
        }
        0xf0..=0xf4 => {
            let (lo, hi) = match b[0] { 0xf0 => (0x90, 0xbf), 0xf4 => (0x80, 0x8f), _ => (0x80, 0xbf) };
            if cont(at(1), lo, hi) && cont(at(2), 0x80, 0xbf) && cont(at(3), 0x80, 0xbf) { Some((4, (b[0] as u32 & 7) << 18 | c(b[1]) << 12 | c(b[2]) << 6 | c(b[3]))) } else { None }
        }
        _ => None,
    }
}
/// ESC t 255: text is UTF-8, whatever the national set; well-formed sequences decode to their character, the rest to U+FFFD
pub fn p05_utf8() {
    let l = any();
    let s = [27, b't', 255, 27, b'R', l, 0x18, b'@'].to_vec();
    let (rec, _) = run(&s, on_probe);
    check(!rec.val.is_empty(), 501);
    let n = rec.val[0] as usize;
    let b: Vec<u8> = rec.val[1..1 + n].iter().map(|x| *x as u8).collect();
    let got = &rec.val[1 + n..];
    let mut g = 0;
    let mut i = 0;
    while i < n {
        match utf8(&b[i..]) {
            Some((k, c)) => {
                check(g < got.len(), 504);
                check(got[g] == c as u64, 505);
                g += 1; i += k;
                if k == 4 { cover(14); } else if k == 3 { cover(13); }
            }
            None => {
                // one replacement character for a run of ill-formed bytes of at most three
                check(g < got.len(), 504);
                check(got[g] == 0xfffd, 506);
                g += 1; i += 1;
                cover(10);
                if g >= got.len() || got[g] != 0xfffd { while i < n && utf8(&b[i..]).is_none() { i += 1; } }
            }
        }
    }
    check(g == got.len(), 507);
    cover(1);
    for v in got { out(1, *v); }
}

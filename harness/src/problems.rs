//! P23: problems are reported once, in order, and change nothing else
use super::mock::quiet;
use super::shot;
use super::spec::SPEC;
use super::sym::*;
use thermal_renderer::html_renderer::HtmlRenderer;

const ESC: u8 = 27;
const GS: u8 = 29;
#[derive(Clone, PartialEq)]
enum Kind { Unknown(Vec<u8>), Graphics, Output }
/// params: output (0 picture, 1 HTML), then items
pub fn p23_problems() {
    fmt_stub(true);
    // the stream, the same without what fails, the problems of this print that the output reports at its end
    let (mut s, mut clean) = (vec![], vec![]);
    let (mut want, mut late): (Vec<Kind>, Vec<Kind>) = (vec![], vec![]);
    let mut i = 1;
    let mut stored = false;
    let (mut free, mut named) = (true, false);
    // one arbitrary byte for each job
    let mut one = |d: u8| { if free { free = false; any() } else { d } };
    while param(i) != 0 {
        let mut item = vec![ESC, b'E', 0];
        let mut fails = false;
        match param(i) {
            1 => item.extend_from_slice(b"A\n"),
            2 => {
                let lead = [ESC, GS, 28, 16][conc(below(4) as u64) as usize];
                named = true;
                let b = one(1);
                let known = SPEC.iter().any(|c| c.op.len() > 1 && c.op[0] == lead && c.op[1] == b) || SPEC.iter().any(|c| c.op.len() == 1 && c.op[0] == b) || b == ESC || b == GS || b == 28 || b == 16 || b == 24;
                assume(!known);
                item.extend_from_slice(&[lead, b]);
                want.push(Kind::Unknown(vec![lead, b]));
                fails = true;
            }
            3 => {
                let b = one(b'2');
                item.extend_from_slice(&[GS, b'h', 2, GS, b'w', 1, GS, b'k', 68, 8, b'1', b'2', b'3', b'4', b'5', b'6', b, b'0']);
                // EAN-8: every other digit counts three times, the sum of all with the last one is a multiple of ten
                fails = b != b'7';
                if fails { want.push(Kind::Graphics); }
            }
            4 => { item.extend_from_slice(&[GS, b'(', b'k', 3, 0, 49, 81, 48]); fails = !stored; if fails { want.push(Kind::Graphics); } }
            5 => {
                let n = below(4);
                let n = conc(n as u64) as usize;
                item.extend_from_slice(&[GS, b'(', b'L', 10 + n as u8, 0, 48, 112, 48, 1, 1, 49, 8, 0, 2, 0]);
                for _ in 0..n { item.push(0x3c); }
                item.extend_from_slice(&[GS, b'(', b'L', 2, 0, 48, 50]);
                fails = n != 2;
                if fails { want.push(Kind::Graphics); }
            }
            6 => {
                item.extend_from_slice(&[ESC, b'L', ESC, b'W', 0, 0, 0, 0, 8, 0, 4, 0, GS, b'$', 4, 0, GS, b'v', b'0', 0, 1, 0, 1, 0, 0x81, ESC, b'S']);
                late.push(Kind::Output);
                fails = true;
            }
            7 => { item.push(12); want.append(&mut late); }
            8 => item.extend_from_slice(&[GS, b'v', b'0', 0, 1, 0, 2, 0, 0x66, 0x5a]),
            9 => { stored = true; item.extend_from_slice(&[GS, b'(', b'k', 4, 0, 49, 80, 48, b'1']); }
            10 => item.extend_from_slice(&[ESC, b'L', ESC, b'W', 0, 0, 0, 0, 8, 0, 4, 0, GS, b'v', b'0', 0, 1, 0, 1, 0, 0x81, ESC, 12, ESC, b'S']),
            11 => { item.extend_from_slice(&[GS, b'v', b'0', 0, 1, 0, 2, 0, 0x99]); want.push(Kind::Graphics); fails = true; }
            12 => { item.extend_from_slice(&[ESC, b'a']); item.push(below(3)); }
            _ => return,
        }
        s.extend_from_slice(&item);
        if fails { clean.extend_from_slice(&[ESC, b'E', 0]); } else { clean.extend_from_slice(&item); }
        i += 1;
    }
    want.append(&mut late);
    let (errors, outs): (Vec<String>, Vec<(Vec<u8>, Vec<u8>)>);
    fmt_stub(!named && param(0) == 0);
    if param(0) == 0 {
        let (_, a) = shot::shoot(&s, 80, 0, quiet());
        let (_, b) = shot::shoot(&clean, 80, 0, quiet());
        fmt_stub(false);
        errors = a.errors.iter().map(|e| format!("{:?}", e)).collect();
        check(b.errors.len() == 0, 2301);
        check(a.output.len() == b.output.len(), 2302);
        outs = a.output.into_iter().map(|p| p.bytes).zip(b.output.into_iter().map(|p| p.bytes)).collect();
    } else {
        let b = HtmlRenderer::render(&clean, None);
        let a = HtmlRenderer::render(&s, None);
        fmt_stub(false);
        errors = a.errors.iter().map(|e| format!("{:?}", e)).collect();
        check(b.errors.len() == 0, 2301);
        check(a.output.len() == b.output.len(), 2302);
        outs = a.output.into_iter().map(|p| p.content.into_bytes()).zip(b.output.into_iter().map(|p| p.content.into_bytes())).collect();
    }
    fmt_stub(true);
    check(errors.len() == want.len(), 2300);
    for (e, w) in errors.iter().zip(&want) {
        let k = match w { Kind::Unknown(_) => "UnknownCommand", Kind::Graphics => "GraphicsError", Kind::Output => "ChildRenderError" };
        check(e.contains(k), 2303);
        if let Kind::Unknown(b) = w {
            const H: &[u8] = b"0123456789ABCDEF";
            let e = e.as_bytes();
            let mut at = 0;
            // the bytes as two digits each, in order, after the kind
            for b in b {
                let d = [H[(b >> 4) as usize], H[(b & 15) as usize]];
                let mut found = false;
                while at + 2 <= e.len() && !found { found = (e[at] == d[0]) & (e[at + 1] == d[1]); at += 1; }
                check(found, 2304);
            }
        }
        cover(match w { Kind::Unknown(_) => 2, Kind::Graphics => 3, Kind::Output => 4 });
    }
    for (a, b) in &outs {
        check(a.len() == b.len(), 2305);
        if a.len() == b.len() { for (x, y) in a.iter().zip(b) { check(x == y, 2305); } }
    }
    if want.is_empty() { cover(5); }
    cover(1);
    out(1, errors.len() as u64);
    for (a, _) in &outs { out(2, a.len() as u64); }
}

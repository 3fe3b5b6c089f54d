//! P09: image data decodes bit for dot; P10: stored and buffered graphics
use super::mock::*;
use super::sym::*;
use thermal_parser::context::Context;
use thermal_parser::graphics::{Image, RGBA};

const ESC: u8 = 27;
const GS: u8 = 29;
fn color(c: u8) -> RGBA {
    let r = Context::new().graphics.render_colors;
    match c { 0 | 48 => r.paper_color, 2 | 50 => r.color_2, 3 | 51 => r.color_3, _ => r.color_1 }
}
/// GS ( L with its parameters (everything after pL pH)
fn gsl(f: u8, rest: &[u8]) -> Vec<u8> {
    let n = rest.len() + 2;
    let mut v = vec![GS, b'(', b'L', n as u8, (n >> 8) as u8, 48, f];
    v.extend_from_slice(rest);
    v
}
/// the bit of dot (x, y) in raster data (rows of bytes, left dot first) or column data (columns of bytes, top dot first)
fn dot(data: &[u8], column: bool, w: usize, h: usize, x: usize, y: usize) -> bool {
    let b = if column { data[x * ((h + 7) / 8) + y / 8] >> (7 - y % 8) } else { data[y * ((w + 7) / 8) + x / 8] >> (7 - x % 8) };
    b & 1 == 1
}
pub struct Layer<'a> { pub data: &'a [u8], pub column: bool, pub color: RGBA }
/// the picture is exactly the layers, later ones over earlier ones, each dot sx by sy pixels
pub fn same(i: &Image, layers: &[Layer], w: usize, h: usize, sx: usize, sy: usize, id: u32) {
    check(i.w as usize == w * sx && i.h as usize == h * sy, id);
    check(i.pixels.len() == w * sx * h * sy, id + 1);
    check(!i.upside_down, id + 2);
    if i.pixels.len() != w * sx * h * sy { return; }
    for py in 0..h * sy { for px in 0..w * sx {
        let p = &i.pixels[py * w * sx + px];
        let mut want = 0u64; // no dot
        let mut seen = 0u64;
        for l in layers {
            let on = (dot(l.data, l.column, w, h, px / sx, py / sy)) as u64;
            want = want * (1 - on) + on * rgba(&l.color);
            seen |= on;
        }
        check(p.a as u64 == 255 * seen, id + 3);
        check((seen == 0) | (rgba(p) == want), id + 4);
    } }
}
/// n bytes: all arbitrary, or the first and last ones of a longer vector
fn bytes(n: usize, max: usize) -> Vec<u8> { (0..n).map(|i| if n <= max || i < max / 2 || i + max / 2 >= n { any() } else { (i * 37 + 11) as u8 }).collect() }
/// p09_image kind w h arg: one image of w x h dots with arbitrary data
pub fn p09_image() {
    let (kind, w, h, arg) = (param(0), param(1) as usize, param(2) as usize, param(3) as u8);
    fmt_stub(true);
    let ncol = if kind == 2 || kind == 3 { arg as usize } else { 1 };
    let per = if matches!(kind, 0 | 3 | 5) { w * ((h + 7) / 8) } else { h * ((w + 7) / 8) };
    let mut colors = vec![];
    let mut datas = vec![];
    for _ in 0..ncol {
        let c = if kind < 2 { 49 } else { let c = any(); assume(c < 4 || (c >= 48 && c < 52)); conc(c as u64) as u8 };
        colors.push(c); datas.push(bytes(per, 120 / ncol));
    }
    let (wl, wh, hl, hh) = (w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8);
    let mut s = vec![];
    let (mut sx, mut sy) = (1usize, 1usize);
    match kind {
        0 => { (sx, sy) = match arg { 0 => (2, 3), 1 => (1, 3), 32 => (2, 1), _ => (1, 1) }; s.extend([ESC, b'*', arg, wl, wh]); s.extend(&datas[0]); }
        1 => { (sx, sy) = match arg & 3 { 1 => (2, 1), 2 => (1, 2), 3 => (2, 2), _ => (1, 1) }; let b = w / 8; s.extend([GS, b'v', b'0', arg, b as u8, (b >> 8) as u8, hl, hh]); s.extend(&datas[0]); }
        2 | 3 => {
            let nv = param(4) == 0;
            let mut d = vec![48, 65, 66, arg, wl, wh, hl, hh];
            for k in 0..ncol { d.push(colors[k]); d.extend(&datas[k]); }
            s.extend(gsl(if kind == 2 { 67 } else { 68 } + if nv { 0 } else { 16 }, &d));
            s.extend(gsl(if nv { 69 } else { 85 }, &[65, 66, 1, 1]));
        }
        _ => {
            let (bx, by) = (arg & 15, arg >> 4);
            sx = bx as usize; sy = by as usize;
            let mut d = vec![48, bx, by, colors[0], wl, wh, hl, hh];
            d.extend(&datas[0]);
            s.extend(gsl(if kind == 4 { 112 } else { 113 }, &d));
            s.extend(gsl(if param(4) == 0 { 2 } else { 50 }, &[]));
        }
    }
    let (rec, o) = run(&s, |_, _, _| {});
    let mut n = 0;
    for e in &rec.ev { match e {
        Ev::Image(i, _, _) => {
            n += 1;
            let layers: Vec<Layer> = (0..ncol).map(|k| Layer { data: &datas[k], column: matches!(kind, 0 | 3 | 5), color: color(colors[k]) }).collect();
            same(i, &layers, w, h, sx, sy, 900);
            out(1, i.w as u64); for p in &i.pixels { out(2, rgba(p)); }
        }
        Ev::Text { .. } | Ev::Graphics(_) => check(false, 910),
        _ => {}
    } }
    check(n == 1 && o.errors.is_empty(), 911);
    cover(10 + kind as u32);
}
/// p09_bad kind n arg: n bytes of data under an arbitrary header that needs another number of bytes
pub fn p09_bad() {
    let (kind, n, arg) = (param(0), param(1) as usize, param(2) as u8);
    fmt_stub(true);
    let (w, h) = (any_u16(), any_u16());
    let (wl, wh, hl, hh) = (w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8);
    let data = any_vec(n);
    let cols = |a: u16, b: u16| (a as u32 + 7) / 8 * b as u32;
    let mut s = vec![];
    match kind {
        0 => { assume(n < (w as usize) * if arg < 32 { 1 } else { 3 }); s.extend([ESC, b'*', arg, wl, wh]); s.extend(&data); }
        1 => { assume(n < w as usize * h as usize); s.extend([GS, b'v', b'0', arg, wl, wh, hl, hh]); s.extend(&data); }
        2 | 3 => {
            let per = if kind == 2 { cols(w, h) } else { cols(h, w) } as u64 + 1;
            assume(n as u64 != per * arg as u64 || n == 0);
            let nv = param(3) == 0;
            let mut d = vec![48, 65, 66, arg, wl, wh, hl, hh];
            d.extend(&data);
            s.extend(gsl(if kind == 2 { 67 } else { 68 } + if nv { 0 } else { 16 }, &d));
            s.extend(gsl(if nv { 69 } else { 85 }, &[65, 66, 1, 1]));
        }
        _ => {
            let per = if kind == 4 { cols(w, h) } else { cols(h, w) } as usize;
            assume(n != per);
            let mut d = vec![48, arg & 15, arg >> 4, 49, wl, wh, hl, hh];
            d.extend(&data);
            s.extend(gsl(if kind == 4 { 112 } else { 113 }, &d));
            s.extend(gsl(50, &[]));
        }
    }
    let (rec, o) = run(&s, |_, _, _| {});
    for e in &rec.ev { check(!matches!(e, Ev::Image(..)), 920); }
    check(o.errors.len() == 1, 921);
    out(1, rec.ev.len() as u64);
    cover(20 + kind as u32);
}
/// p09_cut kind n: a GS ( L image command whose parameters end after n bytes
pub fn p09_cut() {
    let (f, n) = (param(0) as u8, param(1) as usize);
    fmt_stub(true);
    let mut d = any_vec(n);
    if n > 2 { d[1] = 65; d[2] = 66; }
    let mut s = gsl(f, &d);
    s.extend(gsl(match f { 67 | 68 => 69, 83 | 84 => 85, _ => 50 }, &[65, 66, 1, 1]));
    let (rec, o) = run(&s, |_, _, _| {});
    for e in &rec.ev { check(!matches!(e, Ev::Image(..)), 930); }
    check(o.errors.len() <= 1, 931);
    out(1, rec.ev.len() as u64);
    cover(30);
}
// ---------------------------------------------------------------- P10
/// p10_store op op op ... (0 ends): 1 define (raster), 2 define (column), 3 delete, 4 delete all, 5 ESC @, 6 store in buffer, 7 print buffer, 8 print, 9 store in buffer (other size), 10 store seven in buffer, 11 define ten with other keys, 12 print those ten
/// every define/delete/print has an arbitrary storage (NV or download) and key codes out of four pairs
pub fn p10_store() {
    fmt_stub(true);
    let mut s = vec![];
    // reference: what is stored under (storage, key), in the order of events the expected pictures
    let mut stored: Vec<(u8, u8, u8, Option<usize>)> = vec![];
    let mut buffer: Vec<(usize, usize)> = vec![]; // (data index, width)
    let mut datas: Vec<Vec<u8>> = vec![];
    let mut want: Vec<Vec<usize>> = vec![]; // per expected picture: data layers
    let mut errors = 0;
    let lastkey = param(9);
    for k in 0..8 {
        let op = param(k);
        if op == 0 { break; }
        let (mut nv, mut k1, mut k2) = (0, 0, 0);
        if matches!(op, 1 | 2 | 3 | 8) { let a = any(); assume(a < 8); let a = conc(a as u64) as u8; nv = a & 1; if lastkey == 0 { k1 = if a & 2 == 0 { 32 } else { 126 }; k2 = if a & 4 == 0 { 32 } else { 126 }; } else { k1 = if a & 2 == 0 { 65 } else { 66 }; k2 = if a & 4 == 0 { 66 } else { 65 }; } }
        if op == 4 { let a = any(); assume(a < 2); nv = conc(a as u64) as u8; }
        let f = |f: u8| f + if nv == 1 { 0 } else { 16 };
        let find = |st: &Vec<(u8, u8, u8, Option<usize>)>| st.iter().position(|e| e.0 == nv && e.1 == k1 && e.2 == k2);
        match op {
            1 | 2 => {
                let d = any_vec(1);
                let mut p = vec![48, k1, k2, 1];
                p.extend(if op == 1 { [8, 0, 1, 0] } else { [1, 0, 8, 0] });
                p.push(49); p.extend(&d);
                s.extend(gsl(f(if op == 1 { 67 } else { 68 }), &p));
                datas.push(d);
                let v = Some((datas.len() - 1) | (op as usize) << 8);
                match find(&stored) { Some(i) => stored[i].3 = v, None => stored.push((nv, k1, k2, v)) }
            }
            3 => { s.extend(gsl(f(66), &[k1, k2])); if let Some(i) = find(&stored) { stored[i].3 = None; } }
            4 => { s.extend(gsl(f(65), if nv == 1 { b"CLR" } else { b"CLR" })); for e in stored.iter_mut() { if e.0 == nv { e.3 = None; } } }
            5 => { s.extend([ESC, b'@']); for e in stored.iter_mut() { if e.0 == 0 { e.3 = None; } } buffer.clear(); }
            6 | 9 => {
                let d = any_vec(1);
                let w = if op == 6 { 2 } else { 3 };
                s.extend(gsl(112, &[48, 1, 1, 49, w, 0, 1, 0, d[0]]));
                datas.push(d);
                buffer.push((datas.len() - 1, w as usize));
            }
            10 => for i in 0..7 {
                let d = if i % 3 == 0 { any_vec(1) } else { vec![0] };
                s.extend(gsl(112, &[48, 1, 1, 49, 2, 0, 1, 0, d[0]]));
                datas.push(d);
                buffer.push((datas.len() - 1, 2));
            },
            11 => for i in 0..10 {
                let d = any_vec(1);
                s.extend(gsl(if i % 2 == 0 { 67 } else { 83 }, &[48, 40 + i, 50 + i / 2, 1, 8, 0, 1, 0, 49, d[0]]));
                datas.push(d);
                let (nv, v) = (1 - i % 2, Some((datas.len() - 1) | 1 << 8));
                match stored.iter().position(|e| e.0 == nv && e.1 == 40 + i && e.2 == 50 + i / 2) { Some(p) => stored[p].3 = v, None => stored.push((nv, 40 + i, 50 + i / 2, v)) }
            },
            12 => for i in 0..10 {
                s.extend(gsl(if i % 2 == 0 { 69 } else { 85 }, &[40 + i, 50 + i / 2, 1, 1]));
                if let Some(e) = stored.iter().find(|e| e.0 == 1 - i % 2 && e.1 == 40 + i && e.2 == 50 + i / 2) { if let Some(v) = e.3 { want.push(vec![v]); } }
            },
            7 => {
                s.extend(gsl(if k % 2 == 0 { 50 } else { 2 }, &[]));
                if !buffer.is_empty() { if buffer.iter().all(|b| b.1 == buffer[0].1) { want.push(buffer.iter().map(|b| b.0 | b.1 << 16).collect()); } else { errors += 1; } }
                buffer.clear();
            }
            _ => { s.extend(gsl(f(69), &[k1, k2, 1, 1])); if let Some(i) = find(&stored) { if let Some(v) = stored[i].3 { want.push(vec![v]); } } }
        }
    }
    let (rec, o) = run(&s, |_, _, _| {});
    let pics: Vec<&Image> = rec.ev.iter().filter_map(|e| if let Ev::Image(i, _, _) = e { Some(i) } else { None }).collect();
    check(pics.len() == want.len(), 1001);
    check(o.errors.len() == errors, 1002);
    for e in &rec.ev { check(!matches!(e, Ev::Text { .. } | Ev::Graphics(_)), 1003); }
    if pics.len() == want.len() { for (i, w) in pics.iter().zip(&want) {
        let bw = w[0] >> 16;
        let column = w[0] >> 8 & 255 == 2;
        let (iw, ih) = if bw > 0 { (bw, 1) } else if column { (1, 8) } else { (8, 1) };
        let layers: Vec<Layer> = w.iter().map(|l| Layer { data: &datas[l & 255], column, color: color(49) }).collect();
        same(i, &layers, iw, ih, 1, 1, 1010);
        for p in &i.pixels { out(2, rgba(p)); }
        cover(2);
    } }
    out(1, pics.len() as u64);
    cover(1);
}
/// p10_key: any two key codes name a graphic; codes differing in any bit name another one
pub fn p10_key() {
    fmt_stub(true);
    let a = any();
    let b = match param(0) { 0 => conc(a as u64) as u8, 1 => !(conc(a as u64) as u8), _ => 0 };
    let a = conc(a as u64) as u8;
    let flip = any(); assume(flip <= 16);
    let flip = conc(flip as u64);
    let (c, d) = if flip < 8 { (a ^ 1 << flip, b) } else if flip < 16 { (a, b ^ 1 << (flip - 8)) } else { (a, b) };
    let f = if param(1) == 0 { 0 } else { 16 };
    let data = any();
    let mut s = gsl(67 + f, &[48, a, b, 1, 1, 0, 1, 0, 49, data]);
    s.extend(gsl(69 + f, &[c, d, 1, 1]));
    if param(2) == 1 { s.extend(gsl(66 + f, &[c, d])); s.extend(gsl(69 + f, &[a, b, 1, 1])); }
    let (rec, _) = run(&s, |_, _, _| {});
    let n = rec.ev.iter().filter(|e| matches!(e, Ev::Image(..))).count();
    // printed under its own key codes only; deleted by its own key codes only
    check(n == if param(2) == 1 { 1 } else { (flip == 16) as usize }, 1004);
    out(1, n as u64);
    cover(3);
}

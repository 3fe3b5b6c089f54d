//! P19: canvases of the image output
use super::sym::*;
use thermal_parser::context::PrintDirection;
use thermal_parser::graphics::{Image, ImageFlow, Rectangle, RGBA};
use thermal_renderer::image_renderer::thermal_image::ThermalImage;

type Px = [u8; 3];
const PAPER: Px = [255, 255, 255];
fn rgba(p: Px, a: u8) -> RGBA { RGBA { r: p[0], g: p[1], b: p[2], a } }
/// the canvas as it should be
pub struct Model { pub w: usize, pub rows: Vec<Vec<Px>>, grow: bool }
impl Model {
    fn h(&self) -> usize { if self.w == 0 { 0 } else { self.rows.len() } }
    fn grow_to(&mut self, h: usize) { while self.w > 0 && self.rows.len() < h { self.rows.push(vec![PAPER; self.w]); } }
    fn from(&mut self, w: usize, h: usize, f: impl Fn(&Model, usize, usize) -> Px) { let rows = (0..h).map(|y| (0..w).map(|x| f(self, x, y)).collect()).collect(); self.w = w; self.rows = rows; }
    fn put(&mut self, x: usize, y: usize, w: usize, h: usize, p: impl Fn(usize, usize) -> Option<Px>) {
        if x >= self.w || (!self.grow && y >= self.h()) { return }
        if self.grow { self.grow_to(y + h); }
        for j in 0..h { for i in 0..w { if x + i < self.w && y + j < self.h() { if let Some(c) = p(i, j) { self.rows[y + j][x + i] = c; } } } }
    }
}
fn small(n: u8) -> usize { conc(below(n) as u64) as usize }
fn dot(i: usize, j: usize) -> bool { (i * 3 + j * 5) % 4 < 2 }
pub fn same(m: &Model, c: &mut ThermalImage, id: u32) {
    let (w, h, px) = c.copy();
    check(w as usize == m.w && h as usize == m.h() && px.len() == m.w * m.h() && c.get_height() == h && c.width == w, id);
    for y in 0..m.h() { for x in 0..m.w { let p = px[y * m.w + x]; let q = m.rows[y][x]; check(p.r == q[0], id + 1); check(p.g == q[1], id + 1); check((p.b == q[2]) & (p.a == 255), id + 1); } }
}
/// params: width, height at first, grows or not (and offsets), operations...
pub fn p19_canvas() {
    let (w, h) = (param(0) as usize, param(1) as usize);
    let mut c = ThermalImage::new(w as u32);
    c.paper_color = rgba(PAPER, 255);
    let mut m = Model { w, rows: vec![], grow: param(2) & 1 != 0 };
    // how far from the corner, and how large, what is put is
    let (bx, by, bw) = ((param(2) >> 1 & 0xfff) as usize, (param(2) >> 13 & 0xfff) as usize, (param(2) >> 25) as usize);
    m.grow_to(h);
    c.expand_to_height(h as u32);
    // arbitrary content
    if w * h > 0 {
        let px: Vec<Px> = (0..w * h).map(|k| if k >= 8 && k + 8 < w * h && w * h > 30 { [(k * 7) as u8, (k / 5) as u8, (k >> 3) as u8] } else if k % 3 == 1 { [any(), 7, 8] } else { [any(), any(), k as u8] }).collect();
        let done = c.put_pixels(0, 0, w as u32, h as u32, px.iter().map(|p| rgba(*p, 255)).collect(), false, false);
        check(done, 1900);
        m.put(0, 0, w, h, |i, j| Some(px[j * w + i]));
    }
    c.auto_grow = m.grow;
    same(&m, &mut c, 1901);
    let mut k = 3;
    while param(k) != 0 {
        let op = param(k);
        k += 1;
        let (mw, mh) = (m.w, m.h());
        match op {
            1 => { // opaque and transparent pixels
                let (x, y, pw, ph) = (bx + small(5), by + small(4), bw + small(4), small(4));
                let px: Vec<Px> = (0..pw * ph).map(|k| if k > 15 { [k as u8, 100, 200] } else { [any(), 100, 200] }).collect();
                let hole = |i: usize, j: usize| (i + 2 * j) % 3 == 2;
                let done = c.put_pixels(x as u32, y as u32, pw as u32, ph as u32, (0..pw * ph).map(|k| rgba(px[k], if hole(k % pw, k / pw) { 0 } else { 255 })).collect(), false, false);
                check(done == (x < mw && (m.grow || y < mh)), 1903);
                m.put(x, y, pw, ph, |i, j| if hole(i, j) { None } else { Some(px[j * pw + i]) });
                cover(1);
            }
            2 => { // multiplied: black stays, white and transparent change nothing
                let (x, y, pw, ph) = (bx + small(5), by + small(4), bw + small(4), small(4));
                let kind = |i: usize, j: usize| (i + j) % 3;
                c.put_pixels(x as u32, y as u32, pw as u32, ph as u32, (0..pw * ph).map(|k| match kind(k % pw, k / pw) { 0 => rgba([0; 3], 255), 1 => rgba([255; 3], 255), _ => rgba([9, 9, 9], 0) }).collect(), false, true);
                m.put(x, y, pw, ph, |i, j| if kind(i, j) == 0 { Some([0; 3]) } else { None });
                cover(2);
            }
            3 => {
                let (x, y, pw, ph) = (bx + small(5), by + small(4), bw + small(4), small(4));
                c.put_rect(&Rectangle { x: x as u32, y: y as u32, w: pw as u32, h: ph as u32 }, &rgba([0; 3], 255));
                m.put(x, y, pw, ph, |_, _| Some([0; 3]));
                cover(3);
            }
            4 => { c.rotate_90(); m.from(mh, mw, |m, x, y| m.rows[mh - 1 - x][y]); cover(4); }
            5 => { c.rotate_180(); m.from(mw, mh, |m, x, y| m.rows[mh - 1 - y][mw - 1 - x]); cover(5); }
            6 => { c.rotate_270(); m.from(mh, mw, |m, x, y| m.rows[x][mw - 1 - y]); cover(6); }
            7 => { // upside down, where the area fits
                let (x, y, pw, ph) = (bx + small(4), by + small(4), bw + small(4), small(4));
                if x + pw > mw || y + ph > mh { return }
                c.flip_pixels(x as u32, y as u32, pw as u32, ph as u32);
                m.from(mw, mh, |m, i, j| if i >= x && i < x + pw && j >= y && j < y + ph { m.rows[y + y + ph - 1 - j][i] } else { m.rows[j][i] });
                cover(7);
            }
            8 => { let n = small(6); c.expand_to_width((mw + n) as u32); let l = n / 2; m.from(mw + n, mh, |m, x, y| if x >= l && x < l + mw { m.rows[y][x - l] } else { PAPER }); cover(8); }
            9 => { let n = small(6); c.expand_to_height(n as u32); m.grow_to(n); cover(9); }
            10 => { let n = small(4); c.add_top_margin(n as u32); if mw > 0 { m.from(mw, mh + n, |m, x, y| if y < n { PAPER } else { m.rows[y - n][x] }); } cover(10); }
            11 => {
                let (nw, nh, d) = (small(6), small(6), small(4));
                if mw == 0 || mh == 0 { return }
                let dir = match d { 0 => PrintDirection::TopLeft2Right, 1 => PrintDirection::BottomLeft2Top, 2 => PrintDirection::BottomRight2Left, _ => PrintDirection::TopRight2Bottom };
                c.expand_page(nw as u32, nh as u32, &dir);
                let (w2, h2) = (nw.max(mw), nh.max(mh));
                let (l, t) = (if d == 1 || d == 2 { w2 - mw } else { 0 }, if d == 2 || d == 3 { h2 - mh } else { 0 });
                m.from(w2, h2, |m, x, y| if x >= l && x < l + mw && y >= t && y < t + mh { m.rows[y - t][x - l] } else { PAPER });
                cover(11);
            }
            12 => {
                let (x, y, pw, ph) = (bx + small(4), by + small(3), 2, 3);
                let up = small(2) == 1;
                if up && (x + pw > mw || !m.grow && y + ph > mh) { return }
                c.put_render_img(&Image { pixels: (0..pw * ph).map(|k| if dot(k % pw, k / pw) { rgba([0; 3], 255) } else { RGBA::blank() }).collect(), x: x as u32, y: y as u32, w: pw as u32, h: ph as u32, flow: ImageFlow::Block, upside_down: up });
                m.put(x, y, pw, ph, |i, j| if dot(i, j) { Some([0; 3]) } else { None });
                if up && x < m.w && (m.grow || y < mh) { let (mw, mh) = (m.w, m.h()); m.from(mw, mh, |m, i, j| if i >= x && i < x + pw && j >= y && j < y + ph { m.rows[y + y + ph - 1 - j][i] } else { m.rows[j][i] }); }
                cover(12);
            }
            13 => { // data that does not match its size changes nothing
                let (x, y, pw, ph, n) = (any() as u32 * 0x01010101, small(4), any_u16() as u32 * 5, [0, 1, 3, 0x10000, 0x20000, 0x33334][small(6)], small(5));
                if pw as usize * ph as usize == n { return }
                check(!c.put_pixels(x, y as u32, pw, ph, vec![rgba([1; 3], 255); n], false, false), 1904);
                cover(13);
            }
            _ => return,
        }
        same(&m, &mut c, 1905);
    }
    if m.w > 0 {
        let (w, h, px) = c.consume_rgb_u8();
        check(w as usize == m.w && h as usize == m.h() && px.len() == 3 * m.w * m.h(), 1907);
        for y in 0..m.h() { for x in 0..m.w { for b in 0..3 { check(px[(y * m.w + x) * 3 + b] == m.rows[y][x][b], 1908); } } }
        out_bytes(1, &px);
        cover(20);
    }
}

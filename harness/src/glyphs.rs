//! P24: what a reader sees of text in the picture. The stand-in for the font draws glyphs that spell their character and
//! face, so that both can be read back from the dots, wherever the project puts them.
use super::mock::quiet;
use super::shot;
use super::sym::*;
use std::sync::atomic::Ordering;
use thermal_parser::graphics::RGBA;
use thermal_parser::text::TextSpan;

const ESC: u8 = 27;
const GS: u8 = 29;
const FACES: [usize; 4] = [
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-Medium.ttf").len(),
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-Bold.ttf").len(),
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-MediumItalic.ttf").len(),
    include_bytes!("/repo/thermal_renderer/resources/fonts/JetBrainsMonoNL-BoldItalic.ttf").len(),
];
fn pick(v: &[u8]) -> u8 { let k = below(v.len() as u8); v[conc(k as u64) as usize] }
fn rgb(c: &RGBA) -> [u8; 3] { [c.r, c.g, c.b] }
struct Picture { w: usize, h: usize, top: usize, bytes: Vec<u8> }
impl Picture {
    fn at(&self, x: usize, y: usize) -> [u8; 3] { if x < self.w && y < self.h { let k = (y * self.w + x) * 3; [self.bytes[k], self.bytes[k + 1], self.bytes[k + 2]] } else { [255; 3] } }
}
const PAPER: [u8; 3] = [255; 3];
/// rows [from, to) of a run
type Run = (usize, usize);
fn runs(p: &Picture, x: usize, from: usize, to: usize, ground: [u8; 3]) -> Vec<Run> {
    let mut v: Vec<Run> = vec![];
    for y in from..to { if p.at(x, y) != ground { match v.last_mut() { Some(r) if r.1 == y => r.1 = y + 1, _ => v.push((y, y + 1)) } } }
    v
}
/// one span of a line of height h that starts at row y; returns the rows of its glyphs
fn span(p: &Picture, s: &TextSpan, x0: usize, y: usize, h: usize) -> Option<Run> {
    let (cw, ch) = (s.character_width as usize, s.character_height as usize);
    let n = s.text.chars().count();
    let (ink, ground) = (rgb(&s.text_color), rgb(&s.background_color));
    let w = n * cw;
    // the column between characters shows the ground and the lines
    let gap = x0 + cw - 1;
    let (top, bottom) = if ground == PAPER { (y, y + h) } else {
        let g = runs(p, gap, y, y + h, PAPER);
        check(g.len() == 1, 2400);
        if g.len() != 1 { return None }
        check(g[0].1 - g[0].0 == ch, 2400);
        g[0]
    };
    if ground != PAPER { for yy in y..y + h { for x in x0..x0 + w { if yy < top || yy >= bottom { check(p.at(x, yy) == PAPER, 2401); } } } cover(5); }
    if ink == ground { return None }
    let lines = runs(p, gap, top, bottom, ground);
    // lines are printed over the ground
    let over = [0, 1, 2].map(|k| (ink[k] as u32 * ground[k] as u32 / 255) as u8);
    let seen = ink != PAPER && over != ground;
    let (under, through) = (if seen { s.underline as usize } else { 0 }, if seen { s.strikethrough as usize } else { 0 });
    let count = (under > 0) as usize + (through > 0) as usize;
    check(lines.len() == count, 2402);
    if lines.len() != count { return None }
    for l in &lines { for yy in l.0..l.1 { for x in x0..x0 + w { check(if (x - x0) % cw == cw - 1 { p.at(x, yy).iter().zip(over).all(|(a, b)| a.abs_diff(b) <= 1) } else { (ground != PAPER) | (p.at(x, yy) != ground) }, 2403); } cover(2); } }
    let line = |first: bool| if lines.len() == 2 { lines[(first == s.upside_down) as usize] } else { lines[0] };
    let (strike, uline) = (if through > 0 { Some(line(true)) } else { None }, if under > 0 { Some(line(false)) } else { None });
    if let Some(l) = strike { check(l.1 - l.0 == through, 2404); }
    if let Some(l) = uline { check(l.1 - l.0 == under, 2404); }
    let lined = |yy: usize| lines.iter().any(|l| yy >= l.0 && yy < l.1);
    let mut all: Option<Run> = None;
    for (k, c) in s.text.chars().enumerate() {
        let x = x0 + k * cw;
        if c == ' ' {
            for yy in top..bottom { for xx in x..x + cw { if !lined(yy) { check(p.at(xx, yy) == ground, 2405); } } }
            continue;
        }
        // the left third of a glyph is solid
        let col = x + cw / 6;
        let g: Vec<usize> = (top..bottom).filter(|yy| !lined(*yy) && p.at(col, *yy) != ground).collect();
        if g.is_empty() { check(false, 2406); return None }
        let (mut g0, mut g1) = (g[0], g[g.len() - 1] + 1);
        // a line through or right below the glyph hides some of it
        for l in &lines { if l.1 == g0 && Some(*l) == strike { g0 = l.0; } if l.0 == g1 && Some(*l) == strike { g1 = l.1; } }
        let gh = g1 - g0;
        check((gh * 2 >= ch) & (gh * 4 <= ch * 3 + 4), 2407);
        all = Some(all.map_or((g0, g1), |a| (a.0.min(g0), a.1.max(g1))));
        if let Some(l) = strike { check((l.0 > g0) & (l.1 < g1), 2408); let mid = l.0 + l.1; check((mid >= 2 * g0 + gh / 2) & (mid + gh / 2 <= 2 * g1), 2408); }
        if let Some(l) = uline { check(if s.upside_down { l.1 <= g0 + 1 } else { l.0 + 1 >= g1 }, 2408); }
        // the first band of eight is solid
        let band = |b: usize| if s.upside_down { g1 - 1 - (2 * b + 1) * gh / 16 } else { g0 + (2 * b + 1) * gh / 16 };
        if lined(band(0)) { continue }
        let on: Vec<usize> = (x..x + cw).filter(|xx| p.at(*xx, band(0)) != ground).collect();
        if on.is_empty() { check(false, 2406); return None }
        let (l, r) = (on[0], on[on.len() - 1] + 1);
        check((r - l == on.len()) & ((r - l) * 2 >= cw) & ((r - l) * 8 <= cw * 7), 2407);
        check(p.at(l + (r - l) / 6, band(0)) == ink, 2409);
        let (mid, right) = (l + (r - l) / 2, l + (r - l) * 5 / 6);
        let (mut code, mut face) = (0, 0);
        // dots enough to tell the bands apart
        let mut whole = gh >= 12 || s.stretch_width <= s.stretch_height;
        for b in 1..8 {
            if lined(band(b)) { whole = false; continue }
            code = code * 2 + (p.at(mid, band(b)) != ground) as usize;
            if b < 4 { face = face * 2 + (p.at(right, band(b)) != ground) as usize; }
        }
        if whole {
            check(code == c as usize & 127, 2410);
            check(face == FACES[s.bold as usize + 2 * s.italic as usize] / 4 % 8, 2411);
            cover(3);
        }
        // nothing else in the cell
        for yy in top..bottom { for xx in x..x + cw { if !lined(yy) && (yy < g0 || yy >= g1 || xx < l || xx >= r) { check(p.at(xx, yy) == ground, 2405); } } }
    }
    if s.upside_down { cover(6); None } else { all }
}
/// the items from the i-th param on
fn items(mut i: u32) -> Vec<u8> {
    let mut s = vec![];
    while param(i) != 0 {
        match param(i) {
            1 => { let b = below(95); s.push(conc(b as u64 + 32) as u8); }
            2 => s.extend_from_slice(b"Ab"),
            3 => s.extend_from_slice(b"g T"),
            4 => s.push(10),
            5 => { s.extend_from_slice(&[ESC, b'E']); s.push(pick(&[0, 1])); }
            6 => { s.extend_from_slice(&[ESC, b'4']); s.push(pick(&[0, 1])); }
            7 => { s.extend_from_slice(&[ESC, b'-']); s.push(pick(&[0, 1, 2])); }
            8 => { s.extend_from_slice(&[ESC, b'G']); s.push(pick(&[0, 1])); }
            9 => { s.extend_from_slice(&[GS, b'B']); s.push(pick(&[0, 1])); }
            10 => { s.extend_from_slice(&[ESC, b'{']); s.push(pick(&[0, 1])); }
            11 => { s.extend_from_slice(&[GS, b'!']); let b = any(); assume((b & 0x88) == 0); s.push(conc(b as u64) as u8); }
            12 => { s.extend_from_slice(&[GS, b'!']); s.push(pick(&[0x00, 0x11, 0x10, 0x01, 0x21, 0x12, 0x33])); }
            13 => { s.extend_from_slice(&[ESC, b'M']); s.push(pick(&[0, 1, 2])); }
            14 => { s.extend_from_slice(&[ESC, b'r']); s.push(pick(&[0, 1])); }
            15 => { s.extend_from_slice(&[ESC, b'a']); s.push(pick(&[0, 1, 2])); }
            16 => { s.extend_from_slice(&[GS, b'(', b'N', 2, 0, 48]); s.push(pick(&[49, 50, 51])); }
            17 => { s.extend_from_slice(&[GS, b'(', b'N', 2, 0, 49]); s.push(pick(&[48, 50])); }
            18 => { s.extend_from_slice(&[ESC, b'!']); let b = any(); s.push(conc(b as u64) as u8); }
            19 => { s.extend_from_slice(&[ESC, b'$']); s.push(pick(&[0, 3, 30])); s.push(0); }
            20 => { s.extend_from_slice(&[GS, b'!', 0x11]); }
            21 => { s.extend_from_slice(&[ESC, b'M', 1]); }
            22 => { s.extend_from_slice(&[ESC, b'E', 1]); }
            23 => { s.extend_from_slice(&[GS, b'B', 1]); }
            24 => { s.extend_from_slice(&[ESC, b'-', 2]); }
            26 => { s.extend_from_slice(&[ESC, b'$']); s.push(pick(&[60, 75])); s.push(0); }
            25 => { s.extend_from_slice(&[ESC, b'3', 200]); }
            _ => break,
        }
        i += 1;
    }
    s
}
fn start() {
    fmt_stub(true);
    fontdue::GLYPHS.store(true, Ordering::Relaxed);
}
/// params: paper width, then items
pub fn p24_text() {
    start();
    let w = param(0) as u32;
    let s = items(1);
    let (m, mut o) = shot::shoot(&s, w, 0, quiet());
    if o.output.len() != 1 { check(false, 2412); return }
    let o = o.output.remove(0);
    let p = Picture { w: o.width as usize, h: o.height as usize, top: 0, bytes: o.bytes };
    for (spans, off, h) in &m.lines {
        // magnification and place where the glyphs of the line stand
        let mut base: Vec<usize> = vec![];
        for s in spans {
            let d = match &s.dimensions { Some(d) => d, None => continue };
            if s.text.len() == 0 || d.x + off + d.w > w { continue }
            if let Some(r) = span(&p, s, (d.x + off) as usize, d.y as usize, *h as usize) { base.push(r.1); cover(4); }
        }
        if let (Some(a), Some(b)) = (base.iter().min(), base.iter().max()) { check(b - a <= *h as usize / 12 + 2, 2413); if base.len() > 1 { cover(7); } }
    }
    cover(1);
    out(1, p.h as u64);
    out(2, m.lines.len() as u64);
}

/// a page that only has what one of the parts prints, of the area that the first of them sets
fn page(area: [usize; 4], dir: u8, s: &[u8], w: u32) -> Option<Picture> {
    let mut t = vec![ESC, b'L', ESC, b'T', dir, ESC, b'W'];
    for v in area { t.extend_from_slice(&[v as u8, 0]); }
    t.extend_from_slice(s);
    t.push(12);
    let (m, mut o) = shot::shoot(&t, w, 0, quiet());
    if o.output.len() != 1 { check(false, 2412); return None }
    let o = o.output.remove(0);
    Some(Picture { w: o.width as usize, h: o.height as usize, top: m.page_at.1, bytes: o.bytes })
}
/// params: direction, x, y, w, h of the area, then items: the area shows what it shows from left to right, turned
pub fn p24_page() {
    start();
    let a = [param(1), param(2), param(3), param(4)].map(|v| v as usize);
    let s = items(5);
    let dir = param(0) as u8;
    let [x0, y0, w, h] = a;
    let lying = if dir & 1 == 1 { [x0, y0, h, w] } else { a };
    let paper = (x0 + w.max(h)) as u32;
    let (Some(p), Some(q)) = (page(a, dir, &s, paper), page(lying, 0, &s, paper)) else { return };
    check(p.top == q.top, 2414);
    let top = p.top + y0;
    check((p.h >= top + h) & (q.h >= top + lying[3]), 2414);
    if p.h < top + h || q.h < top + lying[3] { return }
    let mut ink = 0;
    for y in 0..h { for x in 0..w {
        let (lx, ly) = match dir { 0 => (x, y), 1 => (h - 1 - y, x), 2 => (w - 1 - x, h - 1 - y), _ => (y, w - 1 - x) };
        let d = p.at(x0 + x, top + y);
        if d != PAPER { ink += 1; }
        check(d == q.at(x0 + lx, top + ly), 2415);
    } }
    if ink > 0 { cover(8); }
    out(3, p.h as u64);
}
/// params: two directions, x, y, w, h of the area, then items: what is printed in one direction stays where it is when more is
/// printed in another
pub fn p24_turn() {
    start();
    let a = [param(2), param(3), param(4), param(5)].map(|v| v as usize);
    let s = items(6);
    let (d1, d2) = (param(0) as u8, param(1) as u8);
    let [x0, y0, w, h] = a;
    let paper = (x0 + w) as u32;
    let mut both = b"gb\n".to_vec();
    both.extend_from_slice(&[ESC, b'T', d2]);
    both.extend_from_slice(&s);
    let (Some(p), Some(q), Some(r)) = (page(a, d1, &both, paper), page(a, d1, b"gb\n", paper), page(a, d2, &s, paper)) else { return };
    check((p.top == q.top) & (p.top == r.top), 2414);
    let top = p.top + y0;
    check((p.h >= top + h) & (q.h >= top + h) & (r.h >= top + h), 2414);
    if p.h < top + h || q.h < top + h || r.h < top + h { return }
    for y in 0..h { for x in 0..w {
        let at = |p: &Picture| p.at(x0 + x, top + y);
        let (a, b) = (at(&q), at(&r));
        if a != PAPER && b != PAPER { continue }
        check(at(&p) == if a == PAPER { b } else { a }, 2416);
        if a != PAPER { cover(9); }
    } }
    out(3, p.h as u64);
}

//! P16 / P17: where text is laid out, and in which order things are printed. A reference printer places one character
//! after the other; the real Renderer hands whole spans to the recording output, which are taken apart for the comparison.
use super::mock::*;
use super::sym::*;
use thermal_parser::context::*;
use thermal_parser::graphics::{Image, Image as Img, ImageFlow};
use thermal_parser::text::TextSpan;

#[derive(Clone, Copy, PartialEq)]
pub struct Style { pub cw: u32, pub ch: u32, pub wm: u32, pub hm: u32, pub font: u8, pub bold: bool, pub italic: bool, pub ul: u8, pub strike: u8, pub inv: bool, pub up: bool, pub just: u8, pub col: u64, pub bg: u64 }
#[derive(Clone, Copy)]
pub struct Glyph { pub c: u8, pub x: u32, pub y: u32, pub st: Style }
pub enum Exp { Line(Vec<Glyph>, u32), Image(u32, u32, u32, u32), Cut, Bars(u32, u32), Probe }
/// the reference printer
pub struct Printer { pub w: u32, pub x: u32, pub y: u32, pub spacing: u32, pub just: u8, pub st: Style, pub tabs: Vec<u32>, line_h: u32, line_y: u32, lines: Vec<Vec<Glyph>>, pub exp: Vec<Exp> }
impl Printer {
    pub fn new(w: u32, x: u32, y: u32, spacing: u32, st: Style, tabs: Vec<u32>) -> Printer { Printer { w, x, y, spacing, just: st.just, st, tabs, line_h: 0, line_y: y, lines: vec![vec![]], exp: vec![] } }
    fn newline(&mut self) {
        let h = if self.line_y == self.y { self.line_h } else { 0 };
        self.y += h.max(self.spacing);
        self.x = 0; self.line_h = 0; self.line_y = self.y;
        self.lines.push(vec![]);
    }
    fn put(&mut self, c: u8) {
        if self.line_y != self.y { self.line_h = 0; self.line_y = self.y; }
        self.line_h = self.line_h.max(self.st.ch * self.st.hm);
        let g = Glyph { c, x: self.x, y: self.y, st: self.st };
        self.lines.last_mut().unwrap().push(g);
        self.x += self.st.cw * self.st.wm;
    }
    fn room(&self) -> u32 { self.w.saturating_sub(self.x) }
    /// printable bytes, line feeds, carriage returns and tabs in the current style
    pub fn text(&mut self, b: &[u8]) {
        let cw = self.st.cw * self.st.wm;
        let mut i = 0;
        while i < b.len() {
            if b[i] == 10 { self.newline(); i += 1; continue; }
            if b[i] == 13 { i += 1; continue; }
            if b[i] == 9 { // next tab position, none left: stay
                let mut t = 0;
                for k in 0..self.tabs.len() { if t > self.x { self.x = t; break; } t += self.tabs[k] * cw; }
                i += 1; continue;
            }
            let mut e = i; // the word with the blank that ends it
            while e < b.len() && b[e] > 32 { e += 1; }
            if e < b.len() && b[e] == 32 { e += 1; }
            let n = (e - i) as u32 * cw;
            if n > self.room() {
                if n <= self.w { self.newline(); }
                else { for k in i..e { if cw > self.room() { self.newline(); } self.put(b[k]); } i = e; continue; }
            }
            for k in i..e { self.put(b[k]); }
            i = e;
        }
    }
    /// an image within the line: beside what is there, or on the next line when it does not fit
    pub fn image(&mut self, w: u32, h: u32) {
        self.flush();
        if w > self.room() && self.x > 0 { self.newline(); }
        if self.line_y != self.y { self.line_h = 0; self.line_y = self.y; }
        self.line_h = self.line_h.max(h);
        self.exp.push(Exp::Image(self.x, self.y, w, h));
        self.x += w;
    }
    /// what is collected is handed to the output, each line at the offset its justification demands
    pub fn flush(&mut self) {
        for l in std::mem::replace(&mut self.lines, vec![vec![]]) {
            if l.is_empty() { continue; }
            let end = l.iter().map(|g| g.x + g.st.cw * g.st.wm).max().unwrap();
            let off = match l[0].st.just { 0 => 0, 1 => if end < self.w { (self.w - end) / 2 } else { 0 }, _ => self.w.saturating_sub(end) };
            self.exp.push(Exp::Line(l, off));
        }
    }
    pub fn justified(&self, w: u32) -> u32 { if w > self.w { 0 } else { match self.just { 0 => 0, 1 => (self.w - w) / 2, _ => self.w - w } } }
}
fn px(u: u8) -> u32 { match u { 0 => 0, 1 => 2, _ => 4 } } // 1 and 2 points at 203 dpi
fn same_style(s: &TextSpan, g: &Style, id: u32) {
    check((s.character_width == g.cw * g.wm) & (s.character_height == g.ch * g.hm) & (s.base_character_width == g.cw) & (s.base_character_height == g.ch), id);
    check(s.font.clone() as u8 == g.font, id + 1);
    check((s.bold == g.bold) & (s.italic == g.italic) & (s.inverted == g.inv) & (s.upside_down == g.up), id + 2);
    check((s.underline == px(g.ul)) & (s.strikethrough == px(g.strike)), id + 3);
    let (ink, ground) = if g.inv { (g.bg, g.col) } else { (g.col, g.bg) };
    check((rgba(&s.text_color) == ink) & (rgba(&s.background_color) == ground), id + 4);
    check((s.stretch_width.to_bits() == (g.wm as f32).to_bits()) & (s.stretch_height.to_bits() == (g.hm as f32).to_bits()), id + 5);
}
/// the recorded calls are the expected ones
pub fn compare(rec: &Rec, exp: &[Exp], base: u32) {
    let mut k = 0;
    for ev in &rec.ev {
        match ev {
            Ev::Begin | Ev::End => continue,
            Ev::Text { spans, off, h, just } => {
                if spans.iter().all(|s| s.text.is_empty()) { continue; }
                check(k < exp.len(), base);
                if k == exp.len() { return; }
                let Exp::Line(l, want) = &exp[k] else { check(false, base + 1); return; };
                k += 1;
                let mut i = 0;
                let mut top = 0;
                for s in spans {
                    let Some(d) = &s.dimensions else { check(false, base + 2); return; };
                    let t: Vec<u32> = s.text.chars().map(|c| c as u32).collect();
                    check(d.w == t.len() as u32 * s.character_width, base + 2);
                    check(d.h == s.character_height, base + 2);
                    for j in 0..t.len() {
                        check(i < l.len(), base + 3);
                        if i == l.len() { return; }
                        let g = &l[i];
                        check((t[j] == g.c as u32) | (g.c > 127), base + 4);
                        check(d.x + j as u32 * s.character_width == g.x, base + 5);
                        check(d.y == g.y, base + 6);
                        if j == 0 { same_style(s, &g.st, base + 10); top = top.max(g.st.ch * g.st.hm); }
                        i += 1;
                    }
                }
                check(i == l.len(), base + 3);
                check(*off == *want, base + 7);
                check(*h == top, base + 8);
                check(*just == l[0].st.just, base + 9);
            }
            Ev::Image(i, x, y) => {
                check(k < exp.len(), base);
                if k == exp.len() { return; }
                let Exp::Image(ex, ey, w, h) = exp[k] else { check(false, base + 1); return; };
                k += 1;
                check((i.w == w) & (i.h == h), base + 16);
                check((i.x == ex) & (*x == ex), base + 17);
                check((i.y == ey) & (*y == ey), base + 18);
            }
            Ev::Cut => { check(k < exp.len() && matches!(exp[k], Exp::Cut), base + 1); k += 1; }
            Ev::Probe => { check(k < exp.len() && matches!(exp[k], Exp::Probe), base + 1); k += 1; }
            _ => { check(false, base + 1); return; }
        }
    }
    check(k == exp.len(), base);
}
fn start_style(just: u8, font: u8) -> Style {
    let (cw, ch) = if font == 0 { (12, 24) } else { (9, 17) };
    Style { cw, ch, wm: 1, hm: 1, font, bold: false, italic: false, ul: 0, strike: 0, inv: false, up: false, just, col: 0xff000000, bg: 0xffffffff }
}
fn size_code(wm: u32, hm: u32) -> u8 { ((wm - 1) << 4 | (hm - 1)) as u8 }

/// p16_layout just font mode (wm hm n)*: segments of n text bytes at a size, on a paper of arbitrary width
/// mode 0: from the left, 1: from any position, 2: the same, one long word, 3: any tabs, 4: also paper narrower than a character, 5: last character outside ASCII, 6: in page mode
pub fn p16_layout() {
    let (just, font, mode) = (param(0) as u8, param(1) as u8, param(2));
    fmt_stub(true);
    let mut s = vec![PROBE[0], PROBE[1]];
    s.extend([27, b't', if mode == 5 { 0 } else { 255 }, 27, b'M', font, 27, b'a', just]); // UTF-8: what the code pages make of the bytes is P05
    let mut st = start_style(just, font);
    let (w, x, y, spacing) = (any_u16() as u32, any_u16() as u32, any_u16() as u32, any());
    let mut t = vec![];
    for _ in 0..3 { let b = if mode == 3 { any() } else { 8 }; t.push(b); }
    let mut segs: Vec<(Vec<u8>, u32, u32)> = vec![];
    let mut k = 3;
    while param(k + 2) > 0 {
        let (wm, hm, n) = (param(k) as u32, param(k + 1) as u32, param(k + 2) as usize);
        let mut b = if mode == 5 { (0..n).map(|i| if i == 1 { b' ' } else { b'x' }).collect() } else { any_vec(n) };
        for c in &b { assume((*c >= 32 && *c < 127) || *c == 10 || *c == 13 || *c == 9); if mode == 2 { assume(*c > 32); } }
        if mode == 5 { b[n - 1] = any(); assume(b[n - 1] > 127 && b[n - 1] < 255); }
        s.extend([29, b'!', size_code(wm, hm)]);
        s.extend_from_slice(&b);
        segs.push((b, wm, hm));
        k += 3;
    }
    let widest = segs.iter().map(|s| s.1).max().unwrap() * st.cw;
    if mode != 4 { assume(w >= widest); }
    assume(x <= w); // positions beyond the paper are cut off by the commands that set them
    if mode != 1 && mode != 2 { assume(x == 0); }
    let mut p = Printer::new(w, x, y, spacing as u32, st, vec![]);
    for k in 0..32 { p.tabs.push(if k < 3 { t[k] as u32 } else { 8 }); }
    *SETUP.lock().unwrap() = vec![w, x, y, spacing as u32, t[0] as u32, t[1] as u32, t[2] as u32];
    let (rec, _) = run(&s, |n, c, _| {
        if n > 0 { return; }
        let v = SETUP.lock().unwrap().clone();
        if param(2) == 6 { c.page_mode.enabled = true; c.page_mode.render_area.w = v[0]; } else { c.graphics.render_area.w = v[0]; }
        c.set_x(v[1]); c.set_y(v[2]); c.text.line_spacing = v[3] as u8;
        for k in 0..3 { c.text.tabs[k] = v[4 + k] as u8; }
    });
    p.exp.push(Exp::Probe);
    for (b, wm, hm) in &segs { st.wm = *wm; st.hm = *hm; p.st = st; p.text(b); }
    p.flush();
    cover(p.exp.len() as u32);
    compare(&rec, &p.exp, 1600);
    // what the property says about lines, from the calls alone
    let mut bottom = 0;
    for ev in &rec.ev { if let Ev::Text { spans, off, .. } = ev {
        let mut end = 0;
        let mut next = bottom;
        for s in spans { let d = s.dimensions.as_ref().unwrap(); if s.text.is_empty() { continue; }
            check(d.x >= end, 1640); end = d.x + d.w; check(d.y >= bottom, 1641); next = next.max(d.y + d.h);
            if mode != 4 { check(end + off <= w, 1642); }
        }
        bottom = next;
    } }
    for (a, b) in rec.ev.iter().enumerate() { if let Ev::Text { spans, off, .. } = b { out(a as u32, spans.len() as u64); out(a as u32, *off as u64); } }
}
pub static SETUP: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(vec![]);

// ---------------------------------------------------------------- P17
/// p17_order w item*: a print of the items (0 ends the list), each command with arbitrary parameters
/// 1 text, 2 line feed, 3.. settings, 20.. things that print or move the paper
pub fn p17_order() {
    fmt_stub(true);
    let w = param(0) as u32;
    let mut s = vec![27, b't', 255, PROBE[0], PROBE[1]];
    let (y, spacing) = (any_u16() as u32, any());
    *SETUP.lock().unwrap() = vec![w, y, spacing as u32];
    let mut p = Printer::new(w, 0, y, spacing as u32, start_style(0, 0), vec![8; 32]);
    p.exp.push(Exp::Probe);
    let (mut errors, mut unknown, mut text) = (0, false, vec![]);
    let mut k = 1;
    loop {
        let it = param(k);
        k += 1;
        if it != 1 && it != 23 { let t = std::mem::take(&mut text); p.text(&t); } // neighbouring text is one word
        if it == 0 { break; }
        let bit = |b: u8| b & 1 == 1;
        if it != 1 && it != 23 { unknown = false; }
        match it {
            1 | 23 => { let n = if it == 1 { 1 } else { 3 }; let b = any_vec(n); for c in &b { assume(*c > 32 && *c < 127); } s.extend_from_slice(&b); if !unknown { text.extend(b); } }
            2 => { s.push(10); p.text(&[10]); }
            3 => { let b = any(); s.extend([27, b'E', b]); p.st.bold = bit(b); }
            4 => { let b = below(3); s.extend([27, b'-', b]); p.st.ul = b; }
            5 => { s.extend([29, b'!', 0x12]); p.st.wm = 2; p.st.hm = 3; }
            6 => { s.extend([27, b'M', 1]); p.st.font = 1; p.st.cw = 9; p.st.ch = 17; }
            7 => { let b = any(); s.extend([27, b'3', b]); p.spacing = b as u32; }
            8 => { let b = any(); s.extend([29, b'B', b]); let on = bit(b); p.st.inv = on; }
            9 => { let b = any(); s.extend([27, b'{', b]); p.st.up = bit(b); }
            10 => { let b = any(); s.extend([27, b'G', b]); p.st.strike = if bit(b) { 2 } else { 0 }; }
            11 => { let b = below(2); s.extend([27, b'r', b]); p.st.col = if b == 1 { 0xff16169e } else { 0xff000000 }; }
            12 => { s.extend([27, b'2']); p.spacing = 24; }
            13 => { let b = any(); s.extend([27, b'D', b, 0]); p.tabs[0] = b as u32; }
            14 => { s.extend([29, b'H', 0]); }
            15 => { s.extend([27, b'@', 27, b't', 255]); p.flush(); let y = p.y; let st = start_style(0, 0); p.st = st; p.just = 0; p.spacing = 24; p.y = y; p.x = 0; p.w = 609; p.tabs = vec![8; 32]; }
            16 => { let (l, h) = (any(), any()); assume(h < 2); s.extend([27, b'$', l, h]); p.x = (l as u32 + h as u32 * 256).min(p.w); }
            17 => { s.push(9); p.text(&[9]); }
            18 => { let b = any(); s.extend([29, b'b', b]); } // smoothing: not part of a span
            19 => { s.extend([29, b'P', 0, 0]); }
            20 => { let b = any_vec(2); s.extend([29, b'v', b'0', 0, 1, 0, 2, 0]); s.extend_from_slice(&b); p.flush(); let x = p.justified(8); p.exp.push(Exp::Image(x, p.y, 8, 2)); p.y += 2; p.x = 0; }
            21 => { let b = any(); s.extend([27, b'J', b]); p.flush(); p.y += b as u32; p.x = 0; }
            22 => { let b = any(); s.extend([27, b'd', b]); p.flush(); p.y += b as u32 * p.spacing; p.x = 0; }
            24 => { s.extend([29, b'V', 0]); p.flush(); p.exp.push(Exp::Cut); p.y += 2 * p.spacing; p.x = 0; }
            25 => { s.extend([0x1c, b'~']); p.flush(); errors += 1; unknown = true; } // no such command: the bytes up to the next command are its
            26 => { s.extend(PROBE); p.flush(); p.exp.push(Exp::Probe); }
            27 => { // a barcode without human readable text: CODE39 "1"
                s.extend([29, b'k', 4, b'1', 0]); p.flush(); p.exp.push(Exp::Bars(p.justified(3 * 38), p.y)); p.y += 40; p.x = 0; }
            28 => { s.extend([29, b'k', 4, b'!', 0]); p.flush(); errors += 1; } // not encodable
            // images within the line: 24 dots high, 8 dots in 24 rows at half density
            33 | 34 | 35 => { let n = [5, 24, 70][it as usize - 33]; s.extend([27, b'*', 33, n, 0]); let b = any(); s.push(b); for k in 1..3 * n as u32 { s.push((k * 37) as u8); } p.image(n as u32, 24); }
            36 => { let b = any_vec(3); s.extend([27, b'*', 0, 3, 0]); s.extend_from_slice(&b); p.image(6, 24); }
            37 => { let b = any_vec(3); s.extend([27, b'*', 1, 3, 0]); s.extend_from_slice(&b); p.image(3, 24); }
            38 => { s.extend([29, b'!', 0x01]); p.st.wm = 1; p.st.hm = 2; }
            39 => { let b = any(); s.extend([27, b'4', b]); p.st.italic = bit(b); }
            30 | 31 | 32 => { s.extend([27, b'a', it as u8 - 30]); p.flush(); p.st.just = it as u8 - 30; p.just = p.st.just; }
            _ => return,
        }
    }
    p.flush();
    let (rec, o) = run(&s, |n, c, _| {
        if n > 0 { return; }
        let v = SETUP.lock().unwrap().clone();
        c.graphics.render_area.w = v[0]; c.set_x(0); c.set_y(v[1]); c.text.line_spacing = v[2] as u8;
    });
    check(o.errors.len() == errors, 1700);
    check(o.output.len() == 1, 1701);
    check(matches!(rec.ev.last(), Some(Ev::End)) && rec.ev.iter().filter(|e| matches!(e, Ev::End)).count() == 1, 1702);
    cover(p.exp.len().min(8) as u32);
    in_order(&rec, &p.exp);
}
/// the same characters, images, cuts in the same order at the same places; how the text is cut into calls is left open
fn in_order(rec: &Rec, exp: &[Exp]) {
    let (mut k, mut i) = (0, 0);
    for ev in &rec.ev {
        match ev {
            Ev::Begin => check(k == 0, 1703),
            Ev::End => {}
            Ev::Text { spans, off, h, .. } => {
                let mut top = 0;
                for s in spans {
                    let t = s.text.as_bytes();
                    let d = s.dimensions.as_ref().unwrap();
                    for j in 0..t.len() {
                        check(k < exp.len(), 1704);
                        if k == exp.len() { return; }
                        let Exp::Line(l, want) = &exp[k] else { check(false, 1705); return; };
                        let g = &l[i];
                        check(t[j] == g.c, 1706);
                        check(d.x + j as u32 * s.character_width + *off == g.x + want, 1707);
                        check(d.y == g.y, 1708);
                        if j == 0 { same_style(s, &g.st, 1720); top = top.max(s.character_height); }
                        i += 1;
                        if i == l.len() { i = 0; k += 1; }
                    }
                }
                check(*h >= top, 1709);
            }
            Ev::Image(im, x, y) => {
                check(i == 0 && k < exp.len(), 1704);
                let Some(Exp::Image(ex, ey, w, h)) = exp.get(k) else { check(false, 1705); return; };
                k += 1;
                check((im.w == *w) & (im.h == *h), 1710);
                check((im.x == *ex) & (*x == *ex) & (im.y == *ey) & (*y == *ey), 1711);
            }
            Ev::Graphics(r) => {
                let Some(Exp::Bars(ex, ey)) = exp.get(k) else { check(false, 1705); return; };
                check(i == 0, 1704);
                k += 1;
                check(!r.is_empty(), 1712);
                for (n, b) in r.iter().enumerate() { if n == 0 { check(b[0] == *ex, 1711); } check(b[1] == *ey, 1711); }
            }
            Ev::Cut => { check(i == 0 && matches!(exp.get(k), Some(Exp::Cut)), 1705); k += 1; }
            Ev::Probe => { check(i == 0 && matches!(exp.get(k), Some(Exp::Probe)), 1705); k += 1; }
            _ => { check(false, 1705); return; }
        }
    }
    check(k == exp.len() && i == 0, 1704);
}

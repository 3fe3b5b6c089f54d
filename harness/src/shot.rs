//! P15: what the image output makes of the calls it gets from the project's Renderer. A Tee hands every call to the real
//! ImageRenderer and to a model that keeps the paper as blank dots, known dots and character cells.
use super::mock::{quiet, PROBE};
use super::spec::SPEC;
use super::sym::*;
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::*;
use thermal_parser::graphics::{Image, VectorGraphic};
use thermal_parser::text::TextSpan;
use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};

type Px = [u8; 3];
const PAPER: Px = [255, 255, 255];
/// a dot of known colour, or of the character cell with this number (from 1)
#[derive(Clone, Copy)]
struct Dot { p: Px, cell: u16 }
const BLANK: Dot = Dot { p: PAPER, cell: 0 };
#[derive(Default)]
struct Sheet { w: usize, rows: Vec<Vec<Dot>>, grow: bool }
impl Sheet {
    fn grow_to(&mut self, h: usize) { while self.rows.len() < h { self.rows.push(vec![BLANK; self.w]); } }
}
/// one finished print: the sheet, the height the paper was fed to, the greatest height text may reach
struct Shot { sheet: Sheet, margin: usize, hi: usize, cells: Vec<(usize, bool)> }
#[derive(Default)]
pub struct Model {
    paper: Sheet, page: Sheet, quarter: usize, hi: usize, cells: Vec<(usize, bool)>, done: Vec<Shot>, on_page: bool, begun: usize,
    /// spans of the lines on the paper, offset and height
    pub lines: Vec<(Vec<TextSpan>, u32, u32)>,
    /// where the last page was printed
    pub page_at: (usize, usize),
}
/// quarter turns of the directions in the order of PrintDirection
const TURN: [usize; 4] = [0, 2, 3, 1];
fn quarter(c: &Context) -> usize { TURN[c.page_mode.direction.clone() as usize & 3] }
impl Model {
    pub fn on(&mut self, page: bool) -> &mut Model { self.on_page = page; self }
    pub fn begin_page(&mut self) { self.page = Sheet::default(); }
    pub fn page_area(&mut self, c: &Context, w: u32, h: u32) {
        self.quarter = quarter(c);
        let (w, h) = if self.quarter & 1 == 1 { (h as usize, w as usize) } else { (w as usize, h as usize) };
        if w == 0 || h == 0 { return }
        if w > self.page.w { self.page.w = w; for r in self.page.rows.iter_mut() { r.resize(w, BLANK); } }
        self.page.grow_to(h);
    }
    /// width and dots of the page, None where characters are
    pub fn page_dots(&self) -> (usize, Vec<Option<[u8; 4]>>) { (self.page.w, self.page.rows.iter().flatten().map(|d| if d.cell > 0 { None } else { Some([d.p[0], d.p[1], d.p[2], 255]) }).collect()) }
    /// the dot at a position of what is being drawn on: the paper, or the page as turned
    fn at(&mut self, x: usize, y: usize) -> Option<&mut Dot> {
        if !self.on_page { return self.paper.rows.get_mut(y)?.get_mut(x) }
        let (w, h) = (self.page.w, self.page.rows.len());
        let (tw, th) = if self.quarter & 1 == 1 { (h, w) } else { (w, h) };
        if x >= tw || y >= th { return None }
        let (x, y) = match self.quarter { 0 => (x, y), 1 => (y, h - 1 - x), 2 => (w - 1 - x, h - 1 - y), _ => (w - 1 - y, x) };
        Some(&mut self.page.rows[y][x])
    }
    /// makes room; false if nothing of it is visible
    fn room(&mut self, x: usize, y: usize, h: usize) -> bool {
        if self.on_page { return true }
        if x >= self.paper.w { return false }
        self.paper.grow_to(y + h);
        self.hi = self.hi.max(y + h);
        true
    }
    fn multiply(&mut self, x: usize, y: usize, p: Px) {
        if let Some(d) = self.at(x, y) { if d.cell == 0 { for k in 0..3 { d.p[k] = mul(d.p[k], p[k]); } } }
    }
    pub fn rect(&mut self, r: [u32; 4], p: Px) {
        let [x, y, w, h] = r.map(|v| v as usize);
        if !self.room(x, y, h) { return }
        for j in 0..h { for i in 0..w { self.multiply(x + i, y + j, p); } }
    }
    pub fn image(&mut self, m: &Image) {
        let (x, y, w, h) = (m.x as usize, m.y as usize, m.w as usize, m.h as usize);
        check(m.pixels.len() == w * h, 1503);
        if !self.room(x, y, h) { return }
        for j in 0..h { for i in 0..w {
            let p = &m.pixels[(if m.upside_down { h - 1 - j } else { j }) * w + i];
            check((p.a == 0) | (p.a == 255), 1503);
            let d = self.at(x + i, y + j);
            // turning an area upside down also turns what was there before: leave those dots out
            if m.upside_down { if let Some(d) = d { if d.cell != 0 { continue } else if d.p != PAPER { d.cell = u16::MAX; continue } } }
            let q = [p.r, p.g, p.b].map(|v| if p.a == 0 { 255 } else { v });
            self.multiply(x + i, y + j, q);
        } }
    }
    pub fn text(&mut self, s: &TextSpan, off: u32, height: u32) {
        let d = match &s.dimensions { Some(d) => d, None => return };
        let (mut x, y) = ((d.x + off) as usize, d.y as usize);
        let (cw, ch) = (s.character_width as usize, s.character_height as usize);
        for c in s.text.chars() {
            if cw > 0 && ch > 0 {
                if self.room(x, y, 0) { self.hi = self.hi.max(y + height as usize); }
                if !self.on_page && x < self.paper.w { self.paper.grow_to(y + height as usize); }
                let id = self.cells.len() as u16 + 1;
                let mut seen = 0;
                for j in 0..height as usize { for i in 0..cw { if let Some(d) = self.at(x + i, y + j) { let old = d.cell; d.cell = id; seen += 1; if old > 0 && old != id && old != u16::MAX { self.cells[old as usize - 1].1 = false; } } } }
                self.cells.push((seen, c != ' ' && seen == cw * height as usize));
            }
            x += cw;
        }
        // lines under, through and upside down characters of lower height reach over their cells
        let _ = ch;
    }
    fn print_page(&mut self, c: &Context) {
        let (x, y) = (c.graphics.render_area.x as usize, c.graphics.render_area.y as usize);
        self.page_at = (x, y);
        let on = self.on_page;
        self.on_page = false;
        let h = self.page.rows.len();
        if self.room(x, y, h) {
            for j in 0..h { for i in 0..self.page.w { let d = self.page.rows[j][i]; if let Some(t) = self.at(x + i, y + j) { *t = d; } } }
        }
        self.on_page = on;
    }
}
fn mul(q: u8, p: u8) -> u8 { if p == 255 { q } else if p == 0 { 0 } else { ((q as u32 * p as u32 * 2 + 255) / 510) as u8 } }

struct Tee { real: ImageRenderer, m: Rc<RefCell<Model>>, w: u32, margin: u32 }
impl OutputRenderer<ReceiptImage> for Tee {
    fn set_debug_profile(&mut self, p: DebugProfile) { self.real.set_debug_profile(p) }
    fn begin_render(&mut self, c: &mut Context) {
        // narrow paper
        c.graphics.render_area.w = self.w;
        c.graphics.paper_area.w = self.w + self.margin;
        if let Some(d) = c.default.as_mut() { d.graphics.render_area.w = self.w; d.graphics.paper_area.w = self.w + self.margin; }
        self.real.begin_render(c);
        let m = &mut *self.m.borrow_mut();
        m.paper = Sheet { w: self.w as usize, rows: vec![], grow: true };
        m.hi = 0; m.cells.clear(); m.begun += 1;
    }
    fn page_begin(&mut self, c: &mut Context) { self.real.page_begin(c); self.m.borrow_mut().begin_page(); }
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) {
        self.real.page_area_changed(c, r, w, h);
        self.m.borrow_mut().page_area(c, w, h);
    }
    fn page_end(&mut self, c: &mut Context) { self.real.page_end(c) }
    fn render_page(&mut self, c: &mut Context) { self.real.render_page(c); self.m.borrow_mut().print_page(c); cover(30 + quarter(c) as u32); }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) {
        self.real.render_graphics(c, g);
        let m = &mut *self.m.borrow_mut();
        m.on_page = c.page_mode.enabled;
        let k = &c.text.color;
        for VectorGraphic::Rectangle(r) in g { m.rect([r.x, r.y, r.w, r.h], [k.r, k.g, k.b]); cover(22); }
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) {
        self.real.render_image(c, i);
        let m = &mut *self.m.borrow_mut();
        m.on_page = c.page_mode.enabled;
        m.image(i);
        cover(20);
    }
    fn render_text(&mut self, c: &mut Context, s: &Vec<TextSpan>, off: u32, h: u32, j: TextJustify) {
        // one path per size of characters and place of a line
        let v = |n: u32| conc(n as u64) as u32;
        let mut spans = s.clone();
        for s in spans.iter_mut() {
            s.character_width = v(s.character_width); s.character_height = v(s.character_height); s.base_character_width = v(s.base_character_width); s.base_character_height = v(s.base_character_height);
            if let Some(d) = s.dimensions.as_mut() { d.x = v(d.x); d.y = v(d.y); d.w = v(d.w); d.h = v(d.h); }
        }
        let (s, off, h) = (&spans, v(off), v(h));
        self.real.render_text(c, s, off, h, j);
        let m = &mut *self.m.borrow_mut();
        m.on_page = c.page_mode.enabled;
        for s in s { m.text(s, off, h); cover(21); }
        if !m.on_page { m.lines.push((s.clone(), off, h)); }
    }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) { self.real.device_command(c, d) }
    fn get_render_errors(&mut self) -> Vec<String> { self.real.get_render_errors() }
    fn end_render(&mut self, c: &mut Context) -> ReceiptImage {
        let o = self.real.end_render(c);
        let m = &mut *self.m.borrow_mut();
        let mut sheet = std::mem::take(&mut m.paper);
        sheet.grow_to(c.graphics.render_area.y as usize);
        m.hi = m.hi.max(c.graphics.render_area.y as usize);
        m.done.push(Shot { sheet, margin: (self.margin / 2) as usize, hi: m.hi, cells: std::mem::take(&mut m.cells) });
        o
    }
}
pub fn shoot(bytes: &Vec<u8>, w: u32, margin: u32, p: DebugProfile) -> (Model, RenderOutput<ReceiptImage>) {
    let m = Rc::new(RefCell::new(Model::default()));
    let mut b: Box<dyn OutputRenderer<ReceiptImage>> = Box::new(Tee { real: ImageRenderer::new(), m: m.clone(), w, margin });
    let o = Renderer::new(&mut b, p).render(bytes);
    drop(b);
    let m = std::mem::take(&mut *m.borrow_mut());
    (m, o)
}
/// every output is a well formed picture of the paper
fn formed(m: &Model, o: &RenderOutput<ReceiptImage>, w: usize) {
    check(o.output.len() == m.done.len(), 1500);
    check(m.begun == m.done.len(), 1500);
    for i in &o.output {
        check(i.width as usize == w, 1501);
        check(i.bytes.len() == 3 * w * i.height as usize, 1502);
    }
}
fn compare(m: &Model, o: &RenderOutput<ReceiptImage>, w: usize) {
    for (s, i) in m.done.iter().zip(&o.output) {
        let (h, lo) = (i.height as usize, if s.sheet.w == 0 { 0 } else { s.sheet.rows.len() });
        check((h >= lo) & (h <= s.hi.max(lo)), 1504);
        if h < lo { return }
        let mut ink = vec![false; s.cells.len()];
        let mut area = vec![0; s.cells.len()];
        for y in 0..h { for x in 0..w {
            let p = &i.bytes[(y * w + x) * 3..][..3];
            let d = if y < lo && x >= s.margin && x < s.margin + s.sheet.w { s.sheet.rows[y][x - s.margin] } else { BLANK };
            if d.cell == 0 { for k in 0..3 { check(p[k] == d.p[k], 1505); } }
            else if (d.cell as usize) <= ink.len() { area[d.cell as usize - 1] += 1; ink[d.cell as usize - 1] |= (p[0] != 255) | (p[1] != 255) | (p[2] != 255); }
        } }
        for (n, c) in s.cells.iter().enumerate() { if c.1 && c.0 > 0 && area[n] >= c.0 { check(ink[n], 1506); cover(23); } }
    }
}
const ESC: u8 = 27;
const GS: u8 = 29;
fn pick(v: &[u8]) -> u8 { let k = below(v.len() as u8); v[conc(k as u64) as usize] }
/// params: width, margin, then items
pub fn p15_image() {
    fmt_stub(true);
    let (w, margin) = (param(0) as u32, param(1) as u32);
    let mut s = vec![];
    let mut i = 2;
    let mut first = true;
    while param(i) != 0 {
        match param(i) {
            1 => { s.extend_from_slice(&[GS, b'v', b'0', 0, 1, 0, 2, 0]); s.push(if first { any() } else { 0x6c }); s.push(0xa7); first = false; }
            2 => { s.extend_from_slice(&[ESC, b'*', 0, 3, 0]); s.push(0x81); s.push(0x3c); s.push(if first { any() } else { 0x6c }); first = false; }
            3 => s.extend_from_slice(b"A b"),
            4 => s.push(10),
            5 => { s.extend_from_slice(&[ESC, b'J']); s.push(pick(&[0, 1, 5])); }
            6 => s.extend_from_slice(&[GS, b'V', 0]),
            7 => { s.extend_from_slice(&[ESC, b'$']); s.push(pick(&[0, 1, 9, 15, 40])); s.push(0); }
            8 => s.push(12),
            9 => s.extend_from_slice(&[ESC, b'L']),
            10 => { s.extend_from_slice(&[ESC, b'W']); for v in [&[0u8, 3][..], &[0, 2], &[0, 8, 13], &[0, 4, 9]] { s.push(pick(v)); s.push(0); } }
            11 => { s.extend_from_slice(&[ESC, b'T']); s.push(pick(&[0, 1, 2, 3])); }
            12 => s.extend_from_slice(&[ESC, 12]),
            13 => s.extend_from_slice(&[ESC, b'S']),
            14 => s.extend_from_slice(&[GS, b'h', 5, GS, b'w', 1, GS, b'k', 4, b'A', 0]),
            15 => s.extend_from_slice(&[ESC, b'{', 1]),
            16 => { s.extend_from_slice(&[ESC, b'a']); s.push(pick(&[0, 1, 2])); }
            17 => s.extend_from_slice(&[GS, b'B', 1]),
            18 => { s.extend_from_slice(&[GS, b'!']); s.push(pick(&[0, 0x10, 0x01, 0x21])); }
            19 => { s.extend_from_slice(&[ESC, b'-']); s.push(pick(&[0, 1, 2])); }
            20 => { s.extend_from_slice(&[ESC, b'W']); for v in [0, 0, 24, 30] { s.push(v); s.push(0); } }
            21 => { s.extend_from_slice(&[ESC, b'M']); s.push(pick(&[0, 1])); }
            // wider than 255 dots, with one arbitrary bit in its last column
            23 => { s.extend_from_slice(&[GS, b'v', b'0', 0, 40, 0, 3, 0]); for k in 0..119u8 { s.push(k.wrapping_mul(7)); } s.push(any() & 1); }
            24 => { s.extend_from_slice(&[GS, b'v', b'0', 0, 2, 0, 44, 1]); for k in 0..300u32 { s.push((k * 5) as u8); s.push((k / 3) as u8); } }
            25 => { s.extend_from_slice(&[ESC, b'W', 0, 0, 0, 0, 0x2c, 1, 0x10, 1]); }
            26 => for _ in 0..12 { s.push(b'X'); s.push(10); },
            27 => { s.extend_from_slice(&[ESC, b'W', 0, 0, 0, 0, 9, 0, 7, 0]); }
            28 => { s.extend_from_slice(&[ESC, b'd']); s.push(pick(&[0, 12, 40])); }
            22 => { s.extend_from_slice(&[GS, b'$']); s.push(pick(&[0, 2, 7])); s.push(0); }
            _ => return,
        }
        i += 1;
    }
    let (m, o) = shoot(&s, w, margin, quiet());
    formed(&m, &o, (w + margin) as usize);
    compare(&m, &o, (w + margin) as usize);
    cover(1);
    if o.output.len() > 1 { cover(2); }
    for i in &o.output {
        out(1, i.height as u64);
        // of a wide picture, every row in one
        if i.width < 100 { out_bytes(2, &i.bytes); } else { for r in i.bytes.chunks(i.width as usize * 3) { let mut n = 0u64; for (k, b) in r.iter().enumerate() { n = n.wrapping_add(*b as u64 * (k as u64 + 1)); } out(2, n); } }
    }
}
/// params: opcode + 1 or 0, arbitrary bytes after it, debug profile, text around it: any stream gives well formed pictures, and the same ones again
pub fn p15_total() {
    fmt_stub(true);
    let mut s = vec![];
    if param(3) & 1 == 1 { s.extend_from_slice(b"A"); }
    if param(3) & 4 == 4 { s.extend_from_slice(&[ESC, b'L', ESC, b'W', 0, 0, 0, 0, 9, 0, 30, 0]); }
    if param(0) > 0 { s.extend_from_slice(SPEC[param(0) as usize - 1].op); }
    s.extend(any_vec(param(1) as usize));
    if param(3) & 2 == 2 { s.extend_from_slice(b"B\n"); }
    let p = param(2) != 0;
    let prof = DebugProfile { text: p, image: p, page: p, info: false };
    let (m, o) = shoot(&s, 20, 0, prof);
    formed(&m, &o, 20);
    let (_, again) = shoot(&s, 20, 0, prof);
    check(again.output.len() == o.output.len(), 1507);
    for (a, b) in again.output.iter().zip(&o.output) {
        check((a.height == b.height) & (a.bytes.len() == b.bytes.len()), 1507);
        if a.bytes.len() == b.bytes.len() { for (x, y) in a.bytes.iter().zip(&b.bytes) { check(x == y, 1507); } }
    }
    cover(1);
    for i in &o.output { out(1, i.height as u64); }
    let _ = PROBE;
}

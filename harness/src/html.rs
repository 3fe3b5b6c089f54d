//! P20, P22: the HTML output, read back by a small tokenizer and compared with the calls the project's Renderer made
use super::mock::quiet;
use super::shot::Model;
use super::sym::*;
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::*;
use thermal_parser::graphics::{Image, VectorGraphic};
use thermal_parser::text::TextSpan;
use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};

/// what a row of the page has to show
enum Want { Gap(u32), Text { y: u32, h: u32, spans: Vec<(u32, TextSpan)> }, Image { x: u32, y: u32, w: u32, h: u32, px: Vec<Option<[u8; 4]>> }, Bars(Vec<[u32; 4]>, [u8; 4]) }
#[derive(Default)]
struct Html { want: Vec<Want>, model: Model, done: Vec<(Vec<Want>, Vec<String>, u32)>, paper: u32 }
struct Tee { real: HtmlRenderer, m: Rc<RefCell<Html>> }
impl OutputRenderer<ReceiptHtml> for Tee {
    fn set_debug_profile(&mut self, p: DebugProfile) { self.real.set_debug_profile(p) }
    fn begin_render(&mut self, c: &mut Context) {
        fmt_stub(false);
        c.graphics.render_area.y = conc(c.graphics.render_area.y as u64) as u32;
        self.real.begin_render(c);
        fmt_stub(true);
        self.m.borrow_mut().want = vec![Want::Gap(c.get_y())];
        self.m.borrow_mut().paper = c.graphics.render_area.w;
    }
    fn page_begin(&mut self, c: &mut Context) { self.real.page_begin(c); self.m.borrow_mut().model.begin_page(); }
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) { self.real.page_area_changed(c, r, w, h); self.m.borrow_mut().model.page_area(c, w, h); }
    fn page_end(&mut self, c: &mut Context) { self.real.page_end(c) }
    fn render_page(&mut self, c: &mut Context) {
        fmt_stub(false);
        self.real.render_page(c);
        fmt_stub(true);
        let m = &mut *self.m.borrow_mut();
        let (w, px) = m.model.page_dots();
        if px.len() > 0 { m.want.push(Want::Image { x: c.graphics.render_area.x, y: c.graphics.render_area.y, w: w as u32, h: (px.len() / w) as u32, px }); cover(34); }
    }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) {
        fmt_stub(false);
        self.real.render_graphics(c, g);
        fmt_stub(true);
        let m = &mut *self.m.borrow_mut();
        let k = &c.text.color;
        let rects: Vec<[u32; 4]> = g.iter().map(|VectorGraphic::Rectangle(r)| [r.x, r.y, r.w, r.h]).collect();
        if c.page_mode.enabled { for r in rects { m.model.on(true).rect(r, [k.r, k.g, k.b]); } } else if rects.len() > 0 { m.want.push(Want::Bars(rects, rgba(k))); }
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) {
        fmt_stub(false);
        self.real.render_image(c, i);
        fmt_stub(true);
        let m = &mut *self.m.borrow_mut();
        if c.page_mode.enabled { m.model.on(true).image(i); }
        else if i.w > 0 && i.h > 0 { m.want.push(Want::Image { x: i.x, y: i.y, w: i.w, h: i.h, px: i.pixels.iter().map(|p| Some([p.r, p.g, p.b, p.a])).collect() }); }
    }
    fn render_text(&mut self, c: &mut Context, s: &Vec<TextSpan>, off: u32, h: u32, j: TextJustify) {
        let v = |n: u32| conc(n as u64) as u32;
        let mut spans = s.clone();
        for s in spans.iter_mut() {
            s.character_width = v(s.character_width); s.character_height = v(s.character_height); s.base_character_width = v(s.base_character_width); s.base_character_height = v(s.base_character_height);
            if let Some(d) = s.dimensions.as_mut() { d.x = v(d.x); d.y = v(d.y); d.w = v(d.w); d.h = v(d.h); }
        }
        let (s, off, h) = (&spans, v(off), v(h));
        fmt_stub(false);
        self.real.render_text(c, s, off, h, j);
        fmt_stub(true);
        let m = &mut *self.m.borrow_mut();
        if c.page_mode.enabled { for s in s { m.model.on(true).text(s, off, h); } return }
        if s.len() == 0 { return }
        let top = s.iter().filter_map(|s| s.dimensions.as_ref().map(|d| d.y)).min().unwrap_or(0);
        let high = s.iter().map(|s| s.character_height).max().unwrap_or(0);
        m.want.push(Want::Text { y: top, h: high, spans: s.iter().map(|s| (off + s.dimensions.as_ref().map_or(0, |d| d.x), s.clone())).collect() });
    }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) { self.real.device_command(c, d) }
    fn get_render_errors(&mut self) -> Vec<String> { self.real.get_render_errors() }
    fn end_render(&mut self, c: &mut Context) -> ReceiptHtml {
        c.graphics.render_area.y = conc(c.graphics.render_area.y as u64) as u32;
        let m = &mut *self.m.borrow_mut();
        let end = c.graphics.render_area.y;
        let rows = self.real.content.clone();
        fmt_stub(false);
        let o = self.real.end_render(c);
        fmt_stub(true);
        m.done.push((std::mem::take(&mut m.want), rows, end));
        o
    }
}
// ---------------------------------------------------------------- reading HTML
enum Tok { Open(Vec<u8>, Vec<u8>), Close(Vec<u8>), Text(Vec<u8>) }
fn letter(b: u8) -> bool { b.is_ascii_alphabetic() }
/// tags, attributes within tags, and text with its character references replaced, as a browser reads them
fn tokens(s: &[u8]) -> Vec<Tok> {
    let mut t = vec![];
    let mut text = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'<' && i + 1 < s.len() && (letter(s[i + 1]) || s[i + 1] == b'/' || s[i + 1] == b'!' || s[i + 1] == b'?') {
            if text.len() > 0 { t.push(Tok::Text(std::mem::take(&mut text))); }
            let close = s[i + 1] == b'/';
            i += if close { 2 } else { 1 };
            let mut name = vec![];
            while i < s.len() && s[i] != b' ' && s[i] != b'>' { name.push(s[i]); i += 1; }
            let mut attrs = vec![];
            let mut quote = 0;
            while i < s.len() && (quote != 0 || s[i] != b'>') {
                if quote != 0 { if s[i] == quote { quote = 0; } } else if s[i] == b'\'' || s[i] == b'"' { quote = s[i]; }
                attrs.push(s[i]);
                i += 1;
            }
            i += 1;
            t.push(if close { Tok::Close(name) } else { Tok::Open(name, attrs) });
        } else if s[i] == b'&' {
            let mut e = vec![];
            let mut k = i + 1;
            while k < s.len() && k < i + 7 && (letter(s[k]) || s[k].is_ascii_digit() || s[k] == b'#') { e.push(s[k]); k += 1; }
            let c = match &e[..] { b"amp" => b'&', b"lt" => b'<', b"gt" => b'>', b"quot" => b'"', b"#39" | b"apos" | b"#x27" => b'\'', b"#34" => b'"', b"#38" => b'&', b"#60" => b'<', b"#62" => b'>', _ => 0 };
            if c != 0 { text.push(c); i = if k < s.len() && s[k] == b';' { k + 1 } else { k }; } else { text.push(s[i]); i += 1; }
        } else { text.push(s[i]); i += 1; }
    }
    if text.len() > 0 { t.push(Tok::Text(text)); }
    t
}
/// the value after key, as in `key: 12px` or `key='12'`
fn after<'a>(s: &'a [u8], key: &[u8]) -> Option<&'a [u8]> { (0..s.len()).find(|i| s[*i..].starts_with(key) && (*i == 0 || !letter(s[*i - 1]) && s[*i - 1] != b'-')).map(|i| &s[i + key.len()..]) }
fn number(s: &[u8], key: &[u8]) -> Option<u32> {
    let mut v = after(s, key)?;
    while v.len() > 0 && (v[0] == b' ' || v[0] == b':' || v[0] == b'=' || v[0] == b'\'' || v[0] == b'"') { v = &v[1..]; }
    let d = v.iter().take_while(|b| b.is_ascii_digit()).count();
    if d == 0 { return None }
    Some(v[..d].iter().fold(0, |n, b| n * 10 + (b - b'0') as u32))
}
// ---------------------------------------------------------------- reading style sheets
type Decl = (Vec<u8>, Vec<u8>);
/// selector (element, classes) and declarations, in order; rules within @ blocks and for elements within others are left out
struct Css { rules: Vec<(Vec<u8>, Vec<Vec<u8>>, usize)>, blocks: Vec<Vec<Decl>> }
fn trim(mut s: &[u8]) -> &[u8] { while s.len() > 0 && s[0] <= b' ' { s = &s[1..]; } while s.len() > 0 && s[s.len() - 1] <= b' ' { s = &s[..s.len() - 1]; } s }
fn declarations(s: &[u8]) -> Vec<Decl> {
    s.split(|b| *b == b';').filter_map(|d| { let k = d.iter().position(|b| *b == b':')?; Some((trim(&d[..k]).to_ascii_lowercase(), trim(&d[k + 1..]).to_vec())) }).collect()
}
fn css(s: &[u8]) -> Css {
    let mut c = Css { rules: vec![], blocks: vec![] };
    let mut i = 0;
    let mut sel: Vec<u8> = vec![];
    while i < s.len() {
        if s[i..].starts_with(b"/*") { i += 2; while i < s.len() && !s[i..].starts_with(b"*/") { i += 1; } i += 2; continue }
        if s[i] != b'{' { sel.push(s[i]); i += 1; continue }
        let (start, mut deep) = (i + 1, 1);
        i += 1;
        while i < s.len() && deep > 0 { if s[i] == b'{' { deep += 1 } else if s[i] == b'}' { deep -= 1 } i += 1; }
        let at = sel.iter().any(|b| *b == b'@');
        if !at {
            c.blocks.push(declarations(&s[start..i - 1]));
            for one in sel.split(|b| *b == b',') {
                let one = trim(one);
                if one.iter().any(|b| matches!(b, b' ' | b'>' | b':' | b'[' | b'#' | b'+' | b'~' | b'\n')) { continue }
                let mut parts = one.split(|b| *b == b'.').map(|p| p.to_vec());
                let name = parts.next().unwrap_or(vec![]);
                c.rules.push((name, parts.collect(), c.blocks.len() - 1));
            }
        }
        sel.clear();
    }
    c
}
/// computed style of a span with these attributes
struct Style<'a> { css: &'a Css, classes: Vec<Vec<u8>>, own: Vec<Decl> }
impl<'a> Style<'a> {
    fn new(css: &'a Css, attrs: &[u8]) -> Style<'a> {
        let value = |k: &[u8]| after(attrs, k).filter(|v| v.len() > 0).map_or(vec![], |v| v[1..].split(|b| *b == v[0]).next().unwrap_or(&[]).to_vec());
        Style { css, classes: value(b"class=").split(|b| *b == b' ').map(|c| c.to_vec()).collect(), own: declarations(&value(b"style=")) }
    }
    fn raw(&self, key: &[u8]) -> Option<&[u8]> { self.won(&[key]).map(|d| &d.1[..]) }
    /// the declaration of any of these properties that comes last
    fn won(&self, keys: &[&[u8]]) -> Option<&Decl> {
        if let Some(d) = self.own.iter().rev().find(|d| keys.contains(&&d.0[..])) { return Some(d) }
        let mut best: Option<((usize, usize), &Decl)> = None;
        for (name, classes, block) in &self.css.rules {
            if !(name.is_empty() || name == b"*" || name == b"span") || !classes.iter().all(|c| self.classes.contains(c)) { continue }
            let weight = (classes.len(), (name == b"span") as usize);
            for d in &self.css.blocks[*block] { if keys.contains(&&d.0[..]) && best.map_or(true, |b| weight >= b.0) { best = Some((weight, d)); } }
        }
        best.map(|b| b.1)
    }
    /// with its variables replaced
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        let mut v = self.raw(key)?.to_vec();
        for _ in 0..8 {
            let at = match (0..v.len()).find(|i| v[*i..].starts_with(b"var(")) { Some(k) => k, None => break };
            let mut end = at + 4;
            let mut deep = 1;
            while end < v.len() && deep > 0 { if v[end] == b'(' { deep += 1 } else if v[end] == b')' { deep -= 1 } end += 1; }
            let inner = &v[at + 4..end - 1];
            let comma = inner.iter().position(|b| *b == b',');
            let name = trim(&inner[..comma.unwrap_or(inner.len())]).to_vec();
            let to = match self.raw(&name) { Some(x) => x.to_vec(), None => trim(&inner[comma? + 1..]).to_vec() };
            v.splice(at..end, to);
        }
        Some(v)
    }
    fn has(&self, key: &[u8], word: &[u8]) -> bool { self.get(key).map_or(false, |v| v.split(|b| *b == b' ').any(|w| w == word)) }
    /// thickness of lines in dots; that of the browser is about two
    fn thickness(&self) -> Option<i64> {
        let d = match self.won(&[b"text-decoration", b"text-decoration-thickness"]) { Some(d) => d, None => return Some(2) };
        let v = self.get(&d.0)?;
        let long = d.0 != b"text-decoration";
        match v.split(|b| *b == b' ').find(|w| w.len() > 0 && (long || w[0].is_ascii_digit())) { None => Some(2), Some(b"auto") => Some(2), Some(w) if w.ends_with(b"px") => fixed(&w[..w.len() - 2]).map(|v| v.0 / 100), _ => None }
    }
    /// where a box of 100 % in both directions ends up: (left, right, top, bottom) in hundredths of its size
    fn placed(&self) -> Option<[i64; 4]> {
        // x -> a x + b for both directions, in hundredths
        let mut m = [(100i64, 0i64); 2];
        let v = self.get(b"transform").unwrap_or(b"none".to_vec());
        let mut v = trim(&v);
        while v.len() > 0 && v != b"none" {
            let k = v.iter().position(|b| *b == b'(')?;
            let e = v.iter().position(|b| *b == b')')?;
            let args: Vec<(i64, bool)> = v[k + 1..e].split(|b| *b == b',').map(|a| fixed(trim(a))).collect::<Option<_>>()?;
            let (x, y) = (args[0].0, args.get(1).map_or(args[0].0, |a| a.0));
            let (s, t) = match &v[..k] {
                b"scale" => ((x, y), (0, 0)), b"scaleX" => ((x, 100), (0, 0)), b"scaleY" => ((100, x), (0, 0)),
                b"translateX" => ((100, 100), (x, 0)), b"translateY" => ((100, 100), (0, x)),
                b"translate" => ((100, 100), (x, args.get(1).map_or(0, |a| a.0))),
                _ => return None,
            };
            if v[..k].starts_with(b"translate") && args.iter().any(|a| !a.1 && a.0 != 0) { return None }
            for (m, (s, t)) in m.iter_mut().zip([(s.0, t.0), (s.1, t.1)]) { *m = (m.0 * s / 100, m.1 + m.0 * t / 100); }
            v = trim(&v[e + 1..]);
        }
        if let Some(v) = self.get(b"scale") {
            let n: Vec<i64> = v.split(|b| *b == b' ').map(|a| fixed(a).map(|a| a.0)).collect::<Option<_>>()?;
            let n = [n[0], *n.get(1).unwrap_or(&n[0])];
            for k in 0..2 { m[k] = (m[k].0 * n[k] / 100, m[k].1 * n[k] / 100); }
        }
        let o = self.get(b"transform-origin").unwrap_or(b"50% 50%".to_vec());
        let w: Vec<&[u8]> = o.split(|b| *b == b' ').collect();
        let one = |v: &[u8]| match v { b"left" | b"top" | b"0" | b"0px" => Some(0), b"right" | b"bottom" => Some(100), b"center" => Some(50), _ => fixed(v).filter(|v| v.1).map(|v| v.0) };
        let side = |v: &[u8]| v == b"top" || v == b"bottom";
        let (ox, oy) = match &w[..] { [a] if side(a) => (50, one(a)?), [a] => (one(a)?, 50), [a, b] if side(a) || *b == b"left" || *b == b"right" => (one(b)?, one(a)?), [a, b] => (one(a)?, one(b)?), _ => return None };
        let to = |k: usize, p: i64, o: i64| m[k].0 * (p - o) / 100 + m[k].1 + o;
        Some([to(0, 0, ox), to(0, 100, ox), to(1, 0, oy), to(1, 100, oy)])
    }
}
/// a number in hundredths, or a percentage
fn fixed(s: &[u8]) -> Option<(i64, bool)> {
    let (s, neg) = if s.starts_with(b"-") { (&s[1..], -1) } else { (s, 1) };
    let pct = s.ends_with(b"%");
    let s = if pct { &s[..s.len() - 1] } else { s };
    let mut parts = s.split(|b| *b == b'.');
    let (a, b) = (parts.next()?, parts.next().unwrap_or(b""));
    if a.len() + b.len() == 0 || !a.iter().chain(b).all(|d| d.is_ascii_digit()) { return None }
    let n = |d: &[u8]| d.iter().fold(0i64, |n, d| n * 10 + (d - b'0') as i64);
    let mut f = b.to_vec();
    f.resize(2, b'0');
    Some((neg * if pct { n(a) } else { n(a) * 100 + n(&f) }, pct))
}
/// a colour written as #RRGGBB or #RRGGBBAA
fn hex(s: &[u8]) -> Option<[u8; 4]> {
    if s.len() != 7 && s.len() != 9 || s[0] != b'#' { return None }
    let d = |b: u8| (b as char).to_digit(16).map(|d| d as u8);
    let mut c = [255; 4];
    for k in 0..(s.len() - 1) / 2 { c[k] = d(s[1 + 2 * k])? << 4 | d(s[2 + 2 * k])?; }
    Some(c)
}
fn rgba(c: &thermal_parser::graphics::RGBA) -> [u8; 4] { [c.r, c.g, c.b, c.a] }
/// how a span looks to a reader of the page
fn looks(css: &Css, attrs: &[u8], w: &TextSpan) {
    let s = Style::new(css, attrs);
    let bold = s.get(b"font-weight").map_or(false, |v| v == b"bold" || v == b"bolder" || v.len() == 3 && v[0] >= b'6');
    geo(bold == w.bold, 2206);
    geo((s.has(b"font-style", b"italic") | s.has(b"font-style", b"oblique")) == w.italic, 2206);
    let line = |k: &[u8]| s.has(b"text-decoration", k) | s.has(b"text-decoration-line", k);
    geo((line(b"underline") == (w.underline > 0)) & (line(b"line-through") == (w.strikethrough > 0)), 2206);
    if w.underline > 0 { if let Some(n) = s.thickness() { geo((n - w.underline as i64).abs() <= 1, 2206); } }
    // characters of the smaller fonts are as wide as layout has them, roughly, the third font narrower than the second
    let size = match s.get(b"font-size") { None => Some(100), Some(v) if v.ends_with(b"em") => fixed(&v[..v.len() - 2]).map(|v| v.0), Some(v) => fixed(&v).filter(|v| v.1).map(|v| v.0) };
    if let Some(n) = size { geo((n * 12 - w.base_character_width as i64 * 100).abs() <= 150 && (w.font == Font::C) == (n <= 70), 2206); }
    if let Some(c) = s.get(b"color").and_then(|v| hex(&v)) { geo(c == rgba(&w.text_color), 2216); cover(41); }
    let paper = [255; 4];
    match s.get(b"background-color").or(s.get(b"background")) {
        Some(v) if v != b"transparent" && v != b"none" => { if let Some(c) = hex(&v) { geo(c == rgba(&w.background_color), 2216); } }
        _ => geo(rgba(&w.background_color) == paper || w.background_color.a == 0, 2216),
    }
    if let Some([l, r, t, b]) = s.placed() {
        geo((l == 0) & (r == w.stretch_width as i64 * 100), 2207);
        geo(if w.upside_down { (b == 0) & (t == w.stretch_height as i64 * 100) } else { (t == 0) & (b == w.stretch_height as i64 * 100) }, 2207);
        cover(42);
    }
}
fn base64(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for g in s.chunks(4) {
        let mut n = 0u32;
        for b in g { n = n << 6 | sextet(*b) as u32; }
        n <<= 6 * (4 - g.len() as u32);
        for k in 0..g.len().saturating_sub(1) as u32 { v.push((n >> (16 - 8 * k)) as u8); }
    }
    v
}
fn sextet(b: u8) -> u8 { let up = b.wrapping_sub(b'A'); let lo = b.wrapping_sub(b'a'); let di = b.wrapping_sub(b'0'); sel(up < 26, up, sel(lo < 26, lo.wrapping_add(26), sel(di < 10, di.wrapping_add(52), sel(b == b'+', 62, 63)))) }
fn sel(c: bool, a: u8, b: u8) -> u8 { let m = (c as u8).wrapping_neg(); a & m | b & !m }
fn open<'a>(t: &'a Tok, name: &[u8]) -> &'a [u8] { match t { Tok::Open(n, a) if n == name => a, _ => { check(false, 2000); &[] } } }
fn close(t: &Tok, name: &[u8]) { check(matches!(t, Tok::Close(n) if n == name), 2000) }
/// what is shown where: left out when only the text itself is of interest
fn geo(c: bool, id: u32) { if param(0) & 16 == 0 { check(c, id) } }
fn row(want: &Want, s: &str, bottom: &mut u32, css: &Css) {
    let t = tokens(s.as_bytes());
    // white space between elements
    let t: Vec<&Tok> = t.iter().enumerate().filter(|(k, t)| !(matches!(t, Tok::Text(x) if x == b"\n"))).map(|(_, t)| t).collect();
    if t.len() < 2 { check(false, 2000); return }
    let p = open(t[0], b"p");
    close(t[t.len() - 1], b"p");
    let body = &t[1..t.len() - 1];
    let (margin, height) = (number(p, b"margin-top"), number(p, b"height"));
    geo(margin.is_some() & height.is_some(), 2200);
    let top = *bottom + margin.unwrap_or(0);
    let height = height.unwrap_or(0);
    let at = |y: u32| geo(top == y.max(*bottom), 2201);
    match want {
        Want::Gap(h) => { geo((top == 0) & (height == *h) & (body.len() == 0), 2202); }
        Want::Text { y, h, spans } => {
            at(*y);
            geo(height == *h, 2203);
            let mut k = 0;
            for (x, w) in spans {
                if k >= body.len() { check(false, 2001); return }
                let a = open(body[k], b"span");
                k += 1;
                let got: &[u8] = match body.get(k) { Some(Tok::Text(x)) => { k += 1; x } _ => &[] };
                if k >= body.len() { check(false, 2001); return }
                close(body[k], b"span");
                k += 1;
                // the text itself
                let want = w.text.as_bytes();
                check(got.len() == want.len(), 2002);
                if got.len() == want.len() { for i in 0..got.len() { check(got[i] == want[i], 2003); } }
                geo(number(a, b"left") == Some(*x), 2204);
                let drop = number(a, b"top").unwrap_or(9999);
                geo((drop <= *h - w.character_height) & ((drop > 0) | (*h - w.character_height < 2)), 2205);
                if param(0) & 16 == 0 { looks(css, a, w); }
                cover(21);
            }
            check(k == body.len(), 2001);
        }
        Want::Image { x, y, w, h, px } => {
            at(*y);
            geo(height == *h, 2203);
            if body.len() != 1 { check(false, 2000); return }
            let a = open(body[0], b"img");
            geo((number(a, b"left") == Some(*x)) & (number(a, b"width=") == Some(*w)), 2204);
            let src = match after(a, b"base64,") { Some(s) => s, None => { geo(false, 2208); return } };
            let src: Vec<u8> = src.iter().copied().filter(|b| *b != b' ' && *b != b'=').take_while(|b| *b != b'\'' && *b != b'"').collect();
            let png = base64(&src);
            let word = |k: usize| (png[k] as u32) << 24 | (png[k + 1] as u32) << 16 | (png[k + 2] as u32) << 8 | png[k + 3] as u32;
            if png.len() < 41 { geo(false, 2208); return }
            geo((word(16) == *w) & (word(20) == *h) & (png[24] == 8), 2209);
            // the stand-in for the PNG encoder leaves the data as they are
            let n = if png[25] == 6 { 4 } else { 3 };
            let data = &png[41.min(png.len())..];
            if data.len() < px.len() * n { geo(false, 2209); return }
            geo(word(33) as usize == px.len() * n, 2209);
            for (k, p) in px.iter().enumerate() { if let Some(p) = p { for b in 0..n { geo(data[k * n + b] == p[b], 2210); } } }
            cover(20);
        }
        Want::Bars(r, color) => {
            let (x0, y0) = (r.iter().map(|r| r[0]).min().unwrap_or(0), r.iter().map(|r| r[1]).min().unwrap_or(0));
            let (x1, y1) = (r.iter().map(|r| r[0] + r[2]).max().unwrap_or(0), r.iter().map(|r| r[1] + r[3]).max().unwrap_or(0));
            at(y0);
            geo(height == y1 - y0, 2203);
            if body.len() < 2 { check(false, 2000); return }
            let a = open(body[0], b"svg");
            close(body[body.len() - 1], b"svg");
            let left = number(a, b"left").unwrap_or(9999);
            geo((number(a, b"width=") >= Some(x1 - left.min(x1))) & (number(a, b"height=") >= Some(y1 - y0)) & (left <= x0), 2211);
            let bars: Vec<&[u8]> = body[1..body.len() - 1].iter().filter_map(|t| match t { Tok::Open(n, a) if n == b"rect" => Some(&a[..]), _ => None }).collect();
            geo(bars.len() == r.len(), 2212);
            for (b, r) in bars.iter().zip(r) {
                let n = |k: &[u8]| number(b, k).unwrap_or(9999);
                geo((n(b"x=") + left == r[0]) & (n(b"y=") + y0 == r[1]) & (n(b"width=") == r[2]) & (n(b"height=") == r[3]), 2213);
                let fill = after(b, b"fill=").filter(|f| f.len() > 0).map_or(b"black".to_vec(), |f| f[1..].split(|c| *c == f[0]).next().unwrap_or(&[]).to_vec());
                let fill = if fill == b"black" { Some([0, 0, 0, 255]) } else { hex(&fill) };
                if let Some(f) = fill { geo(f == *color, 2216); }
            }
            cover(22);
        }
    }
    *bottom = top + height;
}
const ESC: u8 = 27;
const GS: u8 = 29;
fn pick(v: &[u8]) -> u8 { let k = below(v.len() as u8); v[conc(k as u64) as usize] }
fn render(s: &Vec<u8>) -> (Html, RenderOutput<ReceiptHtml>) {
    let m = Rc::new(RefCell::new(Html::default()));
    let mut b: Box<dyn OutputRenderer<ReceiptHtml>> = Box::new(Tee { real: HtmlRenderer::new(), m: m.clone() });
    let o = Renderer::new(&mut b, quiet()).render(s);
    drop(b);
    let m = std::mem::take(&mut *m.borrow_mut());
    (m, o)
}
/// params: arbitrary characters (+ 16: only the text is of interest), then items
pub fn p20_html() {
    fmt_stub(true);
    let mut left = param(0) & 15;
    let mut s = vec![];
    let mut first = true;
    let mut i = 1;
    while param(i) != 0 {
        match param(i) {
            1 => { s.extend_from_slice(&[GS, b'v', b'0', 0, 1, 0, 2, 0]); s.push(if first { any() } else { 0x6c }); s.push(0xa7); first = false; }
            2 => { s.extend_from_slice(&[ESC, b'*', 0, 3, 0, 0x81, 0x3c]); s.push(if first { any() } else { 0x6c }); first = false; }
            3 => { s.push(b'x'); while left > 0 { let b = any(); assume(b >= 32); s.push(b); left -= 1; if left > 0 { s.push(pick(b"&<'\"l;")); left -= 1; } } s.extend_from_slice(b"y"); }
            4 => s.push(10),
            5 => { s.extend_from_slice(&[ESC, b'J']); s.push(pick(&[0, 1, 90])); }
            6 => s.extend_from_slice(&[GS, b'V', 0]),
            7 => { s.extend_from_slice(&[ESC, b'$']); s.push(pick(&[0, 1, 99])); s.push(1); }
            8 => s.push(12),
            9 => s.extend_from_slice(&[ESC, b'L']),
            10 => { s.extend_from_slice(&[ESC, b'W']); for v in [0, 0, 12, 24] { s.push(v); s.push(0); } }
            11 => { s.extend_from_slice(&[ESC, b'T']); s.push(pick(&[0, 1, 2, 3])); }
            12 => s.extend_from_slice(&[ESC, 12]),
            13 => s.extend_from_slice(&[ESC, b'S']),
            14 => s.extend_from_slice(&[GS, b'h', 5, GS, b'w', 1, GS, b'k', 4, b'A', 0]),
            15 => s.extend_from_slice(&[ESC, b'{', 1]),
            16 => { s.extend_from_slice(&[ESC, b'a']); s.push(pick(&[0, 1, 2])); }
            17 => s.extend_from_slice(&[GS, b'B', 1]),
            18 => { s.extend_from_slice(&[GS, b'!']); s.push(pick(&[0, 0x10, 0x02, 0x77, 0x21, 0x34, 0x56, 0x65, 0x43])); }
            19 => { s.extend_from_slice(&[ESC, b'-']); s.push(pick(&[0, 1, 2])); }
            20 => { s.extend_from_slice(&[ESC, b'!']); s.push(any()); }
            21 => { s.extend_from_slice(&[ESC, b'M']); s.push(pick(&[0, 1, 2])); }
            22 => { s.extend_from_slice(&[ESC, b'K']); s.push(pick(&[5, 40])); }
            23 => { s.extend_from_slice(b"&lt;{{content}}<!--"); }
            24 => { s.extend_from_slice(&[ESC, b'4', 1]); }
            28 => { s.extend_from_slice(&[ESC, b'r']); s.push(pick(&[0, 1, 49])); }
            29 => { s.extend_from_slice(&[GS, b'(', b'N', 2, 0]); s.push(pick(&[48, 49])); s.push(pick(&[48, 49, 50, 51])); }
            30 => { s.extend_from_slice(&[GS, b'!']); let b = any(); assume((b & 0x88) == 0); s.push(b); }
            31 => { s.extend_from_slice(&[ESC, b'G', 1]); }
            32 => { s.extend_from_slice(&[ESC, b'd']); s.push(pick(&[0, 1, 12, 255])); }
            25 => { s.extend_from_slice(&[GS, b'v', b'0', 0, 40, 0, 3, 0]); for k in 0..120u8 { s.push(k.wrapping_mul(7)); } }
            26 => { s.extend_from_slice(&[GS, b'v', b'0', 0, 1, 0, 44, 1]); for k in 0..300u32 { s.push((k * 5) as u8); } }
            27 => { s.extend_from_slice(&[ESC, b'W']); for v in [0, 0, 0, 24] { s.push(v); s.push(if v == 0 { 0 } else { 1 }); } let l = s.len(); s[l - 3] = 1; }
            _ => return,
        }
        i += 1;
    }
    let (m, o) = render(&s);
    check(o.output.len() == m.done.len(), 2004);
    for ((want, rows, end), html) in m.done.iter().zip(&o.output) {
        check(want.len() == rows.len(), 2005);
        let mut bottom = 0;
        let h = html.content.as_bytes();
        let sheet = after(h, b"<style>").map_or(&[][..], |s| &s[..find(s, b"</style>").unwrap_or(0)]);
        let css = css(sheet);
        for (w, r) in want.iter().zip(rows) { row(w, r, &mut bottom, &css); }
        // the document holds the rows within the template, which holds nothing of the print
        let body: String = rows.concat();
        let b = body.as_bytes();
        let at = find(h, b"<article>").unwrap_or(0);
        check(h.len() > at + 9 + b.len(), 2006);
        if h.len() <= at + 9 + b.len() { return }
        for i in 0..b.len() { check(h[at + 9 + i] == b[i], 2007); }
        check(h[at + 9 + b.len()..].starts_with(b"</article>"), 2007);
        // the rest of the paper
        let style = after(&h[..at], b"style='").or(after(&h[..at], b"<section style=\"")).unwrap_or(&[]);
        geo(number(style, b"padding-bottom") == Some(end.saturating_sub(bottom)), 2214);
        let n = |k: &[u8]| number(style, k).unwrap_or(0);
        // what is printed on lies between the margins
        geo((n(b"width") > 0) & (n(b"width") == n(b"padding-left") + m.paper + n(b"padding-right")), 2215);
        out(1, h.len() as u64);
    }
    if o.output.len() > 1 { cover(2); }
    cover(1);
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { (0..h.len().saturating_sub(n.len())).find(|i| &h[*i..*i + n.len()] == n) }

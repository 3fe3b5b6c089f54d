//! A recording OutputRenderer behind the project's real Renderer, and a symbolic printer state.
//! `CAN @` (cancel) has no effect of its own: it serves as a probe at which the harness reads or replaces the context.
use super::sym::*;
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::*;
use thermal_parser::decoder::get_codepage;
use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
use thermal_parser::text::TextSpan;
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};

pub const PROBE: [u8; 2] = [0x18, b'@'];

pub enum Ev { Begin, End, Text { spans: Vec<TextSpan>, off: u32, h: u32, just: u8 }, Image(Image, u32, u32), Graphics(Vec<[u32; 4]>), PageBegin, PageArea(u8, u32, u32), PageEnd, RenderPage, Cut, Probe }
#[derive(Default)]
pub struct Rec { pub ev: Vec<Ev>, pub snaps: Vec<Vec<u64>>, pub probes: usize, pub val: Vec<u64> }
pub type OnProbe = fn(usize, &mut Context, &mut Rec);
struct Mock { rec: Rc<RefCell<Rec>>, on_probe: OnProbe }
impl OutputRenderer<u8> for Mock {
    fn set_debug_profile(&mut self, _p: DebugProfile) {}
    fn begin_render(&mut self, _c: &mut Context) { self.rec.borrow_mut().ev.push(Ev::Begin) }
    fn page_begin(&mut self, _c: &mut Context) { self.rec.borrow_mut().ev.push(Ev::PageBegin) }
    fn page_area_changed(&mut self, _c: &mut Context, r: Rotation, w: u32, h: u32) { self.rec.borrow_mut().ev.push(Ev::PageArea(match r { Rotation::R0 => 0, Rotation::R90 => 1, Rotation::R180 => 2, Rotation::R270 => 3 }, w, h)) }
    fn page_end(&mut self, _c: &mut Context) { self.rec.borrow_mut().ev.push(Ev::PageEnd) }
    fn render_page(&mut self, _c: &mut Context) { self.rec.borrow_mut().ev.push(Ev::RenderPage) }
    fn render_graphics(&mut self, _c: &mut Context, g: &Vec<VectorGraphic>) {
        let v = g.iter().map(|VectorGraphic::Rectangle(r)| [r.x, r.y, r.w, r.h]).collect();
        self.rec.borrow_mut().ev.push(Ev::Graphics(v))
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) { self.rec.borrow_mut().ev.push(Ev::Image(i.clone(), c.get_x(), c.get_y())) }
    fn render_text(&mut self, _c: &mut Context, s: &Vec<TextSpan>, off: u32, h: u32, j: TextJustify) {
        self.rec.borrow_mut().ev.push(Ev::Text { spans: s.clone(), off, h, just: match j { TextJustify::Left => 0, TextJustify::Center => 1, TextJustify::Right => 2 } })
    }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) {
        match d {
            DeviceCommand::Cancel => { let mut r = self.rec.borrow_mut(); let n = r.probes; r.probes += 1; r.ev.push(Ev::Probe); (self.on_probe)(n, c, &mut r) }
            DeviceCommand::FullCut | DeviceCommand::PartialCut => self.rec.borrow_mut().ev.push(Ev::Cut),
            _ => {}
        }
    }
    fn end_render(&mut self, _c: &mut Context) -> u8 { self.rec.borrow_mut().ev.push(Ev::End); 7 }
}
pub fn quiet() -> DebugProfile { DebugProfile { text: false, image: false, page: false, info: false } }
/// renders the stream through the real Renderer with the recording output
pub fn run(bytes: &Vec<u8>, on_probe: OnProbe) -> (Rec, RenderOutput<u8>) {
    let rec = Rc::new(RefCell::new(Rec::default()));
    let mut b: Box<dyn OutputRenderer<u8>> = Box::new(Mock { rec: rec.clone(), on_probe });
    let o = Renderer::new(&mut b, quiet()).render(bytes);
    drop(b);
    let r = std::mem::take(&mut *rec.borrow_mut());
    (r, o)
}

// ---------------------------------------------------------------- settings as a vector of numbers
fn hash(s: &str) -> u64 { s.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)) }
pub fn rgba(c: &RGBA) -> u64 { c.r as u64 | (c.g as u64) << 8 | (c.b as u64) << 16 | (c.a as u64) << 24 }
fn hri(h: &HumanReadableInterface) -> u64 { match h { HumanReadableInterface::None => 0, HumanReadableInterface::Above => 1, HumanReadableInterface::Below => 2, HumanReadableInterface::Both => 3 } }
macro_rules! settings_of { ($ctx:ident; $($id:ident => $e:expr;)*) => {
    #[allow(non_camel_case_types)] #[derive(Clone, Copy, PartialEq)] pub enum F { $($id),*, COUNT }
    pub fn snap($ctx: &Context) -> Vec<u64> { let mut v = Vec::with_capacity(F::COUNT as usize); $( v.push(($e) as u64); )* v }
    pub const NAMES: &[&str] = &[$(stringify!($id)),*];
} }
settings_of! { c;
    CW => c.text.character_width; CH => c.text.character_height; SET => c.text.character_set; TABLE => c.text.code_table; DEC_NAME => hash(c.text.decoder.name); DEC_LANG => hash(c.text.decoder.language); DEC_UTF8 => c.text.decoder.use_utf8_table;
    FONT_SIZE => c.text.font_size; JUSTIFY => c.text.justify.clone() as u8; FONT => c.text.font.clone() as u8; BOLD => c.text.bold; ITALIC => c.text.italic; UNDERLINE => c.text.underline.clone() as u8; STRIKE => c.text.strikethrough.clone() as u8;
    INVERT => c.text.invert; WMULT => c.text.width_mult; HMULT => c.text.height_mult; UPSIDE => c.text.upside_down; SPACING => c.text.line_spacing; COLOR => rgba(&c.text.color); BACKGROUND => rgba(&c.text.background_color); SHADOW_COLOR => rgba(&c.text.shadow_color); SHADOW => c.text.shadow; SMOOTHING => c.text.smoothing;
    TABS0 => tabs(c, 0); TABS1 => tabs(c, 8); TABS2 => tabs(c, 16); TABS3 => tabs(c, 24); NTABS => c.text.tabs.len();
    HRI => hri(&c.barcode.human_readable); BAR_W => c.barcode.width; BAR_H => c.barcode.height; BAR_FONT => c.barcode.font.clone() as u8;
    SYMBOL => c.code2d.symbol_storage.is_some(); QR_MODEL => c.code2d.qr_model.clone() as u8; QR_EC => c.code2d.qr_error_correction.clone() as u8; QR_SIZE => c.code2d.qr_size;
    PDF_COLS => c.code2d.pdf417_columns; PDF_ROWS => c.code2d.pdf417_rows; PDF_W => c.code2d.pdf417_width; PDF_RH => c.code2d.pdf417_row_height; PDF_EC => c.code2d.pdf417_err_correction; PDF_TRUNC => c.code2d.pdf417_is_truncated;
    MAXI => c.code2d.maxicode_mode; GS1_W => c.code2d.gs1_databar_width; GS1_MAX => c.code2d.gs1_databar_max_width; COMP_W => c.code2d.composite_width; COMP_MAX => c.code2d.composite_max_width; COMP_FONT => c.code2d.composite_font.clone() as u8;
    AZ_MODE => c.code2d.aztec_mode; AZ_LAYERS => c.code2d.aztec_layers; AZ_SIZE => c.code2d.aztec_size; AZ_EC => c.code2d.aztec_error_correction;
    DM_TYPE => c.code2d.datamatrix_type; DM_COLS => c.code2d.datamatrix_columns; DM_ROWS => c.code2d.datamatrix_rows; DM_W => c.code2d.datamatrix_width;
    DPI => c.graphics.dots_per_inch; VMU => c.graphics.v_motion_unit; HMU => c.graphics.h_motion_unit; GCOUNT => c.graphics.graphics_count; STORED => c.graphics.stored_graphics.len(); BUFFERED => c.graphics.buffer_graphics.len();
    PAPER => rgba(&c.graphics.render_colors.paper_color); COL1 => rgba(&c.graphics.render_colors.color_1); COL2 => rgba(&c.graphics.render_colors.color_2); COL3 => rgba(&c.graphics.render_colors.color_3);
    AREA_W => c.graphics.render_area.w; PAPER_X => c.graphics.paper_area.x; PAPER_Y => c.graphics.paper_area.y; PAPER_W => c.graphics.paper_area.w;
    X => c.graphics.render_area.x; Y => c.graphics.render_area.y;
    PAGE => c.page_mode.enabled; PDIR => c.page_mode.direction.clone() as u8; PPREV => c.page_mode.previous_direction.clone() as u8;
    LX => c.page_mode.logical_area.x; LY => c.page_mode.logical_area.y; LW => c.page_mode.logical_area.w; LH => c.page_mode.logical_area.h;
    RX => c.page_mode.render_area.x; RY => c.page_mode.render_area.y; RW => c.page_mode.render_area.w; RH => c.page_mode.render_area.h;
    PX => c.page_mode.page_area.x; PY => c.page_mode.page_area.y; PW => c.page_mode.page_area.w; PH => c.page_mode.page_area.h;
}
fn tabs(c: &Context, at: usize) -> u64 { let mut v = 0u64; for k in 0..8 { v |= (c.text.tabs[at + k] as u64) << (8 * k); } v }

fn flag() -> bool { let b = any(); assume(b < 2); b == 1 }
/// an arbitrary value of a field-less enum with n variants, without splitting the path
macro_rules! pick { ($t:ty, $n:expr) => { { let b = any(); assume(b < $n); unsafe { std::mem::transmute::<u8, $t>(b) } } } }
fn color() -> RGBA { RGBA { r: any(), g: any(), b: any(), a: any() } }
/// every text, barcode and 2D-code setting, the motion units and the print position become arbitrary
pub fn arbitrary(c: &mut Context) {
    let t = &mut c.text;
    t.character_width = any(); t.character_height = any(); t.character_set = any(); t.code_table = any(); t.font_size = any();
    t.decoder = get_codepage(4, 6);
    t.justify = pick!(TextJustify, 3); t.font = pick!(Font, 7); t.bold = flag(); t.italic = flag(); t.underline = pick!(TextUnderline, 3); t.strikethrough = pick!(TextStrikethrough, 3);
    t.invert = flag(); t.width_mult = any(); t.height_mult = any(); t.upside_down = flag(); t.line_spacing = any();
    t.color = color(); t.background_color = color(); t.shadow_color = color(); t.shadow = flag(); t.smoothing = flag();
    for k in 0..t.tabs.len() { t.tabs[k] = if k % 11 == 0 { any() } else { 100 + k as u8 }; }
    c.barcode.human_readable = pick!(HumanReadableInterface, 4); c.barcode.width = any(); c.barcode.height = any(); c.barcode.font = pick!(Font, 7);
    let d = &mut c.code2d;
    d.qr_model = pick!(QrModel, 3); d.qr_error_correction = pick!(QrErrorCorrection, 4); d.qr_size = any();
    d.pdf417_columns = any(); d.pdf417_rows = any(); d.pdf417_width = any(); d.pdf417_row_height = any(); d.pdf417_err_correction = any(); d.pdf417_is_truncated = flag();
    d.maxicode_mode = any(); d.gs1_databar_width = any(); d.gs1_databar_max_width = any_u16() as u32; d.composite_width = any(); d.composite_max_width = any_u16() as u32; d.composite_font = pick!(Font, 7);
    d.aztec_mode = any(); d.aztec_layers = any(); d.aztec_size = any(); d.aztec_error_correction = any();
    d.datamatrix_type = any(); d.datamatrix_columns = any(); d.datamatrix_rows = any(); d.datamatrix_width = any();
    arbitrary_units(c);
    c.graphics.render_area.x = any_u16() as u32; c.graphics.render_area.y = any_u16() as u32;
}
/// motion units are the dots per inch divided by 1..255, never zero
pub fn arbitrary_units(c: &mut Context) {
    let (v, h) = (any(), any());
    assume(v > 0); assume(h > 0);
    c.graphics.v_motion_unit = v as _; c.graphics.h_motion_unit = h as _;
}

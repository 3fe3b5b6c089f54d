// Shared by the demonstrations: the real renderer with an output that records its calls.
#![allow(dead_code)]
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::*;
use thermal_parser::graphics::{Image, VectorGraphic};
use thermal_parser::text::TextSpan;
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};
#[derive(Default)]
pub struct Rec {
    pub chars: Vec<(char, u32, u32)>, // character, x with the line offset, y
    pub spans: Vec<TextSpan>,
    pub images: Vec<Image>,
    pub bars: Vec<Vec<(u32, u32, u32, u32)>>,
    pub areas: Vec<(u8, u32, u32)>,
    pub order: String,
    pub end: Option<Context>,
}
struct R(Rc<RefCell<Rec>>);
impl OutputRenderer<u8> for R {
    fn set_debug_profile(&mut self, _p: DebugProfile) {}
    fn begin_render(&mut self, _c: &mut Context) {}
    fn page_begin(&mut self, _c: &mut Context) {}
    fn page_area_changed(&mut self, _c: &mut Context, r: Rotation, w: u32, h: u32) {
        let r = match r { Rotation::R0 => 0, Rotation::R90 => 1, Rotation::R180 => 2, Rotation::R270 => 3 };
        self.0.borrow_mut().areas.push((r, w, h));
    }
    fn render_page(&mut self, _c: &mut Context) { self.0.borrow_mut().order.push('P'); }
    fn render_graphics(&mut self, _c: &mut Context, g: &Vec<VectorGraphic>) {
        let mut r = self.0.borrow_mut();
        r.order.push('g');
        r.bars.push(g.iter().map(|VectorGraphic::Rectangle(r)| (r.x, r.y, r.w, r.h)).collect());
    }
    fn render_image(&mut self, _c: &mut Context, i: &Image) { let mut r = self.0.borrow_mut(); r.order.push('i'); r.images.push(i.clone()); }
    fn render_text(&mut self, _c: &mut Context, s: &Vec<TextSpan>, off: u32, _h: u32, _j: TextJustify) {
        let mut r = self.0.borrow_mut();
        r.order.push('t');
        for sp in s {
            let d = sp.dimensions.as_ref().unwrap();
            for (k, c) in sp.text.chars().enumerate() { r.chars.push((c, d.x + off + k as u32 * sp.character_width, d.y)); }
            r.spans.push(sp.clone());
        }
    }
    fn device_command(&mut self, _c: &mut Context, d: &DeviceCommand) {
        if matches!(d, DeviceCommand::FullCut | DeviceCommand::PartialCut) { self.0.borrow_mut().order.push('c'); }
    }
    fn end_render(&mut self, c: &mut Context) -> u8 { self.0.borrow_mut().end = Some(c.clone()); 0 }
}
pub fn run(bytes: &[u8]) -> (Rec, RenderOutput<u8>) {
    let rec = Rc::new(RefCell::new(Rec::default()));
    let mut b: Box<dyn OutputRenderer<u8>> = Box::new(R(rec.clone()));
    let o = Renderer::new(&mut b, DebugProfile { text: false, image: false, page: false, info: false }).render(&bytes.to_vec());
    drop(b);
    let r = rec.take();
    (r, o)
}
pub fn ctx(bytes: &[u8]) -> Context { run(bytes).0.end.unwrap() }

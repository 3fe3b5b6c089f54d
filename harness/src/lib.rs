//! Property harnesses. Every entry point is run by the symbolic executor over the LLVM IR of this crate linked with
//! the real thermal crates, and natively (see /verif/replay) to confirm counterexamples and validate sampled paths.
#![allow(dead_code)]
pub mod sym;
pub mod spec;
pub mod parsing;
pub mod mock;
pub mod settings;
pub mod tables;
pub mod decoding;
pub mod moving;
pub mod graphics;
pub mod barcodes;
pub mod layout;
pub mod page;
pub mod thermal;
pub mod canvas;
pub mod shot;
pub mod html;
pub mod qr;
pub mod problems;
pub mod glyphs;

macro_rules! entries { ($($m:ident :: $f:ident),* $(,)?) => {
    pub mod entry { $( #[no_mangle] pub extern "C-unwind" fn $f() { super::$m::$f() } )* }
    pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($f), entry::$f) ),* ];
} }
entries! { parsing::p01_total, parsing::p02_bytes, parsing::p03_frame, parsing::p03_short, parsing::p04_reuse, settings::p06_setting, settings::p08_init, decoding::p05_page, decoding::p05_utf8, moving::p07_move, graphics::p09_image, graphics::p09_bad, graphics::p09_cut, graphics::p10_store, graphics::p10_key, barcodes::p11_upce, barcodes::p12_symbol, barcodes::p12_other, layout::p16_layout, layout::p17_order, page::p18_page, thermal::p13_source, thermal::p14_roundtrip, thermal::p14_command, thermal::p14_text, canvas::p19_canvas, shot::p15_image, shot::p15_total, html::p20_html, qr::p21_qr, problems::p23_problems, glyphs::p24_text, glyphs::p24_page, glyphs::p24_turn }

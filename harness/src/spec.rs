//! The supported ESC/POS commands as documented: opcode and framing (independent of the code under test), together
//! with the constructor of the command object that must recognise it.
use thermal_parser::command::Command;
use thermal_parser::commands as c;

#[derive(Clone, Copy, PartialEq)]
pub enum Frame {
    /// exactly n parameter bytes
    Fixed(usize),
    /// GS V m [n]
    Cut,
    /// ESC * m nL nH d1...dk
    BitImage,
    /// GS v 0 m xL xH yL yH d1...dk
    Raster,
    /// GS k m d1...dk NUL (0..=6), GS k m n d1...dn (65..=79)
    Barcode,
    /// GS ( X pL pH p1...pn without subcommands
    Len16,
    /// GS ( k pL pH cn fn d1...
    Sub2d,
    /// GS ( L pL pH m fn d1...
    SubGfx,
    /// GS 8 L p1 p2 p3 p4 m fn d1...
    SubGfxLarge,
}
use Frame::*;
pub struct Spec { pub op: &'static [u8], pub frame: Frame, pub new: fn() -> Command }
const ESC: u8 = 27;
const GS: u8 = 29;
macro_rules! t { ($($op:expr, $f:expr, $m:ident;)*) => { pub const SPEC: &[Spec] = &[ $( Spec { op: &$op, frame: $f, new: c::$m::new } ),* ]; } }
t! {
    [9], Fixed(0), horizontal_tab;                  // 0
    [10], Fixed(0), linefeed;                       // 1
    [12], Fixed(0), formfeed;                       // 2
    [13], Fixed(0), carriage_return;                // 3
    [24, b'@'], Fixed(0), cancel;                   // 4
    [ESC, 12], Fixed(0), page_mode_print_data;      // 5
    [ESC, b'!'], Fixed(1), set_print_mode;          // 6
    [ESC, b'$'], Fixed(2), set_horizontal_pos;      // 7
    [ESC, b'-'], Fixed(1), set_underline;           // 8
    [ESC, b'2'], Fixed(0), default_line_spacing;    // 9
    [ESC, b'3'], Fixed(1), set_line_spacing;        // 10
    [ESC, b'4'], Fixed(1), set_italic;              // 11
    [ESC, b'='], Fixed(1), set_peripheral_device;   // 12
    [ESC, b'@'], Fixed(0), initialize;              // 13
    [ESC, b'D'], Fixed(2), set_tab_len;             // 14
    [ESC, b'E'], Fixed(1), set_emphasis;            // 15
    [ESC, b'G'], Fixed(1), set_double_strike;       // 16
    [ESC, b'J'], Fixed(1), print_and_feed;          // 17
    [ESC, b'L'], Fixed(0), set_page_mode;           // 18
    [ESC, b'M'], Fixed(1), set_font;                // 19
    [ESC, b'R'], Fixed(1), set_international_charset; // 20
    [ESC, b'S'], Fixed(0), select_standard_mode;    // 21
    [ESC, b'T'], Fixed(1), page_mode_print_direction; // 22
    [ESC, b'W'], Fixed(8), page_mode_print_area;    // 23
    [ESC, b'a'], Fixed(1), set_justification;       // 24
    [ESC, b'c', 3], Fixed(1), paper_end_sensor;     // 25
    [ESC, b'c', 4], Fixed(1), print_stop_sensor;    // 26
    [ESC, b'c', 5], Fixed(1), set_panel_buttons;    // 27
    [ESC, b'd'], Fixed(1), print_and_feed_lines;    // 28
    [ESC, b'e'], Fixed(1), print_and_reverse_feed_lines; // 29
    [ESC, b'p'], Fixed(3), pulse;                   // 30
    [ESC, b'r'], Fixed(1), set_alt_color;           // 31
    [ESC, b't'], Fixed(1), set_code_table;          // 32
    [ESC, b'{'], Fixed(1), set_upside_down;         // 33
    [GS, b'!'], Fixed(1), set_character_size;       // 34
    [GS, b'$'], Fixed(2), set_vertical_pos;         // 35
    [GS, b'B'], Fixed(1), set_black_white_invert;   // 36
    [GS, b'H'], Fixed(1), set_barcode_hri;          // 37
    [GS, b'I'], Fixed(1), transmit_printer_id;      // 38
    [GS, b'P'], Fixed(2), set_motion_units;         // 39
    [GS, b'\\'], Fixed(2), offset_vertical_pos;     // 40
    [GS, b'b'], Fixed(1), set_smoothing;            // 41
    [GS, b'f'], Fixed(1), set_barcode_font;         // 42
    [GS, b'h'], Fixed(1), set_barcode_height;       // 43
    [GS, b'w'], Fixed(1), set_barcode_width;        // 44
    [GS, b'V'], Cut, feed_and_cut;                  // 45
    [ESC, b'*'], BitImage, bit_image;               // 46
    [GS, b'v', b'0'], Raster, raster_bit_image;     // 47
    [GS, b'k'], Barcode, barcode;                   // 48
    [GS, b'(', b'H'], Len16, request_response_transmission; // 49
    [GS, b'(', b'N'], Len16, set_character_effects; // 50
    [GS, b'(', b'k'], Sub2d, code_2d;               // 51
    [GS, b'(', b'L'], SubGfx, graphics;             // 52
    [GS, b'8', b'L'], SubGfxLarge, large_graphics;  // 53
}
/// 2D symbol subcommands (cn, fn)
pub const SUB2D: &[(u8, u8)] = &[
    (48, 65), (48, 66), (48, 67), (48, 69), (48, 70), (48, 80), (48, 81), (48, 82),
    (49, 65), (49, 67), (49, 69), (49, 80), (49, 81), (49, 82),
    (50, 65), (50, 80), (50, 81), (50, 82),
    (51, 67), (51, 71), (51, 80), (51, 81), (51, 82),
    (52, 67), (52, 71), (52, 72), (52, 80), (52, 81), (52, 82),
    (53, 66), (53, 67), (53, 69), (53, 80), (53, 81), (53, 82),
    (54, 66), (54, 67), (54, 80), (54, 81), (54, 82),
];
/// graphics subcommands fn (with m = 48)
pub const SUBGFX: &[u8] = &[0, 48, 1, 49, 2, 50, 4, 52, 64, 65, 66, 67, 68, 69, 80, 81, 82, 83, 84, 85, 112, 113];
/// bytes that can begin something else than plain text
pub fn starts_command(b: u8) -> bool { matches!(b, 9 | 10 | 12 | 13 | 16 | 24 | 27 | 28 | 29) }

//! P07: feeds and position commands move the print position by the documented amount, from any position
use super::mock::*;
use super::sym::*;
use thermal_parser::context::{Context, PrintDirection, RenderArea};

const ESC: u8 = 27;
const GS: u8 = 29;
pub fn any_u24() -> u32 { any_u16() as u32 | (any() as u32) << 16 }
fn area() -> RenderArea { RenderArea { x: any_u16() as u32, y: any_u16() as u32, w: any_u16() as u32, h: any_u16() as u32 } }
fn direction() -> PrintDirection { let b = any(); assume(b < 4); unsafe { std::mem::transmute::<u8, PrintDirection>(b) } }
fn prior(n: usize, c: &mut Context, r: &mut Rec) {
    if n == 0 {
        // the commands give divisors of 1..360; the divisor or factor a command depends on is split over its values
        let (v, h) = (any_u16(), any_u16());
        assume(v > 0); assume(h > 0); assume(v <= 360); assume(h <= 360);
        let (v, h) = match param(0) { 1 | 5 | 6 | 9 | 11 => (conc(v as u64) as u16, h), 4 => (v, conc(h as u64) as u16), _ => (v, h) };
        c.graphics.v_motion_unit = v as _; c.graphics.h_motion_unit = h as _;
        c.graphics.dots_per_inch = match param(2) { 0 => 203, 1 => 180, _ => 360 };
        c.text.line_spacing = any();
        let a = &mut c.graphics.render_area;
        a.x = any_u24(); a.y = any_u24(); a.w = any_u16() as u32;
        if param(1) == 1 {
            c.page_mode.enabled = true;
            c.page_mode.direction = direction(); if param(3) < 4 { assume(c.page_mode.direction.clone() as u64 == param(3)); } c.page_mode.previous_direction = direction();
            c.page_mode.logical_area = area(); c.page_mode.page_area = area(); c.page_mode.render_area = area();
            c.page_mode.render_area.x = any_u24(); c.page_mode.render_area.y = any_u24();
        }
    }
    r.snaps.push(snap(c));
}
/// params: command, page mode, dots per inch (203, 180, 360)
pub fn p07_move() {
    fmt_stub(true);
    let page = param(1) == 1;
    let (n, m) = (any(), any());
    let cmd: Vec<u8> = match param(0) {
        0 => vec![10],
        1 => vec![ESC, b'J', n],
        2 => vec![ESC, b'd', conc(n as u64) as u8],
        3 => vec![ESC, b'e', conc(n as u64) as u8],
        4 => vec![ESC, b'$', n, m],
        5 => vec![GS, b'$', n, m],
        6 => vec![GS, b'\\', n, m],
        7 => vec![GS, b'P', n, m],
        8 => { assume(n == 0 || n == 1 || n == 48 || n == 49); vec![GS, b'V', n] }
        9 => { assume(n != 0 && n != 1 && n != 48 && n != 49); vec![GS, b'V', n, m] }
        10 => vec![10, 10],
        11 => vec![10, ESC, b'J', n],
        _ => vec![13],
    };
    let mut s = PROBE.to_vec();
    s.extend_from_slice(&cmd); s.extend_from_slice(&PROBE);
    let (rec, _) = run(&s, prior);
    check(rec.snaps.len() == 2, 799);
    let (b, a) = (&rec.snaps[0], &rec.snaps[1]);
    let mut e = b.clone();
    let at = |f: F| b[f as usize] as u32;
    let (fx, fy) = if page { (F::RX, F::RY) } else { (F::X, F::Y) };
    let (left, spacing) = (if page { at(F::PX) } else { 0 }, at(F::SPACING));
    let (vmu, hmu) = (at(F::VMU), at(F::HMU));
    let mut set = |f: F, v: u32| e[f as usize] = v as u64;
    let wide = n as u32 + 256 * m as u32;
    match param(0) {
        0 => { set(fx, left); set(fy, at(fy) + spacing); }
        1 => { set(fx, left); set(fy, at(fy) + n as u32 / vmu); }
        2 => { set(fx, left); set(fy, at(fy) + n as u32 * spacing); }
        3 => { set(fx, left); set(fy, at(fy).saturating_sub(n as u32 * spacing)); }
        4 | 5 => {
            // the position (x, y) counted from the top left corner of the print area, never outside of it
            let x = wide / hmu;
            let y = wide / vmu;
            let (px, py, w, h) = (at(F::PX), at(F::PY), at(F::RW), at(F::RH));
            let horizontal = param(0) == 4;
            let inside = |v: u32, max: u32| if v > max { max } else { v };
            if !page { if horizontal { set(F::X, inside(x, at(F::AREA_W))); } }
            else {
                match (at(F::PDIR), horizontal) {
                    (0, true) => set(F::RX, px + inside(x, w)),
                    (0, false) => set(F::RY, py + inside(y, h)),
                    (1, true) => set(F::RX, px + w.saturating_sub(x)), // bottom right to left: upside down
                    (1, false) => set(F::RY, py + h.saturating_sub(y)),
                    (2, true) => set(F::RY, py + h.saturating_sub(x)), // top right to bottom: lines run down, the first is rightmost
                    (2, false) => set(F::RX, px + inside(y, w)),
                    (_, true) => set(F::RY, py + inside(x, h)), // bottom left to top: lines run up, the first is leftmost
                    (_, false) => set(F::RX, px + w.saturating_sub(y)),
                }
            }
        }
        6 => if page {
            let d = (wide as u16 as i16).wrapping_div(vmu as i16) as i32;
            let y = at(F::RY) as i32 + d;
            set(F::RY, if y < 0 { 0 } else { y as u32 });
        },
        7 => {
            let dpi = at(F::DPI) as u16;
            // dots per motion unit: resolution / parameter, at least one dot; 0 restores the default
            let unit = |v: u8| if v == 0 { 1 } else { let u = dpi / v as u16; if u == 0 { 1 } else { u as u32 } };
            set(F::HMU, unit(n)); set(F::VMU, unit(m));
        }
        8 => { set(fx, left); set(fy, at(fy) + 2 * spacing); }
        9 => if matches!(n, 65 | 66 | 97 | 98 | 103 | 104) { set(fx, left); set(fy, at(fy) + 2 * spacing + m as u32 / vmu); },
        10 => { set(fx, left); set(fy, at(fy) + 2 * spacing); }
        11 => { set(fx, left); set(fy, at(fy) + spacing + n as u32 / vmu); }
        _ => {}
    }
    for f in 0..F::COUNT as usize { check(a[f] == e[f], 700 + f as u32); }
    cover(100 + param(0) as u32 + 20 * param(1) as u32);
    for f in 0..F::COUNT as usize { out(1, a[f]); }
}

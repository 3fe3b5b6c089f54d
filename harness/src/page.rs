//! P18: the geometry of page mode against a model of the unrotated page
use super::mock::*;
use super::sym::*;
use thermal_parser::context::Context;

const ESC: u8 = 27;
const GS: u8 = 29;
fn prior(n: usize, c: &mut Context, r: &mut Rec) {
    if n == 0 {
        let (v, h) = (any_u16(), any_u16());
        assume(v > 0); assume(h > 0); assume(v <= 360); assume(h <= 360);
        let (v, h) = if param(0) & 1 == 1 { (v, h) } else { (1, 1) };
        c.graphics.v_motion_unit = v as _; c.graphics.h_motion_unit = h as _;
        let a = &mut c.graphics.render_area;
        a.x = any_u16() as u32; a.y = any_u16() as u32; a.w = any_u16() as u32;
    }
    r.snaps.push(snap(c));
}
/// the page as it is when it is not rotated: its size and the print area on it
#[derive(Clone, Copy, Default)]
struct Page { w: u32, h: u32, ax: u32, ay: u32, aw: u32, ah: u32, quarter: u32, on: bool }
impl Page {
    fn grow(&mut self) { self.w = self.w.max(self.ax + self.aw); self.h = self.h.max(self.ay + self.ah); }
    /// page size and area when the page is turned clockwise by the direction's quarter turns
    fn turned(&self) -> ([u32; 2], [u32; 4]) {
        let p = self;
        match p.quarter {
            0 => ([p.w, p.h], [p.ax, p.ay, p.aw, p.ah]),
            1 => ([p.h, p.w], [p.h.saturating_sub(p.ay + p.ah), p.ax, p.ah, p.aw]),
            2 => ([p.w, p.h], [p.w.saturating_sub(p.ax + p.aw), p.h.saturating_sub(p.ay + p.ah), p.aw, p.ah]),
            _ => ([p.h, p.w], [p.ay, p.w.saturating_sub(p.ax + p.aw), p.ah, p.aw]),
        }
    }
}
/// quarter turns of the directions in the order of PrintDirection
const TURN: [u32; 4] = [0, 2, 3, 1];
/// params: flags (1: arbitrary motion units), then operations: 1 ESC W, 2 ESC T, 3 ESC $, 4 GS $, 5 ESC FF, 6 FF, 7 ESC S, 8 ESC L, 9 LF, 10 CR; 20 + d: ESC T d
pub fn p18_page() {
    fmt_stub(true);
    let mut s = PROBE.to_vec();
    let mut ops: Vec<(u64, Vec<u8>)> = vec![];
    for i in 1..14 {
        let o = param(i);
        let data = match o {
            0 => break,
            1 => any_vec(8),
            2 => any_vec(1),
            3 | 4 => any_vec(2),
            20..=27 => vec![if o < 24 { o as u8 - 20 } else { o as u8 - 24 + 48 }],
            _ => vec![],
        };
        s.extend_from_slice(match o { 1 => &[ESC, b'W'], 3 => &[ESC, b'$'], 4 => &[GS, b'$'], 5 => &[ESC, 12], 6 => &[12], 7 => &[ESC, b'S'], 8 => &[ESC, b'L'], 9 => &[10], 10 => &[13], _ => &[ESC, b'T'] });
        s.extend_from_slice(&data);
        s.extend_from_slice(&PROBE);
        ops.push((o, data));
    }
    let (rec, o) = run(&s, prior);
    check(o.errors.len() == 0, 1800);
    check(rec.snaps.len() == ops.len() + 1, 1800);
    let at = |k: usize, f: F| rec.snaps[k][f as usize] as u32;
    let (vmu, hmu, paper) = (at(0, F::VMU), at(0, F::HMU), at(0, F::AREA_W));
    let mut p = Page::default();
    let mut prints = 1;
    let mut ev = rec.ev.iter().peekable();
    // everything before the first probe: only the begin of the print
    check(matches!(ev.next(), Some(Ev::Begin)) & matches!(ev.next(), Some(Ev::Probe)), 1800);
    for (k, (op, d)) in ops.iter().enumerate() {
        let k = k + 1;
        let was = p;
        // what the output renderer is told
        let mut changed: Option<u32> = None;
        let mut rendered = false;
        match op {
            1 if p.on => {
                let w16 = |i: usize| d[i] as u32 | (d[i + 1] as u32) << 8;
                p.ax = (w16(0) / hmu).min(paper); p.ay = w16(2) / vmu;
                p.aw = (w16(4) / hmu).min(paper - p.ax); p.ah = w16(6) / vmu;
                p.grow();
                changed = Some(0);
            }
            2 | 20..=27 if p.on => {
                p.quarter = match d[0] { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, _ => 0 };
                p.grow();
                changed = Some((p.quarter + 4 - was.quarter) & 3);
            }
            8 if !p.on => {
                p.on = true; p.w = 0; p.h = 0;
                p.grow();
                check(matches!(ev.next(), Some(Ev::PageBegin)), 1801);
                changed = Some(0);
            }
            5 if p.on => { rendered = true; check(matches!(ev.next(), Some(Ev::RenderPage)), 1802); }
            6 if p.on => { rendered = true; p.on = false; check(matches!(ev.next(), Some(Ev::PageEnd)) & matches!(ev.next(), Some(Ev::RenderPage)), 1802); }
            7 if p.on => { p.on = false; check(matches!(ev.next(), Some(Ev::PageEnd)), 1803); }
            6 => { prints += 1; check(matches!(ev.next(), Some(Ev::End)) & matches!(ev.next(), Some(Ev::Begin)), 1804); }
            _ => {}
        }
        let (size, area) = p.turned();
        if let Some(turn) = changed {
            match ev.next() {
                Some(Ev::PageArea(r, w, h)) => {
                    check(*r as u32 == turn, 1805);
                    check((*w == size[0]) & (*h == size[1]), 1806);
                }
                _ => check(false, 1807),
            }
        }
        check(matches!(ev.next(), Some(Ev::Probe)), 1808);
        // what the printer knows afterwards
        check((at(k, F::PAGE) != 0) == p.on, 1809);
        if p.on {
            cover(100 + p.quarter); cover(*op as u32 + 200);
            check(TURN[at(k, F::PDIR) as usize & 3] == p.quarter, 1810);
            check((at(k, F::PW) == size[0]) & (at(k, F::PH) == size[1]), 1811);
            check((at(k, F::RW) == area[2]) & (at(k, F::RH) == area[3]), 1812);
            check((at(k, F::PX) == area[0]) & (at(k, F::PY) == area[1]), 1813);
            let (x, y) = (at(k, F::RX), at(k, F::RY));
            if changed.is_some() { check((x == area[0]) & (y == area[1]), 1814); }
            match op {
                3 | 4 => {
                    check((x >= area[0]) & (x <= area[0] + area[2]) & (y >= area[1]) & ((y <= area[1] + area[3]) | (y == at(k - 1, F::RY))), 1815);
                    // counted on the unrotated page from its top left corner, or from the area's sides when turned
                    let (vx, vy) = ((d[0] as u32 | (d[1] as u32) << 8) / hmu, (d[0] as u32 | (d[1] as u32) << 8) / vmu);
                    let h = *op == 3;
                    let (ex, ey) = match (p.quarter, h) {
                        (0, true) => (Some(area[0] + vx.min(area[2])), None), (0, false) => (None, Some(area[1] + vy.min(area[3]))),
                        (1, true) => (None, Some(area[1] + vx.min(area[3]))), (1, false) => (Some(area[0] + area[2].saturating_sub(vy)), None),
                        (2, true) => (Some(area[0] + area[2].saturating_sub(vx)), None), (2, false) => (None, Some(area[1] + area[3].saturating_sub(vy))),
                        (_, true) => (None, Some(area[1] + area[3].saturating_sub(vx))), (_, false) => (Some(area[0] + vy.min(area[2])), None),
                    };
                    check((x == ex.unwrap_or(at(k - 1, F::RX))) & (y == ey.unwrap_or(at(k - 1, F::RY))), 1816);
                }
                9 => check((x == area[0]) & (y == at(k - 1, F::RY) + at(k, F::SPACING)), 1817),
                10 => check((x == at(k - 1, F::RX)) & (y == at(k - 1, F::RY)), 1817),
                _ => {}
            }
        } else { cover(99); }
        // the paper moves by the page's height when a page is printed, and by nothing else
        if rendered { check((at(k, F::Y) == at(k - 1, F::Y) + was.h) & (at(k, F::X) == 0), 1818); cover(110 + was.quarter); }
        else if p.on | was.on { check((at(k, F::Y) == at(k - 1, F::Y)) & (at(k, F::X) == at(k - 1, F::X)), 1819); }
        for f in [F::PX, F::PY, F::PW, F::PH, F::RX, F::RY, F::RW, F::RH, F::X, F::Y] { out(1, at(k, f) as u64); }
    }
    check(matches!(ev.next(), Some(Ev::End)) & ev.next().is_none(), 1820);
    check(o.output.len() == prints, 1820);
}

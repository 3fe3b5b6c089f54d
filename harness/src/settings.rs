//! P06: every setting command sets exactly its setting; P08: ESC @ restores all of them
use super::mock::*;
use super::sym::*;
use thermal_parser::context::Context;
use thermal_parser::decoder::get_codepage;

const ESC: u8 = 27;
const GS: u8 = 29;
/// opcode of each setting command and the number of parameter bytes
const CMDS: &[(&[u8], usize)] = &[
    (&[ESC, b'E'], 1), (&[ESC, b'G'], 1), (&[ESC, b'4'], 1), (&[ESC, b'{'], 1), (&[GS, b'b'], 1), (&[GS, b'B'], 1), (&[ESC, b'-'], 1), (&[ESC, b'M'], 1), // 0-7
    (&[GS, b'!'], 1), (&[ESC, b'!'], 1), (&[ESC, b'a'], 1), (&[ESC, b'r'], 1), (&[ESC, b'R'], 1), (&[ESC, b't'], 1), // 8-13
    (&[GS, b'(', b'N', 2, 0, 48], 1), (&[GS, b'(', b'N', 2, 0, 49], 1), (&[GS, b'(', b'N', 3, 0, 50], 2), // 14-16
    (&[ESC, b'3'], 1), (&[ESC, b'2'], 0), (&[ESC, b'D'], 2), (&[GS, b'h'], 1), (&[GS, b'w'], 1), (&[GS, b'H'], 1), (&[GS, b'f'], 1), // 17-23
    (&[GS, b'(', b'k', 3, 0, 48, 65], 1), (&[GS, b'(', b'k', 3, 0, 48, 66], 1), (&[GS, b'(', b'k', 3, 0, 48, 67], 1), (&[GS, b'(', b'k', 4, 0, 48, 69], 2), (&[GS, b'(', b'k', 3, 0, 48, 70], 1), // 24-28 pdf417
    (&[GS, b'(', b'k', 4, 0, 49, 65], 2), (&[GS, b'(', b'k', 3, 0, 49, 67], 1), (&[GS, b'(', b'k', 3, 0, 49, 69], 1), // 29-31 qr
    (&[GS, b'(', b'k', 3, 0, 50, 65], 1), // 32 maxicode
    (&[GS, b'(', b'k', 3, 0, 51, 67], 1), (&[GS, b'(', b'k', 4, 0, 51, 71], 2), // 33-34 gs1
    (&[GS, b'(', b'k', 3, 0, 52, 67], 1), (&[GS, b'(', b'k', 4, 0, 52, 71], 2), (&[GS, b'(', b'k', 3, 0, 52, 72], 1), // 35-37 composite
    (&[GS, b'(', b'k', 4, 0, 53, 66], 2), (&[GS, b'(', b'k', 3, 0, 53, 67], 1), (&[GS, b'(', b'k', 3, 0, 53, 69], 1), // 38-40 aztec
    (&[GS, b'(', b'k', 5, 0, 54, 66], 3), (&[GS, b'(', b'k', 3, 0, 54, 67], 1), // 41-42 datamatrix
];
pub const NCMDS: usize = 43;
fn font(n: u8) -> u64 { match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, 4 | 52 => 4, 97 => 5, 98 => 6, _ => 0 } }
fn onoff(n: u8) -> u64 { (n & 1) as u64 }
fn color_no(s: &[u64], n: u8) -> u64 { s[match n { 0 | 48 => F::PAPER, 2 | 50 => F::COL2, 3 | 51 => F::COL3, _ => F::COL1 } as usize] }
fn decoder(e: &mut [u64]) {
    let cp = get_codepage(e[F::TABLE as usize] as u8, e[F::SET as usize] as u8);
    let mut c = Context::new(); c.text.decoder = cp;
    let s = snap(&c);
    e[F::DEC_NAME as usize] = s[F::DEC_NAME as usize]; e[F::DEC_LANG as usize] = s[F::DEC_LANG as usize];
    e[F::DEC_UTF8 as usize] = (e[F::TABLE as usize] == 255) as u64;
}
/// what the command with parameters p is documented to do to the settings s
fn expect(i: usize, p: &[u8], s: &[u64], after: &[u64]) -> Vec<u64> {
    let mut e = s.to_vec();
    let n = if p.is_empty() { 0 } else { p[0] };
    let mut set = |f: F, v: u64| e[f as usize] = v;
    match i {
        0 => set(F::BOLD, onoff(n)),
        1 => set(F::STRIKE, if n & 1 == 1 { 2 } else { 0 }),
        2 => set(F::ITALIC, onoff(n)),
        3 => set(F::UPSIDE, onoff(n)),
        4 => set(F::SMOOTHING, onoff(n)),
        5 => set(F::INVERT, onoff(n)),
        6 => set(F::UNDERLINE, match n { 1 | 49 => 1, 2 | 50 => 2, _ => 0 }),
        7 => { set(F::FONT, font(n)); let a = font(n) == 0; set(F::CW, if a { 12 } else { 9 }); set(F::CH, if a { 24 } else { 17 }); }
        8 => { set(F::WMULT, (n >> 4 & 7) as u64 + 1); set(F::HMULT, (n & 7) as u64 + 1); }
        9 => {
            let b = n & 1 == 1;
            set(F::FONT, b as u64); set(F::CW, if b { 9 } else { 12 }); set(F::CH, if b { 17 } else { 24 });
            set(F::BOLD, (n >> 3 & 1) as u64); set(F::HMULT, (n >> 4 & 1) as u64 + 1); set(F::WMULT, (n >> 5 & 1) as u64 + 1); set(F::UNDERLINE, (n >> 7 & 1) as u64);
        }
        10 => set(F::JUSTIFY, match n { 1 | 49 => 1, 2 | 50 => 2, _ => 0 }),
        11 => set(F::COLOR, s[match n { 1 | 49 => F::COL2, _ => F::COL1 } as usize]),
        12 => { set(F::SET, n as u64); decoder(&mut e); }
        13 => { set(F::TABLE, n as u64); decoder(&mut e); }
        14 => set(F::COLOR, color_no(s, n)),
        15 => set(F::BACKGROUND, color_no(s, n)),
        16 => { set(F::SHADOW_COLOR, color_no(s, n)); set(F::SHADOW, (p[1] != 0 && p[1] != 48) as u64); }
        17 => set(F::SPACING, n as u64),
        18 => set(F::SPACING, snap(&Context::new())[F::SPACING as usize]),
        19 => {
            let k = p[1] as usize;
            let f = match k / 8 { 0 => F::TABS0, 1 => F::TABS1, 2 => F::TABS2, 3 => F::TABS3, _ => return e };
            let sh = (k % 8) as u64 * 8;
            set(f, s[f as usize] & !(255 << sh) | (n as u64) << sh);
        }
        20 => set(F::BAR_H, n as u64),
        // widths above 6 are documented both as "brought into range" and as ignored: either is accepted
        21 => set(F::BAR_W, if n < 2 { 2 } else if n <= 6 { n as u64 } else if after[F::BAR_W as usize] == 6 { 6 } else { s[F::BAR_W as usize] }),
        22 => set(F::HRI, match n { 1 | 49 => 1, 2 | 50 => 2, 3 | 51 => 3, _ => 0 }),
        23 => set(F::BAR_FONT, font(n)),
        24 => set(F::PDF_COLS, n as u64),
        25 => set(F::PDF_ROWS, n as u64),
        26 => set(F::PDF_W, n as u64),
        27 => {
            // 48: fixed level n-48; 49: ratio, the level depends on the amount of data; anything else is undefined
            let l = after[F::PDF_EC as usize];
            if n == 48 { if p[1] >= 48 && p[1] <= 56 { set(F::PDF_EC, p[1] as u64 - 48) } else { set(F::PDF_EC, l) } }
            else if n == 49 { set(F::PDF_EC, if p[1] >= 1 && p[1] <= 40 && l == 0 { 99 } else if l <= 8 { l } else { s[F::PDF_EC as usize] }) }
            else { set(F::PDF_EC, l) }
        }
        28 => set(F::PDF_TRUNC, (n != 0) as u64),
        29 => set(F::QR_MODEL, match n { 50 => 1, 51 => 2, _ => 0 }),
        30 => set(F::QR_SIZE, n as u64),
        31 => if n >= 48 && n <= 51 { set(F::QR_EC, n as u64 - 48) } else { set(F::QR_EC, after[F::QR_EC as usize]) },
        32 => if n >= 50 && n <= 54 { set(F::MAXI, n as u64 - 48) } else { set(F::MAXI, after[F::MAXI as usize]) },
        33 => set(F::GS1_W, n as u64),
        34 => set(F::GS1_MAX, n as u64 + 256 * p[1] as u64),
        35 => set(F::COMP_W, n as u64),
        36 => set(F::COMP_MAX, n as u64 + 256 * p[1] as u64),
        37 => set(F::COMP_FONT, font(n)),
        38 => { set(F::AZ_MODE, match n { 1 | 49 => 1, _ => 0 }); set(F::AZ_LAYERS, if p[1] <= 32 { p[1] as u64 } else { 0 }); }
        39 => if n >= 2 && n <= 16 { set(F::AZ_SIZE, n as u64) },
        40 => set(F::AZ_EC, n as u64),
        41 => if n == 0 || n == 48 { set(F::DM_TYPE, 0); set(F::DM_COLS, p[1] as u64); set(F::DM_ROWS, p[2] as u64); }
              else if n == 1 || n == 49 { set(F::DM_TYPE, 1); set(F::DM_COLS, p[1] as u64); set(F::DM_ROWS, p[2] as u64); },
        _ => set(F::DM_W, n as u64),
    }
    e
}
fn prior(n: usize, c: &mut Context, r: &mut Rec) { if n == 0 { arbitrary(c); r.snaps.push(snap(c)); } else { r.snaps.push(snap(c)); } }
/// params: command index, low / high bound of the first parameter byte
pub fn p06_setting() {
    fmt_stub(true);
    let i = param(0) as usize;
    let (op, np) = CMDS[i];
    let p = any_vec(np);
    if np > 0 { assume(p[0] as u64 >= param(1)); assume((p[0] as u64) <= param(2)); }
    let mut s = PROBE.to_vec();
    s.extend_from_slice(op); s.extend_from_slice(&p); s.extend_from_slice(&PROBE);
    let (rec, _) = run(&s, prior);
    check(rec.snaps.len() == 2, 699);
    let (b, a) = (&rec.snaps[0], &rec.snaps[1]);
    let e = expect(i, &p, b, a);
    for f in 0..F::COUNT as usize { check(a[f] == e[f], 600 + f as u32); }
    cover(100 + i as u32);
    for f in 0..F::COUNT as usize { out(1, a[f]); }
}
fn initialized(n: usize, c: &mut Context, r: &mut Rec) {
    use thermal_parser::graphics::*;
    if n == 0 {
        r.snaps.push(snap(c)); // power-on settings
        arbitrary(c);
        c.graphics.dots_per_inch = any_u16();
        c.text.decoder.use_utf8_table = true;
        c.code2d.symbol_storage = Some(Code2D { points: vec![1], width: 1, point_width: 1, point_height: 1 });
        let g = |m: &str| GraphicsCommand::Error(m.to_string());
        c.graphics.stored_graphics.insert(ImageRef { kc1: 1, kc2: 2, storage: ImageRefStorage::Disc }, g("nv"));
        c.graphics.stored_graphics.insert(ImageRef { kc1: 1, kc2: 2, storage: ImageRefStorage::Ram }, g("ram"));
        c.graphics.buffer_graphics.push(g("buffer"));
        r.snaps.push(snap(c));
    } else {
        r.snaps.push(snap(c));
        let nv = c.graphics.stored_graphics.contains_key(&ImageRef { kc1: 1, kc2: 2, storage: ImageRefStorage::Disc });
        let ram = c.graphics.stored_graphics.contains_key(&ImageRef { kc1: 1, kc2: 2, storage: ImageRefStorage::Ram });
        r.val.push(nv as u64); r.val.push(ram as u64);
    }
}
pub fn p08_init() {
    fmt_stub(true);
    let mut s = PROBE.to_vec();
    s.extend_from_slice(&[ESC, b'@']); s.extend_from_slice(&PROBE);
    let (rec, _) = run(&s, initialized);
    check(rec.snaps.len() == 3, 899);
    let (fresh, before, after) = (&rec.snaps[0], &rec.snaps[1], &rec.snaps[2]);
    for f in 0..F::X as usize { if f != F::STORED as usize { check(after[f] == fresh[f], 800 + f as u32); } }
    check(after[F::X as usize] == 0, 800 + F::X as u32);
    // the paper does not move back: what was printed stays above
    check(after[F::Y as usize] >= before[F::Y as usize], 800 + F::Y as u32);
    check(rec.val[0] == 1, 897);
    check(rec.val[1] == 0, 898);
    cover(1);
    for f in 0..F::COUNT as usize { out(1, after[f]); }
}

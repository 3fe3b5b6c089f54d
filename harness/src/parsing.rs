//! P01-P04: the ESC/POS parser
use super::spec::{self, Frame, SPEC};
use super::sym::*;
use thermal_parser::command::{Command, CommandType};
use thermal_parser::{command_sets, commands, parse_esc_pos, parser::Parser};

fn kind(c: &Command) -> u64 { match c.kind { CommandType::Control => 0, CommandType::Text => 1, CommandType::TextStyle => 2, CommandType::Graphics => 3, CommandType::Context => 4, CommandType::ContextControl => 5, CommandType::Subcommand => 6, CommandType::Unknown => 7 } }
fn is_named(c: &Command, d: &Command) -> bool { *c.name == *d.name && c.kind == d.kind }
pub fn bytes(c: &Command) -> Vec<u8> { let (mut a, b) = c.handler.get_command_bytes(c); a.extend_from_slice(&b); a }
fn report(cmds: &[Command]) { out(1, cmds.len() as u64); for c in cmds { out(2, kind(c)); out_bytes(3, &bytes(c)); } }

// ---- P01
fn bracketed(cmds: &[Command]) {
    let (b, e) = (commands::begin_print::new(), commands::end_print::new());
    check(cmds.len() >= 2, 101);
    check(is_named(&cmds[0], &b), 102);
    check(is_named(&cmds[cmds.len() - 1], &e), 103);
    for c in &cmds[1..cmds.len() - 1] { check(!is_named(c, &b) && !is_named(c, &e), 104); }
}
/// the prefixes that lead into length-carrying or multi-byte parsing
pub fn prefix(i: usize) -> Vec<u8> { if i == 0 { vec![] } else { SPEC[i - 1].op.to_vec() } }
/// params: prefix, number of arbitrary bytes, low / high bound of the first byte (work split)
pub fn stream() -> Vec<u8> {
    let mut s = prefix(param(0) as usize);
    let n = param(1) as usize;
    if n > 0 { let b = any(); assume(b as u64 >= param(2)); assume((b as u64) <= param(3)); s.push(b); }
    for _ in 1..n { s.push(any()); }
    s
}
pub fn p01_total() {
    let s = stream();
    let cmds = parse_esc_pos(&s);
    bracketed(&cmds);
    if cmds.len() > 3 { cover(1); }
    if cmds.len() == 3 { cover(2); }
    report(&cmds);
}
// ---- P02
pub fn p02_bytes() {
    let s = stream();
    let cmds = parse_esc_pos(&s);
    let mut all = vec![];
    for c in &cmds { all.extend_from_slice(&bytes(c)); }
    check(all.len() == s.len(), 201);
    check(all[..] == s[..], 202);
    check(bytes(&cmds[0]).is_empty() && bytes(&cmds[cmds.len() - 1]).is_empty(), 203);
    for c in &cmds[1..cmds.len() - 1] { if bytes(c).is_empty() { check(false, 204) } }
    if cmds.len() > 3 { cover(1); }
    if cmds.iter().any(|c| c.kind == CommandType::Unknown) { cover(2); }
    out_bytes(4, &all);
}
// ---- P03
fn same(a: &Command, b: &Command) -> bool { *a.name == *b.name && a.kind == b.kind && a.commands[..] == b.commands[..] && a.data[..] == b.data[..] && bytes(a)[..] == bytes(b)[..] }
/// one whole command of table entry i with symbolic parameters; returns (bytes, payload kept as data)
/// payload of n bytes: all arbitrary up to 12, else arbitrary at both ends with a fixed non-zero filler between
fn payload(n: usize) -> Vec<u8> { if n <= 12 { return any_vec(n) } (0..n).map(|k| if k < 2 || k + 2 >= n { any() } else { (k * 37 % 251 + 3) as u8 }).collect() }
pub fn command(i: usize, variant: usize, size: usize) -> (Vec<u8>, Vec<u8>) {
    let sp = &SPEC[i];
    let mut s = sp.op.to_vec();
    let mut data = vec![];
    match sp.frame {
        Frame::Fixed(n) => { data = any_vec(n); s.extend_from_slice(&data); }
        Frame::Cut => {
            let m = any();
            let two = if m == 0 || m == 1 || m == 48 || m == 49 { false } else { true };
            assume(two == (variant == 1));
            data.push(m);
            if two { data.push(any()); }
            s.extend_from_slice(&data);
        }
        Frame::BitImage => {
            // variant: 24-dot modes
            let m = any();
            let wide = m == 32 || m == 33;
            assume(wide == (variant == 1));
            data = payload(size * if variant == 1 { 3 } else { 1 });
            s.extend_from_slice(&[m, (size & 255) as u8, (size >> 8) as u8]);
            s.extend_from_slice(&data);
        }
        Frame::Raster => {
            // variant = rows, size = bytes per row
            data = payload(size * variant);
            s.extend_from_slice(&[any(), (size & 255) as u8, (size >> 8) as u8, (variant & 255) as u8, (variant >> 8) as u8]);
            s.extend_from_slice(&data);
        }
        Frame::Barcode => {
            let m = any();
            if variant == 0 {
                assume(m <= 6);
                data = payload(size); for b in &data { assume(*b != 0); }
                s.push(m); s.extend_from_slice(&data); s.push(0);
            } else {
                assume(m >= 65 && m <= 79);
                data = payload(size);
                s.push(m); s.push(size as u8); s.extend_from_slice(&data);
            }
        }
        Frame::Len16 => {
            let p = payload(size);
            s.extend_from_slice(&[(size & 255) as u8, (size >> 8) as u8]); s.extend_from_slice(&p);
        }
        Frame::Sub2d => {
            let (cn, f) = spec::SUB2D[variant];
            data = payload(size);
            s.extend_from_slice(&[((size + 2) & 255) as u8, ((size + 2) >> 8) as u8, cn, f]); s.extend_from_slice(&data);
        }
        Frame::SubGfx | Frame::SubGfxLarge => {
            let f = spec::SUBGFX[variant];
            data = payload(size);
            let n = size + 2;
            s.extend_from_slice(&[(n & 255) as u8, (n >> 8) as u8]);
            if sp.frame == Frame::SubGfxLarge { s.extend_from_slice(&[(n >> 16) as u8, 0]); }
            s.extend_from_slice(&[48, f]); s.extend_from_slice(&data);
        }
    }
    (s, data)
}
/// params: command, variant, payload size, tail length, lead length
pub fn p03_frame() {
    let i = param(0) as usize;
    let lead: Vec<u8> = (0..param(4)).map(|_| { let b = any(); assume(!spec::starts_command(b)); b }).collect();
    let (cmd, data) = command(i, param(1) as usize, param(2) as usize);
    let tail = any_vec(param(3) as usize);
    let mut s = lead.clone();
    s.extend_from_slice(&cmd);
    s.extend_from_slice(&tail);
    let got = parse_esc_pos(&s);
    let rest = parse_esc_pos(&tail);
    let pre = if lead.is_empty() { 1 } else { 2 };
    check(got.len() == pre + rest.len(), 301);
    if !lead.is_empty() { let t = &got[1]; check(is_named(t, &commands::text::new()), 302); check(t.data[..] == lead[..] && bytes(t)[..] == lead[..], 303); }
    let me = &got[pre];
    let like = (SPEC[i].new)();
    let sub = matches!(SPEC[i].frame, Frame::Sub2d | Frame::SubGfx | Frame::SubGfxLarge);
    if sub { check(me.kind != CommandType::Unknown && me.kind != CommandType::Subcommand && me.kind != CommandType::Text, 304); } else { check(is_named(me, &like), 305); }
    check(bytes(me)[..] == cmd[..], 306);
    if SPEC[i].frame != Frame::Len16 { check(me.data[..] == data[..], 307); }
    for k in 1..rest.len() { check(same(&got[pre + k], &rest[k]), 308); }
    if rest.len() > 2 { cover(1); }
    if !lead.is_empty() { cover(2); }
    cover(1000 + i as u32);
    report(&got);
}
/// a command whose length field declares more than the stream has: nothing of its payload starts another command
/// params: command, subcommand function / 24-dot or wide form, bytes present
pub fn p03_short() {
    let sp = &SPEC[param(0) as usize];
    let n = param(2);
    let mut s = sp.op.to_vec();
    let declared = |l: &[u8]| l.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
    match sp.frame {
        Frame::BitImage => {
            let m = any(); let l = any_vec(2);
            assume((m == 32 || m == 33) == (param(1) == 1));
            assume(declared(&l) * (if param(1) == 1 { 3 } else { 1 }) > n);
            s.push(m); s.extend_from_slice(&l);
        }
        Frame::Raster => {
            let m = any(); let w = any_vec(2); let h = any_vec(2);
            if param(1) == 1 { assume(declared(&w) > n && declared(&h) > 0) } else { assume(declared(&h) > n && declared(&w) > 0) }
            s.push(m); s.extend_from_slice(&w); s.extend_from_slice(&h);
        }
        Frame::Barcode => { let m = any(); assume(m >= 65 && m <= 79); let l = any(); assume(l as u64 > n); s.push(m); s.push(l); }
        Frame::Len16 => { let l = any_vec(2); assume(declared(&l) > n); s.extend_from_slice(&l); }
        Frame::Sub2d | Frame::SubGfx | Frame::SubGfxLarge => {
            let l = any_vec(if sp.frame == Frame::SubGfxLarge { 4 } else { 2 });
            assume(declared(&l) > n + 2);
            s.extend_from_slice(&l);
            let (cn, f) = if sp.frame == Frame::Sub2d { spec::SUB2D[param(1) as usize] } else { (48, spec::SUBGFX[param(1) as usize]) };
            s.extend_from_slice(&[cn, f]);
        }
        _ => return,
    }
    s.extend_from_slice(&any_vec(n as usize));
    let got = parse_esc_pos(&s);
    check(got.len() == 3, 309);
    check(bytes(&got[1])[..] == s[..], 310);
    cover(3);
    report(&got);
}
// ---- P04
/// params: prefix of the first stream, its arbitrary bytes, prefix of the second stream, its arbitrary bytes
pub fn p04_reuse() {
    let mut a = prefix(param(0) as usize); a.extend_from_slice(&any_vec(param(1) as usize));
    let mut b = prefix(param(2) as usize); b.extend_from_slice(&any_vec(param(3) as usize));
    let mut p = Parser::new(command_sets::esc_pos::new());
    let fresh_a = p.parse_bytes(&a);
    let x = p.parse_bytes(&b);
    let y = parse_esc_pos(&b);
    check(x.len() == y.len(), 401);
    for (c, d) in x.iter().zip(y.iter()) { check(same(c, d), 402); }
    if fresh_a.len() > 2 && y.len() > 2 { cover(1); }
    report(&x);
}

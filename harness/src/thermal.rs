//! P13, P14: the .thermal source format
use super::parsing::{self, prefix, stream};
use super::sym::*;
use thermal_parser::parse_esc_pos;
use thermal_parser::thermal_file::{cmds_to_thermal, parse_str};

const NAMES: [(&str, u8); 10] = [("NUL", 0), ("ESC", 0x1b), ("HT", 9), ("LF", 10), ("FF", 12), ("CR", 13), ("GS", 0x1d), ("FS", 0x1c), ("DLE", 0x10), ("CAN", 0x18)];
fn ws(b: u8) -> bool { b == b' ' || b == 9 || b == 12 || b == 13 }
fn digit(b: u8, base: u32) -> Option<u32> {
    let v = if b >= b'0' && b <= b'9' { b - b'0' } else if b >= b'a' && b <= b'f' { b - b'a' + 10 } else if b >= b'A' && b <= b'F' { b - b'A' + 10 } else { 99 } as u32;
    if v < base { Some(v) } else { None }
}
/// what the source says, or nothing where the format does not define it
fn meaning(src: &[u8]) -> Option<Vec<u8>> {
    let mut res = vec![];
    let mut start = 0;
    while start < src.len() {
        let mut end = start;
        while end < src.len() && src[end] != b'\n' { end += 1; }
        let mut line = &src[start..end];
        if end < src.len() && line.len() > 0 && line[line.len() - 1] == b'\r' { line = &line[..line.len() - 1]; }
        start = end + 1;
        if line.len() >= 3 && line[0] == b'\'' && line[1] == b'/' && line[2] == b'/' { cover(1); continue }
        // white space beyond ASCII is not defined
        if line.iter().any(|b| *b == 11 || *b >= 0x80) && !line.iter().any(|b| *b > b' ' && *b < 0x7f) { return None }
        let mut i = 0;
        while i < line.len() {
            if ws(line[i]) { i += 1; continue }
            if line[i] == b'"' {
                i += 1;
                while i < line.len() && line[i] != b'"' {
                    if line[i] == b'\\' && i + 1 < line.len() && (line[i + 1] == b'"' || line[i + 1] == b'\\') { i += 1; cover(2); }
                    res.push(line[i]);
                    i += 1;
                }
                if i >= line.len() { cover(3); }
                i += 1;
                continue
            }
            let from = i;
            while i < line.len() && !ws(line[i]) && line[i] != b'"' { i += 1; }
            let t = &line[from..i];
            if let Some(n) = NAMES.iter().find(|n| *n.0.as_bytes() == *t) { cover(4); res.push(n.1); continue }
            if t[0] == b'+' && t.len() > 1 { return None }
            let hex = t.len() > 1 && t[0] == b'0' && t[1] == b'x';
            let (d, base) = if hex { (&t[2..], 16) } else { (t, 10) };
            let mut v = 0;
            let mut ok = d.len() > 0;
            for b in d { match digit(*b, base) { Some(x) => v = (v * base + x).min(1000), None => { ok = false; break } } }
            if ok && v > 255 || hex && !ok { return None }
            if ok { cover(if hex { 5 } else { 6 }); res.push(v as u8); } else { cover(7); res.extend_from_slice(t); }
        }
    }
    Some(res)
}
/// params: shape, number of arbitrary bytes, name of a constant
pub fn p13_source() {
    let n = param(1) as usize;
    let name = NAMES[param(2) as usize].0.as_bytes();
    let mut s: Vec<u8> = vec![];
    let (pre, post): (&[u8], &[u8]) = match param(0) {
        0 => (b"", b""), 1 => (b"\"", b"\""), 2 => (b"ESC \"@", b"\" 7"), 3 => (b"0x", b""), 4 => (b"'//", b"\nESC"), 5 => (b"LF\n", b"\n\"a\""), 6 => (name, b""), 7 => (b"", name), 8 => (b"1", b" 2"), 9 => (b"\"abc\\", b"def\" 0x1F"), 10 => (b"GS", b"\"k\""), 11 => (b"\"\\\"", b"\\\\\""), _ => (b"12 0xA", b"FF"),
    };
    s.extend_from_slice(pre);
    for _ in 0..n { s.push(any()); }
    s.extend_from_slice(post);
    let Ok(text) = std::str::from_utf8(&s) else { return };
    let got = parse_str(text);
    if let Some(want) = meaning(&s) {
        check(got.len() == want.len(), 1300);
        for i in 0..want.len() { check(got[i] == want[i], 1301); }
    }
    out_bytes(1, &got);
}
fn roundtrip(s: &Vec<u8>) {
    let t = cmds_to_thermal(&parse_esc_pos(s));
    let back = parse_str(&t);
    check(back.len() == s.len(), 1400);
    for i in 0..s.len() { check(back[i] == s[i], 1401); }
    if t.contains("0x") { cover(1); }
    if t.contains("Unknown") { cover(2); }
    out_bytes(1, t.as_bytes());
}
pub fn p14_roundtrip() { roundtrip(&stream()); }
/// params: command, variant, payload size, bytes before, bytes after, first and last value of the first byte (0 0: any)
pub fn p14_command() {
    let mut s = any_vec(param(3) as usize);
    if param(6) != 0 { for b in &s[..1] { assume(*b as u64 >= param(5) && *b as u64 <= param(6)); } }
    let (c, _) = parsing::command(param(0) as usize, param(1) as usize, param(2) as usize);
    s.extend_from_slice(&c);
    for _ in 0..param(4) { s.push(any()); }
    let _ = prefix;
    roundtrip(&s);
    cover(3);
}
/// text of fixed kind around arbitrary bytes. params: n, bytes before
pub fn p14_text() {
    let mut s = b"Tab\there \"q\" \\n \xc3\xa9\xe2\x82\xac'// no comment\r\nESC 12 0x41 "[..if param(1) == 0 { 0 } else { 48 }].to_vec();
    for _ in 0..param(0) { s.push(any()); }
    s.extend_from_slice(b" end\n'//end");
    roundtrip(&s);
    cover(4);
}

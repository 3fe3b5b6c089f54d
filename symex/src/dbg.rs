//! Debug-info lookups: source locations and the set of covered functions.
use crate::ll::Module;
fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let mut p = 0;
    loop { let i = s[p..].find(k)? + p; let ok = i == 0 || matches!(s.as_bytes()[i - 1], b'(' | b' '); if ok { let t = &s[i + k.len()..]; if let Some(q) = t.strip_prefix('"') { let e = q.find('"')?; return Some(&q[..e]); } let e = t.find(|c| c == ',' || c == ')').unwrap_or(t.len()); return Some(&t[..e]); } p = i + 1; }
}
fn mref(s: Option<&str>) -> Option<u32> { s?.strip_prefix('!')?.parse().ok() }
pub fn subprogram(m: &Module, mut scope: u32) -> Option<(u32, String, String)> {
    for _ in 0..50 {
        let t = m.metadata(scope)?;
        if t.contains("!DISubprogram(") {
            let name = field(t, "name: ").unwrap_or("?");
            let file = mref(field(t, "file: ")).and_then(|f| m.metadata(f)).map(|f| { let n = field(f, "filename: ").unwrap_or("?"); if n.starts_with('/') { n.to_string() } else { format!("{}/{}", field(f, "directory: ").unwrap_or(""), n) } }).unwrap_or_default();
            return Some((scope, name.to_string(), file));
        }
        scope = mref(field(t, "scope: "))?;
    }
    None
}
pub fn dil(m: &Module, id: u32) -> Option<(u32, u32, Option<u32>)> {
    let t = m.metadata(id)?;
    let line = field(t, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
    Some((line, mref(field(t, "scope: "))?, mref(field(t, "inlinedAt: "))))
}
pub fn loc(m: &Module, id: u32) -> String {
    let mut out = vec![]; let mut cur = Some(id);
    while let Some(i) = cur { let Some((line, scope, inl)) = dil(m, i) else { break }; if let Some((_, _, f)) = subprogram(m, scope) { out.push(format!("{}:{}", f.rsplit('/').next().unwrap_or(""), line)); } cur = inl; if out.len() > 6 { break; } }
    out.join("<")
}
/// crude demangling of v0 symbols: keep the identifiers
pub fn short(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut out: Vec<String> = vec![]; let mut i = 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() { // disambiguator s<base62>_
            let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; } if j < b.len() && b[j] == b'_' && j - i < 14 { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let k: usize = n[i..j].parse().unwrap_or(0); let mut s = j; if s < b.len() && b[s] == b'_' { s += 1; }
            if k > 0 && s + k <= b.len() { out.push(n[s..s + k].to_string()); i = s + k; continue; }
            i = j; continue;
        }
        i += 1;
    }
    out.join("::")
}

//! A small validating XML reader used as the oracle: it shares no code with what it judges.
#![allow(dead_code)]

pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, Vec<u8>)>,
    pub parent: usize,
    /// character data directly inside, entities decoded
    pub text: Vec<u8>,
    pub kids: Vec<usize>,
    /// pieces of that text: children before it, where it ends, whether it is written literally
    pub segs: Vec<(usize, usize, bool)>,
}
impl Node {
    fn add(&mut self, t: &[u8], literal: bool) { self.text.extend_from_slice(t); self.segs.push((self.kids.len(), self.text.len(), literal)); }
}
pub struct Doc { pub nodes: Vec<Node> }
pub const NONE: usize = usize::MAX;

fn ws(b: u8) -> bool { b == b' ' || b == b'\n' || b == b'\t' || b == b'\r' }
fn name_start(b: u8) -> bool { b.is_ascii_alphabetic() || b == b'_' || b == b':' || b >= 0x80 }
fn name_char(b: u8) -> bool { name_start(b) || b.is_ascii_digit() || b == b'-' || b == b'.' }

fn push_scalar(out: &mut Vec<u8>, c: u32) -> bool {
    let ok = c == 9 || c == 10 || c == 13 || (0x20..=0xd7ff).contains(&c) || (0xe000..=0xfffd).contains(&c) || (0x10000..=0x10ffff).contains(&c);
    if !ok { return false; }
    match char::from_u32(c) {
        Some(ch) => { let mut b = [0u8; 4]; out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes()); true }
        None => false,
    }
}

/// Decodes the reference that starts at `i` (just after '&'); gives the index after ';'.
fn reference(d: &[u8], mut i: usize, out: &mut Vec<u8>) -> Result<usize, &'static str> {
    let e = "bad reference";
    if i >= d.len() { return Err(e); }
    if d[i] == b'#' {
        i += 1;
        let hex = i < d.len() && d[i] == b'x';
        if hex { i += 1; }
        let (mut v, s) = (0u32, i);
        while i < d.len() && d[i] != b';' {
            let x = d[i];
            let k = if x.is_ascii_digit() { x - b'0' } else if hex && (x | 32) >= b'a' && (x | 32) <= b'f' { (x | 32) - b'a' + 10 } else { return Err(e) };
            v = v.saturating_mul(if hex { 16 } else { 10 }).saturating_add(k as u32);
            i += 1;
        }
        if i == s || i >= d.len() || !push_scalar(out, v) { return Err(e); }
        return Ok(i + 1);
    }
    for (n, c) in [("amp;", b'&'), ("lt;", b'<'), ("gt;", b'>'), ("quot;", b'"'), ("apos;", b'\'')] {
        if d[i..].starts_with(n.as_bytes()) { out.push(c); return Ok(i + n.len()); }
    }
    Err("unknown entity")
}

fn legal(b: u8) -> bool { b >= 0x20 || b == 9 || b == 10 || b == 13 }

/// Parses a whole document; an error says which rule of XML 1.0 (with namespaces) it breaks.
pub fn parse(d: &[u8]) -> Result<Doc, &'static str> {
    let mut nodes: Vec<Node> = Vec::new();
    let mut cur = NONE;
    let mut root_done = false;
    let mut scopes: Vec<Vec<String>> = Vec::new();
    let mut i = 0;
    if d.starts_with(&[0xef, 0xbb, 0xbf]) { i = 3; }
    while i < d.len() {
        if d[i] != b'<' {
            let start = i;
            if cur == NONE {
                while i < d.len() && d[i] != b'<' { if !ws(d[i]) { return Err("text outside the root"); } i += 1; }
                continue;
            }
            while i < d.len() && d[i] != b'<' {
                if d[i] == b'&' {
                    let mut o = Vec::new();
                    i = reference(d, i + 1, &mut o)?;
                    nodes[cur].add(&o, false);
                } else {
                    if !legal(d[i]) { return Err("character that XML does not allow"); }
                    if d[i] == b'>' && i >= start + 2 && d[i - 1] == b']' && d[i - 2] == b']' { return Err("]]> in text"); }
                    let s = i;
                    i += 1;
                    while i < d.len() && d[i] != b'<' && d[i] != b'&' && d[i] != b'>' && legal(d[i]) { i += 1; }
                    nodes[cur].add(&d[s..i], true);
                }
            }
            continue;
        }
        // markup
        if i + 1 >= d.len() { return Err("unfinished tag"); }
        match d[i + 1] {
            b'?' => {
                let mut k = i + 2;
                while k + 1 < d.len() && !(d[k] == b'?' && d[k + 1] == b'>') { k += 1; }
                if k + 1 >= d.len() { return Err("unfinished processing instruction"); }
                let mut t = i + 2;
                if t >= k || !name_start(d[t]) { return Err("processing instruction without a name"); }
                while t < k && name_char(d[t]) { if d[t] == b':' { return Err("bad name of a processing instruction"); } t += 1; }
                if t < k && !ws(d[t]) { return Err("bad processing instruction"); }
                if t == i + 5 && d[i + 2] | 32 == b'x' && d[i + 3] | 32 == b'm' && d[i + 4] | 32 == b'l' && !(d[i + 2..k].starts_with(b"xml version=")) { return Err("bad XML declaration"); }
                for b in &d[t..k] { if !legal(*b) { return Err("character that XML does not allow"); } }
                if d[i + 2..k].starts_with(b"xml ") && i != 0 && !(i == 3 && d[0] == 0xef) { return Err("XML declaration not at the start"); }
                i = k + 2;
            }
            b'!' => {
                if d[i..].starts_with(b"<!--") {
                    let mut k = i + 4;
                    while k + 2 < d.len() && !(d[k] == b'-' && d[k + 1] == b'-') { k += 1; }
                    if k + 2 >= d.len() || d[k + 2] != b'>' { return Err("bad comment"); }
                    for b in &d[i + 4..k] { if !legal(*b) { return Err("character that XML does not allow"); } }
                    i = k + 3;
                } else if d[i..].starts_with(b"<![CDATA[") {
                    if cur == NONE { return Err("CDATA outside the root"); }
                    let s = i + 9;
                    let mut k = s;
                    while k + 2 < d.len() && !(d[k] == b']' && d[k + 1] == b']' && d[k + 2] == b'>') { k += 1; }
                    if k + 2 >= d.len() { return Err("unfinished CDATA"); }
                    for b in &d[s..k] { if !legal(*b) { return Err("character that XML does not allow"); } }
                    nodes[cur].add(&d[s..k], false);
                    i = k + 3;
                } else { return Err("declaration not expected here"); }
            }
            b'/' => {
                let s = i + 2;
                let mut k = s;
                while k < d.len() && name_char(d[k]) { k += 1; }
                if cur == NONE || nodes[cur].name.as_bytes() != &d[s..k] { return Err("mismatched end tag"); }
                while k < d.len() && ws(d[k]) { k += 1; }
                if k >= d.len() || d[k] != b'>' { return Err("bad end tag"); }
                scopes.pop();
                cur = nodes[cur].parent;
                if cur == NONE { root_done = true; }
                i = k + 1;
            }
            c => {
                if !name_start(c) { return Err("bad start tag"); }
                if cur == NONE && root_done { return Err("second root"); }
                let s = i + 1;
                let mut k = s;
                while k < d.len() && name_char(d[k]) { k += 1; }
                let name = unsafe { String::from_utf8_unchecked(d[s..k].to_vec()) };
                let mut attrs: Vec<(String, Vec<u8>)> = Vec::new();
                let empty;
                loop {
                    let before = k;
                    while k < d.len() && ws(d[k]) { k += 1; }
                    if k >= d.len() { return Err("unfinished tag"); }
                    if d[k] == b'>' { k += 1; empty = false; break; }
                    if d[k] == b'/' {
                        if k + 1 >= d.len() || d[k + 1] != b'>' { return Err("bad empty tag"); }
                        k += 2; empty = true; break;
                    }
                    if before == k { return Err("no space before an attribute"); }
                    if !name_start(d[k]) { return Err("bad attribute name"); }
                    let s = k;
                    while k < d.len() && name_char(d[k]) { k += 1; }
                    let an = unsafe { String::from_utf8_unchecked(d[s..k].to_vec()) };
                    while k < d.len() && ws(d[k]) { k += 1; }
                    if k >= d.len() || d[k] != b'=' { return Err("attribute without value"); }
                    k += 1;
                    while k < d.len() && ws(d[k]) { k += 1; }
                    if k >= d.len() || (d[k] != b'"' && d[k] != b'\'') { return Err("attribute value not quoted"); }
                    let q = d[k];
                    k += 1;
                    let mut val = Vec::new();
                    loop {
                        if k >= d.len() { return Err("unfinished attribute value"); }
                        let b = d[k];
                        if b == q { k += 1; break; }
                        if b == b'<' { return Err("< in an attribute value"); }
                        if b == b'&' { k = reference(d, k + 1, &mut val)?; continue; }
                        if !legal(b) { return Err("character that XML does not allow"); }
                        val.push(b);
                        k += 1;
                    }
                    if attrs.iter().any(|(n, _)| *n == an) { return Err("duplicate attribute"); }
                    attrs.push((an, val));
                }
                let mut sc = Vec::new();
                for (n, v) in &attrs {
                    if let Some(p) = n.strip_prefix("xmlns:") {
                        if v.is_empty() || p.is_empty() { return Err("empty namespace"); }
                        sc.push(p.to_string());
                    }
                }
                scopes.push(sc);
                for n in std::iter::once(&name).chain(attrs.iter().map(|a| &a.0)) {
                    if n.starts_with("xmlns") { continue; }
                    if let Some(c) = n.find(':') {
                        let p = &n[..c];
                        if c == 0 || c + 1 == n.len() || n[c + 1..].contains(':') { return Err("bad qualified name"); }
                        if p != "xml" && !scopes.iter().any(|s| s.iter().any(|x| x == p)) { return Err("undeclared namespace prefix"); }
                    }
                }
                let id = nodes.len();
                nodes.push(Node { name, attrs, parent: cur, text: Vec::new(), kids: Vec::new(), segs: Vec::new() });
                if cur != NONE { nodes[cur].kids.push(id); }
                if empty {
                    scopes.pop();
                    if cur == NONE { root_done = true; }
                } else { cur = id; }
                i = k;
            }
        }
    }
    if cur != NONE { return Err("element not closed"); }
    if !root_done { return Err("no root"); }
    Ok(Doc { nodes })
}

impl Doc {
    pub fn local(&self, i: usize) -> &str {
        let n = &self.nodes[i].name;
        match n.find(':') { Some(c) => &n[c + 1..], None => n }
    }
    pub fn attr(&self, i: usize, a: &str) -> Option<&[u8]> { self.nodes[i].attrs.iter().find(|x| x.0 == a).map(|x| &x.1[..]) }
    pub fn attr_str(&self, i: usize, a: &str) -> Option<&str> { self.attr(i, a).map(|b| unsafe { std::str::from_utf8_unchecked(b) }) }
    /// All elements with this qualified name, in document order.
    pub fn all(&self, name: &str) -> Vec<usize> { (0..self.nodes.len()).filter(|&i| self.nodes[i].name == name).collect() }
    pub fn within(&self, mut i: usize, top: usize) -> bool {
        loop {
            if i == top { return true; }
            if i == NONE { return false; }
            i = self.nodes[i].parent;
        }
    }
    /// Elements with this name below `top`, in document order.
    pub fn below(&self, top: usize, name: &str) -> Vec<usize> { (top..self.nodes.len()).filter(|&i| self.nodes[i].name == name && self.within(i, top)).collect() }
    pub fn kid(&self, top: usize, name: &str) -> Option<usize> { self.nodes[top].kids.iter().copied().find(|&i| self.nodes[i].name == name) }
    pub fn kids(&self, top: usize, name: &str) -> Vec<usize> { self.nodes[top].kids.iter().copied().filter(|&i| self.nodes[i].name == name).collect() }
    /// Concatenated text of the `name` elements below `top`.
    pub fn text_of(&self, top: usize, name: &str) -> Vec<u8> {
        let mut o = Vec::new();
        for i in self.below(top, name) { o.extend_from_slice(&self.nodes[i].text); }
        o
    }
    pub fn text(&self, i: usize) -> &[u8] { &self.nodes[i].text }
    /// Text before each child and after the last.
    pub fn pieces(&self, i: usize) -> Vec<(Vec<u8>, bool)> {
        let x = &self.nodes[i];
        let mut v: Vec<(Vec<u8>, bool)> = (0..=x.kids.len()).map(|_| (Vec::new(), true)).collect();
        let mut a = 0;
        for &(k, e, literal) in &x.segs { v[k].0.extend_from_slice(&x.text[a..e]); v[k].1 &= literal; a = e; }
        v
    }
    /// Whether the text of an element is only layout: blanks between elements and nothing else.
    fn layout(&self, i: usize) -> bool {
        if self.nodes[i].kids.is_empty() || !self.pieces(i).iter().all(|p| p.1 && p.0.iter().all(|&b| ws(b))) { return false; }
        let mut k = i;
        while k != NONE { if let Some(v) = self.attr(k, "xml:space") { return v != b"preserve"; } k = self.nodes[k].parent; }
        true
    }
    /// The same elements, attributes and texts, apart from blanks that only lay out elements.
    pub fn says(&self, o: &Doc) -> bool {
        self.nodes.len() == o.nodes.len() && (0..self.nodes.len()).all(|i| {
            let (a, b) = (&self.nodes[i], &o.nodes[i]);
            let at = |x: &(String, Vec<u8>), l: &[(String, Vec<u8>)]| l.iter().any(|y| x.0 == y.0 && crate::sx::same(&x.1, &y.1));
            a.name == b.name && a.parent == b.parent && a.attrs.len() == b.attrs.len() && a.attrs.iter().all(|x| at(x, &b.attrs))
                && (self.layout(i) && o.pieces(i).iter().all(|p| p.0.iter().all(|&b| ws(b)))
                    || { let (x, y) = (self.pieces(i), o.pieces(i)); x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| crate::sx::same(&p.0, &q.0)) })
        })
    }
}

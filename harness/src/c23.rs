//! C23: inline formatting.
use crate::sx::*;
use crate::xml;
use ppt_rs::generator::slide::formatting::*;
use ppt_rs::generator::slide::generate_rich_text_runs;

const MARKS: &[u8] = b"*_`a b";
#[derive(Clone, Copy, PartialEq)]
struct Ch { b: u8, bold: bool, italic: bool, code: bool }
enum Tok { Byte(u8), Code(Vec<u8>), Mark(usize) }
/// What a text says: markers come in pairs of the same kind, code between backticks is taken as it is.
fn meaning(t: &[u8]) -> Vec<Ch> {
    let mut toks = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if c == b'`' {
            match t[i + 1..].iter().position(|x| *x == b'`') {
                Some(k) => { toks.push(Tok::Code(t[i + 1..i + 1 + k].to_vec())); i += k + 2; }
                None => { toks.push(Tok::Byte(c)); i += 1; }
            }
        } else if c == b'*' || c == b'_' {
            let double = t.get(i + 1) == Some(&c);
            toks.push(Tok::Mark(if double { 0 } else { 2 } + (c == b'_') as usize));
            i += 1 + double as usize;
        } else { toks.push(Tok::Byte(c)); i += 1; }
    }
    let mut out = Vec::new();
    let mut on = [false; 4];
    for k in 0..toks.len() {
        let (bold, italic) = (on[0] || on[1], on[2] || on[3]);
        match &toks[k] {
            Tok::Byte(b) => out.push(Ch { b: *b, bold, italic, code: false }),
            Tok::Code(v) => for b in v { out.push(Ch { b: *b, bold: false, italic: false, code: true }); },
            Tok::Mark(m) => {
                if on[*m] || toks[k + 1..].iter().any(|t| matches!(t, Tok::Mark(x) if x == m)) { on[*m] = !on[*m]; }
                else { for _ in 0..if *m < 2 { 2 } else { 1 } { out.push(Ch { b: if m % 2 == 1 { b'_' } else { b'*' }, bold, italic, code: false }); } }
            }
        }
    }
    out
}
fn seen(s: &[TextSegment]) -> Vec<Ch> {
    let mut o = Vec::new();
    for x in s { for b in x.text.bytes() { o.push(Ch { b, bold: x.bold, italic: x.italic, code: x.code }); } }
    o
}
fn judge(t: &str) {
    let s = parse_inline_formatting(t);
    let w = meaning(t.as_bytes());
    check(!s.is_empty(), "a run");
    // a text of markers only is shown as it is, or shows nothing
    let g = seen(&s);
    if w.is_empty() { check(g.is_empty() || g.len() == t.len() && g.iter().zip(t.bytes()).all(|(a, b)| a.b == b && !a.bold && !a.italic), "a text of markers"); return; }
    check(g.len() == w.len(), "the number of characters");
    for (a, b) in g.iter().zip(&w) {
        check(a.b == b.b, "a character");
        check(a.code == b.code && (a.code || (a.bold == b.bold && a.italic == b.italic)), "its look");
    }
    if !t.bytes().any(|c| c == b'*' || c == b'_' || c == b'`') { check(s.len() == 1 && s[0].text == t && !s[0].bold && !s[0].italic && !s[0].code, "one plain run"); }
}

harnesses! {
    /// Every text of markers, letters and blanks.
    fn h_c23_marks() {
        let k = choose(n(8, 10));
        judge(&of_set(k, MARKS));
    }
    /// Texts of any characters with a marked part.
    fn h_c23_any() {
        let m = ["", "*", "_", "`", "**", "__", "***"][choose(7)];
        let mut v = Vec::new();
        if flag() { push_char(&mut v, 1 + choose(4)); }
        v.extend_from_slice(m.as_bytes());
        push_char(&mut v, 1 + choose(n(2, 4)));
        if flag() { v.extend_from_slice("é".as_bytes()); }
        v.extend_from_slice(m.as_bytes());
        if flag() { push_char(&mut v, 1 + choose(2)); }
        judge(unsafe { std::str::from_utf8_unchecked(&v) });
    }
    /// The runs written for a text: same characters, same look, with the look of the bullet.
    fn h_c23_runs() {
        let t = of_set(choose(n(6, 8)), b"*_`a<");
        let (b, i) = (flag(), flag());
        let col = [None, Some("ff00AA"), Some("#00ff00")][choose(3)];
        let x = format!("<p xmlns:a=\"u\">{}</p>", generate_rich_text_runs(&t, 1800, b, i, col));
        let d = match xml::parse(x.as_bytes()) { Ok(d) => d, Err(_) => { fail("not well formed"); return } };
        let w = meaning(t.as_bytes());
        let mut at = 0;
        for r in d.all("a:r") {
            let (Some(p), Some(s)) = (d.kid(r, "a:rPr"), d.kid(r, "a:t")) else { fail("a run without text"); return };
            let is = |n: &str| d.attr_str(p, n) == Some("1");
            check(d.attr_str(p, "sz") == Some("1800"), "the size");
            let code = !d.below(p, "a:latin").is_empty();
            if !code { check(d.below(p, "a:srgbClr").first().map(|e| d.attr_str(*e, "val").unwrap_or("").to_string()) == col.map(|c| c.trim_start_matches('#').to_uppercase()), "the colour"); }
            else { let k = &d.nodes[p].kids; check(k.iter().position(|e| d.nodes[*e].name == "a:latin") == Some(k.len() - 1), "the font after the fill"); }
            for c in d.text(s) {
                if !w.is_empty() {
                    check(at < w.len() && w[at].b == *c, "a character");
                    if at < w.len() {
                        check(w[at].code == code, "code");
                        if !code { check(is("b") == (b || w[at].bold) && is("i") == (i || w[at].italic), "the look"); }
                    }
                }
                at += 1;
            }
        }
        check(if w.is_empty() { at == t.len() || at == 0 } else { at == w.len() }, "every character");
    }
}

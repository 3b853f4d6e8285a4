//! C28: PDF export is a sound document that shows the texts of the slides.
use crate::sx::*;
use ppt_rs::api::Presentation;
use ppt_rs::export::slide_render::render_to_pdf_bytes;
use ppt_rs::generator::*;

/// An object: its dictionary as tokens, its stream.
struct Obj { dict: Vec<String>, stream: Option<Vec<u8>> }
impl Obj {
    fn get(&self, k: &str) -> Option<&str> { self.dict.iter().position(|t| t == k).and_then(|i| self.dict.get(i + 1)).map(|s| s.as_str()) }
    fn num(&self, k: &str) -> Option<usize> { self.get(k)?.parse().ok() }
    /// The numbers of the objects it refers to.
    fn refs(&self) -> Vec<usize> { self.dict.windows(3).filter(|w| w[2] == "R" && w[1] == "0").filter_map(|w| w[0].parse().ok()).collect() }
}
fn number(b: &[u8]) -> Option<usize> {
    let n = b.iter().take_while(|c| c.is_ascii_digit()).count();
    std::str::from_utf8(&b[..n]).ok()?.parse().ok()
}
fn find(b: &[u8], from: usize, w: &[u8]) -> Option<usize> { (from..=b.len().checked_sub(w.len())?).find(|&i| b[i..].starts_with(w)) }
/// The objects by number (1 is the first) and the number of the root.
fn open(b: &[u8]) -> Option<(Vec<Obj>, usize)> {
    let bad = |m: &str| { fail(m); None };
    if !b.starts_with(b"%PDF-1.") { return bad("the header"); }
    if !b.ends_with(b"%%EOF\n") { return bad("the end"); }
    let Some(s) = (0..b.len().saturating_sub(9)).rev().find(|&i| b[i..].starts_with(b"startxref")) else { return bad("no startxref") };
    let Some(x) = number(&b[s + 10..]) else { return bad("the place of the table") };
    if !b.get(x..).is_some_and(|b| b.starts_with(b"xref\n0 ")) { return bad("the table is elsewhere"); }
    let Some(n) = number(&b[x + 7..]) else { return bad("the size of the table") };
    let Some(at) = find(b, x + 7, b"\n") else { return bad("the table") };
    let at = at + 1;
    if !b.get(at..at + 20).is_some_and(|e| e == b"0000000000 65535 f \n") { return bad("the first entry"); }
    let mut v = vec![];
    for i in 1..n {
        let Some(e) = b.get(at + 20 * i..at + 20 * i + 20) else { return bad("an entry") };
        if &e[10..] != b" 00000 n \n" { return bad("an entry"); }
        let Some(o) = number(e) else { return bad("an entry") };
        let h = format!("{i} 0 obj\n");
        if !b.get(o..).is_some_and(|b| b.starts_with(h.as_bytes())) { return bad("an object is elsewhere"); }
        let o = o + h.len();
        let Some(end) = (o..b.len()).find(|&i| b[i..].starts_with(b"stream\n") || b[i..].starts_with(b"endobj\n")) else { return bad("an object without an end") };
        let d = String::from_utf8_lossy(&b[o..end]).replace(['[', ']'], " ");
        let mut obj = Obj { dict: d.split_whitespace().map(|s| s.to_string()).collect(), stream: None };
        if b[end..].starts_with(b"stream\n") {
            let (Some(l), s) = (obj.num("/Length"), end + 7) else { return bad("a stream without a length") };
            if !b.get(s + l..).is_some_and(|b| b.starts_with(b"\nendstream\nendobj\n")) { return bad("the length of a stream"); }
            obj.stream = Some(b[s..s + l].to_vec());
        }
        v.push(obj);
    }
    let t = String::from_utf8_lossy(&b[at + 20 * n..s]).to_string();
    let t = Obj { dict: t.split_whitespace().map(|s| s.to_string()).collect(), stream: None };
    check(t.dict.first().is_some_and(|t| t == "trailer"), "the trailer");
    check(t.num("/Size") == Some(n), "the size in the trailer");
    for o in &v { check(o.refs().iter().all(|r| *r > 0 && *r < n), "a reference to nothing"); }
    match t.num("/Root") { Some(r) if r > 0 && r < n => Some((v, r)), _ => bad("no root") }
}

/// A text shown.
struct Show { font: String, size: f64, x: f64, y: f64, rgb: [f64; 3], text: Vec<u8> }
fn decimal(t: &str) -> f64 {
    let (s, t) = match t.strip_prefix('-') { Some(t) => (-1.0, t), None => (1.0, t) };
    let (a, b) = t.split_once('.').unwrap_or((t, ""));
    let mut v = 0.0;
    for c in a.bytes() { v = v * 10.0 + (c - b'0') as f64; }
    let mut d = 0.1;
    for c in b.bytes() { v += (c - b'0') as f64 * d; d /= 10.0; }
    s * v
}
/// The texts a page shows.
fn shows(s: &[u8]) -> Option<Vec<Show>> {
    let (mut i, mut args, mut text) = (0, Vec::<String>::new(), None);
    let (mut font, mut size, mut x, mut y, mut rgb, mut inside) = (String::new(), 0.0, 0.0, 0.0, [0.0; 3], false);
    let mut v = vec![];
    while i < s.len() {
        let c = s[i];
        if c == b' ' || c == b'\n' { i += 1; continue; }
        if c == b'(' {
            let (mut t, mut depth) = (vec![], 1);
            i += 1;
            loop {
                if i >= s.len() { fail("a text without an end"); return None; }
                let c = s[i];
                i += 1;
                if c == b'\\' {
                    let Some(&e) = s.get(i) else { fail("a text without an end"); return None };
                    if e.is_ascii_digit() {
                        let mut n = 0u32;
                        for _ in 0..3 { if s.get(i).is_some_and(|c| (b'0'..=b'7').contains(c)) { n = n * 8 + (s[i] - b'0') as u32; i += 1; } }
                        t.push(n as u8);
                    } else {
                        i += 1;
                        t.push(match e { b'n' => b'\n', b'r' => b'\r', b't' => b'\t', b'b' => 8, b'f' => 12, c => c });
                    }
                    continue;
                }
                if c == b'(' { depth += 1; }
                if c == b')' { depth -= 1; if depth == 0 { break; } }
                t.push(c);
            }
            text = Some(t);
            continue;
        }
        let b = i;
        while i < s.len() && s[i] != b' ' && s[i] != b'\n' { i += 1; }
        let t = String::from_utf8_lossy(&s[b..i]).to_string();
        if t.starts_with('/') || t.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.') { args.push(t); continue; }
        let k = args.len();
        match &t[..] {
            "rg" if k == 3 => for j in 0..3 { rgb[j] = decimal(&args[j]); check((0.0..=1.0).contains(&rgb[j]), "a colour"); },
            "Tf" if k == 2 => { font = args[0].clone(); size = decimal(&args[1]); }
            "BT" if k == 0 && !inside => { inside = true; x = 0.0; y = 0.0; }
            "ET" if k == 0 && inside => inside = false,
            "Td" if k == 2 && inside => { x += decimal(&args[0]); y += decimal(&args[1]); }
            "Tj" if k == 0 && inside => match text.take() { Some(t) => v.push(Show { font: font.clone(), size, x, y, rgb, text: t }), None => { fail("no text to show"); return None; } },
            "re" if k == 4 => {}
            "m" | "l" if k == 2 => {}
            "w" if k == 1 => {}
            "f" | "S" if k == 0 => {}
            _ => { fail("an operator"); print(&t); return None; }
        }
        args.clear();
    }
    check(!inside && text.is_none() && args.is_empty(), "the end of a page");
    Some(v)
}
/// The texts of each page, in order.
fn pages(p: &Presentation) -> Option<Vec<Vec<Show>>> {
    let Ok(b) = render_to_pdf_bytes(p) else { fail("no document"); return None };
    let (o, root) = open(&b)?;
    let at = |i: usize| &o[i - 1];
    check(at(root).get("/Type") == Some("/Catalog"), "the catalog");
    let Some(tree) = at(root).num("/Pages") else { fail("no pages"); return None };
    let t = at(tree);
    check(t.get("/Type") == Some("/Pages"), "the pages");
    let kids = t.refs();
    check(t.num("/Count") == Some(kids.len()) && kids.len() == p.slides().len(), "a page for each slide");
    let mut v = vec![];
    for k in kids {
        let g = at(k);
        check(g.get("/Type") == Some("/Page") && g.num("/Parent") == Some(tree), "a page");
        let Some(s) = g.num("/Contents").and_then(|c| at(c).stream.as_ref()) else { fail("a page without contents"); return None };
        let s = shows(s)?;
        for w in &s {
            let Some(f) = g.num(&w.font) else { fail("a font the page does not have"); return None };
            check(at(f).get("/Type") == Some("/Font") && at(f).get("/BaseFont") == Some(&w.font), "a font");
            check(at(f).get("/Encoding") == Some("/WinAnsiEncoding"), "the encoding of a font");
        }
        v.push(s);
    }
    Some(v)
}
/// A text in the encoding of the fonts.
fn ansi(t: &str) -> Vec<u8> {
    t.chars().map(|c| match c {
        ' '..='~' | '\u{a0}'..='\u{ff}' => c as u32 as u8,
        c => [('€', 0x80), ('‚', 0x82), ('ƒ', 0x83), ('„', 0x84), ('…', 0x85), ('†', 0x86), ('‡', 0x87), ('ˆ', 0x88), ('‰', 0x89), ('Š', 0x8a), ('‹', 0x8b), ('Œ', 0x8c), ('Ž', 0x8e), ('‘', 0x91), ('’', 0x92), ('“', 0x93), ('”', 0x94), ('•', 0x95), ('–', 0x96), ('—', 0x97), ('˜', 0x98), ('™', 0x99), ('š', 0x9a), ('›', 0x9b), ('œ', 0x9c), ('ž', 0x9e), ('Ÿ', 0x9f)].iter().find(|p| p.0 == c).map(|p| p.1).unwrap_or(b'?'),
    }).collect()
}
fn letters(i: usize) -> String { ((b'a' + (i % 26) as u8) as char).to_string().repeat(i / 26 + 1) }
fn roman(mut n: usize) -> String {
    let mut s = String::new();
    for (v, t) in [(50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")] { while n >= v { s.push_str(t); n -= v; } }
    s
}
fn sign(s: BulletStyle, i: usize) -> String {
    match s {
        BulletStyle::Bullet => "•".into(),
        BulletStyle::Number => format!("{}.", i + 1),
        BulletStyle::LetterLower => letters(i) + ".",
        BulletStyle::LetterUpper => letters(i).to_uppercase() + ".",
        BulletStyle::RomanLower => roman(i + 1),
        BulletStyle::RomanUpper => roman(i + 1).to_uppercase(),
        BulletStyle::Custom(c) => c.to_string(),
        BulletStyle::None => String::new(),
    }
}
fn counts(s: BulletStyle) -> bool { !matches!(s, BulletStyle::Bullet | BulletStyle::Custom(_) | BulletStyle::None) }
/// The texts below the title, as far as they fit.
fn below(c: &SlideContent) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    for b in &c.bullets {
        let s = sign(b.style, i);
        if counts(b.style) { i += 1; }
        if !s.is_empty() { v.push(ansi(&s)); }
        v.push(ansi(&b.text));
    }
    if c.bullets.is_empty() { for t in &c.content { v.push(ansi(t)); } }
    for b in &c.code_blocks { for l in b.code.lines() { v.push(ansi(l)); } }
    v
}
/// Judges the texts of a document; `whole` slides have room for everything.
fn judge(p: &Presentation, whole: bool) -> Option<Vec<Vec<Show>>> {
    let v = pages(p)?;
    for (i, (g, c)) in v.iter().zip(p.slides()).enumerate() {
        if g.len() < 2 { fail("a page without its title and number"); return None; }
        check(same(&g[0].text, &ansi(&c.title)), "the title of a page");
        check(same(&g[g.len() - 1].text, format!("{} / {}", i + 1, p.slides().len()).as_bytes()), "the number of a page");
        let (a, w) = (&g[1..g.len() - 1], below(c));
        check(if whole { a.len() == w.len() } else { a.len() <= w.len() }, "the texts of a page");
        for (s, w) in a.iter().zip(&w) { check(same(&s.text, w), "a text of a page"); }
        for s in g { check(s.y >= 0.0 && s.y <= 612.0, "a text below or above the page"); }
        for s in a.windows(2) { check(s[0].y >= s[1].y, "texts in order"); }
    }
    Some(v)
}
fn face(bold: bool, italic: bool) -> &'static str {
    match (bold, italic) { (false, false) => "/Helvetica", (true, false) => "/Helvetica-Bold", (false, true) => "/Helvetica-Oblique", (true, true) => "/Helvetica-BoldOblique" }
}
fn close(a: [f64; 3], b: [u8; 3]) -> bool { a.iter().zip(b).all(|(a, b)| (a * 255.0 - b as f64).abs() < 0.5) }
const COLORS: [(&str, [u8; 3]); 3] = [("FF8000", [255, 128, 0]), ("#0a1B2c", [10, 27, 44]), ("ffffff", [255; 3])];
const CONTENT: [SlideLayout; 3] = [SlideLayout::TitleAndContent, SlideLayout::TitleAndBigContent, SlideLayout::TwoColumn];
const STYLES: [BulletStyle; 8] = [BulletStyle::Bullet, BulletStyle::Number, BulletStyle::LetterLower, BulletStyle::LetterUpper, BulletStyle::RomanLower, BulletStyle::RomanUpper, BulletStyle::Custom('('), BulletStyle::None];
fn code(mut c: SlideContent, t: &str) -> SlideContent { c.code_blocks.push(CodeBlock::new(t, "x")); c }
fn one(c: SlideContent) -> Presentation { Presentation::with_title("P").add_slide(c) }
/// A slide with a text in one of the places for texts.
fn holding(t: &str) -> SlideContent {
    let c = SlideContent::new("title").layout(CONTENT[choose(3)]);
    match choose(5) {
        0 => SlideContent::new(t).layout([SlideLayout::TitleAndContent, SlideLayout::CenteredTitle][choose(2)]),
        1 => c.add_bullet("before").add_bullet(t).add_bullet("after"),
        2 => { let mut c = c; c.content = vec!["before".into(), t.to_string()]; c }
        3 => code(c.add_bullet("b"), &format!("{t}\nmore")),
        _ => c.add_styled_bullet(t, BulletStyle::None).add_sub_bullet(t),
    }
}

harnesses! {
    fn h_c28_texts() {
        let t = printable(n(2, 3));
        judge(&one(holding(&t)), true);
    }
    /// The characters the fonts have beyond ASCII.
    fn h_c28_signs() {
        let t = if flag() {
            let b = byte();
            assume(b >= 0xa0);
            (conc(b as u64) as u8 as char).to_string()
        } else { "€‚ƒ„…†‡ˆ‰Š‹ŒŽ‘’“”•–—˜™š›œžŸ".chars().nth(choose(27)).unwrap().to_string() };
        judge(&one(holding(&format!("a{t}1"))), true);
    }
    /// Other characters leave a mark.
    fn h_c28_others() {
        let mut v = vec![];
        push_char(&mut v, 3 + choose(2));
        let t = unsafe { String::from_utf8_unchecked(v) };
        let c = t.chars().next().unwrap();
        assume(c as u32 > 0x2200);
        judge(&one(SlideContent::new(&t).add_bullet(&format!("x{t}"))), true);
    }
    fn h_c28_looks() {
        let (mut c, mut tb, mut ti) = (SlideContent::new("t").layout([SlideLayout::TitleAndContent, SlideLayout::CenteredTitle, SlideLayout::SectionHeader, SlideLayout::TwoColumn][choose(4)]), true, false);
        let (mut ts, mut tc) = (None, None);
        let k = choose(n(3, 4));
        if k == 0 || k == 3 {
            tb = flag();
            ti = flag();
            c = c.title_bold(tb).title_italic(ti).title_underline(flag());
            if flag() { let s = [1, 37, 200][choose(3)]; c = c.title_size(s); ts = Some(s); }
            if flag() { let x = COLORS[choose(3)]; c = c.title_color(x.0); tc = Some(x.1); }
        }
        let (mut cb, mut ci, mut cs, mut cc) = (false, false, 0, None);
        if k == 1 || k == 3 {
            cb = flag();
            ci = flag();
            c = c.content_bold(cb).content_italic(ci);
            if flag() { cs = [1, 37][choose(2)]; c = c.content_size(cs); }
            if flag() { let x = COLORS[choose(3)]; c = c.content_color(x.0); cc = Some(x.1); }
        }
        c = c.add_bullet("a").add_bullet("b");
        let (mut bb, mut bi, mut bs, mut bc) = (cb, ci, cs, cc);
        if k == 2 || k == 3 {
            let mut f = BulletTextFormat::new();
            if flag() { f = f.bold(); bb = true; }
            if flag() { f = f.italic(); bi = true; }
            if flag() { bs = [3, 50][choose(2)]; f = f.font_size(bs); }
            if flag() { let x = COLORS[choose(3)]; f = f.color(x.0); bc = Some(x.1); }
            c.bullets[1].format = Some(f);
        }
        let Some(v) = judge(&one(c), true) else { return };
        let look = |s: &Show, b: bool, i: bool, z: Option<u32>, c: Option<[u8; 3]>| {
            check(s.font == face(b, i), "bold and italic");
            if let Some(z) = z { check((s.size - z as f64 * 0.75).abs() < 0.01, "the size"); }
            if let Some(c) = c { check(close(s.rgb, c), "the colour"); }
        };
        let s = &v[0];
        if s.len() != 6 { fail("two bullets"); return; }
        look(&s[0], tb, ti, ts, tc);
        for i in [1, 2] { look(&s[i], cb, ci, (cs > 0).then_some(cs), cc); }
        for i in [3, 4] { look(&s[i], bb, bi, (bs > 0).then_some(bs), bc); }
    }
    /// Anything may be given as a colour.
    fn h_c28_colors() {
        let t = match choose(5) {
            0 => { let a = byte(); assume(a < 128); format!("{}12{}45", conc(a as u64) as u8 as char, ['f', '+', '\u{0}', 'g'][choose(4)]) }
            1 => format!("{}1234", ['é', 'ß', 'ŉ', '\u{7ff}'][choose(4)]),
            2 => format!("#1{}34", ['中', 'ﬁ', '\u{ffff}'][choose(3)]),
            3 => format!("12{}", ['😀', '\u{10ffff}'][choose(2)]),
            _ => "#".repeat(choose(9)),
        };
        let mut c = SlideContent::new("t").add_bullet("a");
        match choose(3) { 0 => c = c.title_color(&t), 1 => c = c.content_color(&t), _ => c.bullets[0].format = Some(BulletTextFormat::new().color(&t)) }
        judge(&one(c), true);
    }
    fn h_c28_styles() {
        let (a, b) = (STYLES[choose(8)], STYLES[choose(8)]);
        let (l, m) = (choose(3) as u32, choose(3) as u32);
        let mut c = SlideContent::new("t").layout(CONTENT[choose(3)]);
        c.bullets.push(BulletPoint::new("a").with_style(a).with_level(l));
        // A list that changes its style starts anew or goes on: only one counts here.
        c.bullets.push(BulletPoint::new("b").with_style(if counts(a) && counts(b) { a } else { b }).with_level(m));
        let same = c.bullets[1].style == a;
        let Some(v) = judge(&one(c), true) else { return };
        let x = |t: &[u8]| v[0][1..].iter().find(|s| s.text == t).map(|s| s.x);
        let (Some(p), Some(q)) = (x(b"a"), x(b"b")) else { fail("two bullets"); return };
        if l < m && (same || a != BulletStyle::None) { check(p < q || !same, "deeper bullets are further in"); }
        if l == m && same { check(p == q, "bullets in line"); }
    }
    /// Lists longer than the alphabet.
    fn h_c28_lists() {
        let s = STYLES[1 + choose(5)];
        let k = byte();
        assume(k <= 56);
        let k = conc(k as u64);
        let mut c = SlideContent::new("t").content_size(6);
        for _ in 0..k { c = c.add_styled_bullet("x", s); }
        judge(&one(c), true);
    }
    /// What does not fit is left out from the end.
    fn h_c28_long() {
        let (k, m) = (byte(), byte());
        assume(k <= 40 && m <= 40 && (k == 0 || m == 0 || k == m));
        let (k, m) = (conc(k as u64), conc(m as u64));
        let mut c = SlideContent::new("t").content_size([1, 18, 60, 300][choose(4)]).title_size([1, 44, 300][choose(3)]);
        let plain = flag();
        for i in 0..k { if plain { c.content.push(format!("{i}")); } else { c = c.add_bullet(&format!("{i}")); } }
        let lines: Vec<String> = (0..m).map(|i| format!("c{i}")).collect();
        if m > 0 { c = code(c, &lines.join("\n")); }
        judge(&one(c), false);
    }
    fn h_c28_pages() {
        let k = choose(n(6, 13));
        let mut p = Presentation::with_title("P");
        for i in 0..k {
            let c = SlideContent::new(&format!("slide {i}")).layout(CONTENT[i % 3]);
            p = p.add_slide(match choose(if i < 3 { 3 } else { 1 }) { 0 => c, 1 => c.add_bullet("(a) \\"), _ => code(c.add_numbered("x"), "a\nb") });
        }
        if k == 0 { check(render_to_pdf_bytes(&p).is_err(), "a document without pages"); return; }
        judge(&p, true);
        if p.save_as_pdf("/x.pdf").is_err() { fail("not saved"); return; }
        check(std::fs::read("/x.pdf").ok() == render_to_pdf_bytes(&p).ok(), "the file is the document");
    }
}

//! C16: HTML export shows all text of the slides and lets none of it become markup.
use crate::deck::*;
use crate::sx::*;
use crate::xml;
use ppt_rs::api::Presentation;
use ppt_rs::export::html::*;
use ppt_rs::generator::*;

/// The page as (before the title, title, after it up to the body, body).
fn split(h: &str) -> Option<(&str, &str, &str, &str)> {
    let (a, r) = h.split_once("<title>")?;
    let (t, r) = r.split_once("</title>")?;
    let (m, b) = r.split_once("<body>")?;
    Some((a, t, m, b.strip_suffix("</html>")?))
}
fn body(h: &str) -> Option<(String, xml::Doc)> {
    let Some((_, t, _, b)) = split(h) else { fail("the page has no title and body"); return None };
    let (Ok(t), Ok(d)) = (xml::parse(format!("<t>{t}</t>").as_bytes()), xml::parse(format!("<body>{b}").as_bytes())) else { fail("the page is not well formed"); return None };
    check(t.nodes.len() == 1, "markup in the title");
    Some((unsafe { String::from_utf8_unchecked(t.text(0).to_vec()) }, d))
}
fn class<'a>(d: &'a xml::Doc, i: usize) -> &'a str { d.attr_str(i, "class").unwrap_or("") }
fn text_is(d: &xml::Doc, i: usize, t: &str, what: &str) { check(same(d.text(i), t.as_bytes()), what); }
/// Judges the page of a presentation.
fn page(p: &Presentation, o: &HtmlExportOptions) -> Option<String> {
    let Ok(h) = export_to_html_with_options(p, o) else { fail("cannot be exported"); return None };
    let (t, d) = body(&h)?;
    check(same_str(&t, p.get_title()), "the title of the page");
    let h1 = d.all("h1");
    check(h1.len() == 1, "one main heading");
    if let Some(&i) = h1.first() { text_is(&d, i, p.get_title(), "the main heading"); }
    let tops: Vec<usize> = (0..d.nodes.len()).filter(|&i| class(&d, i) == "slide").collect();
    check(tops.len() == p.slides().len(), "one part per slide");
    let mut count = [0usize; 5];
    for (s, &top) in p.slides().iter().zip(&tops) {
        let h2 = d.below(top, "h2");
        check(h2.len() == 1, "one heading per slide");
        if let Some(&i) = h2.first() { text_is(&d, i, &s.title, "the title of a slide"); }
        let li = d.below(top, "li");
        check(li.len() == s.content.len(), "one list item per bullet");
        for (&i, t) in li.iter().zip(&s.content) { text_is(&d, i, t, "a bullet"); }
        let rows: Vec<Vec<&TableCell>> = s.table.iter().flat_map(|t| &t.rows).map(|r| r.cells.iter().filter(|c| !c.h_merge && !c.v_merge).collect()).collect();
        let tr = d.below(top, "tr");
        check(tr.len() == rows.len(), "one row per row");
        for (&i, r) in tr.iter().zip(&rows) {
            let td: Vec<usize> = d.nodes[i].kids.clone();
            check(td.len() == r.len(), "one cell per cell");
            for (&i, c) in td.iter().zip(r) {
                text_is(&d, i, &c.text, "a table cell");
                check(d.attr_str(i, "colspan").unwrap_or("1") == c.grid_span.unwrap_or(1).to_string() && d.attr_str(i, "rowspan").unwrap_or("1") == c.row_span.unwrap_or(1).to_string(), "the span of a cell");
            }
        }
        let code = d.below(top, "code");
        check(code.len() == s.code_blocks.len() && d.below(top, "pre").len() == code.len(), "one code block per code block");
        for (&i, c) in code.iter().zip(&s.code_blocks) {
            text_is(&d, i, &c.code, "the code");
            if o.syntax_highlight { check(d.attr(i, "class").is_some_and(|x| same(x, format!("language-{}", c.language).as_bytes())), "the language"); }
        }
        let notes: Vec<usize> = (0..d.nodes.len()).filter(|&i| class(&d, i) == "speaker-notes" && d.within(i, top)).collect();
        check(notes.len() == (o.include_notes && s.notes.is_some()) as usize, "the notes, if asked for");
        if let (Some(&i), Some(t)) = (notes.first(), &s.notes) { let x = d.text(i); check(x.len() >= t.len() && same(&x[x.len() - t.len()..], t.as_bytes()) && x[..x.len() - t.len()].iter().all(|b| *b == b' '), "the notes"); }
        let img = d.below(top, "img");
        let have: Vec<&Image> = s.images.iter().filter(|i| i.get_bytes().is_some()).collect();
        check(img.len() == have.len(), "one picture per picture");
        for (&i, m) in img.iter().zip(&have) {
            check(d.attr(i, "alt").is_some_and(|a| same(a, m.filename.as_bytes())), "the name of a picture");
            let src = d.attr(i, "src").unwrap_or(b"");
            if !o.export_images_as_files {
                let Some(k) = src.iter().position(|c| *c == b',') else { fail("an embedded picture"); continue };
                check(src.starts_with(b"data:image/") && src[..k].ends_with(b";base64"), "an embedded picture");
                check(decoded(&src[k + 1..]).is_some_and(|b| same(&b, &m.get_bytes().unwrap())), "the bytes of a picture");
            } else {
                let dir = o.image_output_dir.as_ref().map(|d| format!("{d}/")).unwrap_or_default();
                check(src.len() > dir.len() && same(&src[..dir.len()], dir.as_bytes()), "the directory of a picture");
            }
        }
        // all text is in one of these places
        count[0] += h2.len(); count[1] += li.len(); count[2] += tr.len(); count[3] += code.len(); count[4] += img.len();
    }
    for (n, k) in ["h2", "li", "tr", "code", "img"].iter().zip(count) { check(d.all(n).len() == k, "something outside the slides"); }
    check((d.all("button").len() > 0) == o.enable_navigation, "the navigation, if asked for");
    Some(h)
}
/// Base64 as RFC 4648 has it.
fn decoded(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None; }
    let pad = s.iter().rev().take_while(|c| **c == b'=').count();
    let mut v = Vec::new();
    let val = |c: u8| -> u32 {
        let m = |b: bool| (b as u32).wrapping_neg();
        let c = c as u32;
        m((c >= 65) & (c <= 90)) & c.wrapping_sub(65) | m((c >= 97) & (c <= 122)) & c.wrapping_sub(71) | m((c >= 48) & (c <= 57)) & c.wrapping_add(4) | m(c == 43) & 62 | m(c == 47) & 63 | m(!((c >= 65) & (c <= 90) | (c >= 97) & (c <= 122) | (c >= 48) & (c <= 57) | (c == 43) | (c == 47) | (c == 61))) & 0x8000_0000
    };
    for q in s.chunks(4) {
        let x = (val(q[0]) << 18) | (val(q[1]) << 12) | (val(q[2]) << 6) | val(q[3]);
        v.extend_from_slice(&[(x >> 16) as u8, (x >> 8) as u8, x as u8]);
    }
    let l = v.len();
    v.truncate(l - pad.min(2));
    Some(v)
}
fn options() -> HtmlExportOptions {
    HtmlExportOptions::new().with_notes(flag()).with_navigation(flag()).with_syntax_highlight(flag()).with_image_files(flag(), [None, Some("out")][choose(2)])
}
fn code(mut s: SlideContent, c: &str, l: &str) -> SlideContent { s.code_blocks.push(CodeBlock::new(c, l)); s }
fn spread() -> Table {
    let mut t = Table::from_data(vec![vec!["a", "b", "c"], vec!["d", "e", "f"], vec!["g", "h", "i"]], vec![1000; 3], 0, 0);
    t.rows[0].cells[0].grid_span = Some(2); t.rows[0].cells[0].row_span = Some(2);
    t.rows[0].cells[1].h_merge = true; t.rows[1].cells[0].v_merge = true; t.rows[1].cells[1].h_merge = true; t.rows[1].cells[1].v_merge = true;
    t
}
fn slide(kind: usize) -> SlideContent {
    let t = SlideContent::new("Title");
    match kind {
        0 => t.add_bullet("a").add_numbered("b").add_sub_bullet("c").add_lettered("d").notes("n"),
        1 => t.table(table()).add_image(image(1, "png")).add_image(lost_image()).add_image(image(2, "jpeg")),
        2 => code(code(t, "fn main() {}\n  x", "rust"), "", "").table(spread()),
        3 => SlideContent::new("").notes(""),
        _ => code(t.add_bullet("").notes("a\nb").add_image(image(3, "gif")), "if (a < b && c) { \"x\" }", "c++").table(Table::from_data(vec![vec!["<b>"]], vec![1000], 0, 0)),
    }
}
/// Texts with what might be taken for markup.
fn text() -> String {
    match choose(n(4, 5)) {
        0 => xml_ascii(n(2, 3)),
        1 => format!("a{}b", of_set(n(2, 3), b"<>&\"'/;=- ")),
        2 => ["</h2><script>alert(1)</script>", "&amp;lt;b&gt;", "<!-- ", "]]>", "&#60;", "</title>", "</code></pre>", "<li>", "\" onload=\"x", "' x='", "<br/>", "a\nb", "<![CDATA[x]]>", "%3Cb%3E", "{}\\n"][choose(15)].to_string(),
        3 => { let t = chars(1); let b = t.as_bytes(); assume((b[0] >= 0x20) & (b[0] != 0x7f)); assume(b.len() != 3 || (b[0] != 0xef) || (b[1] != 0xbf) || (b[2] < 0xbe)); t }
        _ => format!("{}<{}", printable(1), printable(2)),
    }
}

harnesses! {
    /// Slides of every kind with every option.
    fn h_c16_slides() {
        let k = choose(n(2, 3));
        let mut p = Presentation::with_title("Deck");
        for _ in 0..k { p = p.add_slide(slide(choose(5))); }
        page(&p, &options());
    }
    /// Any text in any place.
    fn h_c16_texts() {
        let t = text();
        let s = SlideContent::new("T");
        let mut title = "Deck".to_string();
        let s = match choose(9) {
            0 => { title = t.clone(); s }
            1 => { let mut s = s; s.title = t.clone(); s }
            2 => s.add_bullet("x").add_bullet(&t),
            3 => s.notes(&t),
            4 => s.table(Table::from_data(vec![vec!["a", &t], vec!["c", "d"]], vec![1000; 2], 0, 0)),
            5 => code(s, &t, "rust"),
            6 => code(s, "x", &t),
            7 => s.add_image({ let mut i = image(1, "png"); i.filename = t.clone(); i }),
            _ => s.add_sub_bullet(&t),
        };
        let p = Presentation::with_title(&title).add_slide(s).add_slide(slide(0));
        let o = HtmlExportOptions::new().with_navigation(false);
        let o = if title != "T" && flag() { o.with_image_files(true, Some("a\"&<b")) } else { o };
        let Some(h) = page(&p, &o) else { return };
        // what is around the text is what it is with another text
        let q = Presentation::with_title("other").add_slide(SlideContent::new("x"));
        let other = export_to_html_with_options(&q, &o).unwrap();
        if let (Some(a), Some(b)) = (split(&h), split(&other)) { check(same_str(a.0, b.0) && same_str(a.2, b.2), "the head of the page"); }
    }
    /// Embedded pictures of any bytes.
    fn h_c16_pictures() {
        let b: Vec<u8> = (0..choose(n(6, 8))).map(|_| byte()).collect();
        let mut i = Image::from_bytes(b.clone(), 1, 1, ["PNG", "jpg", "svg", "gif"][choose(4)]);
        i.filename = "p".into();
        page(&Presentation::with_title("D").add_slide(SlideContent::new("T").add_image(i)), &HtmlExportOptions::new().with_navigation(false));
    }
    /// The file that is saved, and the options by default.
    fn h_c16_files() {
        let p = Presentation::with_title(&text()).add_slide(slide(choose(5)));
        let a = export_to_html(&p).unwrap();
        check(same_str(&a, &export_to_html_with_options(&p, &HtmlExportOptions::default()).unwrap()), "the default options");
        p.save_as_html("x.html").unwrap();
        check(same(&std::fs::read("x.html").unwrap(), a.as_bytes()), "the file");
        page(&p, &HtmlExportOptions::new());
    }
}

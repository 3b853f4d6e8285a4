//! C03: a created presentation reads back as it was written.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use crate::xml;
use ppt_rs::generator::*;
use ppt_rs::oxml::PresentationReader;

/// Text of `k` arbitrary printable characters; inline marks (C23) are left out, and blanks at the ends.
fn txt(k: usize) -> String {
    let mut v = Vec::new();
    for _ in 0..k {
        let b = byte();
        assume((0x20..0x7f).contains(&b) & (b != b'*') & (b != b'_') & (b != b'`') & (b != b'~'));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
const WORDS: [&str; 6] = ["a", "x < y & \"z\"", "é漢😀", " a  b ", "Title", "]]>&#65;"];
fn word() -> String { WORDS[choose(WORDS.len())].to_string() }
fn build(title: &str, s: &[SlideContent], w: usize) -> Vec<u8> {
    match w { 0 => eager(title, s, None), 1 => lazy(title, s.to_vec(), None), 2 => streamed(title, s, None), _ => create_pptx_with_content(title, s.to_vec()).unwrap() }
}
fn reader(b: &[u8]) -> Option<PresentationReader> {
    std::fs::write("x.pptx", b).unwrap();
    let r = PresentationReader::open("x.pptx");
    let _ = std::fs::remove_file("x.pptx");
    match r { Ok(r) => Some(r), Err(_) => { fail("the deck cannot be opened"); None } }
}
/// The text of the notes part that belongs to slide `i`.
fn notes_of(b: &[u8], i: usize) -> Option<Vec<u8>> {
    let p = open(b)?;
    let order = slide_order(&p)?;
    let path = order.get(i)?.clone();
    for r in p.rels(&rels_of(&path))? {
        if r.ty.ends_with("/notesSlide") {
            let d = xml::parse(p.get(&resolve(&path, &r.target)?)?).ok()?;
            let mut t = Vec::new();
            for x in &d.nodes { if x.name == "a:t" { t.extend_from_slice(&x.text); } }
            return Some(t);
        }
    }
    None
}
/// What the reader has to give for a slide.
fn compare(r: &PresentationReader, i: usize, c: &SlideContent) {
    let Ok(s) = r.get_slide(i) else { fail("the slide cannot be read"); return };
    if c.layout != SlideLayout::Blank {
        match &s.title { Some(t) => check(same_str(t, &c.title), "the title"), None => check(c.title.is_empty(), "a title") }
    }
    if !matches!(c.layout, SlideLayout::Blank | SlideLayout::TitleOnly) {
        check(s.body_text.len() == c.content.len(), "every bullet once");
        if s.body_text.len() == c.content.len() { for (a, b) in s.body_text.iter().zip(&c.content) { check(same_str(a, b), "the bullet"); } }
    }
    match &c.table {
        None => check(s.tables.is_empty(), "no table"),
        Some(t) => {
            check(s.tables.len() == 1, "one table");
            let Some(g) = s.tables.first() else { return };
            check(g.rows.len() == t.rows.len(), "the rows");
            for (a, b) in g.rows.iter().zip(&t.rows) {
                check(a.len() == b.cells.len(), "the cells of a row");
                for (a, b) in a.iter().zip(&b.cells) { check(same_str(&a.text, &b.text), "the cell text"); }
            }
        }
    }
}

harnesses! {
    /// One slide in every layout, texts of any characters.
    fn h_c03_slide() {
        let l = LAYOUTS[choose(7)].clone();
        let k = if l == SlideLayout::TitleAndContent { n(2, 3) } else { n(1, 2) };
        let mut s = SlideContent::new("T").layout(l);
        match choose(3) {
            0 => { s.title = txt(k); }
            1 => { s = s.add_bullet(&txt(k)).add_bullet("second"); }
            _ => { s.title = word(); for _ in 0..choose(3) { s = s.add_bullet(&word()); } }
        }
        let b = build("T", &[s.clone()], 0);
        let Some(r) = reader(&b) else { return };
        check(r.slide_count() == 1, "one slide");
        compare(&r, 0, &s);
    }
    /// Blanks: a text of blanks only, or with blanks at the ends.
    fn h_c03_blanks() {
        let l = [SlideLayout::TitleAndContent, SlideLayout::CenteredTitle, SlideLayout::TwoColumn][choose(3)].clone();
        let plain = l == SlideLayout::TitleAndContent;
        let mut t = of_set(2, b" \tx");
        if flag() { t.push(' '); }
        let mut s = SlideContent::new("T").layout(l);
        if !plain || flag() { s.title = t; } else { s = s.table(Table::from_data(vec![vec![&t]], vec![1000], 0, 0)); }
        let b = build("T", &[s.clone()], 0);
        let Some(r) = reader(&b) else { return };
        compare(&r, 0, &s);
    }
    /// Tables of all sizes up to 2 by 3 with texts of any characters, styled or not.
    fn h_c03_table() {
        let (h, w) = (1 + choose(2), 1 + choose(3));
        let mut rows = Vec::new();
        let (i, j) = (choose(h), choose(w));
        let sym = h == 2 && w == 2 && flag();
        let t = if sym { txt(n(1, 2)) } else { word() };
        let style = if sym { 1 } else { choose(4) };
        for y in 0..h {
            let mut r = Vec::new();
            for x in 0..w {
                let mut c = TableCell::new(&if (y, x) == (i, j) { t.clone() } else { format!("c{y}{x}") });
                if style & 1 == 1 { c = c.bold(); }
                if style & 2 == 2 { c = c.background_color("00FF00"); }
                r.push(c);
            }
            rows.push(TableRow::new(r));
        }
        let mut tb = TableBuilder::new(vec![100; w]);
        for r in rows { tb = tb.add_row(r); }
        let s = SlideContent::new("T").layout(if sym { SlideLayout::TitleAndContent } else { LAYOUTS[(h + 2 * w + style) % 7].clone() }).table(tb.build());
        let b = build("T", &[s.clone()], style);
        let Some(r) = reader(&b) else { return };
        compare(&r, 0, &s);
    }
    /// Decks of up to three slides of mixed contents by all writers: number, order, notes and the title of the document.
    fn h_c03_deck() {
        let k = 1 + choose(3);
        let w = choose(4);
        let mut v = Vec::new();
        for i in 0..k {
            let mut s = SlideContent::new(&format!("slide {}", (b'c' - i as u8) as char));
            match choose(n(4, 5)) {
                0 => s = s.add_bullet("one").add_bullet(&format!("b{i}")),
                1 => s = s.notes(&format!("note {i}")),
                2 => s = s.table(table()).notes(&format!("note {i}")),
                3 => s = s.add_chart(chart(ChartType::Line)).add_image(image(7, "png")).notes(&format!("note {i}")),
                _ => s = s.layout(SlideLayout::TwoColumn).add_bullet("l").add_bullet("r"),
            }
            v.push(s);
        }
        let b = build("The deck", &v, w);
        let Some(r) = reader(&b) else { return };
        check(r.slide_count() == k && r.info().slide_count == k, "the number of slides");
        check(r.info().title.as_deref() == Some("The deck"), "the title of the document");
        for (i, s) in v.iter().enumerate() {
            compare(&r, i, s);
            match (notes_of(&b, i), &s.notes) {
                (None, None) => {}
                (Some(t), Some(e)) => check(t.len() >= e.len() && t[..e.len()] == *e.as_bytes() || t.windows(e.len()).any(|x| x == e.as_bytes()), "the notes"),
                _ => fail("notes only where they were given"),
            }
        }
    }
    /// Long decks keep their order.
    fn h_c03_order() {
        let m = n(13, 25);
        let k = match choose(m + 1) { x if x == m => 112, x => 1 + x };
        let v: Vec<SlideContent> = (0..k).map(|i| { let s = SlideContent::new(&format!("s{i}")).layout(SlideLayout::TitleOnly); if i == 0 { s.notes("n") } else { s } }).collect();
        let b = build("T", &v, choose(3));
        let Some(r) = reader(&b) else { return };
        check(r.slide_count() == k, "the number of slides");
        for i in 0..r.slide_count() { check(r.get_slide(i).ok().and_then(|s| s.title) == Some(format!("s{i}")), "the order"); }
    }
    /// Notes and document title of any characters.
    fn h_c03_notes() {
        let t = txt(n(2, 3));
        if flag() {
            let b = build("T", &[SlideContent::new("a"), SlideContent::new("b").notes(&t)], choose(3));
            match notes_of(&b, 1) { Some(x) => { check(x.len() >= t.len() && same(&x[..t.len()], t.as_bytes()), "the notes") } None => fail("no notes") }
        } else {
            let b = build(&t, &[SlideContent::new("a")], choose(3));
            let Some(r) = reader(&b) else { return };
            match &r.info().title { Some(x) => check(same_str(x, &t), "the title of the document"), None => fail("no title") }
        }
    }
}

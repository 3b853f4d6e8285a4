//! C05: editing a presentation behaves like editing a list of slides.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use crate::xml;
use ppt_rs::generator::*;
use ppt_rs::oxml::{PresentationEditor, PresentationReader};

/// What a slide shows.
#[derive(Clone)]
struct It { title: String, bullet: String, notes: Option<String>, image: Option<u8>, chart: bool, table: bool, updated: bool }
fn plain(t: &str) -> It { It { title: t.into(), bullet: format!("b {t}"), notes: None, image: None, chart: false, table: false, updated: false } }
fn content(s: &It) -> SlideContent {
    let mut c = SlideContent::new(&s.title).add_bullet(&s.bullet);
    if let Some(x) = &s.notes { c = c.notes(x); }
    if let Some(b) = s.image { c = c.add_image(image(b, "png")); }
    if s.chart { c = c.add_chart(chart(ChartType::Bar)); }
    if s.table { c = c.table(table()); }
    c
}
fn start(kind: usize, k: usize) -> (Vec<It>, Vec<u8>) {
    let mut l: Vec<It> = (0..k).map(|i| plain(["s0", "s1", "s2", "s3"][i])).collect();
    if kind > 0 {
        for (i, s) in l.iter_mut().enumerate() {
            match (i + kind) % 3 { 0 => s.image = Some(9 + i as u8), 1 => s.notes = Some(format!("n{i}")), _ => { s.chart = true; s.notes = Some("same".into()); } }
        }
    }
    let c: Vec<SlideContent> = l.iter().map(content).collect();
    let set = match kind { 1 => None, 2 => Some(PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts)).embedded_fonts(fonts(1))), _ => None };
    let b = if kind == 3 { lazy("T", c, set) } else { eager("T", &c, set) };
    (l, b)
}
/// The same deck as another program may write it: other part names, other ids, slides listed in an order of their own.
fn foreign(b: &[u8], k: usize) -> Vec<u8> {
    let p = open(b).unwrap();
    let mut out = Vec::new();
    for (n, d) in p.parts {
        let mut n = n;
        let text = n.ends_with(".xml") || n.ends_with(".rels");
        let mut d = d;
        if text {
            let mut s = String::from_utf8(d).unwrap();
            // slideI becomes slide(10 - I)
            for i in 1..=k { let (a, b) = (format!("slides/slide{i}.xml"), format!("slides/slideX{}.xml", 10 - i)); s = s.replace(&a, &b); }
            s = s.replace("slides/slideX", "slides/slide");
            if n == "ppt/presentation.xml" || n == "ppt/_rels/presentation.xml.rels" {
                for i in (1..=k).rev() { s = s.replace(&format!("\"rId{}\"", i + 1), &format!("\"rId{}\"", 90 - i)); }
            }
            d = s.into_bytes();
        }
        for i in 1..=k {
            if n == format!("ppt/slides/slide{i}.xml") { n = format!("ppt/slides/slide{}.xml", 10 - i); break; }
            if n == format!("ppt/slides/_rels/slide{i}.xml.rels") { n = format!("ppt/slides/_rels/slide{}.xml.rels", 10 - i); break; }
        }
        out.push((n, d));
    }
    build(&out)
}
fn editor(b: &[u8]) -> Option<PresentationEditor> {
    std::fs::write("e.pptx", b).unwrap();
    let e = PresentationEditor::open("e.pptx");
    let _ = std::fs::remove_file("e.pptx");
    match e { Ok(e) => Some(e), Err(_) => { fail("the deck cannot be opened"); None } }
}
fn saved(e: &PresentationEditor) -> Vec<u8> {
    if e.save("o.pptx").is_err() { fail("the deck cannot be saved"); return vec![]; }
    let b = std::fs::read("o.pptx").unwrap();
    let _ = std::fs::remove_file("o.pptx");
    b
}
fn text(d: &xml::Doc) -> Vec<u8> { let mut t = Vec::new(); for x in &d.nodes { if x.name == "a:t" { t.extend_from_slice(&x.text); } } t }
/// The presentation part without its list of slides.
fn frame(p: &Pkg) -> Option<Vec<u8>> {
    let s = p.get("ppt/presentation.xml")?;
    let s = std::str::from_utf8(s).ok()?;
    let (a, b) = (s.find("<p:sldIdLst>")?, s.find("</p:sldIdLst>")?);
    Some([s[..a].as_bytes(), s[b..].as_bytes()].concat())
}
fn judge(e: &PresentationEditor, want: &[It], before: &Pkg) {
    check(e.slide_count() == want.len(), "the number of slides");
    for (i, w) in want.iter().enumerate() {
        match e.get_slide(i) { Ok(s) => check(s.title.as_deref().is_some_and(|t| same_str(t, &w.title)), "the title the editor gives"), Err(_) => fail("the editor gives no slide") }
    }
    check(e.get_slide(want.len()).is_err() && e.get_slide(usize::MAX).is_err(), "no slide behind the last");
    let b = saved(e);
    std::fs::write("r.pptx", &b).unwrap();
    let r = PresentationReader::open("r.pptx");
    let _ = std::fs::remove_file("r.pptx");
    let Ok(r) = r else { fail("the result cannot be opened"); return };
    check(r.slide_count() == want.len(), "the number of slides read");
    let Some(p) = open(&b) else { fail("not an archive"); return };
    closed_or_fail(&p, "the result");
    let Some(order) = slide_order(&p) else { fail("no order of slides"); return };
    check(order.len() == want.len(), "the number of slides listed");
    if order.len() != want.len() || r.slide_count() != want.len() { return; }
    for (i, w) in want.iter().enumerate() {
        let Ok(s) = r.get_slide(i) else { fail("a slide cannot be read"); return };
        check(s.title.as_deref().is_some_and(|t| same_str(t, &w.title)), "the title");
        if w.table { check(s.body_text.is_empty(), "a table takes the place of the bullets"); }
        else { check(s.body_text.len() == 1 && same_str(&s.body_text[0], &w.bullet), "the bullet"); }
        check(s.tables.len() == w.table as usize, "the table");
        // what hangs on the slide
        let rels = p.rels(&rels_of(&order[i])).unwrap_or_default();
        let parts = |ty: &str| -> Vec<String> { rels.iter().filter(|r| r.ty.ends_with(ty)).filter_map(|r| resolve(&order[i], &r.target)).collect() };
        check(parts("/slideLayout").len() == 1, "one layout");
        // an update may keep the notes and whatever else the slide had
        if w.updated { continue; }
        let n = parts("/notesSlide");
        check(n.len() == w.notes.is_some() as usize, "the notes");
        if let (Some(n), Some(t)) = (n.first(), &w.notes) {
            check(p.doc(n).is_some_and(|d| text(&d).starts_with(t.as_bytes())), "the text of the notes");
            let back = p.rels(&rels_of(n)).unwrap_or_default();
            check(back.iter().any(|r| r.ty.ends_with("/slide") && resolve(n, &r.target).as_deref() == Some(&order[i][..])), "the notes belong to their slide");
        }
        let m = parts("/image");
        check(m.len() == w.image.is_some() as usize, "the image");
        if let (Some(m), Some(b)) = (m.first(), w.image) { check(p.get(m) == Some(&[b][..]), "the bytes of the image"); }
        check(parts("/chart").len() == w.chart as usize, "the chart");
    }
    for (n, d) in &before.parts {
        let own = n.starts_with("ppt/slides/") || n.starts_with("ppt/notesSlides/") || n.starts_with("ppt/media/") || n.starts_with("ppt/charts/") || n.starts_with("ppt/embeddings/");
        if own || n == "[Content_Types].xml" || n == "ppt/_rels/presentation.xml.rels" || n == "docProps/app.xml" { continue; }
        if n == "ppt/presentation.xml" { check(frame(&p).is_some() && frame(&p) == frame(before), "the rest of the presentation part"); continue; }
        check(p.get(n).is_some_and(|x| x == &d[..]), "another part");
    }
}
/// An index inside, or one of the first and the last behind it.
fn index(k: usize) -> usize { let i = choose(k + 2); if i == k + 1 { usize::MAX } else { i } }
/// One operation; whether it was carried out.
fn step(e: &mut PresentationEditor, w: &mut Vec<It>, new: It, ops: &[usize], bad: bool) -> bool {
    let k = w.len();
    let op = ops[choose(ops.len())];
    // an operation that is to be refused is judged by what it leaves
    let inside = |k: usize| if bad { index(k) } else if k == 0 { 0 } else { choose(k) };
    let (i, j) = match op { 0 => (k, 0), 1 => (inside(k + 1), 0), 4 => (inside(k), inside(k)), _ => (inside(k), 0) };
    let ok = match op { 0 => true, 1 => i <= k, 4 => i < k && j < k, _ => i < k };
    let before = if ok { None } else { open(&saved(e)) };
    match op {
        0 => { let r = e.add_slide(content(&new)); check(r.is_ok_and(|i| i == k), "added at the end"); w.push(new); }
        1 => { let r = e.insert_slide(i, content(&new)); check(r.is_ok() == ok, "inserted if inside"); if ok { check(r.is_ok_and(|j| j == i), "where it was inserted"); w.insert(i, new); } }
        2 => { let r = e.remove_slide(i); check(r.is_ok() == ok, "removed if inside"); if ok { w.remove(i); } }
        3 => { let r = e.duplicate_slide(i); check(r.is_ok() == ok, "duplicated if inside"); if ok { check(r.is_ok_and(|j| j == i + 1), "where the copy is"); let c = w[i].clone(); w.insert(i + 1, c); } }
        4 => { let r = e.reorder_slide(i, j); check(r.is_ok() == ok, "moved if inside"); if ok { let x = w.remove(i); w.insert(j, x); } }
        _ => { let r = e.update_slide(i, content(&new)); check(r.is_ok() == ok, "updated if inside"); if ok { w[i] = new; w[i].updated = true; } }
    }
    if let Some(a) = before {
        check(e.slide_count() == k, "a refused operation changes nothing");
        if let Some(b) = open(&saved(e)) { check(a.parts.len() == b.parts.len() && a.parts.iter().all(|x| b.get(&x.0) == Some(&x.1[..])), "a refused operation changes nothing"); }
    }
    ok
}

harnesses! {
    /// Every history of operations on plain decks.
    fn h_c05_plain() {
        let (mut w, b) = start(0, choose(n(3, 4)));
        let Some(mut e) = editor(&b) else { return };
        let p = open(&b).unwrap();
        for i in 0..n(2, 3) { if !step(&mut e, &mut w, plain(["x", "y", "z"][i]), &[0, 1, 2, 3, 4, 5], i == 0) { return; } }
        judge(&e, &w, &p);
    }
    /// Slides with notes, pictures and charts, and decks with settings.
    fn h_c05_rich() {
        let kind = 1 + choose(3);
        let k = 2;
        let (mut w, b) = start(kind, k);
        let Some(mut e) = editor(&b) else { return };
        let p = open(&b).unwrap();
        for i in 0..n(2, 3) { if !step(&mut e, &mut w, plain(["x", "y", "z"][i]), if i == 0 { &[0, 2, 3] } else { &[1, 2, 3, 4] }, false) { return; } }
        judge(&e, &w, &p);
    }
    /// A deck whose parts and ids are named and ordered in another way.
    fn h_c05_foreign() {
        let k = 1 + choose(n(2, 3));
        let (mut w, b) = start([0, 1][choose(2)], k);
        let f = foreign(&b, k);
        let Some(mut e) = editor(&f) else { return };
        let p = open(&f).unwrap();
        for i in 0..n(1, 2) { if !step(&mut e, &mut w, plain(["x", "y"][i]), &[0, 1, 2, 3, 4, 5], true) { return; } }
        judge(&e, &w, &p);
    }
    /// A new presentation.
    fn h_c05_new() {
        let mut e = PresentationEditor::new();
        check(e.slide_count() == 0, "no slides");
        let p = open(&saved(&e)).unwrap();
        let mut w = Vec::new();
        for i in 0..choose(n(3, 4)) { if !step(&mut e, &mut w, plain(["x", "y", "z"][i]), &[0, 1, 2, 3], false) && !w.is_empty() { return; } }
        judge(&e, &w, &p);
    }
    /// Texts of any characters and tables.
    fn h_c05_texts() {
        let (mut w, b) = start(0, 1);
        let Some(mut e) = editor(&b) else { return };
        let p = open(&b).unwrap();
        let mut s = plain("q");
        if flag() { s.title = format!("t{}", printable(n(1, 2))); } else { s.bullet = format!("t{}", printable(n(1, 2))); }
        s.table = flag();
        step(&mut e, &mut w, s, &[0, 1, 5], false);
        judge(&e, &w, &p);
    }
    /// New slides with notes, pictures, charts and links.
    fn h_c05_hung() {
        let (mut w, b) = start(0, 1);
        let Some(mut e) = editor(&b) else { return };
        let p = open(&b).unwrap();
        let mut s = plain("q");
        match choose(3) { 0 => s.notes = Some("n".into()), 1 => s.image = Some(7), _ => s.chart = true }
        known(3);
        step(&mut e, &mut w, s, &[0, 1, 5], false);
        judge(&e, &w, &p);
    }
}

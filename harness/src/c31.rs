//! C31: part objects carry what is set on them and read back what was written.
use crate::pkg::resolve;
use crate::schema::valid;
use crate::sx::*;
use crate::xml::{self, Doc};
use ppt_rs::generator::SlideContent;
use ppt_rs::parts::*;

fn parse(x: &str) -> Option<Doc> {
    match xml::parse(x.as_bytes()) { Ok(d) => { valid(&d); Some(d) } Err(_) => { fail("not well formed"); None } }
}
fn at(d: &Doc, i: usize, n: &str) -> String { d.attr(i, n).map(|v| String::from_utf8_lossy(v).into_owned()).unwrap_or_default() }
/// A text of one or two XML characters between letters.
fn text() -> String { let c = xml_ascii(1); if c.as_bytes()[0] < 32 { return "q".into(); } format!("a{c}b") }

fn judge_presentation(p: &PresentationPart, want: &[(Option<u32>, String)], master: Option<&str>, theme: Option<&str>, size: (u32, u32)) {
    let Ok(x) = p.to_xml() else { fail("no XML"); return };
    let Some(d) = parse(&x) else { return };
    check(p.slide_count() == want.len() && p.slides().len() == want.len(), "the number of slides");
    let l = d.all("p:sldId");
    check(l.len() == want.len(), "the slides listed");
    if l.len() != want.len() || p.slides().len() != want.len() { return; }
    let mut ids = Vec::new();
    for ((i, w), s) in l.iter().zip(want).zip(p.slides()) {
        let id = at(&d, *i, "id").parse::<u32>().unwrap_or(0);
        check(id >= 256 && id < 0x8000_0000, "an id of a slide");
        check(s.id == id && s.r_id == w.1 && at(&d, *i, "r:id") == w.1, "a slide in its place");
        if let Some(n) = w.0 { check(n == id, "the id the slide had"); }
        check(!ids.contains(&id), "ids of slides are unique");
        ids.push(id);
    }
    let rels = p.create_relationships();
    let all = rels.all();
    check(all.len() == 2 + want.len(), "one relationship for the master, the theme and each slide");
    for (i, r) in all.iter().enumerate() { check(all[..i].iter().all(|o| o.id != r.id), "relationship ids are unique"); }
    let lead = |id: &str, ty: RelationshipType, target: &str| all.iter().any(|r| r.id == id && r.rel_type == ty && r.target == target);
    for (i, w) in want.iter().enumerate() { check(lead(&w.1, RelationshipType::Slide, &format!("slides/slide{}.xml", i + 1)), "the relationship of a slide"); }
    let m = d.all("p:sldMasterId");
    check(m.len() == 1, "one master");
    if let Some(&m) = m.first() {
        let id = at(&d, m, "r:id");
        check(lead(&id, RelationshipType::SlideMaster, "slideMasters/slideMaster1.xml"), "the relationship of the master");
        if let Some(w) = master { check(id == w, "the id of the master"); }
    }
    let t = rels.get_by_type(&RelationshipType::Theme);
    check(t.len() == 1 && t[0].target == "theme/theme1.xml" && theme.is_none_or(|w| t[0].id == w), "the theme");
    let z = d.all("p:sldSz");
    check(z.len() == 1 && at(&d, z[0], "cx") == size.0.to_string() && at(&d, z[0], "cy") == size.1.to_string(), "the size of the slides");
    if let Ok(q) = PresentationPart::from_xml(&x) {
        check(q.slides().len() == want.len() && q.slides().iter().zip(p.slides()).all(|(a, b)| a.id == b.id && a.r_id == b.r_id), "read back");
        check(q.to_xml().is_ok_and(|y| y == x), "written again");
    } else { fail("cannot be read back"); }
}
/// What a theme says: name, fonts and colours.
fn judge_theme(t: &ThemePart, name: &str, fonts: [&str; 2], colors: &[(String, String)]) {
    let Ok(x) = t.to_xml() else { fail("no XML"); return };
    let Some(d) = parse(&x) else { return };
    check(same_str(&at(&d, 0, "name"), name) && same_str(t.name(), name), "the name of the theme");
    for (f, w) in ["a:majorFont", "a:minorFont"].iter().zip(fonts) {
        let l: Vec<usize> = d.all(f).into_iter().filter_map(|i| d.kid(i, "a:latin")).collect();
        check(l.len() == 1 && same_str(&at(&d, l[0], "typeface"), w), "the font");
    }
    let s = d.all("a:clrScheme");
    check(s.len() == 1, "one colour scheme");
    let Some(&s) = s.first() else { return };
    let got: Vec<(String, String)> = d.nodes[s].kids.iter().filter_map(|&k| Some((d.nodes[k].name.clone().into(), at(&d, d.kid(k, "a:srgbClr")?, "val")))).collect();
    check(got.len() == colors.len(), "the colours");
    for (g, w) in got.iter().zip(colors) { check(same_str(&g.0, &format!("a:{}", w.0)) && same_str(&g.1, &w.1), "a colour"); }
}
const SLOTS: [&str; 12] = ["dk1", "lt1", "dk2", "lt2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "hlink", "folHlink"];
const OFFICE: [&str; 12] = ["000000", "FFFFFF", "44546A", "E7E6E6", "4472C4", "ED7D31", "A5A5A5", "FFC000", "5B9BD5", "70AD47", "0563C1", "954F72"];
const LAYOUT: [(LayoutType, &str, &str); 12] = [
    (LayoutType::Title, "title", "Title Slide"), (LayoutType::TitleAndContent, "obj", "Title and Content"), (LayoutType::SectionHeader, "secHead", "Section Header"),
    (LayoutType::TwoContent, "twoObj", "Two Content"), (LayoutType::Comparison, "twoTxTwoObj", "Comparison"), (LayoutType::TitleOnly, "titleOnly", "Title Only"),
    (LayoutType::Blank, "blank", "Blank"), (LayoutType::ContentWithCaption, "objTx", "Content with Caption"), (LayoutType::PictureWithCaption, "picTx", "Picture with Caption"),
    (LayoutType::TitleAndVerticalText, "vertTx", "Title and Vertical Text"), (LayoutType::VerticalTitleAndText, "vertTitleAndTx", "Vertical Title and Text"), (LayoutType::Custom, "cust", "Custom")];
fn part(p: &dyn Part, path: &str, mime: &str, ty: PartType) {
    check(p.path() == path, "the path of the part");
    check(p.content_type().mime_type() == mime, "the content type of the part");
    check(p.part_type() == ty, "the kind of the part");
}
fn related(target: &str, owner: &str, p: &dyn Part) { check(resolve(owner, target).as_deref() == Some(p.path()), "the target leads to the part"); }
const PML: &str = "application/vnd.openxmlformats-officedocument.presentationml.";

harnesses! {
    /// The presentation part: slides added to a new one or to one that was read, with the ids of the caller.
    fn h_c31_presentation() {
        const RIDS: [[&str; 3]; 4] = [["rId2", "rId3", "rId4"], ["rId1", "rId2", "rId9"], ["rId3", "rId1", "rId2"], ["s1", "rId10", "rId5"]];
        let mut want: Vec<(Option<u32>, String)> = Vec::new();
        let (mut master, theme) = ([None, Some("rId7")][choose(2)], [None, Some("rId8")][choose(2)]);
        let mut size = (9144000, 6858000);
        let mut p = if flag() { PresentationPart::new() } else {
            // slides of another program, whose ids are any
            let ids = [[257u32, 256], [300, 258], [256, 259], [258, 2000]][choose(4)];
            let k = choose(3);
            let mut l = String::new();
            for i in 0..k { l.push_str(&format!("<p:sldId id=\"{}\" r:id=\"rId{}\"/>", ids[i], 20 + i)); want.push((Some(ids[i]), format!("rId{}", 20 + i))); }
            size = (12192000, 6858000);
            master = master.or(Some("rId30"));
            let x = format!("<p:presentation xmlns:r=\"r\" xmlns:p=\"p\"><p:sldMasterIdLst><p:sldMasterId id=\"2147483648\" r:id=\"rId30\"/></p:sldMasterIdLst><p:sldIdLst>{l}</p:sldIdLst><p:sldSz cx=\"12192000\" cy=\"6858000\"/></p:presentation>");
            let Ok(p) = PresentationPart::from_xml(&x) else { fail("cannot be read"); return };
            p
        };
        if let Some("rId7") = master { p.set_slide_master("rId7"); }
        if let Some(t) = theme { p.set_theme(t); }
        if flag() { size = [(914400, 914401), (9144000, 5143500), (51206400, 51206400)][choose(3)]; p.set_dimensions(size.0, size.1); }
        let set = RIDS[choose(4)];
        for r in set.iter().take(choose(4)) { let id = p.add_slide(r); want.push((Some(id), r.to_string())); }
        judge_presentation(&p, &want, master, theme, size);
        part(&p, "ppt/presentation.xml", &format!("{PML}presentation.main+xml"), PartType::Presentation);
    }
    /// Content types: every extension and part once, with the type it was given last, and read back as written.
    fn h_c31_content_types() {
        let mut c = ContentTypesPart::new();
        let (mut ext, mut ov): (Vec<(String, String)>, Vec<(String, String)>) = (Vec::new(), Vec::new());
        fn put(l: &mut Vec<(String, String)>, k: &str, v: &str) { l.retain(|x| !x.0.eq_ignore_ascii_case(k)); l.push((k.into(), v.into())); }
        let t = text();
        for step in 0..n(2, 3) {
            let k = 1 + choose(2);
            match choose(14) {
                0 => { c.add_default("png", "image/x"); put(&mut ext, "png", "image/x"); }
                1 => { c.add_default(t.clone(), "a/b"); put(&mut ext, &t, "a/b"); }
                2 => { c.add_default("emf", t.clone()); put(&mut ext, "emf", &t); }
                3 => { c.add_override("/x.xml", t.clone()); put(&mut ov, "/x.xml", &t); }
                4 => { c.add_override(t.clone(), "a/b"); put(&mut ov, &t, "a/b"); }
                5 => { c.add_presentation(); put(&mut ov, "/ppt/presentation.xml", &format!("{PML}presentation.main+xml")); }
                6 => { c.add_slide(k); put(&mut ov, &format!("/ppt/slides/slide{k}.xml"), &format!("{PML}slide+xml")); }
                7 => { c.add_slide_layout(k); put(&mut ov, &format!("/ppt/slideLayouts/slideLayout{k}.xml"), &format!("{PML}slideLayout+xml")); }
                8 => { c.add_slide_master(k); put(&mut ov, &format!("/ppt/slideMasters/slideMaster{k}.xml"), &format!("{PML}slideMaster+xml")); }
                9 => { c.add_theme(k); put(&mut ov, &format!("/ppt/theme/theme{k}.xml"), "application/vnd.openxmlformats-officedocument.theme+xml"); }
                10 => { c.add_notes_slide(k); put(&mut ov, &format!("/ppt/notesSlides/notesSlide{k}.xml"), &format!("{PML}notesSlide+xml")); }
                11 => { c.add_chart(k); put(&mut ov, &format!("/ppt/charts/chart{k}.xml"), "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"); }
                12 => { c.add_core_properties(); put(&mut ov, "/docProps/core.xml", "application/vnd.openxmlformats-package.core-properties+xml"); }
                _ => { c.add_app_properties(); put(&mut ov, "/docProps/app.xml", "application/vnd.openxmlformats-officedocument.extended-properties+xml"); }
            }
            // a part that was read goes on like the one that was written
            if step == 0 && flag() {
                let Ok(x) = c.to_xml() else { fail("no XML"); return };
                let Ok(r) = ContentTypesPart::from_xml(&x) else { fail("cannot be read back"); return };
                check(r.to_xml().is_ok_and(|y| y == x), "written again");
                c = r;
            }
        }
        let Ok(x) = c.to_xml() else { fail("no XML"); return };
        let Some(d) = parse(&x) else { return };
        let list = |e: &str, k: &str| -> Vec<(String, String)> { d.kids(0, e).into_iter().map(|i| (at(&d, i, k), at(&d, i, "ContentType"))).collect() };
        let (e, o) = (list("Default", "Extension"), list("Override", "PartName"));
        for (w, l) in [(&ext, &e), (&ov, &o)] {
            for x in w { check(l.iter().any(|y| same_str(&x.0, &y.0) && same_str(&x.1, &y.1)), "a type that was given"); }
            for (i, x) in l.iter().enumerate() { check(l[..i].iter().all(|y| !y.0.eq_ignore_ascii_case(&x.0)), "one type for each"); }
        }
        check(o.len() == ov.len(), "no types of other parts");
        for (k, v) in [("rels", "application/vnd.openxmlformats-package.relationships+xml"), ("xml", "application/xml"), ("jpg", "image/jpeg"), ("jpeg", "image/jpeg"), ("gif", "image/gif"), ("mp4", "video/mp4")] {
            if !ext.iter().any(|x| x.0.eq_ignore_ascii_case(k)) { check(e.iter().any(|y| y.0 == k && y.1 == v), "the types that are always there"); }
        }
    }
    /// A theme with every name, font and colour, new or read, and what is set after reading.
    fn h_c31_theme() {
        let mut t = ThemePart::new(1 + choose(2));
        let (mut name, mut fonts) = ("Office Theme".to_string(), ["Calibri Light".to_string(), "Calibri".to_string()]);
        let mut colors: Vec<(String, String)> = SLOTS.iter().zip(OFFICE).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let x = text();
        for step in 0..2 {
            match choose(5) {
                0 => { t.set_name(x.clone()); name = x.clone(); }
                1 => { t.set_major_font(x.clone()); fonts[0] = x.clone(); }
                2 => { t.set_minor_font(x.clone()); fonts[1] = x.clone(); }
                3 => { let k = choose(12); let v = ["12abEF", "FFFFFF"][step]; t.set_color(SLOTS[k], v); colors[k].1 = v.to_string(); }
                _ => {}
            }
            judge_theme(&t, &name, [&fonts[0], &fonts[1]], &colors);
            if step == 0 && flag() {
                let Ok(y) = t.to_xml() else { return };
                let Ok(r) = ThemePart::from_xml(&y) else { fail("cannot be read back"); return };
                check(r.to_xml().is_ok_and(|z| z == y), "a part that was read is written as it was");
                t = r;
            }
        }
    }
    /// Layouts and masters.
    fn h_c31_layout_master() {
        let x = text();
        if flag() {
            let (ty, value, name) = LAYOUT[choose(12)];
            let k = 1 + choose(2);
            let mut l = SlideLayoutPart::new(k, ty);
            check(ty.name() == name && ty.type_value() == value && l.name() == name && l.layout_type() == ty && l.layout_number() == k, "a new layout");
            part(&l, &format!("ppt/slideLayouts/slideLayout{k}.xml"), &format!("{PML}slideLayout+xml"), PartType::SlideLayout);
            related(&l.rel_target(), "ppt/presentation.xml", &l);
            let mut w = name.to_string();
            for _ in 0..2 {
                if flag() { w = if w == x { "other".into() } else { x.clone() }; l.set_name(w.clone()); }
                let Ok(y) = l.to_xml() else { fail("no XML"); return };
                let Some(d) = parse(&y) else { return };
                check(at(&d, 0, "type") == value, "the type of the layout");
                check(d.kid(0, "p:cSld").is_some_and(|c| same_str(&at(&d, c, "name"), &w)), "the name of the layout");
                let Ok(r) = SlideLayoutPart::from_xml(&y) else { fail("cannot be read back"); return };
                check(r.layout_type() == ty && same_str(r.name(), &w), "the layout that was read");
                check(r.to_xml().is_ok_and(|z| z == y), "a part that was read is written as it was");
                l = r;
            }
        } else {
            let k = 1 + choose(2);
            let mut m = SlideMasterPart::new(k);
            part(&m, &format!("ppt/slideMasters/slideMaster{k}.xml"), &format!("{PML}slideMaster+xml"), PartType::SlideMaster);
            related(&m.rel_target(), "ppt/presentation.xml", &m);
            check(m.master_number() == k && m.layout_rel_ids().is_empty(), "a new master");
            let (mut w, mut ids): (String, Vec<String>) = (m.name().to_string(), vec![]);
            for _ in 0..2 {
                if flag() { w = x.clone(); m.set_name(w.clone()); }
                for i in 0..choose(3) { let id = format!("rId{}", 9 - i - ids.len()); m.add_layout_rel_id(id.clone()); ids.push(id); }
                let Ok(y) = m.to_xml() else { fail("no XML"); return };
                let Some(d) = parse(&y) else { return };
                check(d.kid(0, "p:cSld").is_some_and(|c| same_str(&at(&d, c, "name"), &w)), "the name of the master");
                let l = d.all("p:sldLayoutId");
                check(l.len() == ids.len() && l.iter().zip(&ids).all(|(i, w)| at(&d, *i, "r:id") == *w), "the layouts of the master");
                for (j, i) in l.iter().enumerate() {
                    check(at(&d, *i, "id").parse::<u64>().is_ok_and(|v| v > 2147483648 && v <= 4294967295), "the id of a layout");
                    check(l[..j].iter().all(|o| at(&d, *o, "id") != at(&d, *i, "id")), "ids of layouts are unique");
                }
                let Ok(r) = SlideMasterPart::from_xml(&y) else { fail("cannot be read back"); return };
                check(same_str(r.name(), &w) && r.layout_rel_ids() == &ids[..], "the master that was read");
                check(r.to_xml().is_ok_and(|z| z == y), "a part that was read is written as it was");
                m = r;
            }
        }
    }
    /// Speaker notes line by line.
    fn h_c31_notes() {
        let k = 1 + choose(2);
        let t = match choose(4) { 0 => text(), 1 => format!("{}\n{}", text(), "z"), 2 => format!("y\n\n{}", text()), _ => utf8(1) };
        if t.chars().any(|c| (c < ' ' && c != '\n') || c == '\u{fffe}' || c == '\u{ffff}') || t.ends_with('\n') { return; }
        let mut p = match choose(3) { 0 => NotesSlidePart::with_text(k, t.clone()), 1 => { let mut p = NotesSlidePart::new(k); p.set_notes_text(t.clone()); p } _ => {
            let Ok(mut p) = NotesSlidePart::from_xml(&NotesSlidePart::with_text(k, "old").to_xml().unwrap()) else { fail("cannot be read back"); return };
            check(p.notes_text() == "old", "the notes that were read");
            p.set_notes_text(t.clone()); p } };
        if p.notes_number() == k { part(&p, &format!("ppt/notesSlides/notesSlide{k}.xml"), &format!("{PML}notesSlide+xml"), PartType::NotesSlide); }
        related(&p.rel_target(), "ppt/slides/slide1.xml", &p);
        for _ in 0..2 {
            check(same_str(p.notes_text(), &t), "the notes");
            let Ok(y) = p.to_xml() else { fail("no XML"); return };
            let Some(d) = parse(&y) else { return };
            let mut all: Vec<Vec<u8>> = Vec::new();
            for b in d.all("p:txBody") { for q in d.kids(b, "a:p") { all.push(d.text_of(q, "a:t")); } }
            let w: Vec<&str> = t.split('\n').collect();
            check(all.len() == w.len() && all.iter().zip(&w).all(|(a, b)| same(a, b.as_bytes())), "the lines of the notes");
            let Ok(r) = NotesSlidePart::from_xml(&y) else { fail("cannot be read back"); return };
            check(r.to_xml().is_ok_and(|z| z == y), "a part that was read is written as it was");
            p = r;
        }
    }
    /// The application properties.
    fn h_c31_app() {
        let mut p = AppPropertiesPart::new();
        let x = text();
        let v = [1u32, 20, u32::MAX][choose(3)];
        let k = choose(15);
        match k {
            0 => p.set_application(x.clone()),
            1 => p.set_company(x.clone()),
            2 => p.set_presentation_format(x.clone()),
            3 => p.app_version = x.clone(),
            4 => p.set_slides(v), 5 => p.paragraphs = v, 6 => p.words = v, 7 => p.notes = v, 8 => p.hidden_slides = v, 9 => p.mm_clips = v,
            10 => p.scale_crop = true, 11 => p.links_up_to_date = true, 12 => p.shared_doc = true, 13 => p.hyperlinks_changed = true,
            _ => {}
        }
        part(&p, "docProps/app.xml", "application/vnd.openxmlformats-officedocument.extended-properties+xml", PartType::ExtendedProperties);
        let Ok(y) = p.to_xml() else { fail("no XML"); return };
        let Some(d) = parse(&y) else { return };
        let is = |n: &str, w: &str| { let l = d.kids(0, n); check(l.len() == 1 && same(d.text(l[0]), w.as_bytes()), "a property"); };
        is("Application", &p.application); is("AppVersion", &p.app_version); is("PresentationFormat", &p.presentation_format);
        if let Some(c) = &p.company { is("Company", c); } else { check(d.kids(0, "Company").is_empty(), "no company"); }
        check([0, 1, 2, 3].iter().zip([&p.application, p.company.as_ref().unwrap_or(&p.application), &p.presentation_format, &p.app_version]).all(|(j, s)| *j != k || same_str(s, &x)), "what was set");
        for (j, (n, m)) in [("Slides", p.slides), ("Paragraphs", p.paragraphs), ("Words", p.words), ("Notes", p.notes), ("HiddenSlides", p.hidden_slides), ("MMClips", p.mm_clips)].iter().enumerate() { check(*m == if j + 4 == k { v } else { 0 }, "a number"); is(n, &m.to_string()); }
        for (j, (n, m)) in [("ScaleCrop", p.scale_crop), ("LinksUpToDate", p.links_up_to_date), ("SharedDoc", p.shared_doc), ("HyperlinksChanged", p.hyperlinks_changed)].iter().enumerate() { check(*m == (j + 10 == k), "a flag"); is(n, if *m { "true" } else { "false" }); }
        let Ok(mut r) = AppPropertiesPart::from_xml(&y) else { fail("cannot be read back"); return };
        check(r.to_xml().is_ok_and(|z| z == y), "a part that was read is written as it was");
        check(same_str(&r.application, &p.application) && same_str(&r.app_version, &p.app_version) && same_str(&r.presentation_format, &p.presentation_format)
            && same_str(r.company.as_deref().unwrap_or("-"), p.company.as_deref().unwrap_or("-"))
            && (r.slides, r.paragraphs, r.words, r.notes, r.hidden_slides, r.mm_clips) == (p.slides, p.paragraphs, p.words, p.notes, p.hidden_slides, p.mm_clips)
            && (r.scale_crop, r.links_up_to_date, r.shared_doc, r.hyperlinks_changed) == (p.scale_crop, p.links_up_to_date, p.shared_doc, p.hyperlinks_changed), "the properties that were read");
        r.set_slides(7); p.set_slides(7);
        check(r.to_xml().ok() == p.to_xml().ok(), "set after reading");
    }
    /// Slides: title and bullets, before and after reading.
    fn h_c31_slide() {
        let (k, t) = (1 + choose(2), text());
        let c = |t: &str| SlideContent::new(t).add_bullet("b").add_bullet(t);
        let mut s = SlidePart::from_content(k, c("first"));
        if flag() { s.set_content(c(&t)); } else { s = SlidePart::new(k); s.set_content(c(&t)); }
        part(&s, &format!("ppt/slides/slide{k}.xml"), &format!("{PML}slide+xml"), PartType::Slide);
        check(s.rels_path() == format!("ppt/slides/_rels/slide{k}.xml.rels") && s.slide_number() == k, "where the relationships of the slide are");
        let Ok(y) = s.to_xml() else { fail("no XML"); return };
        let r = if flag() { slide::parse_slide(&y, k) } else { SlidePart::from_xml(&y) };
        let Ok(mut r) = r else { fail("cannot be read back"); return };
        check(r.title().is_some_and(|x| same_str(x, &t)), "the title that was read");
        let b = r.body_text();
        check(b.len() == 2 && b[0] == "b" && same_str(b[1], &t), "the bullets that were read");
        check(r.to_xml().is_ok_and(|z| z == y), "a part that was read is written as it was");
        r.set_content(c("last"));
        check(r.to_xml().is_ok_and(|z| xml::parse(z.as_bytes()).is_ok_and(|d| d.all("a:t").iter().any(|i| d.text(*i) == b"last"))), "set after reading");
    }
    /// Pictures and media: path, type and bytes.
    fn h_c31_media() {
        let k = 1 + choose(2);
        let data = vec![byte(), 0, 255];
        if flag() {
            let (f, e, m) = [("png", "png", "image/png"), ("PNG", "png", "image/png"), ("jpeg", "jpg", "image/jpeg"), ("jpg", "jpg", "image/jpeg"), ("gif", "gif", "image/gif"), ("bmp", "bmp", "image/bmp"), ("tiff", "tiff", "image/tiff"), ("tif", "tif", "image/tiff"), ("svg", "svg", "image/svg+xml")][choose(9)];
            let mut p = if flag() { ImagePart::new(k, f, data.clone()) } else {
                std::fs::write(format!("i.{f}"), &data).unwrap();
                let Ok(p) = ImagePart::from_file(k, &format!("i.{f}")) else { fail("the picture"); return };
                p
            };
            part(&p, &format!("ppt/media/image{k}.{e}"), m, PartType::Image);
            related(&p.rel_target(), "ppt/slides/slide1.xml", &p);
            check(p.mime_type() == m && p.extension() == e && p.image_number() == k && same(p.data(), &data), "the picture");
            p.set_dimensions(3, 5);
            check(p.width() == 3 && p.height() == 5, "the size of the picture");
        } else {
            use MediaFormat::*;
            let (f, e, m, v) = [(Mp4, "mp4", "video/mp4", true), (Webm, "webm", "video/webm", true), (Avi, "avi", "video/x-msvideo", true), (Wmv, "wmv", "video/x-ms-wmv", true), (Mov, "mov", "video/quicktime", true),
                (Mp3, "mp3", "audio/mpeg", false), (Wav, "wav", "audio/wav", false), (Wma, "wma", "audio/x-ms-wma", false), (M4a, "m4a", "audio/mp4", false), (Ogg, "ogg", "audio/ogg", false)][choose(10)];
            let mut p = if flag() { MediaPart::new(k, f, data.clone()) } else {
                let n = if flag() { format!("m.{e}") } else { format!("m.{}", e.to_uppercase()) };
                std::fs::write(&n, &data).unwrap();
                let Ok(p) = MediaPart::from_file(k, &n) else { fail("the media"); return };
                p
            };
            part(&p, &format!("ppt/media/media{k}.{e}"), m, PartType::Media);
            related(&p.rel_target(), "ppt/slides/slide1.xml", &p);
            check(p.format() == f && f.extension() == e && f.mime_type() == m && p.is_video() == v && p.is_audio() != v && p.media_number() == k && same(p.data(), &data), "the media");
            check(p.duration().is_none(), "no length");
            p.set_duration(u64::MAX);
            check(p.duration() == Some(u64::MAX), "the length");
        }
    }
}

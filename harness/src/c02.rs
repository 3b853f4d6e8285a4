//! C02: generated packages are closed.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::generator::*;

fn judge(bytes: &[u8], slides: usize) {
    let Some(p) = open(bytes) else { fail("not an archive"); return };
    if let Err(e) = closed(&p) { fail(e); return; }
    let Some(o) = slide_order(&p) else { fail("slide list does not resolve"); return };
    check(o.len() == slides, "one entry per slide in the slide list");
    for (i, n) in o.iter().enumerate() { check(*n == format!("ppt/slides/slide{}.xml", i + 1), "slides are listed in order"); }
    let d = p.doc("ppt/presentation.xml").unwrap();
    const ORDER: [&str; 9] = ["p:sldMasterIdLst", "p:notesMasterIdLst", "p:handoutMasterIdLst", "p:sldIdLst", "p:sldSz", "p:notesSz", "p:embeddedFontLst", "p:defaultTextStyle", "p:extLst"];
    let mut at = 0;
    for &k in &d.nodes[0].kids {
        match ORDER.iter().position(|o| *o == d.nodes[k].name) {
            Some(i) => { check(i >= at, "presentation.xml keeps the schema's order"); at = i; }
            None => fail("unknown child of the presentation"),
        }
    }
    let ids: Vec<&str> = d.all("p:sldId").iter().map(|&i| d.attr_str(i, "id").unwrap_or("")).collect();
    for i in 0..ids.len() {
        let v: u32 = ids[i].parse().unwrap_or(0);
        check(v >= 256 && v < 0x8000_0000, "slide id in range");
        for j in 0..i { check(ids[i] != ids[j], "unique slide ids"); }
    }
    for n in &o {
        let Ok(d) = crate::xml::parse(p.get(n).unwrap()) else { fail("slide part is not well formed"); return };
        let mut seen: Vec<String> = Vec::new();
        for i in d.all("p:cNvPr") {
            let id = d.attr_str(i, "id").unwrap_or("").to_string();
            check(!seen.contains(&id), "drawing ids are unique on a slide");
            seen.push(id);
        }
        let r = p.rels(&rels_of(n)).unwrap();
        check(r.iter().filter(|x| x.ty.ends_with("/slideLayout")).count() == 1, "a slide has one layout");
    }
}
/// The picture, chart and ink references of a slide lead to parts of that kind, in order and to the right bytes.
fn kinds(bytes: &[u8], slides: &[SlideContent]) {
    let p = open(bytes).unwrap();
    for (i, s) in slides.iter().enumerate() {
        let n = format!("ppt/slides/slide{}.xml", i + 1);
        let d = p.doc(&n).unwrap();
        let r = p.rels(&rels_of(&n)).unwrap();
        let ty = |id: Option<&str>, k: &str| -> Option<String> {
            let x = r.iter().find(|x| Some(&x.id[..]) == id)?;
            if x.ty.ends_with(k) { resolve(&n, &x.target) } else { None }
        };
        let blips = d.all("a:blip");
        let want: Vec<Vec<u8>> = s.images.iter().filter_map(|m| m.get_bytes()).collect();
        check(blips.len() == want.len(), "one picture per image");
        for (k, &b) in blips.iter().enumerate() {
            match ty(d.attr_str(b, "r:embed"), "/image") {
                Some(t) => check(same(p.get(&t).unwrap(), &want[k]), "a picture leads to its own image"),
                None => fail("picture does not lead to an image"),
            }
        }
        let charts = d.all("c:chart");
        check(charts.len() == s.charts.len(), "one frame per chart");
        for (k, &c) in charts.iter().enumerate() {
            match ty(d.attr_str(c, "r:id"), "/chart") {
                Some(t) => {
                    let cd = p.doc(&t);
                    match cd { Some(cd) => check(cd.text_of(0, "a:t").starts_with(s.charts[k].title.as_bytes()), "a frame leads to its own chart"), None => fail("chart part is not well formed") }
                }
                None => fail("chart frame does not lead to a chart"),
            }
        }
        let inks = d.all("p:contentPart");
        check(inks.len() == s.ink_annotations.is_some() as usize, "ink referenced");
        for &c in &inks { check(ty(d.attr_str(c, "r:id"), "/ink").is_some(), "ink reference leads to ink"); }
        let notes: Vec<&Rel> = r.iter().filter(|x| x.ty.ends_with("/notesSlide")).collect();
        check(notes.len() == s.notes.is_some() as usize, "notes relationship exactly when there are notes");
        if let Some(x) = notes.first() {
            let t = resolve(&n, &x.target).unwrap();
            let nd = p.doc(&t).unwrap();
            check(nd.text_of(0, "a:t").windows(2).any(|w| w == s.notes.as_ref().unwrap().as_bytes()), "a slide leads to its own notes");
            let back = p.rels(&rels_of(&t)).unwrap();
            check(back.iter().any(|y| y.ty.ends_with("/slide") && resolve(&t, &y.target).as_deref() == Some(&n[..])), "notes lead back to their slide");
        }
    }
}
const FMT: [&str; 8] = ["PNG", "JPG", "JPEG", "GIF", "BMP", "TIFF", "SVG", "WEBP"];
fn named(t: ChartType, title: &str) -> Chart {
    ChartBuilder::new(title, t).categories(vec!["A"]).add_series(ChartSeries::new("s", vec![1.0])).build()
}

harnesses! {
    /// Everything one slide can hold, in every layout.
    fn h_c02_slide() {
        let mut s = SlideContent::new("T").add_bullet("b").layout(LAYOUTS[choose(7)].clone());
        let f = choose(16);
        if f & 1 != 0 { s = s.notes("n0"); }
        if f & 2 != 0 { s = s.table(table()); }
        if f & 4 != 0 { s = s.with_ink(ink()); }
        if f & 8 != 0 { s = s.add_connector(Connector::straight(1, 2, 3, 4)).add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 3, 4)).add_shape(Shape::new(ShapeType::Ellipse, 1, 2, 3, 4)); s.code_blocks.push(CodeBlock::new("x", "rust")); }
        for i in 0..choose(3) { s = s.add_image(image(i as u8, "PNG")); }
        for i in 0..choose(3) { s = s.add_chart(named(ChartType::Bar, ["c0", "c1"][i])); }
        let v = vec![s];
        let b = if flag() { reach(1); lazy("T", v.clone(), None) } else { reach(2); eager("T", &v, None) };
        judge(&b, 1);
        kinds(&b, &v);
    }
    /// A shape of an id of its own beside everything that is given one.
    fn h_c02_own_id() {
        let id = 10 + choose(n(60, 250)) as u32;
        let mut s = SlideContent::new("T").add_bullet("b").layout(LAYOUTS[if THOROUGH { choose(7) } else { id as usize % 7 }].clone()).with_ink(ink());
        if id & 8 != 0 { s = s.table(table()); }
        let r = || Shape::new(ShapeType::Rectangle, 1, 2, 3, 4);
        s = if flag() { s.add_shape(r()).add_shape(r().with_id(id)).add_shape(r()) } else { s.add_shape(r().with_id(id)).add_shape(r()).add_shape(r().with_id(id + 1)) };
        s = s.add_connector(Connector::straight(1, 2, 3, 4)).add_image(image(0, "PNG")).add_image(image(1, "PNG")).add_chart(named(ChartType::Bar, "c0"));
        s.code_blocks.push(CodeBlock::new("x", "rust"));
        judge(&if id & 16 != 0 { lazy("T", vec![s], None) } else { eager("T", &[s], None) }, 1);
    }
    /// Decks of up to three slides (four in the thorough tier) with any mixture of numbered parts.
    fn h_c02_deck() {
        let k = choose(n(4, 5));
        let mut v = Vec::new();
        for i in 0..k {
            let mut s = SlideContent::new("T");
            let f = choose(8);
            if f & 1 != 0 { s = s.notes(["n0", "n1", "n2", "n3"][i]); }
            if f & 2 != 0 { s = s.add_chart(named(ChartType::Line, ["c0", "c1", "c2", "c3"][i])); }
            if f & 4 != 0 { s = s.with_ink(ink()); }
            v.push(s);
        }
        let b = if flag() { lazy("T", v.clone(), None) } else { eager("T", &v, None) };
        judge(&b, k);
        kinds(&b, &v);
    }
    /// Two slides with up to two images each: any bytes, so any pattern of shared images; one may be unloadable.
    fn h_c02_images() {
        let mut v = Vec::new();
        for k in 0..2 {
            let mut s = SlideContent::new("T");
            for _ in 0..choose(if k == 0 { 3 } else { n(2, 3) }) {
                if choose(3) == 0 { reach(1); s = s.add_image(lost_image()); }
                else { s = s.add_image(image(byte(), FMT[choose(2)])); }
            }
            if k == 0 && flag() { s = s.add_chart(named(ChartType::Pie, "c0")); }
            v.push(s);
        }
        let b = if flag() { lazy("T", v.clone(), None) } else { eager("T", &v, None) };
        judge(&b, 2);
        kinds(&b, &v);
    }
    /// Every pair of image formats.
    fn h_c02_formats() {
        let a = FMT[choose(FMT.len())];
        let c = FMT[choose(FMT.len())];
        let v = vec![SlideContent::new("T").add_image(image(1, a)).add_image(image(1 + choose(2) as u8, c))];
        let b = if flag() { lazy("T", v.clone(), None) } else { eager("T", &v, None) };
        judge(&b, 1);
        kinds(&b, &v);
    }
    /// All presentation settings together.
    fn h_c02_settings() {
        let k = choose(3);
        let mut v = Vec::new();
        for _ in 0..k { v.push(SlideContent::new("T")); }
        if k > 0 && flag() { v[k - 1] = SlideContent::new("T").notes("n0").with_ink(ink()); }
        let set = settings(3);
        let b = match choose(3) { 0 => lazy("T", v.clone(), set), 1 => eager("T", &v, set), _ => streamed("T", &v, set) };
        judge(&b, k);
    }
    /// Decks of plain slides, long enough for two-digit ids.
    fn h_c02_plain() {
        let k = choose(n(14, 30));
        judge(&create_pptx("T", k).unwrap(), k);
    }
    /// Hyperlinks of every kind on one or two shapes.
    fn h_c02_links() {
        let mut s = SlideContent::new("T").notes("n0").add_image(image(1, "PNG"));
        let nl = 1 + choose(2);
        for i in 0..nl {
            let h = match choose(8) {
                0 => Hyperlink::url("http://x/?a=1&b=2"),
                1 => Hyperlink::slide(1),
                2 => Hyperlink::new(HyperlinkAction::NextSlide),
                3 => Hyperlink::new(HyperlinkAction::FirstSlide),
                4 => Hyperlink::new(HyperlinkAction::LastSlide),
                5 => Hyperlink::new(HyperlinkAction::EndShow),
                6 => Hyperlink::email("a@b"),
                _ => Hyperlink::new(HyperlinkAction::file("c:\\x")),
            };
            let h = if flag() { h.with_r_id(["rId90", "rId91"][i]) } else { h };
            s = s.add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_hyperlink(h));
        }
        let v = vec![s];
        let b = if flag() { lazy("T", v.clone(), None) } else { eager("T", &v, None) };
        judge(&b, 1);
    }
    /// A template deck on disk (with or without notes and handouts), with or without a theme of its own.
    fn h_c02_template() {
        let mut ts = vec![SlideContent::new("Tpl")];
        if flag() { ts.push(SlideContent::new("N").notes("tn")); }
        let tset = if flag() { Some(PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts))) } else { None };
        std::fs::write("tpl.pptx", eager("Tpl", &ts, tset)).unwrap();
        let mut v = vec![SlideContent::new("T").layout(LAYOUTS[choose(7)].clone())];
        if flag() { v.push(SlideContent::new("M").notes("n0")); }
        let mut set = PresentationSettings::new();
        if flag() { set = set.theme(PresentationTheme::tech()); }
        if flag() { set = set.print(PrintSettings::new().print_what(PrintWhat::Handouts)); }
        let b = match choose(2) {
            0 => create_pptx_with_template("T", &v, "tpl.pptx", Some(set)).unwrap(),
            _ => lazy("T", v.clone(), Some(set.template("tpl.pptx"))),
        };
        judge(&b, v.len());
    }
    /// A template from elsewhere: fewer layouts than the standard seven (known finding 1), or a picture in a layout (known finding 2).
    fn h_c02_foreign() {
        let mut parts = open(&create_pptx("Tpl", 1).unwrap()).unwrap().parts;
        let kf = 1 + choose(2) as u32;
        if kf == 1 {
            parts.retain(|p| !p.0.contains("slideLayout7.xml"));
            for p in &mut parts {
                if !p.0.contains("slideMaster") && !p.0.contains("Content_Types") { continue; }
                let mut t = String::from_utf8(p.1.clone()).unwrap();
                while let Some(i) = t.find("slideLayout7.xml") {
                    let a = t[..i].rfind('<').unwrap();
                    let b = i + t[i..].find("/>").unwrap() + 2;
                    t.replace_range(a..b, "");
                }
                p.1 = t.into_bytes();
            }
        } else {
            for p in &mut parts {
                if p.0 == "ppt/slideLayouts/_rels/slideLayout1.xml.rels" {
                    let t = String::from_utf8(p.1.clone()).unwrap().replace("</Relationships>", "<Relationship Id=\"rId9\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/image\" Target=\"../media/bg.png\"/></Relationships>");
                    p.1 = t.into_bytes();
                }
            }
            parts.push(("ppt/media/bg.png".to_string(), vec![1]));
        }
        std::fs::write("tpl.pptx", build(&parts)).unwrap();
        known(kf as u64);
        let b = create_pptx_with_template("T", &[SlideContent::new("T")], "tpl.pptx", None).unwrap();
        check(closed(&open(&b).unwrap()).is_ok(), "a deck made from a template of another shape is closed");
    }
}

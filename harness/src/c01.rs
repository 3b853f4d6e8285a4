//! C01: text survives in the generated XML.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use crate::xml;
use ppt_rs::generator::*;

const SPEC: [&str; 16] = ["&amp;", "]]>", "<!--", "&#65;", "</a:t>", "é漢😀", "'\"'\"", "&lt;&", "<?x?>", "{0}{}", "%20$1", "a  b", "\u{a0}\u{2028}", "&&", "<![CDATA[", "\\n\\"];
/// Marked text: two arbitrary printable characters, or one of the awkward sequences.
fn text(inline: bool) -> String {
    let mut v = b"Qa".to_vec();
    if flag() {
        v.extend_from_slice(SPEC[choose(SPEC.len())].as_bytes());
    } else {
        for _ in 0..n(2, 3) {
            let b = byte();
            assume((0x20..0x7f).contains(&b) & (b != b'Q'));
            if inline { assume((b != b'*') & (b != b'_') & (b != b'`')); }
            v.push(b);
        }
    }
    v.extend_from_slice(b"Zz");
    unsafe { String::from_utf8_unchecked(v) }
}
fn find(h: &[u8], n: &[u8]) -> bool { h.len() >= n.len() && (0..=h.len() - n.len()).any(|i| h[i] == n[0] && h[i + 1..i + n.len()] == n[1..]) }
/// Number of character data runs and attribute values that carry the marker; every one must carry the whole text.
fn occurrences(d: &xml::Doc, t: &str) -> usize {
    let mut k = 0;
    let mut one = |v: &[u8]| {
        if let Some(i) = (0..v.len().saturating_sub(1)).find(|&i| v[i] == b'Q' && v[i + 1] == b'a') {
            k += 1;
            let t = t.as_bytes();
            check(v.len() >= i + t.len() && same(&v[i..i + t.len()], t), "the text is what was supplied");
        }
    };
    for x in &d.nodes {
        one(&x.text);
        for a in &x.attrs { one(&a.1); }
    }
    k
}
fn carried(bytes: &[u8], t: &str, least: usize) {
    let Some(p) = open(bytes) else { fail("not an archive"); return };
    let mut k = 0;
    for n in p.xml_parts() {
        if !find(p.get(n).unwrap(), b"Qa") { continue; }
        match xml::parse(p.get(n).unwrap()) {
            Ok(d) => k += occurrences(&d, t),
            Err(_) => { fail("a part with user text is not well formed"); return; }
        }
    }
    check(k >= least, "the text is in the package");
}
/// A fragment with the usual prefixes bound.
fn fragment(x: &str, t: &str) {
    let x = match x.find("?>") { Some(i) if x.starts_with("<?xml") => &x[i + 2..], _ => x };
    let mut s = String::from("<root xmlns:a=\"a\" xmlns:p=\"p\" xmlns:r=\"r\" xmlns:c=\"c\" xmlns:p14=\"p14\">");
    s.push_str(x);
    s.push_str("</root>");
    match xml::parse(s.as_bytes()) {
        Ok(d) => check(occurrences(&d, t) >= 1, "the text is in the fragment"),
        Err(_) => fail("fragment with user text is not well formed"),
    }
}
fn write(s: SlideContent, set: Option<PresentationSettings>) -> Vec<u8> { eager("T", &[s], set) }

harnesses! {
    /// Titles and bullets in every layout.
    fn h_c01_layouts() {
        let t = text(true);
        let l = LAYOUTS[choose(7)].clone();
        let mut s = SlideContent::new("T").layout(l.clone());
        if flag() { s.title = t.clone(); } else {
            if l == SlideLayout::Blank || l == SlideLayout::TitleOnly { return; }
            s = s.add_bullet(&t);
            if flag() { s = s.add_bullet("other"); }
        }
        carried(&write(s, None), &t, 1);
    }
    /// Bullets of every style and format.
    fn h_c01_bullets() {
        let t = text(true);
        let st = match choose(8) { 0 => BulletStyle::Bullet, 1 => BulletStyle::Number, 2 => BulletStyle::LetterLower, 3 => BulletStyle::LetterUpper, 4 => BulletStyle::RomanLower, 5 => BulletStyle::RomanUpper, 6 => BulletStyle::None, _ => BulletStyle::Custom(['&', '<', '"', '★'][choose(4)]) };
        let mut b = BulletPoint::new(&t).with_style(st).with_level(choose(2) as u32);
        if flag() { b = b.with_format(BulletTextFormat { bold: true, highlight: Some("FFFF00".into()), color: Some("00FF00".into()), ..Default::default() }); }
        let mut s = SlideContent::new("T");
        s.bullets.push(b);
        s.content.push(t.clone());
        let b = write(s, None);
        carried(&b, &t, 1);
        if let BulletStyle::Custom(c) = st {
            let p = open(&b).unwrap();
            let Ok(d) = xml::parse(p.get("ppt/slides/slide1.xml").unwrap()) else { return };
            check(d.nodes.iter().any(|x| x.name == "a:buChar" && x.attrs.iter().any(|a| a.0 == "char" && a.1 == c.to_string().as_bytes())), "the bullet character");
        }
    }
    /// Every other piece of text on a slide.
    fn h_c01_slide() {
        let t = text(false);
        let s = SlideContent::new("T");
        let s = match choose(19) {
            0 => s.notes(&t),
            1 => s.layout(LAYOUTS[choose(7)].clone()).table(Table::from_data(vec![vec!["a", &t], vec!["c", "d"]], vec![1000, 1000], 0, 0)),
            2 => s.table(TableBuilder::new(vec![9]).add_row(TableRow::new(vec![TableCell::new(&t).bold().background_color("FF0000")])).build()),
            3 => s.add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(&t)),
            4 => s.add_shape(Shape::new(ShapeType::Ellipse, 1, 2, 3, 4).with_hyperlink(Hyperlink::url(&t).with_r_id("rId9"))),
            5 => s.add_shape(Shape::new(ShapeType::Ellipse, 1, 2, 3, 4).with_hyperlink(Hyperlink::url("u").with_tooltip(&t).with_r_id("rId9"))),
            6 => s.add_image({ let mut i = image(1, "png"); i.alt_text = Some(t.clone()); i }),
            7 => { if find(t.as_bytes(), b".") || find(t.as_bytes(), b"/") { return; } s.add_image({ let mut i = image(1, "png"); i.filename = format!("{t}.png"); i }) }
            8 => s.add_chart(ChartBuilder::new(&t, CHARTS[choose(21)].clone()).categories(vec!["A"]).add_series(ChartSeries::new("s", vec![1.0])).build()),
            9 => s.add_chart(ChartBuilder::new("c", CHARTS[choose(21)].clone()).categories(vec!["A"]).add_series(ChartSeries::new(&t, vec![1.0])).build()),
            10 => s.add_connector(Connector::straight(1, 2, 3, 4).with_label(&t)),
            11 => s.add_shape(Shape::new(ShapeType::Ellipse, 1, 2, 3, 4).with_hyperlink(Hyperlink::new(HyperlinkAction::email_with_subject("a", "s")).with_tooltip(&t))),
            12 => s.add_shape(Shape::new(ShapeType::Ellipse, 1, 2, 3, 4).with_hyperlink(Hyperlink::email(&t).with_r_id("rId9"))),
            13 => { let mut c = TableCell::new("x"); c.font_family = Some(t.clone()); s.table(TableBuilder::new(vec![9]).add_row(TableRow::new(vec![c])).build()) }
            14 => { let mut s = s.add_bullet("b"); s.bullets[0].format = Some(BulletTextFormat { font_family: Some(t.clone()), ..Default::default() }); s }
            16 => s.add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(&format!("[rs]\n{t}\nx"))),
            17 => s.add_shape(Shape::new(ShapeType::Rectangle, 1, 2, 300000, 400000).with_text(&format!("x\n{t}")).with_fill(ShapeFill::new("102030"))),
            15 => s.layout(SlideLayout::TwoColumn).add_bullet("l").notes(&t),
            _ => s.add_shape(Shape::new(ShapeType::RoundedRectangle, 1, 2, 3, 4).with_text(&t).with_hyperlink(Hyperlink::slide(1))),
        };
        carried(&write(s, None), &t, 1);
    }
    /// Code, which is highlighted and so split into runs: together they are the code.
    fn h_c01_code() {
        let t = text(false);
        let mut s = SlideContent::new("T");
        let lang = ["rust", "", "x\"&<"][choose(3)];
        s.code_blocks.push(CodeBlock::new(&t, lang));
        let b = write(s, None);
        let Some(p) = open(&b) else { fail("not an archive"); return };
        let Ok(d) = xml::parse(p.get("ppt/slides/slide1.xml").unwrap()) else { fail("not well formed"); return };
        let mut all: Vec<u8> = Vec::new();
        for x in &d.nodes { if x.name == "a:t" { all.extend_from_slice(&x.text); } }
        let t = t.as_bytes();
        let at = (0..all.len().saturating_sub(1)).find(|&i| all[i] == b'Q' && all[i + 1] == b'a');
        match at { Some(i) => check(all.len() >= i + t.len() && same(&all[i..i + t.len()], t), "the code is what was supplied"), None => fail("the code is missing") }
    }
    /// Categories of every chart type that has them.
    fn h_c01_categories() {
        let t = text(false);
        let ty = CHARTS[choose(21)].clone();
        if matches!(ty, ChartType::Scatter | ChartType::ScatterLines | ChartType::ScatterSmooth | ChartType::Bubble) { return; }
        let s = SlideContent::new("T").add_chart(ChartBuilder::new("c", ty).categories(vec![&t]).add_series(ChartSeries::new("s", vec![1.0])).build());
        carried(&write(s, None), &t, 1);
    }
    /// Text that belongs to the whole presentation.
    fn h_c01_settings() {
        let t = text(false);
        let st = PresentationSettings::new();
        let s = SlideContent::new("T");
        let b = match choose(11) {
            0 => eager(&t, &[s], None),
            1 => lazy(&t, vec![s], None),
            2 => streamed(&t, &[s], None),
            3 => create_pptx(&t, 2).unwrap(),
            4 => write(s, Some(st.theme(PresentationTheme::new(t.clone())))),
            5 => write(s, Some(st.theme({ let mut x = PresentationTheme::corporate(); x.fonts = ThemeFonts::new(t.clone(), "m"); x }))),
            6 => write(s, Some(st.digital_signature(DigitalSignature::new(SignerInfo::new(&t))))),
            7 => write(s, Some(st.digital_signature(DigitalSignature::new(SignerInfo::new("me")).comments(&t)))),
            8 => write(s, Some(st.digital_signature(DigitalSignature::new(SignerInfo::new("me")).sign_date(&t)))),
            9 => { let mut f = EmbeddedFontList::new(); f.add(EmbeddedFont::new("F", FontStyle::Bold, vec![1], "").panose(&t)); write(s, Some(st.embedded_fonts(f))) }
            _ => write(s, Some(st.print(PrintSettings::new().print_what(PrintWhat::Handouts).header(&t).footer("f")))),
        };
        carried(&b, &t, 1);
    }
    /// Emitters of fragments and of single parts.
    fn h_c01_fragments() {
        use ppt_rs::parts::*;
        let t = text(false);
        match choose(25) {
            0 => fragment(&Run::new(&t).to_xml(), &t),
            1 => fragment(&Paragraph::with_text(&t).to_xml(), &t),
            2 => fragment(&TextFrame::with_text(&t).to_xml(), &t),
            3 => fragment(&Run::new("x").with_format(TextFormat { font_family: Some(t.clone()), ..Default::default() }).to_xml(), &t),
            4 => { let mut c = CorePropertiesPart::new(); c.set_title(&t); fragment(&c.to_xml().unwrap(), &t) }
            5 => { let mut c = CorePropertiesPart::new(); c.set_subject(&t).set_creator("x"); fragment(&c.to_xml().unwrap(), &t) }
            6 => { let mut c = CorePropertiesPart::new(); c.set_creator(&t); fragment(&c.to_xml().unwrap(), &t) }
            7 => { let mut c = CorePropertiesPart::new(); c.set_keywords(&t); fragment(&c.to_xml().unwrap(), &t) }
            8 => { let mut c = CorePropertiesPart::new(); c.set_description(&t); fragment(&c.to_xml().unwrap(), &t) }
            9 => { let mut c = CorePropertiesPart::new(); c.last_modified_by = Some(t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            10 => { let mut c = AppPropertiesPart::new(); c.set_company(t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            11 => { let mut c = AppPropertiesPart::new(); c.set_application(t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            12 => { let c = NotesSlidePart::with_text(1, t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            13 => { let mut c = ThemePart::new(1); c.set_name(t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            14 => { let mut c = ThemePart::new(1); c.set_major_font(t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            15 => { let mut c = SlideLayoutPart::new(1, LayoutType::Blank); c.set_name(t.clone()); fragment(&c.to_xml().unwrap(), &t) }
            16 => { let mut c = Relationships::new(); c.add(RelationshipType::Image, &t); fragment(&c.to_xml(), &t) }
            17 => { let mut c = ContentTypesPart::new(); c.add_override(t.clone(), "x"); fragment(&c.to_xml().unwrap(), &t) }
            18 => fragment(&TableCellPart::new(t.clone()).to_xml(), &t),
            19 => fragment(&TableCellPart::new("x").font(t.clone()).to_xml(), &t),
            20 => fragment(&CommentAuthor::new(1, &t, "i").to_xml(), &t),
            21 => fragment(&CommentAuthor::new(1, "n", &t).to_xml(), &t),
            22 => { let mut l = SlideComments::new(); l.add_comment(1, &t, 1, 2); fragment(&l.to_xml(), &t) }
            23 => fragment(&generate_video_xml(&Video::new("v.mp4", VideoFormat::Mp4, 1, 2, 3, 4).with_alt_text(&t), 3, "rId2", "rId3"), &t),
            _ => fragment(&generate_audio_xml(&Audio::new("v.mp3", AudioFormat::Mp3, 1, 2, 3, 4).with_alt_text(&t), 3, "rId2"), &t),
        }
    }
    /// Section names (their ids are hashes of the names, so the awkward sequences only).
    fn h_c01_sections() {
        let t = format!("Qa{}Zz", SPEC[choose(SPEC.len())]);
        let mut m = SectionManager::new();
        m.add_section(&t, 0, 1).unwrap();
        fragment(&m.to_xml(1), &t);
    }
    /// Escaping: any text of up to four characters comes back, and only its own bytes are added.
    fn h_c01_escape() {
        let s = chars(n(2, 3));
        let k = choose(2);
        let e = if k == 0 { ppt_rs::core::escape_xml(&s) } else { let mut b = String::from("<"); ppt_rs::core::append_escape_xml(&mut b, &s); b[1..].to_string() };
        let mut back: Vec<u8> = Vec::new();
        let v = e.as_bytes();
        let mut i = 0;
        while i < v.len() {
            check((v[i] != b'<') & (v[i] != b'>') & (v[i] != b'"'), "no markup is left");
            if v[i] == b'&' {
                let r: [(&[u8], u8); 5] = [(b"&amp;", b'&'), (b"&lt;", b'<'), (b"&gt;", b'>'), (b"&quot;", b'"'), (b"&apos;", b'\'')];
                let mut hit = false;
                for (x, c) in r { if i + x.len() <= v.len() && v[i..i + x.len()] == *x { back.push(c); i += x.len(); hit = true; break; } }
                if !hit { fail("bad reference"); return; }
            } else { back.push(v[i]); i += 1; }
        }
        check(same(&back, s.as_bytes()), "unescaping gives the text back");
    }
}

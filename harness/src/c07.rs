//! C07: validation accepts what the library writes and reports every structural break.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::core::{validate_package_bytes, PackageValidationReport};
use ppt_rs::generator::*;

const REQUIRED: [&str; 12] = ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels", "ppt/presProps.xml", "ppt/viewProps.xml", "ppt/tableStyles.xml", "ppt/theme/theme1.xml", "ppt/slideMasters/slideMaster1.xml", "ppt/slideLayouts/slideLayout1.xml", "docProps/core.xml", "docProps/app.xml"];
fn report(b: &[u8]) -> PackageValidationReport {
    let r = validate_package_bytes(b);
    check(r.is_valid() == (r.error_count() == 0) && r.is_ok() == r.is_valid(), "validity and the number of errors");
    check(r.error_messages().len() == r.error_count(), "the messages");
    r
}
fn good(b: &[u8], what: &str) { for m in report(b).error_messages() { fail(&format!("{what}: {m}")); } }
fn bad(b: &[u8], what: &str) { check(!report(b).is_valid(), what); }

fn slides(kind: usize) -> Vec<SlideContent> {
    let a = SlideContent::new("A").add_bullet("a");
    let b = SlideContent::new("B").add_bullet("b").notes("n").add_image(image(7, "png")).add_image(image(8, "JPG"));
    let c = SlideContent::new("C").add_chart(chart(ChartType::Bar)).add_image(image(8, "jpeg"));
    match kind { 0 => vec![a, b], 1 => vec![c, a], 2 => vec![b, c], _ => vec![] }
}
fn code(mut s: SlideContent, c: &str, l: &str) -> SlideContent { s.code_blocks.push(CodeBlock::new(c, l)); s }
fn handouts() -> PresentationSettings { PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts)) }
fn deck(kind: usize) -> Vec<u8> {
    match kind {
        0 => eager("T", &slides(0), None),
        1 => eager("T", &slides(1), Some(handouts().embedded_fonts(fonts(1)).digital_signature(DigitalSignature::new(SignerInfo::new("me"))))),
        _ => lazy("T", slides(2), None),
    }
}
/// Shortens the long parts that no package needs to be told from another.
fn slim(b: &[u8]) -> Pkg {
    let mut p = open(b).unwrap();
    for (n, d) in &mut p.parts {
        if n.ends_with(".rels") { continue; }
        if n.starts_with("ppt/theme/") { let mut v = b"<a:theme>".to_vec(); v.resize(7100, b' '); v.extend_from_slice(b"</a:theme>"); *d = v; }
        if n.starts_with("ppt/slideLayouts/") { *d = b"<p:sldLayout/>".to_vec(); }
    }
    p
}
/// The package with its relationships written another way.
fn respell(p: &mut Pkg, how: usize) {
    let rels: Vec<String> = p.parts.iter().map(|x| x.0.clone()).filter(|n| n.ends_with(".rels")).collect();
    for n in rels {
        let src = source_of(&n).unwrap();
        let v = p.rels(&n).unwrap();
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">");
        for r in v {
            let t = if how == 2 && !r.external { format!("/{}", resolve(&src, &r.target).unwrap()) } else { r.target.clone() };
            let m = if r.external { " TargetMode='External'" } else { "" };
            s += &match how { 0 => format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{m}/>", r.id, r.ty, t), 1 => format!("<Relationship{m} Target='{}'\n Type='{}' Id='{}'></Relationship>", t, r.ty, r.id), _ => format!("<Relationship Type=\"{}\" Target=\"{}\"{m} Id=\"{}\" />", r.ty, t, r.id) };
        }
        s += "</Relationships>";
        set(p, &n, s);
    }
}
fn set(p: &mut Pkg, n: &str, s: String) { if let Some(x) = p.parts.iter_mut().find(|x| x.0 == n) { x.1 = s.into_bytes(); } }
fn text(p: &Pkg, n: &str) -> String { String::from_utf8(p.get(n).unwrap().to_vec()).unwrap() }
fn types_xml(de: &[(String, String)], ov: &[(String, String)], quote: char) -> String {
    let mut s = String::from("<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\">");
    for (e, t) in de { s += &format!("<Default Extension={quote}{e}{quote} ContentType={quote}{t}{quote}/>"); }
    for (e, t) in ov { s += &if quote == '"' { format!("<Override PartName=\"{e}\" ContentType=\"{t}\"/>") } else { format!("<Override ContentType='{t}' PartName='{e}' />") }; }
    s + "</Types>"
}
fn typed<'a>(de: &'a [(String, String)], ov: &'a [(String, String)], n: &str) -> Option<&'a str> {
    let ext = match n.rfind('.') { Some(i) => n[i + 1..].to_ascii_lowercase(), None => String::new() };
    ov.iter().find(|o| &o.0[1..] == n).or_else(|| de.iter().find(|d| d.0 == ext)).map(|x| &x.1[..])
}
/// Parts whose content type is lost with these declarations.
fn untyped(p: &Pkg, was: &(Vec<(String, String)>, Vec<(String, String)>), de: &[(String, String)], ov: &[(String, String)]) -> bool {
    p.parts.iter().any(|(n, _)| n != "[Content_Types].xml" && match (typed(&was.0, &was.1, n), typed(de, ov, n)) { (Some(a), Some(b)) => a != b && b == "application/xml", (Some(_), None) => true, _ => false })
}

harnesses! {
    /// Every kind of slide and setting, by every writer.
    fn h_c07_decks() {
        let mut s = slides(choose(n(2, 4)));
        let l = LAYOUTS[choose(n(3, 7))];
        s.push(SlideContent::new("S").layout(l).add_bullet("x").add_bullet("y"));
        let set = settings(n(1, 2));
        let b = match choose(n(2, 3)) { 0 => eager("T", &s, set), 1 => lazy("T", s, set), _ => streamed("T", &s, set) };
        good(&b, "a generated deck");
    }
    /// Slides of every kind.
    fn h_c07_kinds() {
        let t = SlideContent::new("T");
        let v = match choose(8) {
            0 => t.add_chart(chart(CHARTS[choose(CHARTS.len())])).add_chart(chart(ChartType::Pie)),
            1 => t.table(table()).add_bullet("b").notes("n"),
            2 => t.add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9)).add_connector(Connector::straight(0, 0, 5, 5)).add_shape(Shape::new(ShapeType::Star5, 0, 0, 9, 9).with_hyperlink(Hyperlink::new(HyperlinkAction::url("http://a/?presProps&tableStyles=\"1\"")))),
            3 => t.with_ink(if flag() { ink() } else { InkAnnotations::new() }).add_image(image(1, "png")),
            4 => code(t, "let r:id=\"rId77\"; <p:cNvPr id=\"2\"/>", "rust").add_bullet("r:embed=\"rId77\" 'r:id=rId5'"),
            5 => t.notes("slides/slide9.xml Target=\"x\" <p:sldId />"),
            6 => t.add_image(image(1, "png")).add_image(image(1, "png")).add_image(image(2, "gif")).add_image(lost_image()),
            _ => t.add_bullet("a").layout(SlideLayout::TwoColumn),
        };
        let s: Vec<SlideContent> = match choose(2) { 0 => vec![v], _ => vec![v.clone(), SlideContent::new("between"), v] };
        good(&eager("r:id=\"rId9\" <p:sldIdLst> presProps", &s, None), "a generated deck");
    }
    /// Fonts whose names resemble those of other parts.
    fn h_c07_names() {
        let mut l = EmbeddedFontList::new();
        l.add(EmbeddedFont::new(["presProps", "tableStyles", "slides/slide", "theme/theme1", "a\"b&c<d>'"][choose(5)], FontStyle::Regular, vec![1], ""));
        good(&eager("T", &slides(choose(2)), Some(PresentationSettings::new().embedded_fonts(l))), "a generated deck");
    }
    /// A required part, or the target of a relationship, is missing.
    fn h_c07_missing() {
        let mut p = slim(&deck(choose(3)));
        if let 1.. = choose(2) { let how = if THOROUGH { choose(3) } else { 1 }; respell(&mut p, how); good(&build(&p.parts), "relationships in another spelling"); }
        let c: Vec<String> = p.parts.iter().map(|x| x.0.clone()).filter(|n| !n.ends_with(".rels") || REQUIRED.contains(&&n[..])).collect();
        let gone = c[choose(c.len())].clone();
        p.parts.retain(|x| x.0 != gone);
        bad(&build(&p.parts), "a missing part is not reported");
        if REQUIRED.contains(&&gone[..]) && gone != "[Content_Types].xml" {
            // not even when nothing speaks of it any more
            let rels: Vec<String> = p.parts.iter().map(|x| x.0.clone()).filter(|n| n.ends_with(".rels")).collect();
            for n in rels {
                let src = source_of(&n).unwrap();
                let mut s = String::from("<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">");
                for r in p.rels(&n).unwrap() { if r.external || resolve(&src, &r.target).as_deref() != Some(&gone[..]) { s += &format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>", r.id, r.ty, r.target, if r.external { " TargetMode=\"External\"" } else { "" }); } }
                set(&mut p, &n, s + "</Relationships>");
            }
            let (de, mut ov) = content_types(&p).unwrap();
            ov.retain(|o| o.0[1..] != gone);
            set(&mut p, "[Content_Types].xml", types_xml(&de, &ov, '"'));
            bad(&build(&p.parts), "a required part is not missed");
        }
    }
    /// Any one declaration of a content type is missing, or is for something else.
    fn h_c07_types() {
        let mut p = slim(&deck(choose(3)));
        let (de, ov) = content_types(&p).unwrap();
        let was = (de.clone(), ov.clone());
        let quote = ['"', '\''][choose(2)];
        set(&mut p, "[Content_Types].xml", types_xml(&de, &ov, quote));
        good(&build(&p.parts), "content types in another spelling");
        let i = choose(de.len() + ov.len());
        let (mut d2, mut o2) = (de, ov);
        if i < d2.len() { d2.remove(i); } else { o2.remove(i - d2.len()); }
        if untyped(&p, &was, &d2, &o2) {
            set(&mut p, "[Content_Types].xml", types_xml(&d2, &o2, quote));
            bad(&build(&p.parts), "a missing content type is not reported");
        }
    }
    /// One character of a declared part name or extension is another.
    fn h_c07_type_name() {
        let mut p = slim(&deck(1));
        let name = ["/ppt/slides/slide1.xml", "/docProps/app.xml", "/ppt/charts/chart1.xml", "/ppt/slideLayouts/slideLayout3.xml", "rels", "png", "xlsx", "fntdata", "jpeg"][choose(9)];
        let s = text(&p, "[Content_Types].xml");
        let Some(at) = s.find(&format!("\"{name}\"")) else { return };
        let l = name.len();
        let k = match name.starts_with('/') { true => [l - 1, l - 5, l - 7, 1][choose(4)], false => choose(l) };
        let c = byte();
        assume((c >= b'a') & (c <= b'z') | (c >= b'0') & (c <= b'9') | (c >= b'A') & (c <= b'Z'));
        let types = content_types(&p).unwrap();
        let mut v = s.into_bytes();
        let was = v[at + 1 + k];
        v[at + 1 + k] = c;
        p.parts.iter_mut().find(|x| x.0 == "[Content_Types].xml").unwrap().1 = v;
        let r = report(&build(&p.parts));
        // names of parts are the same in any case
        let (de, ov) = content_types(&p).unwrap();
        if was == c { check(r.is_valid(), "a generated deck"); }
        else if (was | 32) != (c | 32) && untyped(&p, &types, &de, &ov) { check(!r.is_valid(), "a part without content type is not reported"); }
    }
    /// One character of a relationship target is another.
    fn h_c07_target() {
        let mut p = slim(&deck(2));
        let (rels, target) = [("ppt/slides/_rels/slide1.xml.rels", "../media/image1.png"), ("ppt/slides/_rels/slide1.xml.rels", "../notesSlides/notesSlide1.xml"), ("ppt/notesSlides/_rels/notesSlide1.xml.rels", "../slides/slide1.xml"), ("ppt/_rels/presentation.xml.rels", "viewProps.xml"), ("ppt/slides/_rels/slide2.xml.rels", "../charts/chart1.xml"), ("_rels/.rels", "docProps/app.xml"), ("ppt/slideMasters/_rels/slideMaster1.xml.rels", "../slideLayouts/slideLayout7.xml")][choose(7)];
        if flag() { respell(&mut p, 1); }
        let mut v = text(&p, rels).into_bytes();
        let s = String::from_utf8(v.clone()).unwrap();
        let Some(at) = s.find(&format!("\"{target}\"")).or_else(|| s.find(&format!("'{target}'"))) else { fail("a relationship"); return };
        let l = target.len();
        let k = [l - 1, l - 5, l - 6, l - 9][choose(4)];
        let c = byte();
        assume((c >= b'a') & (c <= b'z') | (c >= b'0') & (c <= b'9') | (c == b'-') | (c == b'_') | (c == b'.'));
        v[at + 1 + k] = c;
        p.parts.iter_mut().find(|x| x.0 == rels).unwrap().1 = v;
        let mut t = target.as_bytes().to_vec();
        t[k] = c;
        let there = resolve(&source_of(rels).unwrap(), std::str::from_utf8(&t).unwrap()).is_some_and(|n| p.has(&n));
        if !there { bad(&build(&p.parts), "a missing target is not reported"); }
        else if target.as_bytes()[k] == c { good(&build(&p.parts), "a generated deck"); }
    }
    /// One more relationship, inside or out of the package.
    fn h_c07_extra() {
        let mut p = slim(&deck(choose(n(1, 2))));
        let rels = ["_rels/.rels", "ppt/_rels/presentation.xml.rels", "ppt/slides/_rels/slide1.xml.rels", "ppt/slideMasters/_rels/slideMaster1.xml.rels", "ppt/theme/_rels/theme1.xml.rels"][choose(5)];
        if !p.has(rels) { p.parts.push((rels.into(), b"<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\"></Relationships>".to_vec())); }
        let src = source_of(rels).unwrap();
        let t: String = match choose(4) { 0 => "/ppt/presentation.xml".into(), 1 => "/ppt/none.xml".into(), 2 => "http://a/b.xml".into(), _ => { let c = of_set(1, b"abcxyz"); format!("/docProps/{c}pp.xml") } };
        let mode = [None, Some("Internal"), Some("External")][choose(3)];
        let m = match mode { Some(m) => format!("TargetMode=\"{m}\""), None => String::new() };
        let x = match choose(3) { 0 => format!("<Relationship {m} Target=\"{t}\" Type=\"urn:x\" Id=\"extra\"/>"), 1 => format!("<Relationship Id='extra' Type='urn:TargetMode=\"External\"' Target='{t}' {m}></Relationship>"), _ => format!("<Relationship Type=\"urn:x\" Id=\"extra\" {m}\n Target=\"{t}\" />") };
        let s = text(&p, rels).replace("</Relationships>", &format!("{x}</Relationships>"));
        set(&mut p, rels, s);
        let there = mode == Some("External") || resolve(&src, &t).is_some_and(|n| p.has(&n));
        let r = report(&build(&p.parts));
        check(r.is_valid() == there, if there { "a relationship is taken for broken" } else { "a broken relationship is not reported" });
    }
    /// A part that holds no text, or no XML.
    fn h_c07_unreadable() {
        let mut p = slim(&deck(0));
        let c: Vec<usize> = (0..p.parts.len()).filter(|i| p.parts[*i].0.ends_with(".xml") || p.parts[*i].0.ends_with(".rels")).collect();
        let i = c[choose(c.len())];
        let d = &mut p.parts[i].1;
        if flag() { d.truncate(d.len() - 1); } else { let k = d.len() / 2; let b = byte(); assume(b >= 0x80); d[k] = b; }
        bad(&build(&p.parts), "a part that cannot be read is not reported");
    }
    /// No archive at all.
    fn h_c07_bytes() {
        let b: Vec<u8> = (0..choose(n(4, 6))).map(|_| byte()).collect();
        bad(&b, "no archive");
        bad(&build(&[]), "an empty archive");
    }
}

//! C06: repair loses nothing, reaches a valid package and is idempotent.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::generator::*;
use ppt_rs::oxml::repair::{PptxRepair, RepairIssue};
use ppt_rs::oxml::PresentationReader;

const BASE: [&str; 4] = ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels"];
fn deck(kind: usize) -> Vec<u8> { slim(&whole(kind)) }
fn whole(kind: usize) -> Vec<u8> {
    let a = SlideContent::new("A").add_bullet("a");
    let b = SlideContent::new("B").add_bullet("b").notes("n").add_image(image(7, "png"));
    let c = SlideContent::new("C").add_bullet("c").add_chart(chart(ChartType::Bar)).add_image(image(8, "jpg"));
    match kind {
        0 => eager("T", &[a, SlideContent::new("B").add_bullet("b")], None),
        1 => eager("T", &[a, b, c], None),
        2 => eager("T", &[b, a], Some(PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts)).embedded_fonts(fonts(1)))),
        _ => lazy("T", vec![a, c], None),
    }
}
/// Shortens what neither the repair nor the reader looks into.
fn slim(b: &[u8]) -> Vec<u8> {
    let mut p = open(b).unwrap();
    for (n, d) in &mut p.parts {
        if n.ends_with(".rels") { continue; }
        if n.starts_with("ppt/theme/") || n.starts_with("ppt/slideLayouts/") || n.starts_with("ppt/slideMasters/") || n.starts_with("ppt/notesMasters/") || n.starts_with("ppt/handoutMasters/") || n.starts_with("ppt/charts/") { *d = b"<x/>".to_vec(); }
        if n == BASE[2] { let s = String::from_utf8(d.clone()).unwrap(); let (a, e) = (s.find("<p:defaultTextStyle>").unwrap(), s.find("</p:defaultTextStyle>").unwrap()); *d = format!("{}{}", &s[..a], &s[e + 21..]).into_bytes(); }
    }
    build(&p.parts)
}
fn save(parts: &[(String, Vec<u8>)]) -> Vec<u8> { build(parts) }
/// Titles and bullets as the reader gives them.
fn slides(b: &[u8]) -> Option<Vec<(String, Vec<String>)>> {
    std::fs::write("r.pptx", b).unwrap();
    let r = PresentationReader::open("r.pptx");
    let _ = std::fs::remove_file("r.pptx");
    let r = r.ok()?;
    let mut v = Vec::new();
    for i in 0..r.slide_count() { if let Ok(s) = r.get_slide(i) { v.push((s.title.unwrap_or_default(), s.body_text)); } }
    Some(v)
}
struct Done { out: Pkg, valid: bool, bytes: Vec<u8> }
/// Repairs, and judges what every repair owes: other parts kept, reported issues gone, a second run without effect.
fn repaired(b: &[u8]) -> Option<Done> {
    let before = open(b)?;
    let Ok(mut r) = PptxRepair::from_bytes(b) else { fail("cannot be opened"); return None };
    let res = r.repair();
    let Ok(bytes) = r.to_bytes() else { fail("cannot be saved"); return None };
    let out = open(&bytes)?;
    for (n, d) in &before.parts {
        let Some(x) = out.get(n) else { fail("a part was lost"); continue };
        let changes = n.ends_with(".rels") || n == BASE[0] || n == BASE[2] || res.issues_repaired.iter().any(|i| matches!(i, RepairIssue::InvalidXml { path, .. } if path == n));
        if !changes { check(x == &d[..], "a part was altered"); }
    }
    for (n, _) in &out.parts { check(before.has(n) || BASE.contains(&n.as_str()), "a part was made up"); }
    check(res.issues_found.len() == res.issues_repaired.len() + res.issues_unrepaired.len(), "every issue is accounted for");
    let left = r.validate();
    check(res.is_valid == left.is_empty(), "success means no issues");
    for i in &res.issues_repaired { check(!left.contains(i), "an issue reported as repaired is still there"); }
    if res.issues_found.is_empty() { check(bytes_same(&before, &out), "a valid package is left alone"); }
    // again
    let Ok(mut r) = PptxRepair::from_bytes(&bytes) else { fail("cannot be opened again"); return None };
    let again = r.repair();
    if res.is_valid {
        check(again.issues_found.is_empty() && again.is_valid, "a second repair finds something");
        let Ok(b2) = r.to_bytes() else { fail("cannot be saved"); return None };
        check(open(&b2).is_some_and(|p| bytes_same(&out, &p)), "a second repair changes something");
    }
    Some(Done { out, valid: res.is_valid, bytes })
}
fn bytes_same(a: &Pkg, b: &Pkg) -> bool { a.parts.len() == b.parts.len() && a.parts.iter().all(|x| b.get(&x.0) == Some(&x.1[..])) }
/// The content type each part is declared with.
fn types(p: &Pkg) -> Vec<(String, String)> {
    let (de, ov) = content_types(p).unwrap_or_default();
    let mut v = Vec::new();
    for (n, _) in &p.parts {
        if n == BASE[0] || n.ends_with(".rels") { continue; }
        let ext = n.rsplit('.').next().unwrap_or("");
        let t = ov.iter().find(|o| &o.0[1..] == n).or_else(|| de.iter().find(|d| d.0 == ext));
        v.push((n.clone(), t.map(|t| t.1.clone()).unwrap_or_default()));
    }
    v.sort();
    v
}
fn same_types(a: &Pkg, b: &Pkg) { let (x, y) = (types(a), types(b)); for t in &x { if b.has(&t.0) { check(y.contains(t), "the content type of a part"); } } }
/// Relationships in another spelling of the same XML.
fn respell(b: &[u8], how: usize) -> Vec<u8> {
    let mut p = open(b).unwrap();
    let rels: Vec<String> = p.parts.iter().map(|x| x.0.clone()).filter(|n| n.ends_with(".rels")).collect();
    for n in rels {
        let src = source_of(&n).unwrap();
        let v = p.rels(&n).unwrap();
        let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?><Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">");
        for r in v {
            let t = if how == 2 && !r.external { format!("/{}", resolve(&src, &r.target).unwrap()) } else { r.target.clone() };
            let m = if r.external { " TargetMode=\"External\"" } else { "" };
            s += &match how { 0 => format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{m}/>", r.id, r.ty, t), 1 => format!("<Relationship Target='{}'\n Type='{}' Id='{}'{m}></Relationship>", t, r.ty, r.id), _ => format!("<Relationship Type=\"{}\" Target=\"{}\"{m} Id=\"{}\" />", r.ty, t, r.id) };
        }
        s += "</Relationships>";
        let i = p.parts.iter().position(|x| x.0 == n).unwrap();
        p.parts[i].1 = s.into_bytes();
    }
    build(&p.parts)
}

harnesses! {
    /// A valid deck is left alone, however its relationships are spelled.
    fn h_c06_valid() {
        let b = deck(choose(4));
        let b = match choose(4) { 3 => b, h => respell(&b, h) };
        let Ok(mut r) = PptxRepair::from_bytes(&b) else { fail("cannot be opened"); return };
        check(r.validate().is_empty(), "a valid deck has issues");
        if let Some(d) = repaired(&b) { check(d.valid && bytes_same(&open(&b).unwrap(), &d.out), "a valid deck was changed"); }
    }
    /// Any of the parts that hold the package together are missing.
    fn h_c06_missing() {
        let b = deck(choose(4));
        let mut p = open(&b).unwrap();
        let all = open(&b).unwrap();
        let want = slides(&b);
        let set = 1 + choose(15);
        p.parts.retain(|x| !BASE.iter().enumerate().any(|(i, n)| set >> i & 1 == 1 && x.0 == *n));
        let Some(d) = repaired(&save(&p.parts)) else { return };
        check(d.valid, "not repaired");
        check(slides(&d.bytes) == want, "the slides after the repair");
        same_types(&all, &d.out);
        closed_or_fail(&d.out, "the repaired package");
    }
    /// Any other part is missing.
    fn h_c06_broken() {
        let kind = choose(n(2, 4));
        let b = deck(kind);
        let b = match choose(n(2, 4)) { 1 => b, 3 => respell(&b, 1), 2 => respell(&b, 2), h => respell(&b, h) };
        let mut p = open(&b).unwrap();
        let all: Vec<usize> = (0..p.parts.len()).filter(|i| { let x = &p.parts[*i].0; !BASE.contains(&x.as_str()) && !x.ends_with(".rels") }).collect();
        let i = all[choose(all.len())];
        let gone = p.parts.remove(i).0;
        let before = open(&save(&p.parts)).unwrap();
        let mut want = slides(&b).unwrap_or_default();
        if let Some(i) = gone.strip_prefix("ppt/slides/slide") { let i: usize = i.trim_end_matches(".xml").parse().unwrap(); want.remove(i - 1); }
        let Some(d) = repaired(&save(&p.parts)) else { return };
        check(d.valid, "not repaired");
        check(slides(&d.bytes).is_some_and(|s| s == want), "the other slides");
        check(slide_order(&d.out).is_some_and(|o| o.len() == want.len()), "the list of slides");
        // what was not broken is still there
        for (n, _) in &before.parts {
            if !n.ends_with(".rels") { continue; }
            let src = source_of(n).unwrap();
            if src == gone { continue; }
            let (Some(x), Some(y)) = (before.rels(n), d.out.rels(n)) else { fail("relationships cannot be read"); return };
            for r in &x {
                let broken = !r.external && resolve(&src, &r.target).as_deref() == Some(&gone[..]);
                check(broken != y.iter().any(|q| q.id == r.id && q.target == r.target && q.ty == r.ty), "a relationship");
            }
        }
    }
    /// One character of a relationship target is another.
    fn h_c06_target() {
        let b = deck(1);
        let mut p = open(&b).unwrap();
        let (rels, target) = [("ppt/slides/_rels/slide2.xml.rels", "../media/image1.png"), ("ppt/slides/_rels/slide2.xml.rels", "../slideLayouts/slideLayout2.xml"), ("ppt/_rels/presentation.xml.rels", "theme/theme1.xml"), ("ppt/slides/_rels/slide3.xml.rels", "../charts/chart1.xml"), ("_rels/.rels", "docProps/app.xml")][choose(5)];
        let i = p.parts.iter().position(|x| x.0 == rels).unwrap();
        let at = String::from_utf8(p.parts[i].1.clone()).unwrap().find(&format!("\"{target}\"")).unwrap() + 1;
        let l = target.len();
        let k = [l - 1, l - 5, l - 8][choose(3)];
        let c = byte();
        assume((c >= b'a') & (c <= b'z') | (c >= b'0') & (c <= b'9') | (c == b'-') | (c == b'_'));
        let was = p.parts[i].1[at + k];
        p.parts[i].1[at + k] = c;
        let b = save(&p.parts);
        let Ok(mut r) = PptxRepair::from_bytes(&b) else { fail("cannot be opened"); return };
        let found = r.validate();
        let src = source_of(rels).unwrap();
        let mut t = target.as_bytes().to_vec();
        t[k] = c;
        let path = resolve(&src, std::str::from_utf8(&t).unwrap()).unwrap();
        let broken = !p.has(&path);
        check(broken == found.iter().any(|i| matches!(i, RepairIssue::BrokenRelationship { source, target, .. } if source == rels && *target == path)), "whether the target is there");
        check(broken || was == c || k != l - 1, "the target is another part");
        if let Some(d) = repaired(&b) { check(d.valid, "not repaired"); }
    }
    /// Slides that the presentation no longer mentions, and slides it mentions twice over.
    fn h_c06_unlisted() {
        let b = deck(1);
        let mut p = open(&b).unwrap();
        let i = p.parts.iter().position(|x| x.0 == BASE[2]).unwrap();
        let j = p.parts.iter().position(|x| x.0 == BASE[3]).unwrap();
        let mut pres = String::from_utf8(p.parts[i].1.clone()).unwrap();
        let rels = p.rels(BASE[3]).unwrap();
        let mut rx = String::from_utf8(p.parts[j].1.clone()).unwrap();
        let order = ["ppt/slides/slide1.xml", "ppt/slides/slide2.xml", "ppt/slides/slide3.xml"];
        let k = choose(3);
        let id = rels.iter().find(|r| resolve(BASE[2], &r.target).as_deref() == Some(order[k])).unwrap().id.clone();
        let cut = |s: &mut String, what: &str, open: &str| { let at = s.find(what).unwrap(); let a = s[..at].rfind(open).unwrap(); let e = at + s[at..].find("/>").unwrap() + 2; s.replace_range(a..e, ""); };
        let how = choose(4);
        if how == 0 || how == 2 { cut(&mut pres, &format!("r:id=\"{id}\""), "<p:sldId"); }
        if how == 1 || how == 2 { cut(&mut rx, &format!("Id=\"{id}\""), "<Relationship"); }
        if how == 3 { let a = pres.find("<p:sldIdLst>").unwrap(); let e = pres.find("</p:sldIdLst>").unwrap() + "</p:sldIdLst>".len(); let with = ["", "<p:sldIdLst/>", "<p:sldIdLst />"][choose(3)]; pres.replace_range(a..e, with); }
        p.parts[i].1 = pres.into_bytes();
        p.parts[j].1 = rx.into_bytes();
        let Some(d) = repaired(&save(&p.parts)) else { return };
        let s = slides(&d.bytes).unwrap_or_default();
        for t in ["A", "B", "C"] { check(s.iter().filter(|x| x.0 == t).count() == 1, "every slide once"); }
        check(slide_order(&d.out).is_some_and(|o| order.iter().all(|x| o.iter().filter(|y| y == x).count() == 1)), "every slide is listed once");
        if how != 1 { check(d.valid, "not repaired"); closed_or_fail(&d.out, "the repaired package"); }
    }
    /// A content type is not declared.
    fn h_c06_types() {
        let b = deck(1 + choose(2));
        let all = open(&b).unwrap();
        let mut p = open(&b).unwrap();
        let i = p.parts.iter().position(|x| x.0 == BASE[0]).unwrap();
        let s = String::from_utf8(p.parts[i].1.clone()).unwrap();
        let starts: Vec<usize> = s.match_indices("<Override").chain(s.match_indices("<Default")).map(|x| x.0).collect();
        let a = starts[choose(starts.len())];
        let e = a + s[a..].find("/>").unwrap() + 2;
        if s[a..e].contains("\"rels\"") { return; }
        let mut t = s.clone();
        t.replace_range(a..e, "");
        p.parts[i].1 = t.into_bytes();
        let Some(d) = repaired(&save(&p.parts)) else { return };
        check(d.valid, "not repaired");
        check(s[a..e].contains("\"xml\"") || open(&d.bytes).is_some(), "an archive");
        same_types(&all, &d.out);
    }
    /// Bare ampersands in the text of a slide become text; what cannot be mended is left alone.
    fn h_c06_xml() {
        let b = deck(0);
        let mut p = open(&b).unwrap();
        let i = p.parts.iter().position(|x| x.0 == "ppt/slides/slide1.xml").unwrap();
        let s = String::from_utf8(p.parts[i].1.clone()).unwrap();
        let mut t = String::new();
        if flag() { t = of_set(1, b"&x") + of_set1(&["amp", "", "#", "#x", "l"]) + &of_set(n(2, 3), b"&;#at1 "); } else { t = ["&amp;lt;", "&amp", "&ampx;", "&#65;", "&#x41;", "&#;", "&quot;&", "a&&b", "&abcdefghijklmnop;", "&é;", "<", "</a:t>", "&nbsp;", "&lt", "&#1;", "R&D;", "&apos;&", "&lt;&", "&gt;&", "&amp;&"][choose(20)].into(); }
        let at = s.find("<a:t>A</a:t>").unwrap() + 5;
        let lead = if flag() { "\n " } else { "" };
        let mut d = s.clone();
        d.replace_range(at..at + 1, &format!("x{t}y"));
        p.parts[i].1 = format!("{lead}{d}").into_bytes();
        let b = save(&p.parts);
        let was = open(&b).unwrap();
        let fine = crate::xml::parse(was.get("ppt/slides/slide1.xml").unwrap()).is_ok();
        let Some(r) = repaired(&b) else { return };
        if !r.valid { check(r.out.get("ppt/slides/slide1.xml") == was.get("ppt/slides/slide1.xml"), "what cannot be mended is left alone"); return; }
        check(t.contains('<') || r.valid, "not repaired");
        let got = slides(&r.bytes).unwrap_or_default();
        check(got.len() == 2, "the slides");
        if fine { return; }
        // everything but entities stands for itself
        if let Some(x) = got.first() { let plain = literal(&format!("x{t}y")); check(same_str(&x.0, &plain), "the text of the slide"); }
    }
    /// Parts emptied, cut short or overwritten are never made worse.
    fn h_c06_damage() {
        let b = deck(choose(2));
        let mut p = open(&b).unwrap();
        const HURT: [&str; 6] = ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels", "ppt/slides/slide1.xml", "ppt/slides/_rels/slide1.xml.rels"];
        let w = HURT[choose(6)];
        let i = p.parts.iter().position(|x| x.0 == w).unwrap();
        let l = p.parts[i].1.len();
        match choose(4) { 0 => p.parts[i].1.clear(), 1 => p.parts[i].1.truncate(l / 2), 2 => p.parts[i].1.truncate(l - 3), _ => p.parts[i].1 = vec![b'<', [b'a', b'x', b'!', b'?', b'/', b'>', b'<', b'&', 0, 0xff, b' ', b'\n'][choose(12)]] }
        let b = save(&p.parts);
        let Some(d) = repaired(&b) else { return };
        check(!d.valid, "a part that is no XML was not noticed");
        check(d.out.get("ppt/slides/slide2.xml") == open(&b).unwrap().get("ppt/slides/slide2.xml"), "the other slide");
    }
}
fn of_set1(v: &[&'static str]) -> &'static str { v[choose(v.len())] }
/// The text with the five entities and character references replaced, and every other ampersand as itself.
fn literal(s: &str) -> String {
    let mut o = String::new();
    let mut rest = s;
    'all: while let Some(c) = rest.chars().next() {
        for (e, r) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&apos;", '\'')] { if rest.starts_with(e) { o.push(r); rest = &rest[e.len()..]; continue 'all; } }
        if rest.starts_with("&#") { if let Some(i) = rest.find(';') { let (d, r) = (&rest[2..i], &rest[i + 1..]); let v = match d.strip_prefix('x') { Some(h) => u32::from_str_radix(h, 16).ok(), None => d.parse().ok() }; if let Some(c) = v.and_then(char::from_u32) { o.push(c); rest = r; continue 'all; } } }
        o.push(c);
        rest = &rest[c.len_utf8()..];
    }
    o
}

//! C08: opening, changing and saving a package preserves every other part.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::opc::Package;
use ppt_rs::oxml::repair::PptxRepair;
use ppt_rs::oxml::{PresentationEditor, PresentationReader};
use ppt_rs::generator::*;

/// Names that a careless comparison could take for each other.
const NAMES: [&str; 26] = ["a", "A", "a/b.xml", "a/b.XML", "[Content_Types].xml", "ppt/slides/slide1.xml", "ppt/slides/slide10.xml", "/ppt/slides/slide1.xml", "a\\b.xml", "é b/ü", "_rels/.rels", ".hidden/x", "a/./b.xml", "a/../b.xml", "./a", "a//b.xml", "a/b.xml ", " a", "a%20b", "a b", "a/b", "a/b.xml.rels", "a/b.bin", "a/B/c", "a/b/c", "é"];
type Model = Vec<(String, Vec<u8>)>;
fn bytes(k: usize) -> Vec<u8> { (0..k).map(|_| byte()).collect() }
fn same_bytes(a: &[u8], b: &[u8]) -> bool { same(a, b) }
fn put(m: &mut Model, n: &str, d: Vec<u8>) { m.retain(|x| x.0 != n); m.push((n.into(), d)); }
fn agrees(p: &Package, m: &Model) {
    check(p.part_count() == m.len(), "the number of parts");
    let names = p.part_paths();
    check(names.len() == m.len(), "the names of the parts");
    for n in NAMES { check(p.has_part(n) == m.iter().any(|x| x.0 == n), "whether there is a part"); }
    for (n, d) in m {
        check(names.contains(&n.as_str()), "the name of a part");
        check(p.get_part(n).is_some_and(|x| same_bytes(x, d)), "the bytes of a part");
    }
}
/// Saved to a file or a writer and opened again.
fn again(p: &Package, file: bool) -> Option<Package> {
    if file {
        if p.save("p.zip").is_err() { fail("cannot be saved"); return None; }
        let r = Package::open("p.zip");
        let _ = std::fs::remove_file("p.zip");
        if r.is_err() { fail("cannot be opened again"); }
        r.ok()
    } else {
        let mut c = std::io::Cursor::new(Vec::new());
        if p.save_writer(&mut c).is_err() { fail("cannot be saved"); return None; }
        let r = Package::open_reader(std::io::Cursor::new(c.into_inner()));
        if r.is_err() { fail("cannot be opened again"); }
        r.ok()
    }
}
fn one(p: &mut Package, m: &mut Model, names: &[&str]) {
    let name = names[choose(names.len())];
    match choose(4) {
        0 => { let d = bytes(choose(3)); p.add_part(name.to_string(), d.clone()); put(m, name, d); }
        1 => { let r = p.remove_part(name); let was = m.iter().position(|x| x.0 == name); check(r.is_some() == was.is_some(), "what was removed"); if let Some(i) = was { let x = m.remove(i); check(r.is_some_and(|r| same_bytes(&r, &x.1)), "the bytes that were removed"); } }
        2 => { let b = byte(); match p.get_part_mut(name) { Some(d) => { d.push(b); match m.iter_mut().find(|x| x.0 == name) { Some(x) => x.1.push(b), None => fail("a part that is not there") } } None => check(!m.iter().any(|x| x.0 == name), "a part that is there") } }
        _ => { if let Some(q) = again(p, true) { *p = q; } }
    }
}
fn deck(kind: usize) -> Vec<u8> {
    let s = [content_slide(), SlideContent::new("B").notes("n").add_chart(chart(ChartType::Pie)), SlideContent::new("C").table(table())];
    eager("T", &s[..=kind], None)
}
/// One of the parts that are looked into.
fn some(p: &Pkg) -> usize {
    const READ: [&str; 7] = ["[Content_Types].xml", "_rels/.rels", "ppt/presentation.xml", "ppt/_rels/presentation.xml.rels", "ppt/slides/slide1.xml", "ppt/slides/_rels/slide1.xml.rels", "docProps/core.xml"];
    let w = READ[choose(READ.len())];
    p.parts.iter().position(|x| x.0 == w).unwrap()
}
fn content_slide() -> SlideContent { SlideContent::new("A").add_bullet("b").add_image(image(1, "png")) }
fn unchanged(a: &[u8], b: &[u8]) {
    let (Some(a), Some(b)) = (open(a), open(b)) else { fail("not an archive"); return };
    check(a.parts.len() == b.parts.len(), "the same parts");
    for (n, d) in &a.parts { check(b.get(n).is_some_and(|x| same(x, d)), "the same bytes"); }
}

harnesses! {
    /// Every history of operations on a package against a plain map.
    fn h_c08_history() {
        let mut p = Package::new();
        let mut m: Model = Vec::new();
        let names = [&NAMES[0..2], &NAMES[2..4], &NAMES[5..7]][choose(3)];
        for _ in 0..n(3, 4) { one(&mut p, &mut m, names); }
        agrees(&p, &m);
        let file = flag();
        if let Some(q) = again(&p, file) { agrees(&q, &m); }
    }
    /// Every name and content is kept.
    fn h_c08_names() {
        let mut p = Package::new();
        let mut m: Model = Vec::new();
        for (i, x) in NAMES.iter().enumerate() { let d = if i % 3 == 2 { vec![] } else { bytes(i % 3 + 1) }; p.add_part(x.to_string(), d.clone()); put(&mut m, x, d); }
        let gone = NAMES[choose(NAMES.len())];
        if flag() { p.remove_part(gone); m.retain(|x| x.0 != gone); } else { let d = bytes(2); p.add_part(gone.to_string(), d.clone()); put(&mut m, gone, d); }
        if let Some(q) = again(&p, flag()) { agrees(&q, &m); }
        // text is given as it is, or with replacements where it is not UTF-8
        let t = bytes(n(2, 3));
        p.add_part("t".into(), t.clone());
        let s = p.get_part_string("t");
        if std::str::from_utf8(&t).is_ok() { check(s.is_some_and(|s| same(s.as_bytes(), &t)), "the text of a part"); } else { check(s.is_some(), "the text of a part"); }
        check(p.get_part_string("nothing").is_none() && p.get_part("nothing").is_none(), "no part");
    }
    /// A large part.
    fn h_c08_large() {
        let k = [0, 1, 255, 256, 8191, 8192, 8193, 65535, 65536, 1 << 20][choose(10)];
        let mut d: Vec<u8> = (0..k).map(|i| (i * 7 % 251) as u8).collect();
        if k > 0 { let at = [0, k / 2, k - 1][choose(3)]; d[at] = byte(); }
        let mut p = Package::new();
        p.add_part("big".into(), d.clone());
        p.add_part("small".into(), vec![1]);
        if let Some(q) = again(&p, flag()) { check(q.part_count() == 2 && q.get_part("big").is_some_and(|x| same(x, &d)) && q.get_part("small") == Some(&[1][..]), "a large part"); }
    }
    /// Decks that are opened and saved by whatever opens and saves.
    fn h_c08_decks() {
        let b = deck(choose(3));
        let extra = bytes(2);
        // a part that the library knows nothing of
        let mut p = open(&b).unwrap();
        p.parts.push(("customXml/item1.xml".into(), extra.clone()));
        p.parts.push(("ppt/unknown.bin".into(), extra));
        let b = build(&p.parts);
        std::fs::write("d.pptx", &b).unwrap();
        match choose(3) {
            0 => { let Ok(q) = Package::open("d.pptx") else { fail("cannot be opened"); return }; let mut c = std::io::Cursor::new(Vec::new()); check(q.save_writer(&mut c).is_ok(), "can be saved"); unchanged(&b, &c.into_inner()); }
            1 => { let Ok(e) = PresentationEditor::open("d.pptx") else { fail("cannot be opened"); return }; check(e.save("d2.pptx").is_ok(), "can be saved"); unchanged(&b, &std::fs::read("d2.pptx").unwrap()); }
            _ => { let Ok(r) = PptxRepair::open("d.pptx") else { fail("cannot be opened"); return }; check(r.save("d2.pptx").is_ok(), "can be saved"); unchanged(&b, &std::fs::read("d2.pptx").unwrap()); }
        }
    }
    /// A change through the editor's package changes that part only.
    fn h_c08_package_mut() {
        let b = deck(1);
        std::fs::write("d.pptx", &b).unwrap();
        let Ok(mut e) = PresentationEditor::open("d.pptx") else { fail("cannot be opened"); return };
        let mut want = open(&b).unwrap().parts;
        let i = choose(want.len());
        let d = bytes(2);
        let name = want[i].0.clone();
        match choose(3) {
            0 => { e.package_mut().add_part(name, d.clone()); want[i].1 = d; }
            1 => { e.package_mut().remove_part(&name); want.remove(i); }
            _ => { e.package_mut().add_part("new/part".into(), d.clone()); want.push(("new/part".into(), d)); }
        }
        check(e.save("d2.pptx").is_ok(), "can be saved");
        unchanged(&build(&want), &std::fs::read("d2.pptx").unwrap());
    }
    /// What is no package gives an error, and a package with any content no panic.
    fn h_c08_any() {
        let b = deck(0);
        let mut p = open(&b).unwrap();
        match choose(6) {
            0 => { std::fs::write("d.pptx", bytes(n(4, 6))).unwrap(); check(Package::open("d.pptx").is_err() && PresentationReader::open("d.pptx").is_err() && PresentationEditor::open("d.pptx").is_err() && PptxRepair::open("d.pptx").is_err(), "an error"); return; }
            1 => { check(Package::open("missing.pptx").is_err() && PresentationReader::open("missing.pptx").is_err() && PresentationEditor::open("missing.pptx").is_err() && PptxRepair::open("missing.pptx").is_err(), "an error"); return; }
            2 => { let i = some(&p); p.parts.remove(i); }
            3 => { let i = some(&p); p.parts[i].1 = bytes(n(1, 2)); }
            4 => { let i = some(&p); let l = p.parts[i].1.len(); let at = [l / 4, l / 2, l * 3 / 4][choose(n(2, 3))]; p.parts[i].1.truncate(at); }
            _ => p.parts.clear(),
        }
        std::fs::write("d.pptx", build(&p.parts)).unwrap();
        let q = Package::open("d.pptx");
        check(q.is_ok_and(|q| q.part_count() == p.parts.len()), "any parts make a package");
        if let Ok(r) = PresentationReader::open("d.pptx") { for i in 0..r.slide_count() { let _ = r.get_slide(i); } let _ = r.extract_all_text(); }
        if let Ok(mut e) = PresentationEditor::open("d.pptx") { let _ = e.get_slide(0); let _ = e.add_slide(SlideContent::new("x")); let _ = e.duplicate_slide(0); let _ = e.remove_slide(0); let _ = e.save("d2.pptx"); }
    }
}

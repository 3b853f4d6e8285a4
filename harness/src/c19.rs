//! C19: relationships; C20 lives in c20.rs.
use crate::sx::*;
use crate::xml;
use ppt_rs::parts::{RelationshipType, Relationships};

const BASE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/";
const KINDS: [&str; 22] = ["officeDocument", "slide", "slideLayout", "slideMaster", "theme", "image", "chart", "extended-properties", "notesSlide", "notesMaster", "hyperlink", "comments", "presProps", "viewProps", "tableStyles", "video", "slideUpdateInfo", "chartUserShapes", "themeOverride", "customXml", "handoutMaster", "package"];
fn uri() -> String {
    match choose(KINDS.len() + 5) {
        0 => "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties".into(),
        1 => "http://schemas.microsoft.com/office/2007/relationships/media".into(),
        2 => "http://purl.oclc.org/ooxml/officeDocument/relationships/slide".into(),
        3 => "x".into(),
        4 => "urn:a&b<c>\"d'".into(),
        k => format!("{BASE}{}", KINDS[k - 5]),
    }
}
fn kind(k: usize) -> RelationshipType {
    use RelationshipType::*;
    [OfficeDocument, Slide, SlideLayout, SlideMaster, Theme, Image, Chart, CoreProperties, ExtendedProperties, Custom("urn:custom".into())][k].clone()
}
/// Writing and reading gives the same list, and so does an independent parser.
fn round(r: &Relationships) {
    let x = r.to_xml();
    match xml::parse(x.as_bytes()) {
        Err(_) => fail("not well formed"),
        Ok(d) => {
            let e = d.kids(0, "Relationship");
            check(e.len() == r.len(), "one element per relationship");
            for (i, a) in e.iter().zip(r.all()) {
                for (n, v) in [("Id", &a.id[..]), ("Type", a.rel_type.uri()), ("Target", &a.target[..])] {
                    match d.attr_str(*i, n) { Some(y) => check(same_str(y, v), "the attribute"), None => fail("an attribute is missing") }
                }
            }
        }
    }
    match Relationships::from_xml(&x) {
        Err(_) => fail("its own output is refused"),
        Ok(s) => {
            check(s.len() == r.len(), "as many relationships");
            for (a, b) in r.all().iter().zip(s.all()) {
                check(same_str(&a.id, &b.id), "the id");
                check(same_str(&a.target, &b.target), "the target");
                check(same_str(a.rel_type.uri(), b.rel_type.uri()), "the type");
                check(b.rel_type == RelationshipType::from_uri(a.rel_type.uri()), "the kind");
            }
        }
    }
}

harnesses! {
    /// Types: from URI and back, for known and unknown ones.
    fn h_c19_types() {
        let u = uri();
        let t = RelationshipType::from_uri(&u);
        check(t.uri() == u, "the type keeps its URI");
        let k = kind(choose(10));
        check(RelationshipType::from_uri(k.uri()) == k, "a kind is recognised by its URI");
        let mut r = Relationships::new();
        let id = r.add(t, "a/b.xml");
        check(r.get(&id).map(|x| x.rel_type.uri() == u && x.target == "a/b.xml") == Some(true), "found by its id");
        round(&r);
    }
    /// Any short type URI.
    fn h_c19_any_type() {
        let mut u = ["", "http://x/", "/slide", BASE][choose(4)].to_string();
        let k = choose(n(3, 4));
        u.push_str(&printable(k));
        let t = RelationshipType::from_uri(&u);
        check(same_str(t.uri(), &u), "the type keeps its URI");
    }
    /// Targets and ids of any characters.
    fn h_c19_texts() {
        let mut r = Relationships::new();
        r.add(RelationshipType::Slide, "slides/slide1.xml");
        let t = printable(n(2, 3));
        match choose(3) {
            0 => { r.add(RelationshipType::Image, &t); }
            1 => r.add_with_id(&t, RelationshipType::Theme, "t.xml"),
            _ => r.add_with_id("rId7", RelationshipType::Custom(t.clone()), "t.xml"),
        }
        r.add(RelationshipType::Chart, "é&\"<漢");
        round(&r);
    }
    /// Histories of additions with and without ids, then a round trip and more additions: no id is handed out twice.
    fn h_c19_ids() {
        let mut r = Relationships::new();
        let mut back = false;
        for i in 0..n(4, 5) {
            match choose(if back { 7 } else { 8 }) {
                0 | 1 => {
                    let before: Vec<String> = r.all().iter().map(|x| x.id.clone()).collect();
                    let id = r.add(kind(i), "t");
                    check(before.iter().all(|x| *x != id), "a new id");
                    check(r.get(&id).is_some() && r.len() == before.len() + 1, "it is there");
                }
                7 => { back = true; round(&r); match Relationships::from_xml(&r.to_xml()) { Ok(x) => r = x, Err(_) => return } }
                k => {
                    let id = ["rId1", "rId4294967295", "rId4294967294", "rId03", "other", "rId3"][(k - 2 + i) % 6];
                    if r.get(id).is_none() { r.add_with_id(id, kind(9), "u"); }
                }
            }
        }
        check(r.is_empty() == (r.len() == 0) && r.get_by_type(&kind(9)).len() + (0..9).map(|k| r.get_by_type(&kind(k)).len()).sum::<usize>() == r.len(), "kinds partition the set");
        for (i, a) in r.all().iter().enumerate() { for b in &r.all()[..i] { check(a.id != b.id, "ids are unique"); } }
    }
    /// An id with any number of up to ten digits: the next one is different.
    fn h_c19_number() {
        let mut s = String::from("rId");
        let k = 1 + choose(10);
        let top = flag();
        for i in 0..k {
            let b = byte();
            assume((b'0'..=b'9').contains(&b));
            if k > 3 { assume(b == if top { b"4294967299"[i] } else { b"9999999999"[i] } || i + 2 > k); }
            s.push(b as char);
        }
        let mut r = Relationships::new();
        r.add_with_id(&s, RelationshipType::Slide, "a");
        let a = r.add(RelationshipType::Slide, "b");
        let b = r.add(RelationshipType::Slide, "c");
        check(a != s && b != s && a != b, "ids differ");
    }
}

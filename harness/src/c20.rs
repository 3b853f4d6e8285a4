//! C20: document properties.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use crate::xml;
use ppt_rs::generator::*;
use ppt_rs::parts::{CorePropertiesPart, Part};

fn field(c: &mut CorePropertiesPart, i: usize) -> &mut Option<String> {
    match i { 0 => &mut c.title, 1 => &mut c.subject, 2 => &mut c.creator, 3 => &mut c.keywords, 4 => &mut c.description, 5 => &mut c.last_modified_by, 6 => &mut c.created, _ => &mut c.modified }
}
fn same_opt(a: &Option<String>, b: &Option<String>) -> bool {
    match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_str(a, b), _ => false }
}
fn round(mut c: CorePropertiesPart) {
    let x = match c.to_xml() { Ok(x) => x, Err(_) => { fail("no XML"); return } };
    let names = ["dc:title", "dc:subject", "dc:creator", "cp:keywords", "dc:description", "cp:lastModifiedBy", "dcterms:created", "dcterms:modified"];
    match xml::parse(x.as_bytes()) {
        Err(_) => { fail("not well formed"); return }
        Ok(d) => for i in 0..8 {
            let e = d.all(names[i]);
            check(e.len() == field(&mut c, i).is_some() as usize, "a field is written when it is set");
            if let (Some(e), Some(v)) = (e.first(), field(&mut c, i)) { check(same(d.text(*e), v.as_bytes()), "the field"); }
        },
    }
    match CorePropertiesPart::from_xml(&x) {
        Err(_) => fail("its own output is refused"),
        Ok(mut e) => {
            for i in 0..8 { check(same_opt(field(&mut c, i), field(&mut e, i)), "the field comes back"); }
            check(c.revision == e.revision, "the revision comes back");
        }
    }
}
const AWKWARD: [&str; 8] = ["&lt;", " x ", "  ", "]]>", "é漢😀", "a\nb", "<!--", "'\""];

/// Days since 1970 to a date, counted year by year and month by month.
fn date(mut d: u64) -> (u64, u64, u64) {
    let leap = |y: u64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    let mut y = 1970;
    loop { let l = if leap(y) { 366 } else { 365 }; if d < l { break; } d -= l; y += 1; }
    let mut m = 1;
    for l in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] { if d < l { break; } d -= l; m += 1; }
    (y, m, d + 1)
}

harnesses! {
    /// One field of any text, the others set or not.
    fn h_c20_text() {
        let mut c = CorePropertiesPart::new();
        let i = choose(8);
        let t = if flag() { printable(n(2, 3)) } else { AWKWARD[choose(8)].to_string() };
        if flag() { for j in 0..8 { *field(&mut c, j) = None; } c.revision = None; }
        match i { 0 => { c.set_title(&t); } 1 => { c.set_subject(&t); } 2 => { c.set_creator(&t); } 3 => { c.set_keywords(&t); } 4 => { c.set_description(&t); } _ => *field(&mut c, i) = Some(t.clone()) }
        check(same_opt(field(&mut c, i), &Some(t)), "the field is set");
        round(c);
    }
    /// Every subset of the fields.
    fn h_c20_subset() {
        let mut c = CorePropertiesPart::new();
        for j in 0..8 { *field(&mut c, j) = if flag() { Some(format!("f{j}")) } else { None }; }
        c.revision = if flag() { Some(7) } else { None };
        round(c);
    }
    /// Any revision; touching adds one and keeps the rest.
    fn h_c20_revision() {
        let mut c = CorePropertiesPart::new();
        let r = if flag() { u16() as u32 } else { u32::MAX - (byte() & 1) as u32 };
        c.revision = Some(r);
        c.set_title("t");
        if flag() {
            c.touch();
            check(c.revision == Some(if r == u32::MAX { r } else { r + 1 }), "one more");
            check(c.title.as_deref() == Some("t"), "the title stays");
        } else {
            assume(r < n(100, 1000) as u32 || r > 65534);
            round(c);
        }
    }
    /// The title of a deck in core.xml and the titles of its slides in app.xml, by every writer.
    fn h_c20_deck() {
        let t = if flag() { printable(n(1, 2)) } else { AWKWARD[choose(8)].to_string() };
        let k = 1 + choose(3);
        let v: Vec<SlideContent> = (0..k).map(|i| { let s = SlideContent::new(&if i == 0 { t.clone() } else { format!("s{i}") }); if i == 1 { s.notes("n") } else { s } }).collect();
        let w = choose(3);
        let b = match w { 0 => eager(&t, &v, None), 1 => lazy(&t, v.clone(), None), _ => streamed(&t, &v, None) };
        let Some(p) = open(&b) else { fail("not an archive"); return };
        let Some(d) = p.doc("docProps/core.xml") else { fail("core.xml is not well formed"); return };
        match d.all("dc:title").first() { Some(e) => check(same(d.text(*e), t.as_bytes()), "the title"), None => fail("no title") }
        match CorePropertiesPart::from_xml(unsafe { std::str::from_utf8_unchecked(p.get("docProps/core.xml").unwrap()) }) {
            Ok(c) => check(same_opt(&c.title, &Some(t.clone())), "the title is read back"),
            Err(_) => fail("core.xml cannot be read"),
        }
        let Some(d) = p.doc("docProps/app.xml") else { fail("app.xml is not well formed"); return };
        let num = |n: &str| d.all(n).first().map(|e| String::from_utf8_lossy(d.text(*e)).to_string());
        check(num("Slides") == Some(k.to_string()), "the number of slides");
        check(num("Notes") == Some((k > 1).then_some(1).unwrap_or(0).to_string()), "the number of notes");
        let Some(top) = d.all("TitlesOfParts").first().copied() else { fail("no titles"); return };
        let l: Vec<usize> = d.below(top, "vt:lpstr");
        check(l.len() == k, "one title per slide");
        for (i, e) in l.iter().enumerate() {
            if i >= k { break; }
            // a slide without a visible title is listed under some other name
            let mut ink = false;
            for c in v[i].title.chars() { if !c.is_whitespace() { ink = true; } }
            if ink { check(same(d.text(*e), v[i].title.as_bytes()), "the titles of the slides"); }
        }
    }
    /// The date written is the date: every day from 1970 to 2110, at any time of day.
    fn h_c20_date() {
        let d = choose(n(4 * 366, 51_200)) as u64 + [0, 10_590, 20_000, 46_700][choose(n(4, 1))];
        let s = [0, 86_399, 43_261][choose(3)];
        set_time(d * 86_400 + s);
        let c = CorePropertiesPart::new();
        unset_time();
        let (y, m, x) = date(d);
        let want = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, m, x, s / 3600, s % 3600 / 60, s % 60);
        check(c.created.as_deref() == Some(&want[..]) && c.modified == c.created, "the date");
    }
}

//! C24: sections and comments.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use crate::xml::{self, Doc};
use ppt_rs::generator::*;

const FIRST: [usize; 6] = [0, 1, 2, 4, usize::MAX - 1, usize::MAX];
const COUNT: [usize; 5] = [0, 1, 2, 3, usize::MAX];
const NAMES: [&str; 5] = ["A", "B", "", "a&<\"é", "A "];
/// Does the section have the slide? (wide arithmetic)
fn has(f: usize, c: usize, i: usize) -> bool { (i as u128) >= f as u128 && (i as u128) < f as u128 + c as u128 }
fn meet(a: &(String, usize, usize), b: &(String, usize, usize)) -> bool { a.2 > 0 && b.2 > 0 && (a.1 as u128) < b.1 as u128 + b.2 as u128 && (b.1 as u128) < a.1 as u128 + a.2 as u128 }
fn listed(m: &SectionManager, want: &[(String, usize, usize)]) {
    check(m.len() == want.len() && m.is_empty() == want.is_empty(), "the number of sections");
    for w in want { check(m.sections().iter().any(|s| s.name == w.0 && s.first_slide == w.1 && s.slide_count == w.2), "a section"); }
    for p in m.sections().windows(2) { check(p[0].first_slide <= p[1].first_slide, "in the order of the slides"); }
    for i in [0, 1, 2, 3, 5, usize::MAX - 1] {
        let w = want.iter().find(|w| has(w.1, w.2, i));
        check(m.section_for_slide(i).map(|s| (s.name.clone(), s.first_slide)) == w.map(|w| (w.0.clone(), w.1)), "the section of a slide");
    }
}
fn written(m: &SectionManager, total: usize) {
    let x = m.to_xml(total);
    if m.is_empty() { check(x.is_empty(), "nothing without sections"); return; }
    let d = match xml::parse(format!("<r xmlns:p=\"urn:p\">{x}</r>").as_bytes()) { Ok(d) => d, Err(_) => { fail("not well formed"); return } };
    let l = d.all("p14:section");
    check(l.len() == m.len(), "every section");
    let mut ids: Vec<&str> = Vec::new();
    for (e, s) in l.iter().zip(m.sections()) {
        check(d.attr(*e, "name") == Some(s.name.as_bytes()), "the name");
        let id = d.attr_str(*e, "id").unwrap_or("");
        check(id.len() == 38 && id.starts_with('{') && id.ends_with('}'), "an id");
        check(!ids.contains(&id), "ids are distinct");
        ids.push(id);
        let got: Vec<String> = d.below(*e, "p14:sldId").iter().map(|k| d.attr_str(*k, "id").unwrap_or("").to_string()).collect();
        let want: Vec<String> = (0..total).filter(|i| has(s.first_slide, s.slide_count, *i)).map(|i| (256 + i).to_string()).collect();
        check(got == want, "exactly the slides of the section that exist");
    }
}
fn one<'a>(d: &'a Doc, e: usize, n: &str) -> &'a str { d.attr_str(e, n).unwrap_or("") }

harnesses! {
    /// A section of any bounds and any slide.
    fn h_c24_contains() {
        let (f, c, i) = (u64() as usize, u64() as usize, u64() as usize);
        let s = SlideSection::new("s", f, c);
        let over = f.checked_add(c).is_none();
        check(s.contains_slide(i) == (i >= f && (over || i < f.wrapping_add(c))), "the slides of a section");
        let l = s.last_slide();
        if c == 0 { check(l == f, "the last slide of an empty section"); }
        else { check(l == f.checked_add(c - 1).unwrap_or(usize::MAX), "the last slide"); }
    }
    /// Sections of any 16-bit bounds: each is accepted exactly when it meets no accepted one, and any slide is in the section that has it.
    fn h_c24_any() {
        let mut m = SectionManager::new();
        let mut w: Vec<(usize, usize)> = Vec::new();
        for k in 0..n(2, 3) {
            let (f, c) = (u16() as usize, byte() as usize);
            let meets = w.iter().any(|x| x.1 > 0 && c > 0 && x.0 < f + c && f < x.0 + x.1);
            check(m.add_section(["x", "y", "z"][k], f, c).is_err() == meets, "accepted exactly when it meets no other");
            if !meets { w.push((f, c)); }
            check(m.len() == w.len(), "a rejected section changes nothing");
        }
        let i = u16() as usize;
        let s = m.section_for_slide(i);
        let want = w.iter().find(|x| i >= x.0 && i < x.0 + x.1);
        match (s, want) {
            (None, None) => {}
            (Some(s), Some(x)) => check(s.first_slide == x.0 && s.slide_count == x.1, "the section of a slide"),
            _ => fail("the section of a slide"),
        }
        for p in m.sections().windows(2) { check(p[0].first_slide <= p[1].first_slide, "in the order of the slides"); }
    }
    /// Histories of adding, removing, renaming and clearing.
    fn h_c24_history() {
        let mut m = SectionManager::new();
        let mut w: Vec<(String, usize, usize)> = Vec::new();
        let steps = n(3, 4);
        for k in 0..steps {
            let op = if k == 0 { 0 } else { choose(5) };
                let few = k + 1 == steps && steps > 2;
            match op {
                0 | 1 => {
                    let nm = if op == 1 { "A" } else { ["A", "B", "C", "D"][k] };
                    let s = if few { (nm.to_string(), [0, 2, usize::MAX][choose(3)], [2, usize::MAX][choose(2)]) } else { (nm.to_string(), FIRST[choose(6)], COUNT[choose(5)]) };
                    let ok = !w.iter().any(|x| meet(x, &s));
                    check(m.add_section(nm, s.1, s.2).is_ok() == ok, "accepted exactly when it meets no other");
                    if ok { w.push(s); }
                }
                2 => {
                    let nm = ["A", "B", "a"][choose(3)];
                    check(m.remove_section(nm) == w.iter().any(|x| x.0 == nm), "removed if there");
                    w.retain(|x| x.0 != nm);
                }
                3 => {
                    let (a, b) = ([ "A", "a"][choose(2)], ["N", "B"][choose(2)]);
                    let had = w.iter().filter(|x| x.0 == a).count();
                    check(m.rename_section(a, b) == (had > 0), "renamed if there");
                    if had > 1 { return; }
                    for x in &mut w { if x.0 == a { x.0 = b.into(); } }
                }
                _ => { m.clear(); w.clear(); }
            }
            listed(&m, &w);
            for x in &w { check(m.get_section(&x.0).is_some_and(|s| s.name == x.0), "found by name"); }
        }
        written(&m, if n(0, 1) == 0 { 3 } else { choose(5) });
    }
    /// The written list: names of any kind, also twice the same, and any number of slides.
    fn h_c24_xml() {
        let mut m = SectionManager::new();
        let mut at = 0;
        for _ in 0..choose(4) {
            let c = choose(3);
            let name = if n(0, 1) == 0 { NAMES[[0, 2, 3][choose(3)]] } else { NAMES[choose(5)] };
            check(m.add_section(name, at, c).is_ok(), "accepted");
            at += c + choose(2);
        }
        written(&m, [0, 1, 2, 4, 3, 5, 6, 7][choose(n(4, 8))]);
    }
    /// A name of any characters.
    fn h_c24_name() {
        let mut m = SectionManager::new();
        let t = printable(n(1, 2));
        let _ = m.add_section(&t, 0, 1);
        let x = m.to_xml(1);
        match xml::parse(format!("<r xmlns:p=\"urn:p\">{x}</r>").as_bytes()) {
            Ok(d) => check(d.attr(d.all("p14:section")[0], "name").is_some_and(|v| v.len() == t.len() && same(v, t.as_bytes())), "the name"),
            Err(_) => fail("not well formed"),
        }
    }
    /// The ids that the section list uses are the ids of the slides in the presentation.
    fn h_c24_ids() {
        let k = 1 + choose(n(4, 12));
        let v: Vec<SlideContent> = (0..k).map(|i| SlideContent::new(&format!("s{i}"))).collect();
        let b = match choose(3) { 0 => eager("T", &v, None), 1 => lazy("T", v, None), _ => streamed("T", &v, None) };
        let Some(d) = open(&b).and_then(|p| p.doc("ppt/presentation.xml")) else { fail("no presentation"); return };
        let l = d.all("p:sldId");
        check(l.len() == k, "every slide");
        for (i, e) in l.iter().enumerate() { check(one(&d, *e, "id") == (256 + i).to_string(), "the id of a slide"); }
    }
    /// Comment authors: one id per name, ids distinct, found again; the written list says the same.
    fn h_c24_authors() {
        let mut a = CommentAuthorList::new();
        let mut w: Vec<(String, u32)> = Vec::new();
        let k = choose(n(4, 5));
        for _ in 0..k {
            let name = if flag() { printable(1) } else { ["Ann", "", "é&"][choose(3)].to_string() };
            let id = a.get_or_add(&name, "xy");
            let old = w.iter().find(|x| x.0.len() == name.len() && same_str(&x.0, &name)).map(|x| x.1);
            match old {
                Some(i) => check(i == id, "one id per name"),
                None => { check(w.iter().all(|x| x.1 != id), "ids are distinct"); w.push((name.clone(), id)); }
            }
            check(a.get_by_id(id).is_some_and(|x| same_str(&x.name, &name)), "found by id");
        }
        check(a.len() == w.len(), "one author per name");
        match xml::parse(a.to_xml().as_bytes()) {
            Err(_) => fail("not well formed"),
            Ok(d) => {
                let l = d.all("p:cmAuthor");
                check(l.len() == w.len(), "every author");
                for (e, x) in l.iter().zip(&w) {
                    check(one(&d, *e, "id") == x.1.to_string(), "the id");
                    check(d.attr(*e, "name").is_some_and(|v| v.len() == x.0.len() && same(v, x.0.as_bytes())), "the name");
                }
            }
        }
    }
    /// Comments of a slide: kept in order with author, place and text; new indices are not in use.
    fn h_c24_comments() {
        let mut s = SlideComments::new();
        let mut w: Vec<(u32, String, u32, u32, u32)> = Vec::new();
        for i in 0..choose(n(4, 5)) {
            let t = if i == 0 { printable(1) } else { NAMES[i].to_string() };
            let (au, x, y) = ([0, 7, u32::MAX][choose(3)], 5 + i as u32, [0, u32::MAX][i % 2]);
            if flag() {
                let idx = [2, 3, u32::MAX - 5][choose(3)];
                s.add(Comment::new(au, &t).position(x, y).index(idx));
                w.push((au, t, x, y, idx));
            } else {
                s.add_comment(au, &t, x, y);
                let idx = s.comments().last().map_or(0, |c| c.index);
                check(w.iter().all(|c| c.4 != idx), "a new index");
                w.push((au, t, x, y, idx));
            }
        }
        check(s.len() == w.len(), "every comment");
        match xml::parse(s.to_xml().as_bytes()) {
            Err(_) => fail("not well formed"),
            Ok(d) => {
                let l = d.all("p:cm");
                check(l.len() == w.len(), "every comment is written");
                for (e, c) in l.iter().zip(&w) {
                    check(one(&d, *e, "authorId") == c.0.to_string() && one(&d, *e, "idx") == c.4.to_string(), "author and index");
                    let (p, t) = (d.kid(*e, "p:pos"), d.kid(*e, "p:text"));
                    check(p.is_some_and(|p| one(&d, p, "x") == c.2.to_string() && one(&d, p, "y") == c.3.to_string()), "the place");
                    check(t.is_some_and(|t| { let v = d.text(t); v.len() == c.1.len() && same(v, c.1.as_bytes()) }), "the text");
                }
            }
        }
    }
}

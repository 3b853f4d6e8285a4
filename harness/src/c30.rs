//! C30: links lead where they were asked to lead.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::generator::*;
use ppt_rs::oxml::PresentationEditor;

/// Where a link is to lead.
#[derive(Clone)]
enum To { Url(String), Slide(u32), Jump(&'static str), Mail(String, Option<String>), File(String) }
const JUMPS: [(&str, HyperlinkAction); 5] = [
    ("firstslide", HyperlinkAction::FirstSlide), ("lastslide", HyperlinkAction::LastSlide), ("nextslide", HyperlinkAction::NextSlide),
    ("previousslide", HyperlinkAction::PreviousSlide), ("endshow", HyperlinkAction::EndShow)];
fn action(t: &To) -> HyperlinkAction {
    match t {
        To::Url(u) => HyperlinkAction::url(u),
        To::Slide(n) => HyperlinkAction::slide(*n),
        To::Jump(j) => JUMPS.iter().find(|x| x.0 == *j).unwrap().1.clone(),
        To::Mail(a, None) => HyperlinkAction::email(a),
        To::Mail(a, Some(s)) => HyperlinkAction::email_with_subject(a, s),
        To::File(f) => HyperlinkAction::file(f),
    }
}
/// The text a part of an address stands for; nothing if it is no part of an address.
fn decoded(s: &str, keep: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let (mut o, mut i) = (Vec::new(), 0);
    while i < b.len() {
        if b[i] == b'%' {
            let h = |c: u8| (c as char).to_digit(16);
            if i + 2 >= b.len() { return None; }
            o.push((h(b[i + 1])? * 16 + h(b[i + 2])?) as u8);
            i += 3;
        } else {
            if !(b[i].is_ascii_alphanumeric() || b"-._~!$'()*+,;:@".contains(&b[i]) || keep.as_bytes().contains(&b[i])) { return None; }
            o.push(b[i]);
            i += 1;
        }
    }
    Some(o)
}
fn leads(mode: bool, ty: &str, target: &str, act: &str, part: &str, to: &To) {
    match to {
        To::Url(u) => { check(mode && ty.ends_with("/hyperlink"), "a link to an address leads out"); check(same_str(target, u), "the address"); check(act.is_empty(), "no action"); }
        To::Slide(k) => {
            check(!mode && ty.ends_with("/slide"), "a link to a slide has the kind of a slide");
            check(resolve(part, target).as_deref() == Some(&format!("ppt/slides/slide{k}.xml")[..]), "the slide");
            check(act == "ppaction://hlinksldjump", "the action of a link to a slide");
        }
        To::Mail(a, s) => {
            check(mode && ty.ends_with("/hyperlink"), "a link to an address leads out");
            check(act.is_empty(), "no action");
            let Some(r) = target.strip_prefix("mailto:") else { fail("no mail"); return };
            let (x, q) = match r.split_once('?') { Some((x, q)) => (x, Some(q)), None => (r, None) };
            check(same_str(x, a), "the mail address");
            match (s, q) {
                (None, None) => {}
                (Some(s), Some(q)) => match q.strip_prefix("subject=").and_then(|q| decoded(q, "")) { Some(d) => check(same(&d, s.as_bytes()), "the subject"), None => fail("the subject is not part of an address") },
                _ => fail("a subject too many or too few"),
            }
        }
        To::File(f) => {
            check(mode && ty.ends_with("/hyperlink"), "a link to a file leads out");
            check(act.is_empty(), "no action");
            let w = f.replace('\\', "/");
            let w = if w.starts_with('/') && !w.starts_with("//") { w[1..].to_string() } else { w };
            match target.strip_prefix("file:///").and_then(|t| decoded(t, "/")) { Some(d) => check(same(&d, w.as_bytes()), "the file"), None => fail("not a file") }
        }
        To::Jump(_) => {}
    }
}
/// The links of the shapes of slide `k`, in order: none, or where each leads.
fn judge(p: &Pkg, k: usize, want: &[Option<(To, Option<String>)>]) {
    let part = format!("ppt/slides/slide{k}.xml");
    let Some(d) = p.doc(&part) else { fail("no slide"); return };
    let rels = p.rels(&rels_of(&part)).unwrap_or_default();
    let shapes: Vec<usize> = (0..d.nodes.len()).filter(|&i| d.nodes[i].name == "p:cNvPr" && d.attr(i, "name").is_some_and(|v| v.starts_with(b"Shape "))).collect();
    check(shapes.len() == want.len(), "the shapes");
    if shapes.len() != want.len() { return; }
    for (i, w) in shapes.iter().zip(want) {
        let l: Vec<usize> = d.kids(*i, "a:hlinkClick");
        let Some((to, tip)) = w else { check(l.is_empty(), "no link"); continue };
        check(l.len() == 1, "one link");
        let Some(&l) = l.first() else { continue };
        let at = |n: &str| d.attr(l, n).map(|v| String::from_utf8_lossy(v).into_owned());
        match (at("tooltip"), tip) { (None, None) => {} (Some(a), Some(b)) => check(same_str(&a, b), "the hint"), _ => fail("a hint too many or too few") }
        let (id, act) = (at("r:id").unwrap_or_default(), at("action").unwrap_or_default());
        if let To::Jump(j) = to { check(act == format!("ppaction://hlinkshowjump?jump={j}"), "the jump"); check(id.is_empty() || rels.iter().any(|r| r.id == id), "no id that leads nowhere"); continue; }
        let r: Vec<_> = rels.iter().filter(|r| r.id == id).collect();
        check(r.len() == 1, "one relationship");
        if let Some(r) = r.first() { leads(r.external, &r.ty, &r.target, &act, &part, to); }
    }
}
fn target(c: usize, t: &str) -> To {
    match c {
        0 => To::Url(format!("http://x/{t}")),
        1 => To::Slide(2),
        2 => To::Jump("nextslide"),
        3 => To::Mail("a@b".into(), None),
        4 => To::Mail("a@b".into(), Some(t.into())),
        5 => To::File(format!("C:\\d\\{t}.txt")),
        6 => To::File("/home/a b".into()),
        7 => To::Url("http://x/?a=1&b=2#c".into()),
        8 => To::Jump("endshow"),
        9 => To::Slide(1),
        10 => To::Jump("firstslide"),
        11 => To::Jump("lastslide"),
        12 => To::Url(if t.is_empty() { "page.html" } else { t }.into()),
        _ => To::Jump("previousslide"),
    }
}
fn shape(h: Option<Hyperlink>) -> Shape { let s = Shape::new(ShapeType::Rectangle, 1, 2, 3, 4); match h { Some(h) => s.with_hyperlink(h), None => s } }
fn write(v: Vec<SlideContent>) -> Vec<u8> { match choose(n(2, 3)) { 0 => lazy("T", v, None), 1 => eager("T", &v, None), _ => streamed("T", &v, None) } }

harnesses! {
    /// Links of every kind on several shapes, with ids of the caller's choice (free, taken, shared, or none) beside whatever else the slide has.
    fn h_c30_shapes() {
        let mut s = SlideContent::new("A");
        match choose(4) {
            0 => {}
            1 => s = s.notes("n").add_image(image(1, "png")).add_image(image(2, "png")),
            2 => s = s.add_chart(chart(ChartType::Bar)).add_image(image(1, "png")),
            _ => s = s.notes("n").with_ink(ink()).add_chart(chart(ChartType::Bar)),
        }
        let mut want = Vec::new();
        for i in 0..2 {
            // the second shape has no link, or one that may share the id or the target of the first
            let k = choose(if i == 0 { n(3, 4) } else { 4 });
            if i > 0 && k == 0 { s = s.add_shape(shape(None)); want.push(None); continue; }
            let to = target([7, 0, 1, 2][k], "p");
            let mut h = Hyperlink::new(action(&to));
            let ids = [None, Some("rId3"), Some("rId90"), Some("rId1"), Some(""), Some("link"), Some("rId6")];
            if let Some(id) = ids[choose(if i == 0 { n(5, 7) } else { n(3, 7) })] { h = h.with_r_id(id); }
            s = s.add_shape(shape(Some(h)));
            want.push(Some((to, None)));
        }
        let b = write(vec![s, SlideContent::new("B")]);
        let Some(p) = open(&b) else { fail("not an archive"); return };
        judge(&p, 1, &want);
        judge(&p, 2, &[]);
        closed_or_fail(&p, "the deck");
    }
    /// Every kind of link with every text in its target and its hint.
    fn h_c30_texts() {
        let t = if flag() { xml_ascii(n(1, 2)) } else { utf8(1) };
        if t.chars().any(|c| c == '\\' || (c as u32) < 32 || c as u32 == 0xfffe || c as u32 == 0xffff) { return; }
        let k = choose(14);
        let to = target(k, &t);
        let tip = if flag() { Some(t.clone()) } else { None };
        let mut h = Hyperlink::new(action(&to)).with_highlight_click(flag());
        if let Some(t) = &tip { h = h.with_tooltip(t); }
        let on = |h: Hyperlink| SlideContent::new("A").add_shape(shape(Some(h)));
        let b = eager("T", &[on(h), SlideContent::new("B")], None);
        let Some(p) = open(&b) else { fail("not an archive"); return };
        judge(&p, 1, &[Some((to, tip))]);
    }
    /// The links of a text are written like those of a shape.
    fn h_c30_text_run() {
        let to = target(choose(14), "p q");
        let h = Hyperlink::new(action(&to)).with_highlight_click(flag());
        let h = if flag() { h.with_tooltip("a\"<") } else { h };
        check(generate_text_hyperlink_xml(&h, "rId7") == generate_shape_hyperlink_xml(&h, "rId7"), "links of texts and shapes");
    }
    /// Links between slides through a history of edits: a link leads to the slide it was given for as long as there is one.
    fn h_c30_edited() {
        let k = 3;
        let to: Vec<usize> = (0..k).map(|i| if i < n(2, 3) { choose(k) } else { 0 }).collect();
        let c: Vec<SlideContent> = (0..k).map(|i| SlideContent::new(["A", "B", "C"][i]).add_shape(shape(Some(Hyperlink::slide(to[i] as u32 + 1)))).add_shape(shape(Some(Hyperlink::url("http://x/"))))).collect();
        std::fs::write("e.pptx", eager("T", &c, None)).unwrap();
        let Ok(mut e) = PresentationEditor::open("e.pptx") else { fail("cannot be opened"); return };
        // what is left: title, and the title of the slide linked to
        let mut l: Vec<(usize, Option<usize>)> = (0..k).map(|i| (i, Some(to[i]))).collect();
        for _ in 0..2 {
            match choose(4) {
                0 => { let i = choose(l.len()); if e.remove_slide(i).is_err() { fail("remove"); } let g = l.remove(i).0; for x in &mut l { if x.1 == Some(g) { x.1 = None; } } }
                1 => { let (i, j) = (choose(l.len()), if THOROUGH { choose(l.len()) } else { l.len() - 1 }); if e.reorder_slide(i, j).is_err() { fail("reorder"); } let x = l.remove(i); l.insert(j, x); }
                2 => { if e.insert_slide(0, SlideContent::new("N")).is_err() { fail("insert"); } l.insert(0, (9, None)); }
                _ => break,
            }
        }
        if e.save("o.pptx").is_err() { fail("save"); return; }
        let b = std::fs::read("o.pptx").unwrap();
        let Some(p) = open(&b) else { fail("not an archive"); return };
        closed_or_fail(&p, "the deck");
        let Some(order) = slide_order(&p) else { fail("no slides"); return };
        check(order.len() == l.len(), "the slides");
        if order.len() != l.len() { return; }
        for (i, (me, to)) in l.iter().enumerate() {
            if *me == 9 { continue; }
            let Some(d) = p.doc(&order[i]) else { fail("no slide"); return };
            let rels = p.rels(&rels_of(&order[i])).unwrap_or_default();
            let ids: Vec<String> = d.all("a:hlinkClick").into_iter().filter_map(|x| d.attr(x, "r:id")).map(|v| String::from_utf8_lossy(v).into_owned()).collect();
            check(ids.len() == 1 + to.is_some() as usize, "the links that still lead somewhere, and no others");
            let mut slides = Vec::new();
            for id in &ids {
                match rels.iter().find(|r| r.id == *id) { None => fail("a link that leads nowhere"), Some(r) if r.external => check(r.target == "http://x/", "the address"), Some(r) => slides.push(resolve(&order[i], &r.target)) }
            }
            let at = to.and_then(|t| l.iter().position(|x| x.0 == t));
            match at { Some(j) => check(slides.len() == 1 && slides[0].as_deref() == Some(&order[j][..]), "the slide the link was given for"), None => check(slides.is_empty(), "no link to a removed slide") }
        }
    }
}

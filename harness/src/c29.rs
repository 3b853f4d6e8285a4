//! C29: every way of making a presentation gives the deck it describes.
use crate::deck::*;
use crate::pkg;
use crate::sx::*;
use crate::xml::{self, Doc};
use ppt_rs::api::Presentation;
use ppt_rs::generator::*;
use ppt_rs::prelude::QuickPptx;
use ppt_rs::templates as t;

/// A slide: its title and the texts below it.
type Want = (String, Vec<String>);
fn want(title: &str, texts: &[&str]) -> Want { (title.to_string(), texts.iter().map(|t| t.to_string()).collect()) }

fn paragraphs(d: &Doc) -> Vec<Vec<u8>> {
    d.all("a:p").into_iter().map(|p| d.text_of(p, "a:t")).filter(|t| !t.is_empty()).collect()
}
/// The deck has just these slides in this order, each with its title first and then its texts, and the title of the document.
fn deck(b: &[u8], title: &str, w: &[Want]) -> Option<pkg::Pkg> {
    let Some(p) = pkg::open(b) else { fail("not a package"); return None };
    pkg::closed_or_fail(&p, "the deck");
    let Some(o) = pkg::slide_order(&p) else { fail("no list of slides"); return None };
    check(o.len() == w.len(), "the number of slides");
    check(p.parts.iter().filter(|x| x.0.starts_with("ppt/slides/slide")).count() == w.len(), "a slide for each");
    for (s, w) in o.iter().zip(w) {
        let Some(d) = p.doc(s) else { fail("not well formed"); return None };
        let ts = paragraphs(&d);
        let mut all = vec![w.0.as_bytes()];
        all.extend(w.1.iter().map(|t| t.as_bytes()));
        all.retain(|t| !t.is_empty());
        check(ts.len() == all.len(), "every text once");
        for (a, b) in ts.iter().zip(all) { check(same(a, b), "the texts, in order"); }
    }
    let Some(d) = p.doc("docProps/core.xml") else { fail("no core properties"); return None };
    let Some(e) = d.all("dc:title").first().copied() else { fail("no title"); return None };
    check(same(d.text(e), title.as_bytes()), "the title of the document");
    Some(p)
}
/// Some texts; at most one is arbitrary.
fn word() -> String { let mut s = xml_ascii(1); s.push('é'); s }
fn some_words() -> (String, String) {
    if THOROUGH { (word(), word()) } else { match choose(3) { 0 => (word(), "b & c".into()), 1 => ("<a>".into(), word()), _ => ("a".into(), "b".into()) } }
}
struct Bag { k: usize, sym: usize, at: usize, s: String }
impl Bag {
    fn new(of: usize) -> Bag {
        if THOROUGH { return Bag { k: 0, sym: choose(of), at: choose(3), s: word() }; }
        if flag() { Bag { k: 0, sym: choose(of), at: 1, s: word() } } else { Bag { k: 0, sym: of, at: choose(3), s: String::new() } }
    }
    /// Which list has another length.
    fn which(&mut self, of: usize) -> usize { if self.at == 1 { 0 } else { choose(of) } }
    fn next(&mut self) -> String { self.k += 1; if self.k - 1 == self.sym { self.s.clone() } else { format!("text {}", self.k) } }
    /// A list of 0 to 2 texts; all lists but one have one.
    fn list(&mut self, here: bool) -> Vec<String> { let n = if here { self.at } else { 1 }; (0..n).map(|_| self.next()).collect() }
    fn pairs(&mut self, here: bool) -> Vec<(String, String)> { let n = if here { self.at } else { 1 }; (0..n).map(|_| (self.next(), self.next())).collect() }
}
fn refs(v: &[String]) -> Vec<&str> { v.iter().map(|s| &s[..]).collect() }
fn pairs(v: &[(String, String)]) -> Vec<(&str, &str)> { v.iter().map(|s| (&s.0[..], &s.1[..])).collect() }
fn groups(v: &[(String, Vec<String>)]) -> Vec<(&str, Vec<&str>)> { v.iter().map(|s| (&s.0[..], refs(&s.1))).collect() }
fn joined(v: &[(String, String)], by: &str) -> Vec<String> { v.iter().map(|(a, b)| format!("{a}{by}{b}")).collect() }

fn office_slot(k: usize) -> &'static str { ["000000", "FFFFFF", "1F497D", "EEECE1", "4F81BD", "C0504D", "9BBB59", "8064A2", "4BACC6", "F79646", "0000FF", "800080"][k] }
const SLOTS: [&str; 12] = ["a:dk1", "a:lt1", "a:dk2", "a:lt2", "a:accent1", "a:accent2", "a:accent3", "a:accent4", "a:accent5", "a:accent6", "a:hlink", "a:folHlink"];
fn latin(d: &Doc, of: &str) -> Option<Vec<u8>> {
    let f = d.all(of).first().copied()?;
    d.attr(d.kid(f, "a:latin")?, "typeface").map(|x| x.to_vec())
}

harnesses! {
    /// Business proposals: all that is given, in order.
    fn h_c29_proposal() {
        let mut b = Bag::new(8);
        let (title, author) = (b.next(), b.next());
        let at = b.which(6);
        let (a, p, s) = (b.list(at == 0), b.list(at == 1), b.list(at == 2));
        let (tl, bu, nx) = (b.pairs(at == 3), b.pairs(at == 4), b.list(at == 5));
        let r = t::business_proposal(&title, &author, t::ProposalContent { executive_summary: refs(&a), problem: refs(&p), solution: refs(&s), timeline: pairs(&tl), budget: pairs(&bu), next_steps: refs(&nx) });
        let Ok(x) = r else { fail("no deck"); return };
        deck(&x, &title, &[
            want(&title, &[&author]),
            want("Agenda", &["Executive Summary", "Problem Statement", "Proposed Solution", "Timeline & Budget", "Next Steps"]),
            ("Executive Summary".into(), a), ("Problem Statement".into(), p), ("Proposed Solution".into(), s),
            ("Timeline".into(), joined(&tl, ": ")), ("Budget".into(), joined(&bu, ": ")), ("Next Steps".into(), nx),
            want("Questions?", &["Discussion and Q&A"]),
        ]);
    }
    /// Training material.
    fn h_c29_training() {
        let mut b = Bag::new(7);
        let (title, author) = (b.next(), b.next());
        let at = b.which(5);
        let o = b.list(at == 0);
        let k = if at == 1 { b.at } else { 1 };
        let m: Vec<(String, Vec<String>)> = (0..k).map(|_| (b.next(), b.list(at == 2))).collect();
        let (e, s) = (b.list(at == 3), b.list(at == 4));
        let r = t::training_material(&title, &author, t::TrainingContent { objectives: refs(&o), modules: groups(&m), exercises: refs(&e), summary: refs(&s) });
        let Ok(x) = r else { fail("no deck"); return };
        let mut w = vec![want(&title, &[&author]), ("Learning Objectives".into(), o)];
        w.extend(m);
        w.extend([("Exercises".into(), e), ("Summary".into(), s), want("Questions?", &[])]);
        deck(&x, &title, &w);
    }
    /// Status reports: a slide for what is blocked and for the metrics only where there are any.
    fn h_c29_status() {
        let mut b = Bag::new(8);
        let (title, date) = (b.next(), b.next());
        let at = b.which(6);
        let (s, c, i, l, x) = (b.list(at == 0), b.list(at == 1), b.list(at == 2), b.list(at == 3), b.list(at == 4));
        let m = b.pairs(at == 5);
        let r = t::status_report(&title, &date, t::StatusContent { summary: refs(&s), completed: refs(&c), in_progress: refs(&i), blocked: refs(&l), next_week: refs(&x), metrics: pairs(&m) });
        let Ok(y) = r else { fail("no deck"); return };
        let mut w = vec![want(&title, &[&date]), ("Executive Summary".into(), s), ("Completed ✓".into(), c), ("In Progress".into(), i)];
        if !l.is_empty() { w.push(("Blocked / Risks".into(), l)); }
        w.push(("Next Week".into(), x));
        if !m.is_empty() { w.push(("Key Metrics".into(), joined(&m, ": "))); }
        deck(&y, &title, &w);
    }
    /// Technical documentation.
    fn h_c29_technical() {
        let mut b = Bag::new(8);
        let (title, version) = (b.next(), b.next());
        let at = b.which(6);
        let (o, a) = (b.list(at == 0), b.list(at == 1));
        let k = if at == 2 { b.at } else { 1 };
        let m: Vec<(String, Vec<String>)> = (0..k).map(|_| (b.next(), b.list(at == 3))).collect();
        let e = b.pairs(at == 4);
        let p = b.list(at == 5);
        let r = t::technical_doc(&title, &version, t::TechnicalContent { overview: refs(&o), architecture: refs(&a), components: groups(&m), api_examples: pairs(&e), best_practices: refs(&p) });
        let Ok(x) = r else { fail("no deck"); return };
        let mut w = vec![(title.clone(), vec![format!("Version {version}")]), ("Overview".into(), o), ("Architecture".into(), a)];
        w.extend(m);
        if !e.is_empty() { w.push(("API Reference".into(), joined(&e, " - "))); }
        w.push(("Best Practices".into(), p));
        deck(&x, &title, &w);
    }
    /// The short ways: a list of titles and bullets, and the builder of the prelude.
    fn h_c29_quick() {
        let kind = choose(2);
        let (a, b) = some_words();
        let k = choose(4);
        match kind {
            0 => {
                let x = [&b[..], "second"];
                let all: [(&str, &[&str]); 3] = [("one", &[]), (&a, &x), ("three", &["z"])];
                let Ok(y) = t::simple(&a, &all[..k]) else { fail("no deck"); return };
                let w: Vec<Want> = all[..k].iter().map(|(t, l)| want(t, l)).collect();
                deck(&y, &a, &w);
            }
            _ => {
                let mut q = QuickPptx::new(&a);
                let mut w = vec![];
                for i in 0..k {
                    match choose(4) {
                        0 => { q = q.slide(&b, &["x", &a]); w.push(want(&b, &["x", &a])); }
                        1 => { q = q.title_slide(&b); w.push(want(&b, &[])); }
                        2 => { let l = [SlideLayout::CenteredTitle, SlideLayout::TwoColumn, SlideLayout::SectionHeader][i]; q = q.content_slide(SlideContent::new("t").layout(l).add_bullet(&b)); w.push(want("t", &[&b])); }
                        _ => { q = q.shapes_slide("s", vec![Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_text(&a)]); w.push(want("s", &[&a])); }
                    }
                    if i > 0 || (!THOROUGH && !same_str(&b, "b")) { break; }
                }
                if k == 0 { w.push(want(&a, &[])); }
                let y = if flag() { q.build().ok() } else {
                    let ok = q.save("q.pptx").is_ok();
                    let y = std::fs::read("q.pptx").ok();
                    let _ = std::fs::remove_file("q.pptx");
                    if ok { y } else { None }
                };
                let Some(y) = y else { fail("no deck"); return };
                deck(&y, &a, &w);
            }
        }
    }
    /// Numbered slides: the first has the title of the deck, the others their numbers.
    fn h_c29_numbered() {
        let a = word();
        let k = [0, 1, 2, 11][choose(4)];
        let y = if flag() { create_pptx(&a, k).ok() } else { create_pptx_to_writer(std::io::Cursor::new(Vec::new()), &a, k).ok().map(|c| c.into_inner()) };
        let Some(y) = y else { fail("no deck"); return };
        let w: Vec<Want> = (1..=k).map(|i| if i == 1 { want(&a, &[]) } else { want(&format!("Slide {i}"), &[]) }).collect();
        deck(&y, &a, &w);
    }
    /// The presentation of the API: slides in the order added, those of another presentation after them; its files are the same wherever they go.
    fn h_c29_presentation() {
        let (a, b) = some_words();
        let few = !THOROUGH && !same_str(&b, "b");
        let mut p = if flag() { Presentation::with_title(&a) } else { Presentation::new().title("other").title(&a) };
        let mut w = vec![];
        let themed = !few && flag();
        for i in 0..if few { 1 } else { choose(3) } {
            match choose(3) {
                0 => { p = p.add_slide(SlideContent::new(&b).add_bullet("x")); w.push(want(&b, &["x"])); }
                1 => {
                    let mut o = Presentation::with_title("not this").with_theme(PresentationTheme::dark());
                    for j in 0..choose(3) { o = o.add_slide(SlideContent::new(&format!("o{i}{j}"))); w.push(want(&format!("o{i}{j}"), &[])); }
                    p = p.add_presentation(o);
                }
                _ => { p = p.add_slide(SlideContent::new("s").layout(SlideLayout::CenteredTitle).add_bullet(&b)); w.push(want("s", &[&b])); }
            }
        }
        if themed { p = p.with_theme(PresentationTheme::new("mine").major_font("Arial")); }
        check(p.slide_count() == w.len() && p.slides().len() == w.len(), "how many slides");
        check(same_str(p.get_title(), &a), "the title");
        let y = match choose(3) {
            0 => p.build().ok(),
            1 => p.clone().into_bytes().ok(),
            _ => {
                let ok = p.save("p.pptx").is_ok();
                let y = std::fs::read("p.pptx").ok();
                let _ = std::fs::remove_file("p.pptx");
                check(ok == y.is_some(), "a file just where there is a deck");
                y
            }
        };
        check(y.is_some() == !w.is_empty(), "a deck just where there are slides");
        let Some(y) = y else { return };
        let Some(k) = deck(&y, &a, &w) else { return };
        let Some(d) = k.doc("ppt/theme/theme1.xml") else { fail("no theme"); return };
        check(latin(&d, "a:majorFont") == Some(if themed { b"Arial".to_vec() } else { b"Calibri".to_vec() }), "the theme of the presentation");
    }
    /// Themes: every colour, font and name that is given.
    fn h_c29_theme() {
        let mut t = match choose(4) { 0 => PresentationTheme::office(), 1 => PresentationTheme::new("mine"), 2 => PresentationTheme::default(), _ => PresentationTheme::new(if flag() { word() } else { "A&B".into() }) };
        let mut cs: Vec<String> = (0..12).map(|k| office_slot(k).to_string()).collect();
        // the colours or the fonts
        let part = if THOROUGH { 2 } else { choose(2) };
        let mut x = if part == 1 { "ff".to_string() } else { of_set(n(1, 2), b"0123456789abcdefABCDEF") };
        x.push_str("12cD");
        let up = x.to_ascii_uppercase();
        match if part == 1 { [0, 1, 5][choose(3)] } else { choose(7) } {
            0 => {}
            1 => { t = t.colors(ThemeColorScheme::office().accent1(&x)); cs[4] = up; }
            2 => { t = t.colors(ThemeColorScheme::office().accent2(format!("#{x}"))); cs[5] = up; }
            3 => { t = t.colors(ThemeColorScheme::office().accent3(format!(" {x} "))); cs[6] = up; }
            4 => { t = t.colors(ThemeColorScheme::office().hyperlink(&x)); cs[10] = up; }
            5 => {
                let k = choose(12);
                let mut c = ThemeColorScheme::office();
                let f = match k { 0 => &mut c.dk1, 1 => &mut c.lt1, 2 => &mut c.dk2, 3 => &mut c.lt2, 4 => &mut c.accent1, 5 => &mut c.accent2, 6 => &mut c.accent3, 7 => &mut c.accent4, 8 => &mut c.accent5, 9 => &mut c.accent6, 10 => &mut c.hlink, _ => &mut c.fol_hlink };
                *f = up.clone();
                cs[k] = up;
                t = t.colors(c);
            }
            _ => {
                let k = choose(7);
                let mut a = ["000001", "000002", "000003", "000004", "000005", "000006", "000007"].map(String::from);
                a[k] = x;
                t = PresentationTheme::from_palette(t.name.clone(), &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]);
                let mut u = a.map(|s| s.to_ascii_uppercase());
                cs = [4usize, 3, 6, 5, 0, 1, 2, 0, 2, 0, 0].iter().map(|&i| u[i].clone()).collect();
                cs.push("954F72".into());
                u[0].clear();
            }
        }
        let (mut major, mut minor) = (None, None);
        let f = if part == 0 { "Arial".to_string() } else { word() };
        match if part == 0 { choose(2) } else { choose(5) } {
            1 => { t = t.major_font(&f); major = Some(f); }
            2 => { t = t.minor_font(&f); minor = Some(f); }
            3 => { t = t.fonts(ThemeFonts::new("Arial", &f)); major = Some("Arial".into()); minor = Some(f); }
            4 => { t = t.major_font("Georgia").fonts(ThemeFonts::new("Times", "Gill")); major = Some("Times".into()); minor = Some("Gill".to_string()); }
            _ => {}
        }
        let s = t.to_theme_xml();
        let Ok(d) = xml::parse(s.as_bytes()) else { fail("not well formed"); return };
        let Some(root) = d.all("a:theme").first().copied() else { fail("no theme"); return };
        check(matches!(d.attr(root, "name"), Some(x) if same(x, t.name.as_bytes())), "the name");
        for (k, c) in cs.iter().enumerate() {
            let got = d.all(SLOTS[k]).first().and_then(|&e| d.nodes[e].kids.first().copied()).and_then(|e| d.attr(e, "val").filter(|_| d.nodes[e].name == "a:srgbClr").or(d.attr(e, "lastClr")));
            check(matches!(got, Some(x) if same(x, c.as_bytes())), "the colour");
        }
        check(d.all("a:latin").len() >= 2, "fonts");
        if let Some(m) = major { check(matches!(latin(&d, "a:majorFont"), Some(x) if same(&x, m.as_bytes())), "the font of the titles"); }
        match minor { Some(m) => check(matches!(latin(&d, "a:minorFont"), Some(x) if same(&x, m.as_bytes())), "the font of the texts"), None => check(latin(&d, "a:minorFont") == Some(b"Calibri".to_vec()), "the font of the texts") }
    }
    /// A deck made from a template has its design and none of its slides.
    fn h_c29_template() {
        let a = if THOROUGH { word() } else { "a & b".to_string() };
        let x = of_set(2, b"0123456789ABCDEF");
        let mut ts = vec![SlideContent::new("of the template").add_bullet("gone")];
        if flag() { ts[0] = ts[0].clone().notes("gone too"); }
        let set = PresentationSettings::new().theme(PresentationTheme::new("Theirs").colors(ThemeColorScheme::office().accent1(format!("{x}0102"))).major_font("Georgia"));
        let tpl = eager("template", &ts, Some(set));
        std::fs::write("tpl.pptx", &tpl).unwrap();
        let mut v = vec![];
        let mut w = vec![];
        let k = choose(3);
        for i in 0..k {
            let l = if i == 0 { LAYOUTS[choose(7)].clone() } else { SlideLayout::TitleAndContent };
            let blank = l == SlideLayout::Blank;
            v.push(SlideContent::new(&a).layout(l.clone()));
            w.push(want(if blank { "" } else { &a }, &[]));
        }
        let y = match choose(3) {
            0 => create_pptx_with_template("D", &v, "tpl.pptx", None).ok(),
            1 => create_pptx_with_settings("D", &v, Some(PresentationSettings::new().template("tpl.pptx"))).ok(),
            _ => Some(lazy("D", v.clone(), Some(PresentationSettings::new().template("tpl.pptx")))),
        };
        let _ = std::fs::remove_file("tpl.pptx");
        let Some(y) = y else { fail("no deck"); return };
        let Some(p) = deck(&y, "D", &w) else { return };
        let q = pkg::open(&tpl).unwrap();
        for (n, b) in &q.parts {
            if n.starts_with("ppt/slideMasters/") || n.starts_with("ppt/slideLayouts/") || n == "ppt/theme/theme1.xml" {
                check(matches!(p.get(n), Some(x) if same(x, b)), "the design of the template");
            }
        }
        // the layout of each slide is the one it would have without a template
        let plain = pkg::open(&eager("D", &v, None)).unwrap();
        for s in pkg::slide_order(&p).unwrap_or_default() {
            let of = |p: &pkg::Pkg| p.rels(&pkg::rels_of(&s)).and_then(|r| r.into_iter().find(|r| r.ty.ends_with("/slideLayout")).map(|r| r.target));
            check(of(&p).is_some() && of(&p) == of(&plain), "the layout");
        }
    }
    /// The commands: the file has the deck that was asked for.
    fn h_c29_commands() {
        use ppt_rs::cli::*;
        let a = of_set(2, b"abz <&");
        let title = if flag() { Some(&a[..]) } else { None };
        let out = ["c29.pptx", "c29dir/sub/c29.pptx"][choose(2)];
        let ok;
        let (mut w, name) = (vec![], ["Presentation", "Presentation from Markdown", "Presentation from HTML"]);
        let kind = choose(4);
        let name = name[kind.saturating_sub(1)];
        match kind {
            0 => {
                let k = choose(3);
                ok = CreateCommand::execute(out, title, k, None).is_ok();
                w = (1..=k).map(|i| if i == 1 { want(title.unwrap_or(name), &[]) } else { want(&format!("Slide {i}"), &[]) }).collect();
                check(ok, "a deck");
            }
            1 => {
                std::fs::write("c29tpl.pptx", eager("t", &[SlideContent::new("theirs")], Some(PresentationSettings::new().theme(PresentationTheme::new("Theirs"))))).unwrap();
                ok = CreateCommand::execute(out, title, 2, Some("c29tpl.pptx")).is_ok();
                let _ = std::fs::remove_file("c29tpl.pptx");
                w = vec![want("Slide 1", &["Content"]), want("Slide 2", &["Content"])];
                check(ok, "a deck");
                let b = std::fs::read(out).unwrap_or_default();
                check(matches!(pkg::open(&b).and_then(|p| p.doc("ppt/theme/theme1.xml")), Some(d) if d.attr_str(d.all("a:theme")[0], "name") == Some("Theirs")), "the design of the template");
            }
            2 => {
                let word = of_set(1, b"ab&<");
                let k = choose(3);
                let mut md = String::new();
                for i in 0..k { md.push_str(&format!("# T{i}{word}\n\n- {word}x\n- y{i}\n\n")); w.push(want(&format!("T{i}{word}"), &[&format!("{word}x"), &format!("y{i}")])); }
                std::fs::write("c29.md", &md).unwrap();
                ok = FromMarkdownCommand::execute("c29.md", out, title).is_ok();
                let _ = std::fs::remove_file("c29.md");
                check(ok == (k > 0), "a deck just where there are slides");
            }
            _ => {
                let word = of_set(1, b"ab1");
                let (ms, mb) = (1 + choose(2), 1 + choose(2));
                let (ni, nt, nc) = match choose(3) { 0 => (true, false, true), 1 => (false, true, false), _ => (true, true, true) };
                let k = choose(3);
                let mut h = String::from("<html><body>");
                // a slide shows its table or its bullets
                let only_table = k == 1 && flag();
                if only_table { h.push_str("<h1>T0</h1><table><tr><td>cell</td></tr></table>"); w.push(want("T0", if nt { &[] } else { &["cell"] })); }
                for i in 0..if only_table { 0 } else { k } {
                    h.push_str(&format!("<h1>T{i}</h1><ul><li>{word}x</li><li>{word}y</li></ul>"));
                    if i < ms { let all = [format!("{word}x"), format!("{word}y")]; w.push((format!("T{i}"), all[..mb].to_vec())); }
                }
                h.push_str("</body></html>");
                std::fs::write("c29.html", &h).unwrap();
                ok = FromHtmlCommand::execute("c29.html", out, title, ms, mb, ni, nt, nc).is_ok();
                let _ = std::fs::remove_file("c29.html");
                check(ok == (k > 0), "a deck just where there are slides");
            }
        }
        let b = std::fs::read(out).ok();
        let _ = std::fs::remove_file(out);
        check(b.is_some() == ok, "a file just where there is a deck");
        let Some(b) = b else { return };
        deck(&b, title.unwrap_or(name), &w);
        check(matches!(ppt_rs::cli::ValidateCommand::execute("c29none.pptx", true), Err(_)), "no file, no verdict");
    }
}

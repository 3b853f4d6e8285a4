//! C04: every way of writing gives the same presentation.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::api::Presentation;
use ppt_rs::generator::*;
use std::io::Cursor;

/// The same parts with the same contents; content types may be declared in any order.
fn equal(a: &[u8], b: &[u8], what: &str) {
    let (Some(x), Some(y)) = (open(a), open(b)) else { fail("not an archive"); return };
    check(x.parts.len() == y.parts.len(), what);
    for (n, d) in &x.parts {
        let Some(e) = y.get(n) else { fail(&format!("{what}: a part is not there")); continue };
        if n != "[Content_Types].xml" { check(same(d, e), what); continue; }
        let (Ok((mut d1, mut o1)), Ok((mut d2, mut o2))) = (content_types(&x), content_types(&y)) else { fail("content types"); continue };
        d1.sort(); d2.sort(); o1.sort(); o2.sort();
        check(d1 == d2 && o1 == o2, "the content types");
    }
}
fn all_ways(title: &str, s: Vec<SlideContent>, set: Option<PresentationSettings>) {
    let a = eager(title, &s, set.clone());
    equal(&a, &streamed(title, &s, set.clone()), "written to a writer");
    equal(&a, &lazy(title, s, set), "written lazily");
}
fn slide(kind: usize) -> SlideContent {
    let t = SlideContent::new("T");
    match kind {
        0 => t.add_bullet("b"),
        1 => t.notes("n").add_bullet("b"),
        2 => t.add_image(image(1, "png")).add_image(lost_image()).notes("m"),
        3 => t.add_chart(chart(ChartType::Bar)).add_chart(chart(ChartType::Pie)).with_ink(InkAnnotations::new()),
        4 => t.with_ink(ink()).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_hyperlink(Hyperlink::new(HyperlinkAction::url("http://a/")))),
        5 => SlideContent::new("  ").table(table()).layout(SlideLayout::TwoColumn),
        6 => t.notes("n").add_image(image(2, "webp")).add_chart(chart(ChartType::Line)).with_ink(ink()),
        _ => SlideContent::new("").layout(SlideLayout::Blank).add_image(image(1, "PNG")).add_image(lost_image()),
    }
}
/// A source that answers what it is asked without making the slide.
struct Clever(Vec<SlideContent>);
impl LazySlideSource for Clever {
    fn slide_count(&self) -> usize { self.0.len() }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> { self.0.get(i).cloned() }
    fn slide_features(&self, i: usize) -> Option<(bool, usize)> { self.0.get(i).map(|s| (s.notes.is_some(), s.charts.len())) }
    fn slide_has_notes(&self, i: usize) -> bool { self.0.get(i).is_some_and(|s| s.notes.is_some()) }
    fn slide_chart_count(&self, i: usize) -> usize { self.0.get(i).map_or(0, |s| s.charts.len()) }
}

harnesses! {
    /// Slides of every kind next to each other.
    fn h_c04_kinds() {
        set_time(1_700_000_000);
        let mut s: Vec<SlideContent> = (0..2).map(|_| slide(choose(8))).collect();
        if THOROUGH { s.push(slide(choose(8))); }
        all_ways("T", s, None);
    }
    /// Presentation-level settings.
    fn h_c04_settings() {
        set_time(1_700_000_000);
        let mut set = settings(n(1, 2)).unwrap();
        if let Some(p) = set.print.as_mut() {
            match choose(3) { 0 => {} 1 => { p.header = Some("h".into()); } _ => { p.footer = Some("f".into()); p.print_date = true; p.print_page_numbers = true; } }
        }
        all_ways("T", vec![slide(6), slide(choose(n(1, 4)))], Some(set));
    }
    /// Pictures, some of them the same, in files of awkward kinds.
    fn h_c04_images() {
        set_time(1_700_000_000);
        let ext = |i: usize| ["png", "jpg", "JPG", "x-y"][i];
        let k = choose(4);
        let s = (0..3).map(|i| SlideContent::new("T").add_image(image(byte(), if i == 1 { ext(k) } else { "png" })).add_bullet("b")).collect();
        all_ways("T", s, None);
    }
    /// Texts.
    fn h_c04_texts() {
        set_time(1_700_000_000);
        let t = utf8_upto(n(1, 2));
        let s = match choose(4) {
            0 => SlideContent::new(&t),
            1 => SlideContent::new("T").notes(&t),
            2 => SlideContent::new("T").add_bullet(&t),
            _ => SlideContent::new("T").add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 9, 9).with_text(&t)),
        };
        all_ways(if flag() { &t } else { "T" }, vec![s], None);
    }
    /// The convenient ways.
    fn h_c04_shortcuts() {
        set_time(1_700_000_000);
        let k = choose(8);
        let a = eager("T", &[slide(k), slide(1)], None);
        let p = Presentation::with_title("T").add_slide(slide(k)).add_slide(slide(1));
        equal(&a, &p.build().unwrap(), "built");
        p.save("p.pptx").unwrap();
        equal(&a, &std::fs::read("p.pptx").unwrap(), "saved");
        equal(&a, &p.into_bytes().unwrap(), "made into bytes");
        equal(&a, &create_pptx_with_content("T", vec![slide(k), slide(1)]).unwrap(), "with content");
        equal(&a, &ppt_rs::prelude::QuickPptx::new("T").content_slide(slide(k)).content_slide(slide(1)).build().unwrap(), "quickly built");
        equal(&a, &create_pptx_lazy_to_writer(Cursor::new(Vec::new()), "T", Box::new(Clever(vec![slide(k), slide(1)])), None).unwrap().into_inner(), "from a source of its own");
    }
    /// The same settings by way of the presentation.
    fn h_c04_presentation() {
        set_time(1_700_000_000);
        let set = settings(1).unwrap();
        let s = vec![slide(6)];
        let a = eager("T", &s, Some(set.clone()));
        let p = Presentation::with_title("T").add_slide(slide(6));
        let p = if flag() { p.with_settings(set) } else { match set.theme.clone() { Some(t) => { let mut rest = set; rest.theme = None; p.with_settings(rest).with_theme(t) } None => p.with_settings(set) } };
        equal(&a, &p.build().unwrap(), "built");
        equal(&a, &p.into_bytes().unwrap(), "made into bytes");
    }
    /// A number of slides.
    fn h_c04_count() {
        set_time(1_700_000_000);
        let k = choose(n(4, 13));
        let t = printable(1);
        equal(&create_pptx(&t, k).unwrap(), &create_pptx_to_writer(Cursor::new(Vec::new()), &t, k).unwrap().into_inner(), "written to a writer");
        all_ways(&t, (0..k).map(|i| slide(i % 8)).collect(), None);
    }
    /// Over a template.
    fn h_c04_template() {
        set_time(1_700_000_000);
        std::fs::write("t.pptx", eager("Template", &[slide(choose(2))], settings(0))).unwrap();
        let mut set = PresentationSettings::new();
        if flag() { set = set.theme(PresentationTheme::corporate()); }
        let s = vec![slide(6), slide(0)];
        let a = create_pptx_with_template("T", &s, "t.pptx", Some(set.clone())).unwrap();
        set.template_path = Some("t.pptx".into());
        equal(&a, &eager("T", &s, Some(set.clone())), "with settings");
        equal(&a, &streamed("T", &s, Some(set.clone())), "written to a writer");
        equal(&a, &lazy("T", s, Some(set)), "written lazily");
    }
    /// What was written before makes no difference.
    fn h_c04_history() {
        set_time(1_700_000_000);
        let with = |k: usize| match k { 0 => None, 1 => Some(PresentationSettings::new().print(PrintSettings::new().print_what(PrintWhat::Handouts).footer("f"))), _ => Some(PresentationSettings::new().theme(PresentationTheme::corporate()).embedded_fonts(fonts(1))) };
        let (i, j) = (choose(3), choose(3));
        let a = eager("T", &[slide(1)], with(i));
        let _ = lazy("U", vec![slide(6)], with(j));
        equal(&a, &eager("T", &[slide(1)], with(i)), "written again");
    }
}

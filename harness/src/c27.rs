//! C27: the look asked for is the look written.
use crate::deck::*;
use crate::sx::*;
use crate::xml::{self, Doc};
use ppt_rs::generator::images::ImageEffect;
use ppt_rs::generator::*;
use ppt_rs::parts::table as pt;

/// The look of a run.
#[derive(Clone, Default)]
struct Look { bold: bool, italic: bool, underline: bool, strike: bool, base: i32, size: Option<u32>, color: Option<String>, highlight: Option<String>, font: Option<String> }

fn read(x: &str) -> Option<Doc> {
    const NS: &str = "<w xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\">";
    let whole = if x.starts_with("<?xml") { x.to_string() } else { format!("{NS}{x}</w>") };
    match xml::parse(whole.as_bytes()) { Ok(d) => Some(d), Err(_) => { fail("not well formed"); None } }
}
fn slide(c: &SlideContent) -> Option<Doc> { read(&slide_xml::create_slide_xml_with_content(1, c, &[], None)) }
fn on(d: &Doc, e: usize, a: &str) -> bool { matches!(d.attr_str(e, a), Some("1") | Some("true")) }
fn num(d: &Doc, e: usize, a: &str) -> Option<i64> { d.attr_str(e, a).and_then(|v| v.parse().ok()) }
fn up(c: &str) -> String { c.trim_start_matches('#').to_ascii_uppercase() }
/// The colour of the fill directly below `e`, with its opacity.
fn fill(d: &Doc, e: usize) -> Option<(String, i64)> {
    let f = d.kid(e, "a:solidFill")?;
    let c = d.kid(f, "a:srgbClr")?;
    Some((d.attr_str(c, "val").unwrap_or_default().to_ascii_uppercase(), d.kid(c, "a:alpha").and_then(|a| num(d, a, "val")).unwrap_or(100000)))
}
/// `default` is the size without one.
fn looks(d: &Doc, run: usize, l: &Look, default: Option<u32>) {
    let Some(r) = d.kid(run, "a:rPr") else {
        check(!l.bold && !l.italic && !l.underline && !l.strike && l.base == 0 && l.size.is_none() && l.color.is_none() && l.highlight.is_none() && l.font.is_none(), "a run without its look");
        return;
    };
    check(on(d, r, "b") == l.bold, "bold");
    check(on(d, r, "i") == l.italic, "italic");
    check(matches!(d.attr_str(r, "u"), Some(x) if x != "none") == l.underline, "underlined");
    check(matches!(d.attr_str(r, "strike"), Some("sngStrike")) == l.strike, "struck through");
    check(num(d, r, "baseline").unwrap_or(0).signum() == l.base as i64, "above or below the line");
    if let Some(s) = l.size.or(default) { check(num(d, r, "sz") == Some(s as i64 * 100), "the size"); }
    match (&l.color, fill(d, r)) {
        (Some(c), Some((x, a))) => { check(same_str(&x, &up(c)), "the colour"); check(a == 100000, "the opacity of a text"); }
        (None, None) => {}
        _ => fail("a colour too many or too few"),
    }
    match (&l.highlight, d.kid(r, "a:highlight").and_then(|h| d.kid(h, "a:srgbClr")).and_then(|c| d.attr_str(c, "val"))) {
        (Some(c), Some(x)) => check(same_str(&x.to_ascii_uppercase(), &up(c)), "the highlight"),
        (None, None) => {}
        _ => fail("a highlight too many or too few"),
    }
    match (&l.font, d.kid(r, "a:latin").and_then(|f| d.attr(f, "typeface"))) {
        (Some(f), Some(x)) => check(same(x, f.as_bytes()), "the font"),
        (None, None) => {}
        _ => fail("a font too many or too few"),
    }
}
/// The runs with their texts, in order.
fn runs(d: &Doc) -> Vec<(usize, String)> {
    d.all("a:r").into_iter().map(|r| (r, d.kid(r, "a:t").map(|t| String::from_utf8_lossy(d.text(t)).to_string()).unwrap_or_default())).collect()
}
fn run(d: &Doc, text: &str) -> Option<usize> {
    let r: Vec<usize> = runs(d).into_iter().filter(|r| r.1 == text).map(|r| r.0).collect();
    check(r.len() == 1, "a text once");
    r.first().copied()
}
/// A colour with two arbitrary digits.
fn color() -> String {
    let k = choose(n(2, 3));
    if k == 2 { return "#aBcDeF".to_string(); }
    let x = of_set(2, b"0123456789abcdefABCDEF");
    if k == 0 { format!("{x}12cD") } else { format!("#0012{x}") }
}
fn plain_color() -> &'static str { ["#1a2B3c", "FFFFFF"][choose(2)] }
fn size() -> u32 { [1, 18, 200, 4000][choose(4)] }
fn line(d: &Doc, sp: usize) -> Option<usize> { d.kid(sp, "p:spPr").and_then(|s| d.kid(s, "a:ln")) }
const WITH_TITLE: [SlideLayout; 6] = [SlideLayout::TitleOnly, SlideLayout::CenteredTitle, SlideLayout::TitleAndContent, SlideLayout::TitleAndBigContent, SlideLayout::TwoColumn, SlideLayout::SectionHeader];
const WITH_TEXTS: [SlideLayout; 5] = [SlideLayout::TitleAndContent, SlideLayout::TitleAndBigContent, SlideLayout::TwoColumn, SlideLayout::CenteredTitle, SlideLayout::SectionHeader];
const WITH_CONTENT: [SlideLayout; 3] = [SlideLayout::TitleAndContent, SlideLayout::TitleAndBigContent, SlideLayout::TwoColumn];

fn style_of(d: &Doc, ppr: usize) -> Option<String> {
    if d.kid(ppr, "a:buNone").is_some() { return Some("none".into()); }
    if let Some(c) = d.kid(ppr, "a:buChar") { return d.attr_str(c, "char").map(|c| format!("char {c}")); }
    d.kid(ppr, "a:buAutoNum").and_then(|c| d.attr_str(c, "type")).map(|t| t.to_string())
}
fn style_name(s: &BulletStyle) -> String {
    match s {
        BulletStyle::Bullet => "char •".into(),
        BulletStyle::Number => "arabicPeriod".into(),
        BulletStyle::LetterLower => "alphaLcPeriod".into(),
        BulletStyle::LetterUpper => "alphaUcPeriod".into(),
        BulletStyle::RomanLower => "romanLcPeriod".into(),
        BulletStyle::RomanUpper => "romanUcPeriod".into(),
        BulletStyle::Custom(c) => format!("char {c}"),
        BulletStyle::None => "none".into(),
    }
}
fn style() -> BulletStyle {
    let c = ['*', '<', '"', '&', '\u{1F600}'][choose(5)];
    if c != '*' { return BulletStyle::Custom(c); }
    [BulletStyle::Bullet, BulletStyle::Number, BulletStyle::LetterLower, BulletStyle::LetterUpper, BulletStyle::RomanLower, BulletStyle::RomanUpper, BulletStyle::Custom('*'), BulletStyle::None][choose(8)]
}
/// A paragraph with its level, deeper ones further in.
fn paragraph(d: &Doc, text: &str) -> Option<usize> { run(d, text).map(|r| d.nodes[r].parent) }

fn edge(d: &Doc, tc: usize, side: &str, w: Option<(&pt::CellBorder, i64)>) {
    let e = d.kid(tc, "a:tcPr").and_then(|p| d.kid(p, side));
    match (w, e) {
        (None, None) => {}
        (None, Some(e)) => check(fill(d, e).is_none(), "a border nobody asked for"),
        (Some((b, w)), e) => {
            if matches!(b.style, pt::BorderStyle::None) { check(e.is_none_or(|e| fill(d, e).is_none()), "a border that should not be"); return; }
            let Some(e) = e else { fail("a border"); return };
            check(num(d, e, "w") == Some(w), "the width of a border");
            check(fill(d, e).map(|f| f.0) == Some(up(&b.color)), "the colour of a border");
            check((d.attr_str(e, "cmpd") == Some("dbl")) == matches!(b.style, pt::BorderStyle::Double), "a double border");
            let dash = d.kid(e, "a:prstDash").and_then(|x| d.attr_str(x, "val")).unwrap_or("solid");
            check(dash == match b.style { pt::BorderStyle::Dashed => "dash", pt::BorderStyle::Dotted => "dot", _ => "solid" }, "the dashes of a border");
        }
    }
}

harnesses! {
    // ── Texts ────────────────────────────────────────────────────
    fn h_c27_title() {
        let mut l = Look { bold: true, ..Look::default() };
        let mut c = SlideContent::new("the title").layout(WITH_TITLE[choose(6)]).add_bullet("b");
        if flag() { l.bold = flag(); c = c.title_bold(l.bold); }
        if flag() { l.italic = true; c = c.title_italic(true); }
        if flag() { l.underline = true; c = c.title_underline(true); }
        if flag() { let s = size(); l.size = Some(s); c = c.title_size(s); }
        if flag() { let x = plain_color(); l.color = Some(x.into()); c = c.title_color(x); }
        let Some(d) = slide(&c) else { return };
        if let Some(r) = run(&d, "the title") { looks(&d, r, &l, None); }
    }
    fn h_c27_title_color() {
        let x = color();
        let c = SlideContent::new("the title").layout(WITH_TITLE[choose(6)]).title_color(&x).content_color("123456").add_bullet("b");
        let Some(d) = slide(&c) else { return };
        if let Some(r) = run(&d, "the title") { looks(&d, r, &Look { bold: true, color: Some(x), ..Look::default() }, None); }
    }
    fn h_c27_content() {
        let mut l = Look::default();
        let mut c = SlideContent::new("the title").layout(WITH_TEXTS[choose(5)]);
        if flag() { l.bold = true; c = c.content_bold(true); }
        if flag() { l.italic = true; c = c.content_italic(true); }
        if flag() { l.underline = true; c = c.content_underline(true); }
        l.size = Some(28);
        if flag() { let s = size(); l.size = Some(s); c = c.content_size(s); }
        if flag() { let x = plain_color(); l.color = Some(x.into()); c = c.content_color(x); }
        let k = 1 + choose(3);
        let t = ["b0", "b1", "b2"];
        for t in &t[..k] { c = c.add_bullet(t); }
        let Some(d) = slide(&c) else { return };
        for t in &t[..k] { if let Some(r) = run(&d, t) { looks(&d, r, &l, None); } }
        if let Some(r) = run(&d, "the title") { looks(&d, r, &Look { bold: true, ..Look::default() }, None); }
    }
    /// What a bullet says of its own look comes on top of that of the content, and concerns no other bullet.
    fn h_c27_bullets() {
        let mut l = Look::default();
        let mut f = BulletTextFormat::new();
        let k = choose(n(3, 4));
        if k == 0 || k == 3 {
            if flag() { f = f.bold(); l.bold = true; }
            if flag() { f = f.italic(); l.italic = true; }
            if flag() { f = f.underline(); l.underline = true; }
            if flag() { f = f.strikethrough(); l.strike = true; }
        }
        if k == 1 || k == 3 {
            match choose(4) { 1 => { f = f.subscript(); l.base = -1; } 2 => { f = f.superscript(); l.base = 1; } 3 => { f = f.superscript().subscript(); l.base = -1; } _ => {} }
            if flag() { let s = size(); f = f.font_size(s); l.size = Some(s); }
            if flag() { let x = xml_ascii(1); f = f.font_family(&x); l.font = Some(x); }
        }
        if k == 2 || k == 3 {
            if flag() { let x = color(); f = f.color(&x); l.color = Some(x); }
            if flag() { let x = plain_color(); f = f.highlight(x); l.highlight = Some(x.into()); }
        }
        let mut c = SlideContent::new("the title").layout(WITH_TEXTS[choose(5)]);
        let mut rest = Look { size: Some(28), ..Look::default() };
        l.size = l.size.or(rest.size);
        match choose(3) {
            1 => { c = c.content_bold(true).content_color("ABCDEF"); l.bold = true; rest.bold = true; rest.color = Some("ABCDEF".into()); if l.color.is_none() { l.color = rest.color.clone(); } }
            2 => { c = c.content_italic(true).content_underline(true); l.italic = true; l.underline = true; rest.italic = true; rest.underline = true; }
            _ => {}
        }
        c = c.add_bullet("b0").add_bullet("b1").add_bullet("b2");
        let i = choose(3);
        c.bullets[i].format = Some(f);
        let Some(d) = slide(&c) else { return };
        for (j, t) in ["b0", "b1", "b2"].iter().enumerate() { if let Some(r) = run(&d, t) { looks(&d, r, if i == j { &l } else { &rest }, None); } }
    }
    fn h_c27_bullet_styles() {
        let mut c = SlideContent::new("the title").layout(WITH_CONTENT[choose(3)]);
        let (s, t) = (style(), [BulletStyle::Bullet, BulletStyle::Number, BulletStyle::None][choose(3)]);
        let mut want = vec![("b0", BulletStyle::Bullet, 0u32)];
        c = c.add_bullet("b0");
        match choose(3) {
            0 => { c = c.add_styled_bullet("b1", s).with_bullet_style(t).add_bullet("b2"); want.push(("b1", s, 0)); want.push(("b2", t, 0)); }
            1 => { c = c.with_bullet_style(s).add_bullet("b1").add_sub_bullet("b2"); want.push(("b1", s, 0)); want.push(("b2", s, 1)); }
            _ => { c = c.add_numbered("b1").add_lettered("b2"); want.push(("b1", BulletStyle::Number, 0)); want.push(("b2", BulletStyle::LetterLower, 0)); }
        }
        let Some(d) = slide(&c) else { return };
        for (x, s, l) in want {
            let Some(p) = paragraph(&d, x) else { return };
            let Some(pr) = d.kid(p, "a:pPr") else { fail("no bullet"); return };
            check(style_of(&d, pr).as_deref() == Some(&style_name(&s)[..]), "the style of a bullet");
            check(num(&d, pr, "lvl").unwrap_or(0) == l as i64, "the level of a bullet");
        }
    }
    fn h_c27_bullet_levels() {
        let (a, b) = (byte() as u32, byte() as u32);
        assume(a <= 10 && b <= 10);
        let (a, b) = (conc(a as u64) as u32, conc(b as u64) as u32);
        let mut c = SlideContent::new("the title").layout(WITH_CONTENT[choose(3)]);
        c.bullets.push(BulletPoint::new("b0").with_level(a));
        c.bullets.push(BulletPoint::new("b1").with_level(b));
        let Some(d) = slide(&c) else { return };
        let mut at = vec![];
        for (t, l) in [("b0", a), ("b1", b)] {
            let Some(pr) = paragraph(&d, t).and_then(|p| d.kid(p, "a:pPr")) else { fail("no bullet"); return };
            check(num(&d, pr, "lvl").unwrap_or(0) == l.min(8) as i64, "the level");
            at.push(num(&d, pr, "marL").unwrap_or(0) + num(&d, pr, "indent").unwrap_or(0));
            check(num(&d, pr, "marL").unwrap_or(0) + num(&d, pr, "indent").unwrap_or(0) >= 0, "within the text");
        }
        if a.min(8) < b.min(8) { check(at[0] < at[1], "deeper bullets are further in"); }
        if a.min(8) == b.min(8) { check(at[0] == at[1], "bullets of a level are in line"); }
    }
    fn h_c27_frames() {
        let mut f = TextFrame::new();
        let k = choose(3);
        let (mut anchor, mut wrap, mut m) = ("t", "square", [91440i64, 91440, 45720, 45720]);
        if k == 0 {
            let i = choose(3);
            f = f.anchor([TextAnchor::Top, TextAnchor::Middle, TextAnchor::Bottom][i]);
            anchor = ["t", "ctr", "b"][i];
            if flag() { f.wrap = false; wrap = "none"; }
            if flag() { f = f.margins(1, 2, 3, 4); m = [1, 2, 3, 4]; }
        }
        let mut p = Paragraph::new();
        let (mut al, mut lvl, mut bullet, mut before, mut after) = ("l", 0, false, None, None);
        if k == 1 {
            let i = choose(4);
            al = ["l", "ctr", "r", "just"][i];
            p = p.align([TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Justify][i]);
            if flag() { p = p.bullet(); bullet = true; }
            if flag() { lvl = [1, 8, 9][choose(3)]; p = p.level(lvl); lvl = lvl.min(8); }
            if flag() { let x = [0, 12, 1584][choose(3)]; p = p.spacing_before(x); before = Some(x as i64 * 100); }
            if flag() { p = p.spacing_after(7); after = Some(700); }
        }
        let mut l = Look::default();
        let mut r = Run::new("x");
        if k == 2 {
            let mut t = TextFormat::new();
            if flag() { t = t.bold(); l.bold = true; }
            if flag() { t = t.italic().underline(); l.italic = true; l.underline = true; }
            if flag() { t = t.strikethrough(); l.strike = true; }
            match choose(4) { 1 => { t = t.subscript(); l.base = -1; } 2 => { t = t.superscript(); l.base = 1; } 3 => { t = t.subscript().superscript(); l.base = 1; } _ => {} }
            if flag() { let x = color(); t = t.color(&x); l.color = Some(x); }
            if flag() { t = t.highlight("#ab0000"); l.highlight = Some("AB0000".into()); }
            if flag() { let s = size(); t = t.font_size(s).font_family("A & B"); l.size = Some(s); l.font = Some("A & B".into()); }
            r = if flag() { r.with_format(t) } else { p = p.add_text("y"); r.with_format(t) };
        }
        let Some(d) = read(&f.add_paragraph(p.add_run(r)).to_xml()) else { return };
        let b = d.all("a:bodyPr")[0];
        check(d.attr_str(b, "anchor").unwrap_or("t") == anchor, "the anchor of a text");
        check(d.attr_str(b, "wrap").unwrap_or("square") == wrap, "the wrapping of a text");
        for (a, v) in ["lIns", "rIns", "tIns", "bIns"].iter().zip(m) { check(num(&d, b, a) == Some(v), "the margins of a text"); }
        let Some(r) = run(&d, "x") else { return };
        looks(&d, r, &l, Some(18));
        if let Some((y, _)) = runs(&d).iter().find(|r| r.1 == "y") { looks(&d, *y, &Look::default(), Some(18)); }
        let pr = d.kid(d.nodes[r].parent, "a:pPr");
        let get = |a: &str| pr.and_then(|p| d.attr_str(p, a));
        check(get("algn").unwrap_or("l") == al, "the alignment of a paragraph");
        check(get("lvl").unwrap_or("0") == lvl.to_string(), "the level of a paragraph");
        let space = |n: &str| pr.and_then(|p| d.kid(p, n)).and_then(|e| d.kid(e, "a:spcPts")).and_then(|e| num(&d, e, "val"));
        check(space("a:spcBef") == before && space("a:spcAft") == after, "the spacing of a paragraph");
        check(pr.and_then(|p| style_of(&d, p)).is_some_and(|s| s != "none") == bullet, "the bullet of a paragraph");
    }
    // ── Shapes ───────────────────────────────────────────────────
    fn h_c27_shapes() {
        let mut s = Shape::new(ShapeType::Rectangle, 1, 2, 914400, 914400);
        let (mut f, mut l) = (None, None);
        if flag() {
            let see = flag();
            // The colour of a text depends on the brightness of the one below it.
            if see { s = s.with_text("x"); }
            let x = if see { plain_color().to_string() } else { color() };
            let mut v = ShapeFill::new(&x);
            let mut a = 100000;
            if see { let p = byte(); assume(p <= 110); let p = conc(p as u64) as u32; v = v.with_transparency(p); a = (100 - p.min(100) as i64) * 1000; }
            s = s.with_fill(v);
            f = Some((x, a));
        }
        if flag() { let (x, w) = (plain_color(), [0, 12700, 20116800][choose(3)]); s = s.with_line(ShapeLine::new(x, w)); l = Some((x, w)); }
        let Some(d) = slide(&SlideContent::new("t").add_shape(s)) else { return };
        let Some(sp) = d.all("p:sp").into_iter().last() else { fail("no shape"); return };
        let Some(pr) = d.kid(sp, "p:spPr") else { fail("no shape"); return };
        match (f, fill(&d, pr)) {
            (Some((c, a)), Some((x, b))) => { check(same_str(&x, &up(&c)), "the colour of a shape"); check(a == b, "the transparency of a shape"); }
            (None, None) => check(d.kid(pr, "a:gradFill").is_none(), "a gradient nobody asked for"),
            _ => fail("a fill too many or too few"),
        }
        match (l, line(&d, sp)) {
            (Some((c, w)), Some(e)) => { check(fill(&d, e).map(|f| f.0) == Some(up(c)), "the colour of an outline"); check(num(&d, e, "w") == Some(w as i64), "the width of an outline"); }
            (None, e) => check(e.is_none_or(|e| fill(&d, e).is_none()), "an outline nobody asked for"),
            _ => fail("no outline"),
        }
    }
    fn h_c27_rotation() {
        let mut r = [0, 1, -1, 359, 360, 361, -360, -725, i32::MAX, i32::MIN, 0][choose(11)];
        if r == 0 { r = conc(byte() as u64) as i32; r = [r - 128, r * 7, r * -5][choose(3)]; }
        let s = Shape::new(ShapeType::Rectangle, 1, 2, 914400, 914400).with_rotation(r);
        let Some(d) = read(&generate_shape_xml(&s, 7)) else { return };
        let x = num(&d, d.all("a:xfrm")[0], "rot").unwrap_or(0);
        check((x - r as i64 * 60000).rem_euclid(21600000) == 0, "the rotation of a shape");
    }
    fn h_c27_gradients() {
        let dirs = [(ShapeGradientDirection::Horizontal, 0), (ShapeGradientDirection::Vertical, 90), (ShapeGradientDirection::DiagonalDown, 45), (ShapeGradientDirection::DiagonalUp, 315), (ShapeGradientDirection::Angle(30), 30), (ShapeGradientDirection::Angle(359), 359), (ShapeGradientDirection::Angle(360), 0), (ShapeGradientDirection::Angle(725), 5)];
        let (dir, deg) = dirs[choose(8)].clone();
        let x = color();
        let (mut g, mut want) = if flag() { (ShapeGradientFill::linear(&x, "#00ff00", dir), vec![(x, 0, 100000), ("00FF00".to_string(), 100, 100000)]) } else { (ShapeGradientFill::three_color("FF0000", &x, "0000ff", dir), vec![("FF0000".to_string(), 0, 100000), (x, 50, 100000), ("0000FF".to_string(), 100, 100000)]) };
        if flag() {
            let (p, t) = ([0, 7, 100, 101][choose(4)], [0, 30, 101][choose(3)]);
            g = g.with_stop(ShapeGradientStop::new("#abcdef", p).with_transparency(t));
            want.push(("ABCDEF".to_string(), p.min(100), (100 - t.min(100) as i64) * 1000));
            want.sort_by_key(|w| w.1);
        }
        let s = Shape::new(ShapeType::Rectangle, 1, 2, 914400, 914400);
        let s = if flag() { s.with_fill(ShapeFill::new("111111")).with_gradient(g) } else { s.with_gradient(g) };
        let Some(d) = read(&generate_shape_xml(&s, 7)) else { return };
        let v = d.all("a:gs");
        check(v.len() == want.len(), "the stops of a gradient");
        for (e, (c, p, a)) in v.iter().zip(&want) {
            check(num(&d, *e, "pos") == Some(*p as i64 * 1000), "the place of a stop");
            let Some(k) = d.kid(*e, "a:srgbClr") else { fail("no colour"); return };
            check(same_str(&d.attr_str(k, "val").unwrap_or_default().to_ascii_uppercase(), &up(c)), "the colour of a stop");
            check(d.kid(k, "a:alpha").and_then(|a| num(&d, a, "val")).unwrap_or(100000) == *a, "the transparency of a stop");
        }
        check(d.all("a:lin").first().and_then(|e| num(&d, *e, "ang")) == Some(deg * 60000), "the direction of a gradient");
    }
    // ── Tables ───────────────────────────────────────────────────
    fn h_c27_cells() {
        let mut l = Look::default();
        let mut x = TableCell::new("x");
        let (mut bg, mut al, mut va) = (None, "ctr", "ctr");
        if flag() {
            if flag() { x = x.bold(); l.bold = true; }
            if flag() { x = x.italic(); l.italic = true; }
            if flag() { x = x.underline(); l.underline = true; }
            if flag() { let c = color(); x = x.text_color(&c); l.color = Some(c); }
            if flag() { let f = xml_ascii(1); let s = size(); x = x.font_family(&f).font_size(s); l.font = Some(f); l.size = Some(s); }
        } else {
            if flag() { let c = color(); x = x.background_color(&c); bg = Some(c); }
            let (i, j) = (choose(4), choose(3));
            al = ["l", "ctr", "r", "just"][i];
            va = ["t", "ctr", "b"][j];
            x = x.align([CellAlign::Left, CellAlign::Center, CellAlign::Right, CellAlign::Justify][i].clone()).valign([CellVAlign::Top, CellVAlign::Middle, CellVAlign::Bottom][j].clone());
        }
        let place = choose(3);
        let mut cells = vec![TableCell::new("p"), TableCell::new("q"), TableCell::new("r")];
        cells[place] = x;
        let Some(d) = slide(&SlideContent::new("t").table(TableBuilder::new(vec![1000, 2000, 3000]).add_row(TableRow::new(cells).with_height(77)).add_simple_row(vec!["s", "u", "v"]).build())) else { return };
        for (tc, i) in d.all("a:tc").into_iter().zip(0..) {
            let (w, b, a, v) = if i == place { (l.clone(), bg.clone(), al, va) } else { (Look::default(), None, "ctr", "ctr") };
            let r = d.below(tc, "a:r");
            let Some(r) = r.first().copied() else { fail("a cell without a text"); return };
            looks(&d, r, &w, None);
            check(d.below(tc, "a:pPr").first().and_then(|p| d.attr_str(*p, "algn")).unwrap_or("l") == a, "the alignment of a cell");
            let Some(pr) = d.kid(tc, "a:tcPr") else { fail("a cell without properties"); return };
            check(d.attr_str(pr, "anchor").unwrap_or("t") == v, "the vertical alignment of a cell");
            match (b, fill(&d, pr)) { (Some(c), Some((x, _))) => check(same_str(&x, &up(&c)), "the background of a cell"), (None, None) => {} _ => fail("a background too many or too few") }
        }
        let w: Vec<_> = d.all("a:gridCol").into_iter().map(|e| num(&d, e, "w")).collect();
        check(w == [Some(1000), Some(2000), Some(3000)], "the widths of the columns");
        check(d.all("a:tr").first().and_then(|e| num(&d, *e, "h")) == Some(77), "the height of a row");
    }
    fn h_c27_cell_parts() {
        let mut l = Look::default();
        let mut x = pt::TableCellPart::new("x");
        // The kind's own defaults.
        let (mut bg, mut al, mut va, mut m) = (None, pt::HorizontalAlign::default().as_str(), pt::VerticalAlign::default().as_str(), None);
        let mut b: [Option<(pt::CellBorder, i64)>; 4] = [None, None, None, None];
        let k = choose(3);
        if k == 0 {
            if flag() { x = x.bold(); l.bold = true; }
            if flag() { x = x.italic().underline(); l.italic = true; l.underline = true; }
            if flag() { x = x.strikethrough(); l.strike = true; }
            if flag() { let c = color(); x = x.color(c.clone()); l.color = Some(c); }
            if flag() { let s = size(); x = x.font("A<").font_size(s); l.font = Some("A<".into()); l.size = Some(s); }
        }
        if k == 1 {
            if flag() { let c = plain_color(); x = x.background(c); bg = Some(c); }
            let (i, j) = (choose(5), choose(3));
            if i < 4 {
                al = ["l", "ctr", "r", "just"][i];
                va = ["t", "ctr", "b"][j];
                x = x.align([pt::HorizontalAlign::Left, pt::HorizontalAlign::Center, pt::HorizontalAlign::Right, pt::HorizontalAlign::Justify][i]).valign([pt::VerticalAlign::Top, pt::VerticalAlign::Middle, pt::VerticalAlign::Bottom][j]);
            } else { x = x.center(); al = "ctr"; va = "ctr"; }
            if flag() { x = x.margins(pt::CellMargins { left: 1, right: 2, top: 3, bottom: 4 }); m = Some([1, 2, 3, 4]); }
        }
        if k == 2 {
            let s = [pt::BorderStyle::Solid, pt::BorderStyle::Dashed, pt::BorderStyle::Dotted, pt::BorderStyle::Double, pt::BorderStyle::None][choose(5)];
            let mk = |c: &str, w: f32| pt::CellBorder::new(w, c).style(s);
            let v = pt::CellBorders { left: flag().then(|| mk("#111111", 1.0)), right: flag().then(|| mk("222222", 2.0)), top: flag().then(|| mk("333333", 0.5)), bottom: flag().then(|| mk("444444", 3.0)) };
            b = [v.left.clone().map(|b| (b, 12700)), v.right.clone().map(|b| (b, 25400)), v.top.clone().map(|b| (b, 6350)), v.bottom.clone().map(|b| (b, 38100))];
            x = x.borders(v);
        }
        let Some(d) = read(&pt::TablePart::new().add_row(pt::TableRowPart::new(vec![x, pt::TableCellPart::new("y")]).height(5000)).col_widths(vec![5, 6]).position(1, 2).size(3, 4).to_slide_xml(7)) else { return };
        let tc = d.all("a:tc");
        if tc.len() != 2 { fail("two cells"); return; }
        if let Some(r) = run(&d, "x") { looks(&d, r, &l, None); }
        if let Some(r) = run(&d, "y") { looks(&d, r, &Look::default(), None); }
        let t = tc[0];
        check(d.below(t, "a:pPr").first().and_then(|p| d.attr_str(*p, "algn")).unwrap_or("l") == al, "the alignment of a cell");
        let Some(pr) = d.kid(t, "a:tcPr") else { fail("a cell without properties"); return };
        check(d.attr_str(pr, "anchor").unwrap_or("t") == va, "the vertical alignment of a cell");
        check(fill(&d, pr).map(|f| f.0) == bg.map(up), "the background of a cell");
        if let Some(m) = m { for (a, v) in ["marL", "marR", "marT", "marB"].iter().zip(m) { check(num(&d, pr, a) == Some(v), "the margins of a cell"); } }
        for (s, w) in ["a:lnL", "a:lnR", "a:lnT", "a:lnB"].iter().zip(&b) { edge(&d, t, s, w.as_ref().map(|w| (&w.0, w.1))); }
        let w: Vec<_> = d.all("a:gridCol").into_iter().map(|e| num(&d, e, "w")).collect();
        check(w == [Some(5), Some(6)], "the widths of the columns");
        check(d.all("a:tr").first().and_then(|e| num(&d, *e, "h")) == Some(5000), "the height of a row");
    }
    // ── Pictures and connectors ──────────────────────────────────
    fn h_c27_pictures() {
        let mut i = image(9, "png");
        let e = [(ImageEffect::Shadow, "a:outerShdw"), (ImageEffect::Reflection, "a:reflection"), (ImageEffect::Glow, "a:glow"), (ImageEffect::SoftEdges, "a:softEdge"), (ImageEffect::InnerShadow, "a:innerShdw"), (ImageEffect::Blur, "a:blur")];
        let mut has = vec![];
        for _ in 0..choose(n(3, 4)) { let k = choose(6); i = i.with_effect(e[k].0.clone()); has.push(k); }
        let mut crop = None;
        if flag() { let v = [[0.25, 0.5, 0.0, 0.125], [0.0, 0.0, 0.75, 0.0]][choose(2)]; i = i.with_crop(v[0], v[1], v[2], v[3]); crop = Some(v); }
        let mut alt = None;
        if flag() { let t = xml_ascii(1); i = i.with_alt_text(&t); alt = Some(t); }
        let Some(d) = slide(&SlideContent::new("t").add_image(i)) else { return };
        let p = d.all("p:pic");
        if p.len() != 1 { fail("one picture"); return; }
        for (k, (_, n)) in e.iter().enumerate() { check(d.below(p[0], n).len() == has.contains(&k) as usize, "the effects of a picture"); }
        let s = d.below(p[0], "a:srcRect").first().copied();
        for (j, a) in ["l", "t", "r", "b"].iter().enumerate() {
            let w = crop.map(|c| c[j] * 100000.0).unwrap_or(0.0) as i64;
            check(s.and_then(|s| num(&d, s, a)).unwrap_or(0) == w, "the crop of a picture");
        }
        let c = d.below(p[0], "p:cNvPr")[0];
        match (alt, d.attr(c, "descr")) { (Some(t), Some(x)) => check(same(x, t.as_bytes()), "the description of a picture"), (None, None) => {} _ => fail("a description too many or too few") }
    }
    fn h_c27_connectors() {
        let k = choose(3);
        let ty = if k == 0 { choose(3) } else { 0 };
        let mut c = Connector::new([ConnectorType::Straight, ConnectorType::Elbow, ConnectorType::Curved][ty], 1, 2, 3, 4);
        let (mut col, mut w, mut dash) = ("000000".to_string(), 12700, "solid");
        let (mut a, mut b, mut sz) = ("none", "none", "med");
        if k == 0 {
            match choose(3) {
                0 => { col = color(); w = [0, 20116800][choose(2)]; let i = choose(7); dash = ["solid", "dash", "dot", "dashDot", "lgDashDotDot", "lgDash", "lgDashDot"][i]; c = c.with_line(ConnectorLine::new(&col, w).with_dash([LineDash::Solid, LineDash::Dash, LineDash::Dot, LineDash::DashDot, LineDash::DashDotDot, LineDash::LongDash, LineDash::LongDashDot][i])); }
                1 => { col = color(); w = 5; c = c.with_color(&col).with_width(w); }
                _ => {}
            }
        }
        if k == 1 {
            let t = [ArrowType::None, ArrowType::Triangle, ArrowType::Stealth, ArrowType::Diamond, ArrowType::Oval, ArrowType::Open];
            let n = ["none", "triangle", "stealth", "diamond", "oval", "arrow"];
            let (i, j, s) = (choose(6), choose(6), choose(3));
            c = if flag() { c.with_arrows(t[i], t[j]) } else { c.with_end_arrow(t[j]).with_start_arrow(t[i]) };
            if s < 2 { c = c.with_arrow_size([ArrowSize::Small, ArrowSize::Large][s]); sz = ["sm", "lg"][s]; }
            a = n[i];
            b = n[j];
        }
        let (mut start, mut end) = (None, None);
        if k == 2 {
            let s = [ConnectionSite::Top, ConnectionSite::Bottom];
            if flag() { let i = choose(2); c = c.connect_start(7, s[i]); start = Some((7, [0, 2][i])); }
            if flag() { let i = choose(2); c = c.connect_end(9, s[i]); end = Some((9, [0, 2][i])); }
        }
        let mut label = None;
        if flag() { let t = xml_ascii(1); c = c.with_label(&t); label = Some(t); }
        let Some(d) = slide(&SlideContent::new("a title").add_connector(c).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 1, 1).with_id(7)).add_shape(Shape::new(ShapeType::Rectangle, 0, 0, 1, 1).with_id(9))) else { return };
        let x = d.all("p:cxnSp");
        if x.len() != 1 { fail("one connector"); return; }
        let Some(l) = line(&d, x[0]) else { fail("no line"); return };
        check(d.below(x[0], "a:prstGeom").first().and_then(|e| d.attr_str(*e, "prst")) == Some(["straightConnector1", "bentConnector3", "curvedConnector3"][ty]), "the kind of a connector");
        check(fill(&d, l).is_some_and(|f| same_str(&f.0, &up(&col))), "the colour of a connector");
        check(num(&d, l, "w") == Some(w as i64), "the width of a connector");
        check(d.kid(l, "a:prstDash").and_then(|e| d.attr_str(e, "val")).unwrap_or("solid") == dash, "the dashes of a connector");
        for (n, w) in [("a:headEnd", a), ("a:tailEnd", b)] {
            let e = d.kid(l, n);
            check(e.and_then(|e| d.attr_str(e, "type")).unwrap_or("none") == w, "an arrow of a connector");
            if w != "none" { if let Some(e) = e { check(d.attr_str(e, "w").unwrap_or("med") == sz && d.attr_str(e, "len").unwrap_or("med") == sz, "the size of an arrow"); } }
        }
        for (n, w) in [("a:stCxn", start), ("a:endCxn", end)] {
            let e = d.below(x[0], n).first().copied();
            check(e.and_then(|e| Some((num(&d, e, "id")?, num(&d, e, "idx")?))) == w, "the end of a connector");
        }
        let t: Vec<Vec<u8>> = d.all("a:t").into_iter().map(|e| d.text(e).to_vec()).filter(|t| t != b"a title").collect();
        match label { Some(s) => check(t.len() == 1 && same(&t[0], s.as_bytes()), "the label of a connector"), None => check(t.is_empty(), "a label nobody asked for") }
    }
    // ── Slides ───────────────────────────────────────────────────
    fn h_c27_transitions() {
        let i = choose(9);
        let t = [TransitionType::None, TransitionType::Fade, TransitionType::Cut, TransitionType::Push, TransitionType::Wipe, TransitionType::Split, TransitionType::Reveal, TransitionType::Cover, TransitionType::Zoom][i];
        let w = ["", "p:fade", "", "p:push", "p:wipe", "p:split", "p14:reveal", "p:cover", "p:zoom"][i];
        let c = SlideContent::new("t").layout(LAYOUTS[choose(7)]).with_transition(t).add_bullet("b");
        let s = vec![SlideContent::new("other"), c];
        let b = match choose(3) { 0 => eager("T", &s, None), 1 => lazy("T", s, None), _ => streamed("T", &s, None) };
        let Some(p) = crate::pkg::open(&b) else { fail("not a package"); return };
        for (k, w) in [(1, ""), (2, w)] {
            let Some(d) = p.doc(&format!("ppt/slides/slide{k}.xml")) else { fail("no slide"); return };
            let t = d.all("p:transition");
            let first = t.first().and_then(|e| d.nodes[*e].kids.first().copied());
            check(first.map(|e| d.nodes[e].name.as_str()).unwrap_or("") == w, "the transition of a slide");
        }
    }
    fn h_c27_show() {
        let mut s = SlideShowSettings::new();
        let (i, lp, nar, ani, tim) = (choose(3), flag(), flag(), flag(), flag());
        s = s.show_type([ShowType::Speaker, ShowType::Kiosk, ShowType::Browsed][i]).loop_continuously(lp).without_narration(nar).without_animation(ani).use_timings(tim);
        let mut range = None;
        if flag() { let (a, b) = [(1, 1), (2, 4000000000)][choose(2)]; s = s.slide_range(SlideRange::Range { start: a, end: b }); range = Some((a as i64, b as i64)); }
        let x = color();
        s = s.pen_color(PenColor::new(&x));
        let set = PresentationSettings::new().slide_show(s);
        let v = vec![SlideContent::new("a")];
        let b = if flag() { eager("T", &v, Some(set)) } else { lazy("T", v, Some(set)) };
        let Some(d) = crate::pkg::open(&b).and_then(|p| p.doc("ppt/presProps.xml")) else { fail("no properties"); return };
        let e = d.all("p:showPr");
        if e.len() != 1 { fail("one show"); return; }
        let is = |a: &str, default: bool| match d.attr_str(e[0], a) { Some(v) => v == "1" || v == "true", None => default };
        check(is("loop", false) == lp, "the loop of a show");
        check(is("showNarration", false) != nar, "the narration of a show");
        check(is("showAnimation", true) != ani, "the animation of a show");
        if tim { check(is("useTimings", true), "the timings of a show"); }
        check(["p:present", "p:kiosk", "p:browse"].iter().enumerate().all(|(k, n)| d.kid(e[0], n).is_some() == (k == i)), "the kind of a show");
        let r = d.kid(e[0], "p:sldRg").and_then(|e| Some((num(&d, e, "st")?, num(&d, e, "end")?)));
        check(r == range, "the slides of a show");
        let c = d.kid(e[0], "p:penClr").and_then(|e| d.kid(e, "a:srgbClr")).and_then(|e| d.attr_str(e, "val"));
        check(c.is_some_and(|c| same_str(&c.to_ascii_uppercase(), &up(&x))), "the pen of a show");
    }
}

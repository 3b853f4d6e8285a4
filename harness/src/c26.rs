//! C26: generated parts follow the schema.
use crate::deck::*;
use crate::pkg::*;
use crate::schema::*;
use crate::sx::*;
use crate::xml;
use ppt_rs::generator::images::ImageEffect;
use ppt_rs::generator::*;
use ppt_rs::parts::table as pt;

use ppt_rs::generator::ShapeType::*;
const SHAPES: [ShapeType; 125] = [Rectangle, RoundedRectangle, Ellipse, Circle, Triangle, RightTriangle, Diamond, Pentagon, Hexagon, Octagon, RightArrow, LeftArrow, UpArrow, DownArrow, LeftRightArrow, UpDownArrow, BentArrow, UTurnArrow, Star4, Star5, Star6, Star8, Ribbon, Wave, WedgeRectCallout, WedgeEllipseCallout, CloudCallout, FlowChartProcess, FlowChartDecision, FlowChartTerminator, FlowChartDocument, FlowChartPredefinedProcess, FlowChartInternalStorage, FlowChartData, FlowChartInputOutput, FlowChartManualInput, FlowChartManualOperation, FlowChartConnector, FlowChartOffPageConnector, FlowChartPunchedCard, FlowChartPunchedTape, FlowChartSummingJunction, FlowChartOr, FlowChartCollate, FlowChartSort, FlowChartExtract, FlowChartMerge, FlowChartOnlineStorage, FlowChartDelay, FlowChartMagneticTape, FlowChartMagneticDisk, FlowChartMagneticDrum, FlowChartDisplay, FlowChartPreparation, CurvedRightArrow, CurvedLeftArrow, CurvedUpArrow, CurvedDownArrow, CurvedLeftRightArrow, CurvedUpDownArrow, StripedRightArrow, NotchedRightArrow, PentagonArrow, ChevronArrow, RightArrowCallout, LeftArrowCallout, UpArrowCallout, DownArrowCallout, LeftRightArrowCallout, UpDownArrowCallout, QuadArrow, LeftRightUpArrow, CircularArrow, Parallelogram, Trapezoid, NonIsoscelesTrapezoid, IsoscelesTrapezoid, Cube, Can, Cone, Cylinder, Bevel, Donut, NoSmoking, BlockArc, FoldedCorner, SmileyFace, Arc, Chord, Pie, Teardrop, Plaque, MusicNote, PictureFrame, Star10, Star12, Star16, Star24, Star32, Seal, Seal4, Seal8, Seal16, Seal32, ActionButtonBlank, ActionButtonHome, ActionButtonHelp, ActionButtonInformation, ActionButtonForwardNext, ActionButtonBackPrevious, ActionButtonBeginning, ActionButtonEnd, ActionButtonReturn, ActionButtonDocument, ActionButtonSound, ActionButtonMovie, Heart, Lightning, Sun, Moon, Cloud, Brace, Bracket, Plus, Minus];

/// The slide as written, judged.
fn slide(c: &SlideContent) {
    let charts: Vec<String> = (0..c.charts.len()).map(|i| format!("rId{}", 20 + i)).collect();
    fragment(&slide_xml::create_slide_xml_with_content(1, c, &charts, if c.ink_annotations.is_some() { Some("rId9") } else { None }));
}
fn fragment(x: &str) {
    const NS: &str = "<w xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\">";
    let whole = if x.starts_with("<?xml") { x.to_string() } else { format!("{NS}{x}</w>") };
    match xml::parse(whole.as_bytes()) { Ok(d) => { valid(&d); } Err(_) => fail("the fragment is not well formed") }
}
/// A font size within the schema's range, one with each number of digits.
fn size() -> u32 { [1, 18, 200, 4000][choose(4)] }
/// A colour, with or without its #.
fn color() -> &'static str { ["#1a2B3c", "FFFFFF"][choose(2)] }
/// Sixteen bits, or a large value.
fn emu() -> u32 { if flag() { conc(u16() as u64 & 0x8007) as u32 } else { 12192000 } }
fn shape(t: ShapeType) -> Shape { Shape::new(t, 0, 0, 914400, 914400) }
fn dress(mut s: Shape) -> Shape {
    match choose(7) {
        1 => s = s.with_fill(ShapeFill::new(color())),
        2 => s = s.with_fill(ShapeFill::new("00FF00").with_transparency([0, 1, 100, 101, 4000000000][choose(5)])),
        3 => s = s.with_gradient(ShapeGradientFill::linear("#ffffff", "000000", [ShapeGradientDirection::Horizontal, ShapeGradientDirection::Vertical, ShapeGradientDirection::DiagonalDown, ShapeGradientDirection::DiagonalUp, ShapeGradientDirection::Angle(0), ShapeGradientDirection::Angle(359), ShapeGradientDirection::Angle(360), ShapeGradientDirection::Angle(100000)][choose(8)])),
        4 => s = s.with_gradient(ShapeGradientFill::three_color("FF0000", "00FF00", "0000FF", ShapeGradientDirection::Vertical).with_stop(ShapeGradientStop::new("#abcdef", [0, 7, 100, 101][choose(4)]).with_transparency([0, 30, 101][choose(3)]))),
        5 => s = s.with_line(ShapeLine::new(color(), [0, 12700, 20116800][choose(3)])),
        6 => s = s.with_fill(ShapeFill::new("00FF00")).with_line(ShapeLine::new("#ff0000", 12700)).with_rotation([-1, 45, 360, 725, i32::MIN, i32::MAX][choose(6)]),
        _ => {}
    }
    s
}

harnesses! {
    // ── Shapes ───────────────────────────────────────────────────
    fn h_c26_shape_kinds() { fragment(&generate_shape_xml(&shape(SHAPES[choose(SHAPES.len())]), 2)); }
    fn h_c26_shape_looks() { slide(&SlideContent::new("t").add_shape(dress(shape(Rectangle)))); }
    fn h_c26_shape_text() {
        let t = of_set(choose(n(4, 5) + 1), b"[]\n\r a");
        fragment(&generate_shape_xml(&shape(Rectangle).with_text(&t), 2));
    }
    fn h_c26_shape_place() {
        let k = choose(5);
        let at = |i: usize| if i == k { emu() } else { [7, 12192000, 0, 914400, u32::MAX][i] };
        let s = Shape::new(Ellipse, at(0), at(1), at(2), at(3)).with_text("some text");
        fragment(&generate_shape_xml(&s, at(4)));
    }
    fn h_c26_shape_link() {
        let a = [Hyperlink::url("http://a/?b=1&c=2"), Hyperlink::slide(2), Hyperlink::email("a@b"), Hyperlink::new(HyperlinkAction::FirstSlide), Hyperlink::new(HyperlinkAction::LastSlide), Hyperlink::new(HyperlinkAction::NextSlide), Hyperlink::new(HyperlinkAction::PreviousSlide), Hyperlink::new(HyperlinkAction::EndShow), Hyperlink::new(HyperlinkAction::file("a b.txt"))];
        let mut h = a[choose(a.len())].clone().with_highlight_click(flag());
        if flag() { h = h.with_tooltip("tip"); }
        if flag() { h = h.with_r_id("rId9"); }
        fragment(&generate_shape_xml(&shape(Rectangle).with_hyperlink(h.clone()), 2));
        fragment(&format!("<a:rPr>{}</a:rPr>", generate_text_hyperlink_xml(&h, "rId9")));
    }
    fn h_c26_gradients() {
        let t = [GradientType::Linear, GradientType::Radial, GradientType::Rectangular, GradientType::Path][choose(4)];
        let mut g = GradientFill::new(t).with_rotate(flag());
        for i in 0..choose(4) { g = g.add_stop(GradientStop::new([0, 50000, 4000000000][i], color())); }
        if flag() { g = g.with_direction([GradientDirection::Horizontal, GradientDirection::Vertical, GradientDirection::DiagonalDown, GradientDirection::DiagonalUp, GradientDirection::Custom(0), GradientDirection::Custom(359), GradientDirection::Custom(360), GradientDirection::Custom(100000)][choose(8)]); }
        if g.stops.len() < 2 { return; }
        fragment(&generate_gradient_fill_xml(&g.sorted()));
    }
    // ── Text ─────────────────────────────────────────────────────
    fn h_c26_title_looks() {
        let mut c = SlideContent::new("t").layout(LAYOUTS[choose(7)]).title_bold(flag()).title_italic(flag()).title_underline(flag()).content_bold(flag());
        if flag() { c = c.title_color(color()); }
        slide(&c.title_size(size()).add_bullet("a"));
    }
    fn h_c26_content_looks() {
        let mut c = SlideContent::new("t").layout(LAYOUTS[choose(7)]).content_italic(flag()).content_underline(flag()).content_size(size());
        if flag() { c = c.content_color(color()); }
        for _ in 0..choose(4) { c = c.add_bullet("a"); }
        slide(&c);
    }
    fn h_c26_bullet_styles() {
        let ch = ['*', '<', '"', '\u{1F600}'][choose(4)];
        let st = [BulletStyle::Bullet, BulletStyle::Number, BulletStyle::LetterLower, BulletStyle::LetterUpper, BulletStyle::RomanLower, BulletStyle::RomanUpper, BulletStyle::Custom(ch), BulletStyle::None][choose(8)].clone();
        let mut c = SlideContent::new("t").layout([SlideLayout::TitleAndContent, SlideLayout::TitleAndBigContent, SlideLayout::TwoColumn][choose(3)]);
        if flag() { c = c.with_bullet_style(st).add_bullet("a").add_sub_bullet("b"); }
        else { let l = [0, 1, 8, 9, 100, 200000, u32::MAX][choose(7)]; c.bullets.push(BulletPoint::new("a").with_style(st).with_level(l)); }
        slide(&c);
    }
    fn h_c26_bullet_looks() {
        let mut f = BulletTextFormat::new();
        if flag() { f = f.bold(); }
        if flag() { f = f.underline().italic(); }
        if flag() { f = f.strikethrough(); }
        match choose(3) { 1 => f = f.subscript(), 2 => f = f.superscript(), _ => {} }
        if flag() { f = f.color(color()); }
        if flag() { f = f.highlight(color()); }
        if flag() { f = f.font_size(size()); }
        if flag() { f = f.font_family("A \"B\""); }
        let mut c = SlideContent::new("t");
        c.bullets.push(BulletPoint::new("a").with_format(f));
        slide(&c);
    }
    fn h_c26_code() {
        let mut c = SlideContent::new("t");
        let t = of_set(choose(n(3, 4) + 1), b"f\n\r (");
        c.code_blocks.push(CodeBlock::new(&t, "rust"));
        slide(&c);
    }
    fn h_c26_frames() {
        let mut f = TextFrame::new().anchor([TextAnchor::Top, TextAnchor::Middle, TextAnchor::Bottom][choose(3)]);
        f.wrap = flag();
        for _ in 0..choose(3) {
            let mut p = Paragraph::new().align([TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Justify][choose(4)]);
            if flag() { p = p.bullet().level([0, 8, 9, u32::MAX][choose(4)]); }
            match choose(4) { 1 => p = p.spacing_before([0, 1584][choose(2)]), 2 => p = p.spacing_after(12), 3 => { p.line_spacing = Some(150000); p = p.spacing_after(1).spacing_before(2); } _ => {} }
            let mut r = Run::new("x");
            if f.paragraphs.is_empty() && flag() { r = r.bold().underline().color(color()).font("A & B").size(size()); }
            f = f.add_paragraph(p.add_run(r));
            if f.paragraphs.len() == 1 && !THOROUGH { break; }
        }
        fragment(&f.to_xml());
    }
    // ── Tables ───────────────────────────────────────────────────
    fn h_c26_tables() {
        let t = [String::new(), "a\nb".into(), of_set(2, b"a\n")][choose(3)].clone();
        let mut x = TableCell::new(&t);
        let k = choose(n(3, 4));
        if k == 0 || k == 3 {
            if flag() { x = x.bold(); }
            if flag() { x = x.italic().underline(); }
            if flag() { x = x.text_color(color()); }
            if flag() { x = x.font_family("A<").font_size(size()); }
        }
        if k == 1 || k == 3 {
            if flag() { x = x.background_color(color()); }
            match choose(4) { 1 => x = x.align([CellAlign::Left, CellAlign::Center, CellAlign::Right, CellAlign::Justify][choose(4)].clone()), 2 => x = x.valign([CellVAlign::Top, CellVAlign::Middle, CellVAlign::Bottom][choose(3)].clone()), 3 => x = x.wrap(false), _ => {} }
        }
        if k == 2 || k == 3 {
            match choose(5) { 1 => x = x.grid_span([1, 2][choose(2)]), 2 => x = x.row_span(2), 3 => x = x.h_merge(), 4 => x = x.v_merge(), _ => {} }
            if flag() { x = x.bold().background_color("00ff00"); }
        }
        slide(&SlideContent::new("t").table(TableBuilder::new(vec![1000, 2000]).add_row(TableRow::new(vec![x, TableCell::new("b")])).add_simple_row(vec!["c"]).build()));
    }
    fn h_c26_table_sizes() {
        let mut b = TableBuilder::new((0..choose(3)).map(|_| 914400).collect()).position(emu(), 5);
        for _ in 0..choose(3) { b = b.add_row(TableRow::new((0..choose(3)).map(|_| TableCell::new("")).collect()).with_height([0, 400000][choose(2)])); }
        slide(&SlideContent::new("t").layout(if THOROUGH { LAYOUTS[choose(7)] } else { SlideLayout::TitleOnly }).table(b.build()));
    }
    fn h_c26_table_parts() {
        let mut x = pt::TableCellPart::new("a");
        let k = choose(n(3, 4));
        if k == 0 || k == 3 {
            if flag() { x = x.bold().italic(); }
            if flag() { x = x.underline().strikethrough(); }
            if flag() { x = x.color(color()).font("A<").font_size(size()); }
        }
        if k == 1 || k == 3 {
            if flag() { x = x.background(color()); }
            match choose(4) { 1 => x = x.border(1.0, color()), 2 => x = x.borders(pt::CellBorders::none()), 3 => x = x.borders(pt::CellBorders::all(pt::CellBorder::new(0.5, "000000").style([pt::BorderStyle::Solid, pt::BorderStyle::Dashed, pt::BorderStyle::Dotted, pt::BorderStyle::Double, pt::BorderStyle::None][choose(5)]))), _ => {} }
        }
        match choose(5) { 1 => x = x.align([pt::HorizontalAlign::Left, pt::HorizontalAlign::Center, pt::HorizontalAlign::Right, pt::HorizontalAlign::Justify][choose(4)]), 2 => x = x.valign([pt::VerticalAlign::Top, pt::VerticalAlign::Middle, pt::VerticalAlign::Bottom][choose(3)]), 3 => x = x.margins(pt::CellMargins::uniform(100)), 4 => x = x.center(), _ => {} }
        if k >= 2 { match choose(4) { 1 => x = x.col_span(2), 2 => x = x.row_span(2), 3 => x = pt::TableCellPart::merged(), _ => {} } }
        let mut r = pt::TableRowPart::new(vec![x, pt::TableCellPart::merged()]);
        if flag() { r = r.height(5000); }
        let mut t = pt::TablePart::new().add_row(r);
        if flag() { t = t.position(1, 2).size(3, 4).col_widths(vec![5, 6]); }
        fragment(&t.to_slide_xml(7));
    }
    // ── Pictures, connectors and charts ──────────────────────────
    fn h_c26_pictures() {
        let mut i = image(9, ["png", "jpg", "gif"][choose(3)]);
        let e = [ImageEffect::Shadow, ImageEffect::Reflection, ImageEffect::Glow, ImageEffect::SoftEdges, ImageEffect::InnerShadow, ImageEffect::Blur];
        for _ in 0..choose(n(2, 3)) { i = i.with_effect(e[choose(6)].clone()); }
        if flag() { i = i.with_crop([0.0, 0.25, 1.5][choose(3)], 0.5, [-0.25, 0.1][choose(2)], 0.0); }
        if flag() { i = i.with_alt_text("a\"<\n"); }
        slide(&SlideContent::new("t").add_image(i));
    }
    fn h_c26_effect_list() {
        let e = [ImageEffect::Shadow, ImageEffect::Reflection, ImageEffect::Glow, ImageEffect::SoftEdges, ImageEffect::InnerShadow, ImageEffect::Blur];
        let mut v = vec![];
        for _ in 0..choose(n(4, 5)) { v.push(e[choose(6)].clone()); }
        fragment(&format!("<p:spPr>{}</p:spPr>", ppt_rs::generator::image_effects::generate_effect_list_xml(&v)));
    }
    fn h_c26_connectors() {
        let k = choose(4);
        let mut c = Connector::new([ConnectorType::Straight, ConnectorType::Elbow, ConnectorType::Curved][if THOROUGH || k == 0 { choose(3) } else { 1 }], [0, 12192000][choose(2)], 3, if THOROUGH || k == 0 { emu() } else { 4 }, 5);
        match k {
            1 => { let a = [ArrowType::None, ArrowType::Triangle, ArrowType::Stealth, ArrowType::Diamond, ArrowType::Oval, ArrowType::Open]; c = c.with_arrows(a[choose(6)], a[choose(6)]).with_arrow_size([ArrowSize::Small, ArrowSize::Medium, ArrowSize::Large][choose(3)]); }
            2 => { c = c.with_line(ConnectorLine::new(color(), [0, 12700, 20116800][choose(3)]).with_dash([LineDash::Solid, LineDash::Dash, LineDash::Dot, LineDash::DashDot, LineDash::DashDotDot, LineDash::LongDash, LineDash::LongDashDot][choose(7)])); }
            3 => {
                let s = [ConnectionSite::Top, ConnectionSite::Bottom, ConnectionSite::Left, ConnectionSite::Right, ConnectionSite::TopLeft, ConnectionSite::TopRight, ConnectionSite::BottomLeft, ConnectionSite::BottomRight, ConnectionSite::Center];
                if flag() { c = c.connect_start(7, s[choose(9)]); }
                if flag() { c = c.connect_end(u32::MAX, s[choose(9)]); }
            }
            _ => {}
        }
        if flag() { c = c.with_label("l & m"); }
        fragment(&generate_cxn_xml(&c, 5));
        
    }
    fn h_c26_connector_plain() { fragment(&generate_connector_xml(emu(), 1, 2, emu(), 9, color(), 100)); }
    fn h_c26_connector_slide() {
        let mut c = Connector::straight(0, 0, 10, 10);
        if flag() { c = c.with_label("l"); }
        slide(&SlideContent::new("t").layout(LAYOUTS[choose(7)]).add_connector(c).add_shape(shape(Rectangle).with_id(7)));
    }
    fn h_c26_charts() {
        let t = CHARTS[choose(21)].clone();
        let mut b = ChartBuilder::new(["", "c & d"][choose(2)], t);
        let k = choose(3);
        b = b.categories((0..k).map(|i| ["A", "B<"][i]).collect());
        for i in 0..1 + choose(3) { b = b.add_series(ChartSeries::new(["s", "t&", "u"][i], (0..k).map(|i| [1.5, -2e20][i]).collect())); }
        let c = b.build();
        fragment(&generate_chart_part_xml(&c));
        fragment(&generate_chart_ref_xml(&c, "rId7", 9));
    }
    // ── Slides and the presentation ──────────────────────────────
    fn h_c26_transitions() {
        let t = [TransitionType::None, TransitionType::Fade, TransitionType::Cut, TransitionType::Push, TransitionType::Wipe, TransitionType::Split, TransitionType::Reveal, TransitionType::Cover, TransitionType::Zoom][choose(9)];
        let mut c = SlideContent::new("t").layout(LAYOUTS[choose(7)]).with_transition(t);
        if flag() { c = c.with_ink(ink()); }
        slide(&c);
    }
    fn h_c26_show() {
        let mut s = SlideShowSettings::new().show_type([ShowType::Speaker, ShowType::Kiosk, ShowType::Browsed][choose(3)]).loop_continuously(flag()).without_narration(flag()).without_animation(flag()).use_timings(flag()).show_media_controls(flag());
        match choose(3) { 1 => s = s.slide_range(SlideRange::Range { start: 1, end: u32::MAX }), 2 => s = s.slide_range(SlideRange::Custom((1..=choose(4) as u32).collect())), _ => {} }
        if matches!(s.slide_range, SlideRange::Custom(_)) { known(5); }
        s = s.pen_color(PenColor::new(color()));
        fragment(&s.to_xml());
    }
    fn h_c26_print() {
        let mut s = PrintSettings::new().handout_layout([HandoutLayout::SlidesPerPage1, HandoutLayout::SlidesPerPage9][choose(2)]).print_date(flag()).print_page_numbers(flag());
        if flag() { s = s.header("h<"); }
        if flag() { s = s.footer("f&"); }
        fragment(&s.to_handout_master_xml());
    }
    fn h_c26_comments() {
        let mut l = CommentAuthorList::new();
        for i in 0..choose(3) { l.get_or_add(["a", "b<"][i], "x"); }
        fragment(&l.to_xml());
        let mut c = SlideComments::new();
        for _ in 0..choose(3) { c.add_comment(1, &xml_ascii(1), if THOROUGH { emu() } else { 5 }, 3); }
        fragment(&c.to_xml());
    }
    fn h_c26_media() {
        let o = if flag() { VideoOptions::auto_play().with_loop(flag()).with_muted(flag()).with_volume([0, 100, 200][choose(3)]) } else { VideoOptions::default() };
        let mut v = Video::new("a&.mp4", VideoFormat::Mp4, emu(), 1, 2, 3).with_options(o);
        if flag() { v = v.with_alt_text("x<"); }
        fragment(&generate_video_xml(&v, 4, "rId2", "rId3"));
    }
    fn h_c26_audio() {
        let mut a = Audio::new("a&.mp3", AudioFormat::Mp3, emu(), 1, 2, 3);
        if flag() { a = a.with_alt_text("x<"); }
        fragment(&generate_audio_xml(&a, 4, "rId2"));
    }
    /// All parts of a presentation.
    fn h_c26_package() {
        let k = choose(3);
        let mut s = SlideContent::new("t").layout(LAYOUTS[if k == 0 { choose(7) } else { 2 }]).add_bullet("b");
        if k == 1 || k == 0 && flag() { s = s.notes("n\nm"); }
        match if k == 1 { choose(5) } else { 0 } { 1 => s = s.add_chart(chart(ChartType::Bar)), 2 => s = s.table(table()), 3 => s = s.add_image(image(1, "png")), 4 => s = s.with_ink(ink()), _ => {} }
        let w = choose(3);
        let set = if k == 2 { settings(n(2, 3)) } else { None };
        let l = vec![s, SlideContent::new("u")];
        let b = match w { 0 => eager("T", &l, set), 1 => lazy("T", l, set), _ => streamed("T", &l, set) };
        match open(&b) { Some(p) => valid_package(&p), None => fail("not a package") }
    }
}

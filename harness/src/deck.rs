//! Builders of slides and settings that several properties share.
#![allow(dead_code)]
use crate::sx::*;
use ppt_rs::generator::*;

pub const LAYOUTS: [SlideLayout; 7] = [SlideLayout::TitleAndContent, SlideLayout::Blank, SlideLayout::TitleOnly, SlideLayout::CenteredTitle, SlideLayout::TitleAndBigContent, SlideLayout::TwoColumn, SlideLayout::SectionHeader];

pub const CHARTS: [ChartType; 21] = [ChartType::Bar, ChartType::BarHorizontal, ChartType::BarStacked, ChartType::BarStacked100, ChartType::Line, ChartType::LineMarkers, ChartType::LineStacked, ChartType::Pie, ChartType::Doughnut, ChartType::Area, ChartType::AreaStacked, ChartType::AreaStacked100, ChartType::Scatter, ChartType::ScatterLines, ChartType::ScatterSmooth, ChartType::Bubble, ChartType::Radar, ChartType::RadarFilled, ChartType::StockHLC, ChartType::StockOHLC, ChartType::Combo];

pub fn chart(t: ChartType) -> Chart {
    ChartBuilder::new("c", t).categories(vec!["A", "B"]).add_series(ChartSeries::new("s", vec![1.0, 2.0])).build()
}
pub fn ink() -> InkAnnotations {
    let mut a = InkAnnotations::new();
    a.add_stroke(InkStroke::new(InkPen::red()).add_point(1.0, 2.0).add_point(3.0, 4.0));
    a
}
/// An image of one byte in the given file format.
pub fn image(b: u8, fmt: &str) -> Image {
    let mut i = Image::from_bytes(vec![b], 100, 100, fmt);
    i.filename = format!("pic.{fmt}");
    i
}
pub fn lost_image() -> Image { Image::new("no-such-file.png", 100, 100, "PNG") }
pub fn table() -> Table { Table::from_data(vec![vec!["a", "b"], vec!["c", "d"]], vec![1000, 1000], 0, 0) }
pub fn fonts(n: usize) -> EmbeddedFontList {
    let mut l = EmbeddedFontList::new();
    for i in 0..n {
        let (f, s) = [("My Font", FontStyle::Regular), ("My Font", FontStyle::Bold), ("Other", FontStyle::BoldItalic), ("Third", FontStyle::Italic)][i];
        l.add(EmbeddedFont::new(f, s, vec![1, 2, 3], ""));
    }
    l
}
pub struct Lazy(pub Vec<SlideContent>);
impl LazySlideSource for Lazy {
    fn slide_count(&self) -> usize { self.0.len() }
    fn generate_slide(&self, i: usize) -> Option<SlideContent> { self.0.get(i).cloned() }
}
pub fn lazy(title: &str, s: Vec<SlideContent>, set: Option<PresentationSettings>) -> Vec<u8> {
    create_pptx_lazy_to_writer(std::io::Cursor::new(Vec::new()), title, Box::new(Lazy(s)), set).unwrap().into_inner()
}
pub fn eager(title: &str, s: &[SlideContent], set: Option<PresentationSettings>) -> Vec<u8> {
    create_pptx_with_settings(title, s, set).unwrap()
}
pub fn streamed(title: &str, s: &[SlideContent], set: Option<PresentationSettings>) -> Vec<u8> {
    create_pptx_with_content_to_writer(std::io::Cursor::new(Vec::new()), title, s, set).unwrap().into_inner()
}
/// Settings chosen by flags: handouts, signature, slide show, theme, 0 to `maxfonts` fonts.
pub fn settings(maxfonts: usize) -> Option<PresentationSettings> {
    let mut s = PresentationSettings::new();
    if flag() { s = s.print(PrintSettings::new().print_what(PrintWhat::Handouts)); }
    if flag() { s = s.digital_signature(DigitalSignature::new(SignerInfo::new("me"))); }
    if flag() { s = s.slide_show(SlideShowSettings::kiosk()); }
    if flag() { s = s.theme(PresentationTheme::corporate()); }
    let k = choose(maxfonts + 1);
    if k > 0 { s = s.embedded_fonts(fonts(k)); }
    Some(s)
}

//! C22: charts.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use crate::xml::{self, Doc};
use ppt_rs::generator::*;
use ppt_rs::parts::{ChartPart, Part};

const VALUES: [f64; 12] = [0.0, 1.0, -1.0, 0.1, -0.0, 1e300, 5e-324, 1.0 / 3.0, 123456789.125, -1e-9, f64::MAX, 1e21];
const LABELS: [&str; 6] = ["A", "", " x ", "&<>\"'", "é漢😀", "]]>"];

fn below(d: &Doc, top: usize, n: &str) -> Vec<usize> { d.below(top, n) }
fn eq(a: &[u8], b: &str) -> bool { a.len() == b.len() && same(a, b.as_bytes()) }
fn num(b: &[u8]) -> Option<f64> { std::str::from_utf8(b).ok()?.parse().ok() }
/// The points of a cache: the n-th has index n, and a count, if given, is theirs.
fn points(d: &Doc, top: usize) -> Vec<&[u8]> {
    let l = below(d, top, "c:pt");
    let mut out = Vec::new();
    for (i, p) in l.iter().enumerate() {
        check(d.attr_str(*p, "idx") == Some(&i.to_string()[..]), "the index of a point");
        match below(d, *p, "c:v").first() { Some(v) => out.push(d.text(*v)), None => fail("a point without a value") }
    }
    if let Some(c) = below(d, top, "c:ptCount").first() { check(d.attr_str(*c, "val") == Some(&l.len().to_string()[..]), "the number of points"); }
    out
}
/// The cells of `Sheet1!$B$2:$B$4` as column and rows.
fn cells(f: &[u8]) -> Option<(String, usize, usize)> {
    let s = std::str::from_utf8(f).ok()?.strip_prefix("Sheet1!$")?;
    let (a, b) = match s.split_once(':') { Some((a, b)) => (a, b.strip_prefix('$')?), None => (s, s) };
    let (c1, r1) = a.split_once('$')?;
    let (c2, r2) = b.split_once('$')?;
    if c1 != c2 { return None; }
    Some((c1.into(), r1.parse().ok()?, r2.parse().ok()?))
}
fn kinds(t: ChartType) -> &'static [&'static str] {
    match t {
        ChartType::Bar | ChartType::BarHorizontal | ChartType::BarStacked | ChartType::BarStacked100 => &["c:barChart"],
        ChartType::Line | ChartType::LineMarkers | ChartType::LineStacked => &["c:lineChart"],
        ChartType::Pie => &["c:pieChart"],
        ChartType::Doughnut => &["c:doughnutChart"],
        ChartType::Area | ChartType::AreaStacked | ChartType::AreaStacked100 => &["c:areaChart"],
        ChartType::Scatter | ChartType::ScatterLines | ChartType::ScatterSmooth => &["c:scatterChart"],
        ChartType::Bubble => &["c:bubbleChart"],
        ChartType::Radar | ChartType::RadarFilled => &["c:radarChart"],
        ChartType::StockHLC | ChartType::StockOHLC => &["c:stockChart"],
        ChartType::Combo => &["c:barChart", "c:lineChart"],
    }
}
const KINDS: [&str; 9] = ["c:barChart", "c:lineChart", "c:pieChart", "c:doughnutChart", "c:areaChart", "c:scatterChart", "c:bubbleChart", "c:radarChart", "c:stockChart"];
/// The kind of chart and its settings.
fn look(d: &Doc, t: ChartType) {
    for k in KINDS { check(kinds(t).contains(&k) || d.all(k).is_empty(), "a kind of chart that was not asked for"); }
    check(kinds(t).iter().any(|k| d.all(k).len() == 1), "the kind of chart");
    let val = |n: &str| d.all(n).first().and_then(|e| d.attr_str(*e, "val"));
    let (dir, group) = match t {
        ChartType::Bar => (Some("col"), Some("clustered")),
        ChartType::BarHorizontal => (Some("bar"), Some("clustered")),
        ChartType::BarStacked => (Some("col"), Some("stacked")),
        ChartType::BarStacked100 => (Some("col"), Some("percentStacked")),
        ChartType::Line | ChartType::LineMarkers | ChartType::Area => (None, Some("standard")),
        ChartType::LineStacked | ChartType::AreaStacked => (None, Some("stacked")),
        ChartType::AreaStacked100 => (None, Some("percentStacked")),
        _ => (None, None),
    };
    if let Some(x) = dir { check(val("c:barDir") == Some(x), "the direction of the bars"); }
    if let Some(x) = group { check(val("c:grouping") == Some(x), "the grouping"); }
    match t {
        ChartType::Scatter => check(val("c:scatterStyle") == Some("marker"), "the style"),
        ChartType::ScatterLines => check(val("c:scatterStyle") == Some("lineMarker"), "the style"),
        ChartType::ScatterSmooth => check(val("c:scatterStyle") == Some("smoothMarker"), "the style"),
        ChartType::Radar => check(val("c:radarStyle") == Some("marker"), "the style"),
        ChartType::RadarFilled => check(val("c:radarStyle") == Some("filled"), "the style"),
        _ => {}
    }
}
fn whole(d: &Doc, c: &Chart) {
    look(d, c.chart_type);
    let xy = matches!(c.chart_type, ChartType::Scatter | ChartType::ScatterLines | ChartType::ScatterSmooth | ChartType::Bubble);
    let one = matches!(c.chart_type, ChartType::Pie | ChartType::Doughnut);
    let n = if one { c.series.len().min(1) } else { c.series.len() };
    let sers = d.all("c:ser");
    check(sers.len() == n, "the number of series");
    let mut taken: Vec<(String, usize, usize)> = Vec::new();
    for (i, s) in sers.iter().enumerate() {
        if i >= n { break; }
        let w = &c.series[i];
        for a in ["c:idx", "c:order"] { check(below(d, *s, a).first().and_then(|e| d.attr_str(*e, "val")) == Some(&i.to_string()[..]), "the number of a series"); }
        let Some(tx) = below(d, *s, "c:tx").first().copied() else { fail("a series without a name"); return };
        let name = below(d, tx, "c:v").first().or(below(d, tx, "a:t").first()).copied();
        match name { Some(e) => check(eq(d.text(e), &w.name), "the name of a series"), None => fail("a series without a name") }
        let Some(v) = below(d, *s, if xy { "c:yVal" } else { "c:val" }).first().copied() else { fail("a series without values"); return };
        let p = points(d, v);
        check(p.len() == w.values.len(), "the number of values");
        for (x, y) in p.iter().zip(&w.values) { check(num(x).map(f64::to_bits) == Some(y.to_bits()), "a value"); }
        if let Some(x) = below(d, *s, "c:xVal").first() { check(points(d, *x).len() == w.values.len(), "as many places as values"); }
        if let Some(x) = below(d, *s, "c:bubbleSize").first() {
            let p = points(d, *x);
            check(p.len() == w.values.len(), "as many sizes as values");
            for (x, y) in p.iter().zip(&w.values) { check(num(x) == Some(y.abs()), "a size"); }
        }
        if !w.values.is_empty() {
            match below(d, v, "c:f").first().and_then(|e| cells(d.text(*e))) {
                Some(r) => {
                    check(r.2 + 1 == r.1 + w.values.len(), "as many cells as values");
                    for t in &taken { check(t.0 != r.0 || t.2 < r.1 || r.2 < t.1, "cells of two series"); }
                    taken.push(r);
                }
                None => fail("cells"),
            }
        }
    }
    if !xy && n > 0 {
        let cats: Vec<usize> = d.all("c:strCache").into_iter().filter(|e| !d.all("c:tx").iter().any(|t| d.within(*e, *t))).collect();
        check(!cats.is_empty(), "the categories");
        for e in cats {
            let p = points(d, e);
            check(p.len() == c.categories.len(), "the number of categories");
            for (x, y) in p.iter().zip(&c.categories) { check(eq(x, y), "a category"); }
        }
    }
    match d.all("c:title").first().and_then(|t| below(d, *t, "a:t").first().copied()) { Some(e) => check(eq(d.text(e), &c.title), "the title"), None => fail("no title") }
}
fn judge(c: &Chart) {
    match xml::parse(generate_chart_part_xml(c).as_bytes()) { Ok(d) => whole(&d, c), Err(_) => fail("not well formed") }
}

harnesses! {
    /// Every kind of chart with 0 to 3 series of 0 to 3 values and 0 to 3 categories.
    fn h_c22_shape() {
        let mut b = ChartBuilder::new("Chart", CHARTS[choose(21)]);
        let k = choose(4);
        b = b.categories(["A", "B", "C"][..k].to_vec());
        let m = choose(n(4, 5));
        for i in 0..m {
            let c = if i < 2 { choose(4) } else { 2 };
            b = b.add_series(ChartSeries::new(&format!("S{i}"), VALUES[1 + i..1 + i + c].to_vec()));
        }
        judge(&b.build());
    }
    /// Values and labels at their edges.
    fn h_c22_values() {
        let t = CHARTS[choose(21)];
        let (l, v) = if flag() { (LABELS[choose(6)], 1) } else { ("A", choose(12)) };
        let c = Chart::new(l, t, vec![l.to_string(), "B".into(), l.to_string()], 0, 0, 1, 1)
            .add_series(ChartSeries::new(l, vec![VALUES[v], 2.5, VALUES[v]]))
            .add_series(ChartSeries::new("z", vec![VALUES[11 - v]]));
        judge(&c);
    }
    /// Labels of any characters.
    fn h_c22_labels() {
        let t = CHARTS[choose(21)];
        let x = printable(n(2, 3));
        let k = choose(3);
        let pick = |i: usize| if i == k { x.clone() } else { "o".to_string() };
        let c = Chart::new(&pick(0), t, vec!["A".into(), pick(1)], 0, 0, 1, 1).add_series(ChartSeries::new(&pick(2), vec![1.0, 2.0]));
        judge(&c);
    }
    /// Many series and many values.
    fn h_c22_many() {
        let t = CHARTS[choose(21)];
        let (m, k) = [(1, 12), (12, 1), (30, 2), (60, 1)][choose(n(3, 4))];
        let mut c = Chart::new("T", t, (0..k).map(|i| format!("c{i}")).collect(), 0, 0, 1, 1);
        for i in 0..m { c = c.add_series(ChartSeries::new(&format!("s{i}"), (0..k).map(|j| (i * 10 + j) as f64 + 0.5).collect())); }
        judge(&c);
    }
    /// The charts of a deck are in its package, each behind its own frame with its place and size, by both writers; the chart part object says the same.
    fn h_c22_deck() {
        let k = 1 + choose(3);
        let t = CHARTS[choose(21)];
        let mk = |i: usize| {
            let mut c = Chart::new(&format!("T{i}"), if i == 0 { t } else { CHARTS[i] }, vec![format!("c{i}")], i as u32, 7, 100 + i as u32, 9);
            c = c.add_series(ChartSeries::new(&format!("s{i}"), vec![i as f64 + 0.5]));
            c
        };
        let charts: Vec<Chart> = (0..k).map(mk).collect();
        let split = choose(k + 1);
        let mut a = SlideContent::new("a");
        let mut b = SlideContent::new("b");
        for (i, c) in charts.iter().enumerate() { if i < split { a = a.add_chart(c.clone()); } else { b = b.add_chart(c.clone()); } }
        let v = vec![a, b];
        let w = if flag() { eager("T", &v, None) } else { lazy("T", v, None) };
        let Some(p) = open(&w) else { fail("not an archive"); return };
        let mut at = 0;
        for s in 1..=2 {
            let path = format!("ppt/slides/slide{s}.xml");
            let (Some(d), Some(r)) = (p.doc(&path), p.rels(&rels_of(&path))) else { fail("no slide"); return };
            for f in d.all("p:graphicFrame") {
                let Some(c) = d.below(f, "c:chart").first().copied() else { continue };
                let id = d.attr_str(c, "r:id").unwrap_or_default();
                let Some(rel) = r.iter().find(|r| r.id == id) else { fail("a chart without a relationship"); return };
                let part = resolve(&path, &rel.target).unwrap_or_default();
                match p.doc(&part) {
                    Some(d) => if at < k { whole(&d, &charts[at]) },
                    None => fail("a chart without a part"),
                }
                if at < k {
                    let (o, e) = (d.below(f, "a:off")[0], d.below(f, "a:ext")[0]);
                    check(d.attr_str(o, "x") == Some(&charts[at].x.to_string()[..]) && d.attr_str(o, "y") == Some("7"), "the place");
                    check(d.attr_str(e, "cx") == Some(&charts[at].width.to_string()[..]) && d.attr_str(e, "cy") == Some("9"), "the size");
                    check((at < split) == (s == 1), "the slide");
                }
                at += 1;
            }
        }
        check(at == k, "every chart is on its slide");
        match ChartPart::from_chart(1, charts[0].clone()).to_xml() {
            Ok(x) => match xml::parse(x.as_bytes()) { Ok(d) => whole(&d, &charts[0]), Err(_) => fail("not well formed") },
            Err(_) => fail("no XML"),
        }
    }
}

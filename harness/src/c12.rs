//! C12: table merges.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::generator::*;

#[derive(Clone, Copy)]
struct R { r: usize, c: usize, h: usize, w: usize }
fn inside(a: &R, rows: usize, cols: usize) -> bool {
    (a.h >= 1) & (a.w >= 1) & (a.r < rows) & (a.h <= rows.wrapping_sub(a.r)) & (a.c < cols) & (a.w <= cols.wrapping_sub(a.c))
}
/// [p, p + n) ends at or before q.
fn before(p: usize, n: usize, q: usize) -> bool { (q >= p) & (q.wrapping_sub(p) >= n) }
fn apart(a: &R, b: &R) -> bool {
    before(a.r, a.h, b.r) | before(b.r, b.h, a.r) | before(a.c, a.w, b.c) | before(b.c, b.w, a.c)
}
fn has(a: &R, r: usize, c: usize) -> bool {
    (r >= a.r) & (c >= a.c) & (r.wrapping_sub(a.r) < a.h) & (c.wrapping_sub(a.c) < a.w)
}
/// The region ends within 64 bits.
fn fits(a: &R) -> bool { (a.h - 1 <= usize::MAX - a.r) & (a.w - 1 <= usize::MAX - a.c) }
/// `k` merge requests with any numbers on a table of any size; then any cell.
fn history(k: usize, num: fn() -> usize) {
    let (rows, cols) = (num(), num());
    let mut m = TableMergeMap::new(rows, cols);
    let mut model: Vec<R> = Vec::new();
    for _ in 0..k {
        let a = R { r: num(), c: num(), h: num(), w: num() };
        let want = model.iter().fold(inside(&a, rows, cols), |x, b| x & apart(&a, b));
        let got = m.merge_cells(a.r, a.c, a.h, a.w).is_ok();
        check(got == want, "accepted exactly when inside and disjoint");
        if got != want { return; }
        if want { model.push(a); }
        check(m.len() == model.len() && m.regions().len() == model.len() && m.is_empty() == model.is_empty(), "as many regions as accepted");
        check(m.dimensions() == (rows, cols), "the table keeps its size");
        for (x, y) in m.regions().iter().zip(&model) { check((x.row == y.r) & (x.col == y.c) & (x.row_span == y.h) & (x.col_span == y.w), "a region is what was asked"); }
    }
    if model.is_empty() { return; }
    let (r, c) = (num(), num());
    assume((r < rows) & (c < cols));
    let s = m.cell_state(r, c);
    let any = |f: &dyn Fn(&R) -> bool| model.iter().fold(false, |x, a| x | f(a));
    let cover = model.iter().fold(0u8, |x, a| x + has(a, r, c) as u8);
    match s {
        CellMergeState::Normal => check(cover == 0, "a normal cell is in no region"),
        CellMergeState::Anchor { row_span, col_span } => check((cover == 1) & any(&|a| (a.r == r) & (a.c == c) & (a.h == row_span) & (a.w == col_span)), "the anchor carries the spans"),
        CellMergeState::HMerge => check((cover == 1) & any(&|a| (a.r == r) & (a.c < c) & has(a, r, c)), "covered beside the anchor"),
        CellMergeState::VMerge => check((cover == 1) & any(&|a| (a.r < r) & has(a, r, c)), "covered below the anchor"),
    }
}
fn big() -> usize { u64() as usize }
fn edge() -> usize { [0, 1, 2, 1 << 63, usize::MAX - 1, usize::MAX][choose(6)] }
fn small() -> usize { let x = byte(); assume(x < n(4, 7) as u8); x as usize }
/// A cell in a given merge state.
fn cell(s: &CellMergeState, t: &str) -> TableCell {
    let c = TableCell::new(t);
    match s {
        CellMergeState::Normal => c,
        CellMergeState::Anchor { row_span, col_span } => {
            let c = if *row_span > 1 || flag() { c.row_span(*row_span as u32) } else { c };
            if *col_span > 1 || flag() { c.with_col_span(*col_span as u32) } else { c }
        }
        CellMergeState::HMerge => c.h_merge(),
        CellMergeState::VMerge => c.with_v_merge(),
    }
}

harnesses! {
    /// One region with any numbers.
    fn h_c12_region() {
        let a = R { r: big(), c: big(), h: big(), w: big() };
        match MergeRegion::new(a.r, a.c, a.h, a.w) {
            Err(_) => check((a.h == 0) | (a.w == 0), "only empty regions are refused"),
            Ok(x) => {
                check((a.h > 0) & (a.w > 0), "empty regions are refused");
                let (r, c) = (big(), big());
                assume(fits(&a));
                check(x.contains(r, c) == has(&a, r, c), "contains");
                check(x.is_anchor(r, c) == ((r == a.r) & (c == a.c)), "anchor");
                check((x.last_row().wrapping_sub(a.r) == a.h - 1) & (x.last_col().wrapping_sub(a.c) == a.w - 1), "last row and column");
            }
        }
    }
    /// Overlap of any two regions, both ways.
    fn h_c12_overlap() {
        let num = || u16() as usize;
        let a = R { r: num(), c: num(), h: num(), w: num() };
        let b = R { r: num(), c: num(), h: num(), w: num() };
        assume((a.h > 0) & (a.w > 0) & (b.h > 0) & (b.w > 0));
        assume(fits(&a) & fits(&b));
        let (x, y) = (MergeRegion::new(a.r, a.c, a.h, a.w).unwrap(), MergeRegion::new(b.r, b.c, b.h, b.w).unwrap());
        let o = x.overlaps(&y);
        check(o == !apart(&a, &b), "overlap means a common cell");
        check(o == y.overlaps(&x), "overlap is symmetric");
    }
    /// One request with numbers at the edges of 64 bits.
    fn h_c12_history() { history(1, edge) }
    /// Longer histories on tables of up to 7 by 7.
    fn h_c12_small() { history(n(3, 4), small); }
    /// The table XML of every merged table up to 3 by 3 with up to two merges.
    fn h_c12_xml() {
        let (h, w) = (1 + choose(3), 1 + choose(3));
        let mut m = TableMergeMap::new(h, w);
        for _ in 0..choose(3) {
            let (r, c) = (choose(h), choose(w));
            if m.merge_cells(r, c, 1 + choose(h - r), 1 + choose(w - c)).is_err() { return; }
        }
        let mut tb = TableBuilder::new((0..w).map(|i| 1000 + i as u32).collect()).position(11, 22);
        let tall = flag();
        for r in 0..h {
            let row = TableRow::new((0..w).map(|c| cell(&m.cell_state(r, c), &format!("{r}{c}"))).collect());
            tb = tb.add_row(if tall { row.with_height(77 + r as u32) } else { row });
        }
        let t = tb.build();
        check(t.row_count() == h && t.column_count() == w, "the size of the table");
        let b = eager("T", &[SlideContent::new("t").table(t)], None);
        let Some(p) = open(&b) else { fail("not an archive"); return };
        let Some(d) = p.doc("ppt/slides/slide1.xml") else { fail("not well formed"); return };
        let g = d.all("a:gridCol");
        check(g.len() == w, "one grid column per column");
        for (i, x) in g.iter().enumerate() { check(d.attr_str(*x, "w") == Some(&format!("{}", 1000 + i)), "the width of a column"); }
        let rows = d.all("a:tr");
        check(rows.len() == h, "one row per row");
        for (r, x) in rows.iter().enumerate() {
            check(d.attr_str(*x, "h") == Some(&format!("{}", if tall { 77 + r } else { 400000 })), "the height of a row");
            let cells = d.kids(*x, "a:tc");
            check(cells.len() == w, "one cell per grid position");
            for (c, y) in cells.iter().enumerate() {
                let at = |n: &str| d.attr_str(*y, n).map(|s| s.to_string());
                let span = |n: &str| at(n).map(|s| s.parse::<usize>().unwrap_or(0)).unwrap_or(1);
                let (hm, vm) = (at("hMerge").as_deref() == Some("1"), at("vMerge").as_deref() == Some("1"));
                match m.cell_state(r, c) {
                    CellMergeState::Normal => check(span("gridSpan") == 1 && span("rowSpan") == 1 && !hm && !vm, "a normal cell"),
                    CellMergeState::Anchor { row_span, col_span } => check(span("gridSpan") == col_span && span("rowSpan") == row_span && !hm && !vm, "an anchor"),
                    CellMergeState::HMerge => check(hm && span("gridSpan") == 1, "a cell beside the anchor"),
                    CellMergeState::VMerge => check(vm && span("rowSpan") == 1, "a cell below the anchor"),
                }
                let gone = m.cell_state(r, c).is_merged_away();
                let texts: Vec<usize> = d.below(*y, "a:t");
                check(texts.len() == if gone { 0 } else { 1 }, "covered cells show nothing, others their text");
                if !gone { for t in texts { check(d.nodes[t].text == format!("{r}{c}").as_bytes(), "the text of the cell"); } }
            }
        }
    }
    /// Ragged rows are filled up to the grid; the frame has the size of the columns and rows.
    fn h_c12_grid() {
        let w = 1 + choose(3);
        let widths: Vec<u32> = (0..w).map(|_| if flag() { u32() } else { 5 }).collect();
        let k = choose(w + 1);
        let x = u32();
        let t = Table::new(vec![TableRow::new(vec![TableCell::new("c"); k]).with_height(x), TableRow::new(vec![TableCell::new("d"); w])], widths.clone(), 1, 2);
        let sum: u64 = widths.iter().map(|w| *w as u64).sum();
        check(t.width() as u64 == if sum > u32::MAX as u64 { u32::MAX as u64 } else { sum }, "the width is the sum of the columns");
        let hs = x as u64 + 400000;
        check(t.height() as u64 == if hs > u32::MAX as u64 { u32::MAX as u64 } else { hs }, "the height is the sum of the rows");
        let mut v = t;
        v.column_widths = vec![7; w];
        v.rows[0].height = None;
        let Some(p) = open(&eager("T", &[SlideContent::new("t").table(v)], None)) else { fail("not an archive"); return };
        let Some(d) = p.doc("ppt/slides/slide1.xml") else { fail("not well formed"); return };
        for r in d.all("a:tr") { check(d.kids(r, "a:tc").len() == w, "one cell per grid position"); }
    }
}

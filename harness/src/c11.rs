//! C11: lengths and EMU.
use crate::sx::*;
use ppt_rs::core::{Dimension, FlexPosition, FlexSize};
use ppt_rs::elements::{Position, Size, Transform};
use ppt_rs::generator::{Shape, ShapeType};

const W: u32 = 9144000;
const H: u32 = 6858000;

/// A length of `k/1024` for a symbolic signed k, and k.
fn length(bits: u32) -> (f64, i64) {
    let k = u32() as i32;
    assume(k > -(1 << bits) && k < (1 << bits));
    (k as f64 / 1024.0, k as i64)
}
/// A ratio of `k/1024`, every k of eight blocks of 256 around and inside the unit interval.
fn ratio() -> (f64, i64) {
    let k = [-2048i64, -256, 0, 256, 512, 768, 1024, 4096][choose(8)] + byte() as i64;
    (k as f64 / 1024.0, k)
}
/// `k/1024` units of `per` EMU each, truncated, saturated to u32.
fn emu(k: i64, per: i64) -> u32 {
    if k <= 0 { return 0; }
    let v = (k * per) >> 10;
    if v > u32::MAX as i64 { u32::MAX } else { v as u32 }
}
fn near(a: u32, b: u32) -> bool { (a as i64 - b as i64 <= 1) & (b as i64 - a as i64 <= 1) }
fn near64(a: i64, b: i64) -> bool { (a - b <= 1) & (b - a <= 1) }
const ODD: [f64; 8] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 5e-324, -0.0, 4294967296.0];
fn odd_want(i: usize) -> u32 { if i == 1 || i == 3 || i == 7 { u32::MAX } else { 0 } }

harnesses! {
    fn h_c11_dimension_inches() {
        let (v, k) = length(n(24, 30) as u32);
        let r = u32();
        check(near(Dimension::Inches(v).to_emu(r), emu(k, 914400)), "inches");
        check(near(Dimension::inches(v).to_emu_x(), emu(k, 914400)), "inches on x");
        check(near(Dimension::inches(v).to_emu_y(), emu(k, 914400)), "inches on y");
        reach(1);
    }
    fn h_c11_dimension_cm() {
        let (v, k) = length(n(24, 30) as u32);
        let r = u32();
        check(near(Dimension::Cm(v).to_emu(r), emu(k, 360000)), "centimetres");
        check(near(Dimension::cm(v).to_emu_x(), emu(k, 360000)) & near(Dimension::cm(v).to_emu_y(), emu(k, 360000)), "centimetres on the slide");
        reach(1);
    }
    fn h_c11_dimension_pt() {
        let (v, k) = length(n(24, 30) as u32);
        let r = u32();
        check(near(Dimension::Pt(v).to_emu(r), emu(k, 12700)), "points");
        check(near(Dimension::pt(v).to_emu_x(), emu(k, 12700)) & near(Dimension::pt(v).to_emu_y(), emu(k, 12700)), "points on the slide");
        reach(1);
    }
    fn h_c11_dimension_emu() {
        let (e, r) = (u32(), u32());
        check(Dimension::Emu(e).to_emu(r) == e && Dimension::emu(e).to_emu_x() == e && Dimension::from(e).to_emu_y() == e, "EMU pass through");
        reach(1);
    }
    /// A ratio k/1024 of a symbolic reference extent.
    fn h_c11_dimension_ratio() {
        let (v, k) = ratio();
        let r = u32() & 0x00ff_ffff;
        let kk = if k < 0 { 0 } else if k > 1024 { 1024 } else { k };
        check(near(Dimension::Ratio(v).to_emu(W), ((kk * W as i64) >> 10) as u32), "ratio of the width");
        check(near(Dimension::ratio(v).to_emu_x(), ((kk * W as i64) >> 10) as u32), "ratio on x");
        check(near(Dimension::ratio(v).to_emu_y(), ((kk * H as i64) >> 10) as u32), "ratio on y");
        let q = [0i64, 1, 256, 512, 768, 1023, 1024, 2048, -5][choose(9)];
        let qq = if q < 0 { 0 } else if q > 1024 { 1024 } else { q };
        check(near(Dimension::Ratio(q as f64 / 1024.0).to_emu(r), ((qq * r as i64) >> 10) as u32), "ratio of any extent");
        reach(1);
    }
    fn h_c11_dimension_percent() {
        let p = byte();
        let e = if p > 100 { 100 } else { p } as i64;
        let x = Dimension::percent(p as f64).to_emu_x();
        let y = Dimension::percent(p as f64).to_emu_y();
        check(near(x, (e * W as i64 / 100) as u32), "percentage of the width");
        check(near(y, (e * H as i64 / 100) as u32), "percentage of the height");
        check(x <= W && y <= H, "a percentage stays inside the slide");
        reach(1);
    }
    /// A longer length never converts to fewer EMU.
    fn h_c11_monotone() {
        let (a, ka) = length(n(10, 14) as u32);
        let (b, kb) = length(n(10, 14) as u32);
        assume(ka <= kb);
        match choose(4) {
            0 => check(Dimension::Inches(a).to_emu(0) <= Dimension::Inches(b).to_emu(0), "inches are monotone"),
            1 => check(Dimension::Cm(a).to_emu(0) <= Dimension::Cm(b).to_emu(0), "centimetres are monotone"),
            2 => check(Dimension::Pt(a).to_emu(0) <= Dimension::Pt(b).to_emu(0), "points are monotone"),
            _ => {
                let ((a, ka), (b, kb)) = (ratio(), ratio());
                assume(ka <= kb);
                check(Dimension::Ratio(a).to_emu(W) <= Dimension::Ratio(b).to_emu(W), "ratios are monotone")
            }
        }
        reach(1);
    }
    /// Not-a-number, infinities and values beyond the range saturate.
    fn h_c11_saturate() {
        let i = choose(8);
        let v = ODD[i];
        let w = odd_want(i);
        check(Dimension::Inches(v).to_emu(1) == w && Dimension::Cm(v).to_emu(1) == w && Dimension::Pt(v).to_emu(1) == w, "odd lengths saturate");
        check(ppt_rs::prelude::inches(v) == w && ppt_rs::prelude::cm(v) == w && ppt_rs::prelude::pt(v) == w, "odd lengths saturate in the prelude");
        check(ppt_rs::generator::inches_to_emu(v) == w && ppt_rs::generator::cm_to_emu(v) == w, "odd lengths saturate in the generator");
        check(Dimension::Ratio(v).to_emu(W) == if w > 0 { W } else { 0 }, "odd ratios are clamped");
        check(Dimension::percent(v).to_emu_y() == if w > 0 { H } else { 0 }, "odd percentages are clamped");
        let p = Position::from_inches(v, v);
        let q = Size::from_cm(v, v);
        let e = if i == 1 || i == 3 { i64::MAX } else if i == 2 || i == 4 { i64::MIN } else if i == 7 { p.x } else { 0 };
        check(p.x == e && p.y == e, "odd positions saturate");
        check(i == 7 || (q.width == e && q.height == e), "odd sizes saturate");
        let t = Transform::from_inches(0.0, 0.0, 0.0, 0.0).with_rotation(v).rotation;
        check(t == (if i == 1 || i == 3 || i == 7 { i32::MAX } else if i == 2 || i == 4 { i32::MIN } else { 0 }), "odd rotations saturate");
        reach(1);
    }
    fn h_c11_prelude() {
        let (v, k) = length(n(24, 30) as u32);
        check(near(ppt_rs::prelude::inches(v), emu(k, 914400)), "prelude inches");
        check(near(ppt_rs::prelude::cm(v), emu(k, 360000)), "prelude centimetres");
        check(near(ppt_rs::prelude::pt(v), emu(k, 12700)), "prelude points");
        check(near(ppt_rs::generator::inches_to_emu(v), emu(k, 914400)), "generator inches");
        check(near(ppt_rs::generator::cm_to_emu(v), emu(k, 360000)), "generator centimetres");
        reach(1);
    }
    fn h_c11_position() {
        let (v, k) = length(n(12, 18) as u32);
        let (w, j) = length(n(10, 16) as u32);
        let tr = |k: i64, per: i64| if k < 0 { -((-k * per) >> 10) } else { (k * per) >> 10 };
        let p = Position::from_inches(v, w);
        check(near64(p.x, tr(k, 914400)) & near64(p.y, tr(j, 914400)), "positions in inches");
        let p = Position::from_cm(v, w);
        check(near64(p.x, tr(k, 360000)) & near64(p.y, tr(j, 360000)), "positions in centimetres");
        let s = Size::from_inches(v, w);
        check(near64(s.width, tr(k, 914400)) & near64(s.height, tr(j, 914400)), "sizes in inches");
        let s = Size::from_cm(v, w);
        check(near64(s.width, tr(k, 360000)) & near64(s.height, tr(j, 360000)), "sizes in centimetres");
        let t = Transform::from_inches(v, w, w, v);
        check(t.position == Position::from_inches(v, w) && t.size == Size::from_inches(w, v), "transforms in inches");
        reach(1);
    }
    fn h_c11_rotation() {
        let (v, k) = length(20);
        let r = Transform::from_inches(0.0, 0.0, 1.0, 1.0).with_rotation(v).rotation as i64;
        let e = if k < 0 { -((-k * 60000) >> 10) } else { (k * 60000) >> 10 };
        check(near64(r, e), "rotation in sixty-thousandths of a degree");
        reach(1);
    }
    /// Every way to give a shape or an image a place converts each coordinate with its own axis.
    fn h_c11_shape_axes() {
        let k = [u32() & 0x3ff, u32() & 0x3ff, u32() & 0x3ff, u32() & 0x3ff];
        let r = |i: usize| Dimension::Ratio(k[i] as f64 / 1024.0);
        let on = |i: usize, ext: u32| ((k[i] as u64 * ext as u64) >> 10) as u32;
        let ok = |x: u32, y: u32| near(x, on(0, W)) & near(y, on(1, H));
        let okz = |w: u32, h: u32| near(w, on(2, W)) & near(h, on(3, H));
        let s = Shape::from_dimensions(ShapeType::Rectangle, r(0), r(1), r(2), r(3));
        check(ok(s.x, s.y) & okz(s.width, s.height), "Shape::from_dimensions");
        let s = Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).at(r(0), r(1)).with_dimensions(r(2), r(3));
        check(ok(s.x, s.y) & okz(s.width, s.height), "Shape::at and with_dimensions");
        let s = ppt_rs::prelude::shapes::dim(ShapeType::Ellipse, r(0), r(1), r(2), r(3));
        check(ok(s.x, s.y) & okz(s.width, s.height), "prelude shapes::dim");
        let f = |i: usize| k[i] as f64 / 1024.0;
        let s = ppt_rs::prelude::shapes::rect_ratio(f(0), f(1), f(2), f(3));
        check(ok(s.x, s.y) & okz(s.width, s.height), "prelude shapes::rect_ratio");
        let s = ppt_rs::prelude::shapes::text_box_ratio(f(0), f(1), f(2), f(3), "t");
        check(ok(s.x, s.y) & okz(s.width, s.height), "prelude shapes::text_box_ratio");
        let i = ppt_rs::generator::Image::new("a.png", 5, 6, "PNG").at(r(0), r(1)).with_dimensions(r(2), r(3));
        check(ok(i.x, i.y) & okz(i.width, i.height), "Image::at and with_dimensions");
        let p = FlexPosition::new(r(0), r(1)).to_emu();
        let z = FlexSize::new(r(2), r(3)).to_emu();
        check(ok(p.0, p.1) & okz(z.0, z.1), "FlexPosition and FlexSize");
        let p = FlexPosition::new(r(0), r(1)).to_emu_with(H, W);
        let z = FlexSize::new(r(2), r(3)).to_emu_with(H, W);
        check(near(p.0, on(0, H)) & near(p.1, on(1, W)) & near(z.0, on(2, H)) & near(z.1, on(3, W)), "custom slide extents");
        reach(1);
    }
    /// Helper shapes in inches.
    fn h_c11_helper_shapes() {
        use ppt_rs::helpers as h;
        use ppt_rs::prelude::shapes as p;
        let m = n(0xfff, 0xffff) as u32;
        let k = [u32() & m, u32() & m, u32() & m, u32() & m];
        let f = |i: usize| k[i] as f64 / 1024.0;
        let e = |i: usize| emu(k[i] as i64, 914400);
        let ok = |s: &Shape, sq: bool| near(s.x, e(0)) & near(s.y, e(1)) & near(s.width, e(2)) & near(s.height, e(if sq { 2 } else { 3 }));
        let c = choose(28);
        let (s, sq) = match c {
            0 => (h::rect(f(0), f(1), f(2), f(3)), false),
            1 => (h::circle(f(0), f(1), f(2)), true),
            2 => (h::ellipse(f(0), f(1), f(2), f(3)), false),
            3 => (h::rounded_rect(f(0), f(1), f(2), f(3)), false),
            4 => (h::triangle(f(0), f(1), f(2), f(3)), false),
            5 => (h::diamond(f(0), f(1), f(2), f(3)), false),
            6 => (p::rect(f(0), f(1), f(2), f(3)), false),
            7 => (p::circle(f(0), f(1), f(2)), true),
            8 => (p::rounded_rect(f(0), f(1), f(2), f(3)), false),
            9 => (p::text_box(f(0), f(1), f(2), f(3), "t"), false),
            10 => (p::arrow_right(f(0), f(1), f(2), f(3)), false),
            11 => (p::arrow_left(f(0), f(1), f(2), f(3)), false),
            12 => (p::arrow_up(f(0), f(1), f(2), f(3)), false),
            13 => (p::arrow_down(f(0), f(1), f(2), f(3)), false),
            14 => (p::diamond(f(0), f(1), f(2)), true),
            15 => (p::triangle(f(0), f(1), f(2), f(3)), false),
            16 => (p::star(f(0), f(1), f(2)), true),
            17 => (p::heart(f(0), f(1), f(2)), true),
            18 => (p::cloud(f(0), f(1), f(2), f(3)), false),
            19 => (p::callout(f(0), f(1), f(2), f(3), "t"), false),
            20 => (p::process(f(0), f(1), f(2), f(3), "t"), false),
            21 => (p::decision(f(0), f(1), f(2), "t"), true),
            22 => (p::document(f(0), f(1), f(2), f(3), "t"), false),
            23 => (p::data(f(0), f(1), f(2), f(3), "t"), false),
            24 => (p::terminator(f(0), f(1), f(2), f(3), "t"), false),
            25 => {
                let b = p::badge(f(0), f(1), "t", "FF0000");
                check(near(b.x, e(0)) & near(b.y, e(1)) & (b.width == 1371600) & (b.height == 365760), "badge");
                reach(2);
                return;
            }
            26 => {
                let (x, y, w, h) = (u32(), u32(), u32(), u32());
                let s = p::rect_emu(x, y, w, h);
                check((s.x == x) & (s.y == y) & (s.width == w) & (s.height == h), "rect_emu");
                reach(3);
                return;
            }
            _ => {
                let (x, y, w) = (u32(), u32(), u32());
                let s = p::circle_emu(x, y, w);
                check((s.x == x) & (s.y == y) & (s.width == w) & (s.height == w), "circle_emu");
                reach(4);
                return;
            }
        };
        check(ok(&s, sq), "a helper shape has the place and size it was given");
        reach(1);
    }
    fn h_c11_tables_inches() {
        let k = [u32() & 0xfffff, u32() & 0xfffff];
        let f = |i: usize| k[i] as f64 / 1024.0;
        let t = ppt_rs::helpers::table_with_widths(&[f(0), f(1)]).build();
        check(t.column_widths.len() == 2 && near(t.column_widths[0], emu(k[0] as i64, 914400)) && near(t.column_widths[1], emu(k[1] as i64, 914400)), "table_with_widths");
        let t = ppt_rs::helpers::QuickTable::with_widths(&[f(1)]).at(f(0), f(1)).build();
        check(near(t.column_widths[0], emu(k[1] as i64, 914400)) && near(t.x, emu(k[0] as i64, 914400)) && near(t.y, emu(k[1] as i64, 914400)), "QuickTable in inches");
        reach(1);
    }
    /// Equal columns fill the slide width, without a division by zero.
    fn h_c11_tables_equal() {
        let c = choose(n(7, 13));
        let r = choose(3);
        let heads: Vec<&str> = (0..c).map(|_| "h").collect();
        let data: Vec<Vec<&str>> = (0..r).map(|_| heads.clone()).collect();
        let t = match choose(4) {
            0 => ppt_rs::helpers::simple_table(r, c).build(),
            1 => ppt_rs::helpers::table_with_header(&heads, r).build(),
            2 => ppt_rs::helpers::QuickTable::new(c).build(),
            _ => {
                if r == 0 { let t = ppt_rs::helpers::table_from_data(&[], None).build(); check(t.rows.is_empty(), "no data gives no rows"); reach(2); return; }
                ppt_rs::helpers::table_from_data(&data, None).build()
            }
        };
        check(t.column_widths.len() == c, "one width per column");
        let mut sum = 0u64;
        for w in &t.column_widths { check(*w == t.column_widths[0], "columns are equal"); sum += *w as u64; }
        check(c == 0 || (sum <= W as u64 && sum + c as u64 > W as u64), "columns fill the slide width");
        reach(1);
    }
    fn h_c11_stroke_and_fonts() {
        use ppt_rs::helpers::ShapeExt;
        let (v, k) = length(20);
        let s = ppt_rs::helpers::rect(1.0, 1.0, 1.0, 1.0).stroke(ppt_rs::helpers::rgb(1, 2, 3), v);
        check(near(s.line.unwrap().width, emu(k, 12700)), "stroke width in points");
        let p = u32();
        let e = p as u64 * 100;
        check(ppt_rs::prelude::font_sizes::to_emu(p) as u64 == if e > u32::MAX as u64 { u32::MAX as u64 } else { e }, "hundredths of a point");
        reach(1);
    }
    /// EMU to inches and back loses at most one EMU.
    fn h_c11_emu_inches() {
        let base = [0u32, 1000, 914400, 9144000, 123_456_789, 4_294_967_000][choose(6)];
        let e = base + byte() as u32;
        check(near(ppt_rs::generator::inches_to_emu(ppt_rs::generator::emu_to_inches(e)), e), "EMU to inches and back");
        let p = Position::new(e as i64, -(e as i64));
        let q = Position::from_inches(p.x_inches(), p.y_inches());
        check(near64(p.x, q.x) & near64(p.y, q.y), "positions to inches and back");
        let p = Size::new(e as i64, e as i64 + 7);
        let q = Size::from_inches(p.width_inches(), p.height_inches());
        check(near64(p.width, q.width) & near64(p.height, q.height), "sizes to inches and back");
        reach(1);
    }
}

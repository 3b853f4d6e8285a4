//! C25: relative placement.
use crate::sx::*;
use ppt_rs::generator::connectors::{generate_connector_xml, ConnectionSite, Connector, ConnectorType};
use ppt_rs::generator::{Image, ImageBuilder, Shape, ShapeType};
use ppt_rs::prelude::layouts as l;

const W: u64 = 9144000;
const H: u64 = 6858000;
const M: u64 = 457200;

/// The number that follows `key="` in `xml` after byte `from`, with the end of its text.
fn num_at(xml: &str, key: &str, from: usize) -> Option<(u64, usize)> {
    let pat = format!("{key}=\"");
    let p = xml[from..].find(&pat)? + from + pat.len();
    let mut v = 0u64;
    let mut i = p;
    let b = xml.as_bytes();
    while i < b.len() && b[i] != b'"' {
        if !b[i].is_ascii_digit() { return None; }
        v = v * 10 + (b[i] - b'0') as u64;
        i += 1;
    }
    if i == p { None } else { Some((v, i)) }
}
/// x, y, cx, cy of the first a:off / a:ext.
fn geometry(xml: &str) -> Option<(u64, u64, u64, u64)> {
    let o = xml.find("<a:off ")?;
    let (x, i) = num_at(xml, "x", o)?;
    let (y, _) = num_at(xml, "y", i)?;
    let e = xml.find("<a:ext ")?;
    let (cx, i) = num_at(xml, "cx", e)?;
    let (cy, _) = num_at(xml, "cy", i)?;
    Some((x, y, cx, cy))
}

harnesses! {
    fn h_c25_center() {
        let (w, h) = (u32() as u64, u32() as u64);
        let (x, y) = (l::center_x(w as u32) as u64, l::center_y(h as u32) as u64);
        let c = l::center(w as u32, h as u32);
        check((c.0 as u64 == x) & (c.1 as u64 == y), "center is both centres");
        if w <= W { reach(1); check((x + w <= W) & (2 * x + w <= W) & (2 * x + w + 1 >= W), "centred horizontally"); }
        else { reach(2); check(x == 0, "a wider element starts at the edge"); }
        if h <= H { reach(3); check((y + h <= H) & (2 * y + h <= H) & (2 * y + h + 1 >= H), "centred vertically"); }
        else { reach(4); check(y == 0, "a higher element starts at the edge"); }
    }
    /// Any grid of at most 4 by 4 cells of any size.
    fn h_c25_grid() {
        let (r, c) = (choose(n(4, 6)), choose(n(4, 6)));
        let (cw, ch) = (u32() as u64, u32() as u64);
        let g = l::grid(r, c, cw as u32, ch as u32);
        check(g.len() == r * c, "one position per cell");
        let fits = (cw * c as u64 <= W) & (ch * r as u64 <= H);
        if r * c == 0 { reach(3); return; }
        if fits {
            reach(1);
            let (x0, y0) = (g[0].0 as u64, g[0].1 as u64);
            let (tw, th) = (cw * c as u64, ch * r as u64);
            check((2 * x0 + tw <= W) & (2 * x0 + tw + 1 >= W) & (2 * y0 + th <= H) & (2 * y0 + th + 1 >= H), "the grid is centred");
            let mut ok = true;
            for i in 0..r { for j in 0..c {
                let (x, y) = (g[i * c + j].0 as u64, g[i * c + j].1 as u64);
                ok &= (x == x0 + j as u64 * cw) & (y == y0 + i as u64 * ch);
            } }
            check(ok, "cells are laid out row by row without gap or overlap");
        } else {
            reach(2);
            let mut ok = true;
            for i in 0..r { for j in 1..c { ok &= g[i * c + j].0 >= g[i * c + j - 1].0; } }
            for i in 1..r { for j in 0..c { ok &= g[i * c + j].1 >= g[(i - 1) * c + j].1; } }
            check(ok, "an oversized grid does not wrap around");
        }
    }
    fn h_c25_stack_horizontal() { stack(true) }
    fn h_c25_stack_vertical() { stack(false) }
    fn h_c25_distribute() {
        let c = choose(n(6, 12));
        let w = u32() as u64;
        let y = u32();
        let g = l::distribute_horizontal(c, w as u32, y);
        check(g.len() == c, "one position per element");
        let mut ok = true;
        for p in &g { ok &= p.1 == y; }
        check(ok, "the y coordinate is kept");
        if c == 0 { reach(4); return; }
        if c == 1 { reach(5); check(g[0].0 == l::center_x(w as u32), "a single element is centred"); return; }
        if w * c as u64 <= W - 2 * M {
            reach(1);
            let gap = |i: usize| g[i].0 as u64 - g[i - 1].0 as u64;
            check(g[0].0 as u64 == M, "starts at the margin");
            let mut ok = true;
            for i in 1..c { ok &= (g[i].0 >= g[i - 1].0) && (gap(i) == gap(1)) & (gap(i) >= w); }
            check(ok, "elements are evenly spaced and do not overlap");
            let end = g[c - 1].0 as u64 + w;
            check((end <= W - M) & (end + (c as u64) > W - M), "ends at the opposite margin");
        } else {
            reach(2);
            let mut ok = true;
            for i in 1..c { ok &= g[i].0 >= g[i - 1].0; }
            check(ok, "oversized elements do not wrap around");
        }
    }
    /// The box and flips written for a connector give back its two end points.
    fn h_c25_connector_ends() {
        let base = [0u32, 1000, 4_294_967_200][choose(3)];
        let small = || base + (u32() & 0x3f);
        let (p, q) = (small(), small());
        let (sx, sy, ex, ey) = if flag() { (p, 70, q, 9000) } else { (12345, p, 5, q) };
        let c = match choose(4) {
            0 => Connector::straight(sx, sy, ex, ey),
            1 => Connector::elbow(sx, sy, ex, ey),
            2 => Connector::curved(sx, sy, ex, ey),
            _ => Connector::new(ConnectorType::Straight, sx, sy, ex, ey).connect_start(4, ConnectionSite::Top).connect_end(9, ConnectionSite::Left).with_label("l"),
        };
        let xml = generate_connector_xml(&c, 3);
        let g = geometry(&xml);
        check(g.is_some(), "the connector has a place and an extent");
        let Some((x, y, cx, cy)) = g else { return };
        let (fh, fv) = (xml.contains(" flipH=\"1\""), xml.contains(" flipV=\"1\""));
        let (ax, bx) = if fh { (x + cx, x) } else { (x, x + cx) };
        let (ay, by) = if fv { (y + cy, y) } else { (y, y + cy) };
        check((ax == sx as u64) & (ay == sy as u64) & (bx == ex as u64) & (by == ey as u64), "the connector runs between its end points");
        reach(1);
    }
    /// Place and extent of shapes and images are written as they were given.
    fn h_c25_written_geometry() {
        let k = choose(4);
        let v = [0u32, 9, 12345, u32::MAX];
        let mut q = [v[choose(4)], v[choose(4)], 77, 4_000_000_000];
        q[k] = [100u32, 65000, 9143900][choose(3)] + byte() as u32;
        let xml = match choose(2) {
            0 => ppt_rs::generator::shapes_xml::generate_shape_xml(&Shape::new(ShapeType::Rectangle, q[0], q[1], q[2], q[3]), 5),
            _ => {
                let mut i = Image::new("a.png", q[2], q[3], "PNG");
                i.x = q[0];
                i.y = q[1];
                ppt_rs::generator::images_xml::generate_image_xml(&i, 5, 2)
            }
        };
        let g = geometry(&xml);
        check(g.is_some(), "the element has a place and an extent");
        let Some(g) = g else { return };
        check((g.0 == q[0] as u64) & (g.1 == q[1] as u64) & (g.2 == q[2] as u64) & (g.3 == q[3] as u64), "place and extent are written as given");
        reach(1);
    }
    /// Rotation in degrees is written in sixty-thousandths, modulo whole turns, without overflow.
    fn h_c25_rotation() {
        let d = [0i32, 45, 90, 180, 270, 359, 360, 405, 720, -90, -45, 1_000_000, i32::MAX, i32::MIN, 35791, 35792][choose(16)];
        let xml = ppt_rs::generator::shapes_xml::generate_shape_xml(&Shape::new(ShapeType::Rectangle, 1, 2, 3, 4).with_rotation(d), 5);
        let p = xml.find(" rot=\"").map(|p| p + 6);
        check(p.is_some(), "rotation is written");
        let Some(p) = p else { return };
        let e = xml[p..].find('"').unwrap_or(0) + p;
        let v: i64 = xml[p..e].parse().unwrap_or(i64::MAX);
        check(v >= i32::MIN as i64 && v <= i32::MAX as i64 && (v - d as i64 * 60000) % 21_600_000 == 0, "rotation is the angle modulo whole turns");
        reach(1);
    }
    /// Scaling an image to a width or a height keeps its aspect ratio.
    fn h_c25_image_scale() {
        let (w, h) = [(400u32, 300u32), (300, 400), (100, 100), (1920, 1080), (1, 3), (1000, 7)][choose(6)];
        let t = [0u32, 1000, 914400, 9144000][choose(4)] + byte() as u32;
        // exact proportion, in integers, within one EMU
        let close = |got: u32, num: u64, den: u64| (got as u64 * den <= num + den) & (got as u64 * den + den >= num);
        let i = Image::new("a.png", w, h, "PNG").scale_to_width(t);
        check((i.width == t) & close(i.height, t as u64 * h as u64, w as u64), "Image::scale_to_width");
        let i = Image::new("a.png", w, h, "PNG").scale_to_height(t);
        check((i.height == t) & close(i.width, t as u64 * w as u64, h as u64), "Image::scale_to_height");
        let i = ImageBuilder::new("a.png", w, h).scale_to_width(t).build();
        check((i.width == t) & close(i.height, t as u64 * h as u64, w as u64), "ImageBuilder::scale_to_width");
        let i = ImageBuilder::new("a.png", w, h).scale_to_height(t).build();
        check((i.height == t) & close(i.width, t as u64 * w as u64, h as u64), "ImageBuilder::scale_to_height");
        reach(1);
    }
}

fn stack(horizontal: bool) {
    let c = choose(n(5, 8));
    // sizes up to 24 bits decide the exact layout, any 32 bits decide that nothing wraps
    let big = flag();
    let (s, gap, o) = if big { (u32() as u64, u32() as u64, u32()) } else { ([0u64, 2 << 20, 8 << 20][choose(3)] + (u32() & 0x3_ffff) as u64, [0u64, 1, 9144, 100_000][choose(4)], u32()) };
    let g = if horizontal { l::stack_horizontal(c, s as u32, gap as u32, o) } else { l::stack_vertical(c, s as u32, gap as u32, o) };
    let ext = if horizontal { W } else { H };
    check(g.len() == c, "one position per element");
    if c == 0 { reach(3); return; }
    let at = |i: usize| (if horizontal { g[i].0 } else { g[i].1 }) as u64;
    let mut ok = true;
    for p in &g { ok &= (if horizontal { p.1 } else { p.0 }) == o; }
    check(ok, "the other coordinate is kept");
    let total = s * c as u64 + gap * (c as u64 - 1);
    if total <= ext {
        if big { return; }
        reach(1);
        check((2 * at(0) + total <= ext) & (2 * at(0) + total + 1 >= ext), "the stack is centred");
        for i in 1..c { check(at(i) == at(0) + (s + gap) * i as u64, "elements follow each other at the asked spacing"); }
    } else {
        reach(2);
        let mut ok = true;
        for i in 1..c { ok &= at(i) >= at(i - 1); }
        check(ok, "an oversized stack does not wrap around");
    }
}

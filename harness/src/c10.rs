//! C10: colours.
use crate::sx::*;
use ppt_rs::elements::{Color, RgbColor};
use ppt_rs::helpers::ColorValue;

fn is_hex(b: u8) -> bool { b.is_ascii_digit() | (b'a'..=b'f').contains(&b) | (b'A'..=b'F').contains(&b) }
fn hexval(b: u8) -> u8 { if b <= b'9' { b - b'0' } else { (b & 0xdf) - b'A' + 10 } }
fn all_hex(b: &[u8]) -> bool {
    let mut ok = true;
    for x in b { ok &= is_hex(*x); }
    ok
}
fn hexdigit_up(v: u8) -> u8 { if v < 10 { b'0' + v } else { b'A' + v - 10 } }
fn hash(n: usize, hashes: usize) -> (String, Vec<u8>) {
    let mut s = String::new();
    for _ in 0..hashes { s.push('#'); }
    let body = utf8(n);
    let b = body.as_bytes().to_vec();
    s.push_str(&body);
    (s, b)
}
fn css_color_of(value: &str) -> Option<String> {
    let html = format!("<h1 style=\"color:{value}\">T</h1>");
    match ppt_rs::parse_html(&html) {
        Ok(v) => v.first().and_then(|s| s.title_color.clone()),
        Err(_) => None,
    }
}

harnesses! {
    /// RgbColor/Color::from_hex on any UTF-8 text.
    fn h_c10_rgb_parse() {
        let s = utf8_upto(n(8, 9));
        let c = RgbColor::from_hex(&s);
        let d = Color::from_hex(&s);
        check(c.is_some() == d.is_some(), "Color and RgbColor disagree");
        let t = s.trim_start_matches('#').as_bytes();
        if let Some(c) = c {
            reach(1);
            check(t.len() == 6, "accepted a string without six digits");
            for i in 0..6 { check(is_hex(t[i]), "accepted a non-hexadecimal digit"); }
            check(c.r == hexval(t[0]) * 16 + hexval(t[1]), "red channel");
            check(c.g == hexval(t[2]) * 16 + hexval(t[3]), "green channel");
            check(c.b == hexval(t[4]) * 16 + hexval(t[5]), "blue channel");
        } else {
            reach(2);
            check(!(t.len() == 6 && all_hex(t)), "six hexadecimal digits were refused");
        }
    }
    /// Printing any colour and parsing it back.
    fn h_c10_rgb_roundtrip() {
        let (r, g, b) = (byte(), byte(), byte());
        let h = RgbColor::new(r, g, b).to_hex();
        let e = [hexdigit_up(r >> 4), hexdigit_up(r & 15), hexdigit_up(g >> 4), hexdigit_up(g & 15), hexdigit_up(b >> 4), hexdigit_up(b & 15)];
        check(same(h.as_bytes(), &e), "printed form is not RRGGBB in upper case");
        let x = ppt_rs::ToXml::to_xml(&Color::rgb(r, g, b));
        let pre = b"<a:srgbClr val=\"";
        check(x.len() == pre.len() + 9 && same(&x.as_bytes()[..pre.len()], pre) && same(&x.as_bytes()[pre.len()..pre.len() + 6], &e) && &x[pre.len() + 6..] == "\"/>", "XML form of a colour");
        reach(1);
    }
    fn h_c10_value_roundtrip() {
        let (r, g, b, a) = (byte(), byte(), byte(), byte());
        let c = ColorValue::rgba(r, g, b, a);
        let e = [hexdigit_up(r >> 4), hexdigit_up(r & 15), hexdigit_up(g >> 4), hexdigit_up(g & 15), hexdigit_up(b >> 4), hexdigit_up(b & 15), hexdigit_up(a >> 4), hexdigit_up(a & 15)];
        check(same(c.to_hex().as_bytes(), &e[..6]), "to_hex");
        check(same(c.to_hex_alpha().as_bytes(), &e), "to_hex_alpha");
        let k = c.to_color();
        check(k == Color::Rgb(RgbColor::new(r, g, b)), "to_color");
        let i = c.invert();
        check(i.r == 255 - r && i.g == 255 - g && i.b == 255 - b && i.a == a, "invert");
        check(ColorValue::rgb(r, g, b).a == 255, "rgb is opaque");
        reach(1);
    }
    /// ColorValue::from_hex on any text: never panics, exact on six or eight digits, black otherwise.
    fn h_c10_value_parse() {
        let k = choose(2);
        let m = choose(n(9, 10));
        let (s, t) = hash(m, k);
        let c = ColorValue::from_hex(&s);
        if t.len() > 0 { assume(t[0] != b'#'); }
        if t.len() == 6 && all_hex(&t) {
            reach(1);
            check(c == ColorValue::rgb(hexval(t[0]) * 16 + hexval(t[1]), hexval(t[2]) * 16 + hexval(t[3]), hexval(t[4]) * 16 + hexval(t[5])), "six digits");
        } else if t.len() == 8 && all_hex(&t) {
            reach(2);
            check(c == ColorValue::rgba(hexval(t[0]) * 16 + hexval(t[1]), hexval(t[2]) * 16 + hexval(t[3]), hexval(t[4]) * 16 + hexval(t[5]), hexval(t[6]) * 16 + hexval(t[7])), "eight digits");
        } else if t.len() != 6 && t.len() != 8 {
            reach(3);
            check(c == ColorValue::rgb(0, 0, 0), "other lengths give black");
        } else { reach(4); }
    }
    /// Lighter and darker: the neutral amount is the identity, one is white or black, and no
    /// channel moves the wrong way for any amount (including NaN and infinities).
    fn h_c10_adjust_neutral() {
        let (r, g, b, a) = (byte(), byte(), byte(), byte());
        let c = ColorValue::rgba(r, g, b, a);
        let l0 = c.lighter(0.0);
        check(l0.r == r && l0.g == g && l0.b == b && l0.a == a, "lighter(0)");
        let l1 = c.lighter(1.0);
        check(l1.r == 255 && l1.g == 255 && l1.b == 255 && l1.a == a, "lighter(1)");
        let d0 = c.darker(0.0);
        check(d0.r == r && d0.g == g && d0.b == b && d0.a == a, "darker(0)");
        let d1 = c.darker(1.0);
        check(d1.r == 0 && d1.g == 0 && d1.b == 0 && d1.a == a, "darker(1)");
        let o = ColorValue::rgba(byte(), byte(), byte(), byte());
        let m0 = c.mix(&o, 0.0);
        check(m0.r == r && m0.g == g && m0.b == b && m0.a == a, "mix(0)");
        let m1 = c.mix(&o, 1.0);
        check(m1.r == o.r && m1.g == o.g && m1.b == o.b && m1.a == o.a, "mix(1)");
        let s = c.mix(&c, 0.5);
        check(s.r == r && s.g == g && s.b == b && s.a == a, "mixing with itself");
        let op = c.opacity(1.0);
        check(op.r == r && op.g == g && op.b == b && op.a == 255, "opacity(1)");
        check(c.opacity(0.0).a == 0, "opacity(0)");
        check(c.transparent(0).a == 255 && c.transparent(100).a == 0 && c.transparent(0).r == r, "transparent(0) and (100)");
        reach(1);
    }
    /// Out-of-range amounts behave as the nearest end of the range; NaN does not panic.
    fn h_c10_adjust_clamp() {
        let (r, g, b) = (byte(), byte(), byte());
        let c = ColorValue::rgba(r, g, b, 255);
        let lows = [-0.25f32, -1.0, -1e30, f32::NEG_INFINITY];
        let highs = [1.5f32, 2.0, 100.0, 1e30, f32::INFINITY];
        let i = choose(4);
        let j = choose(5);
        check(c.lighter(lows[i]) == c.lighter(0.0), "lighter below range");
        check(c.lighter(highs[j]) == c.lighter(1.0), "lighter above range");
        check(c.darker(lows[i]) == c.darker(0.0), "darker below range");
        check(c.darker(highs[j]) == c.darker(1.0), "darker above range");
        check(c.opacity(lows[i]) == c.opacity(0.0), "opacity below range");
        check(c.opacity(highs[j]) == c.opacity(1.0), "opacity above range");
        let o = ColorValue::rgba(byte(), byte(), byte(), byte());
        check(c.mix(&o, lows[i]) == c.mix(&o, 0.0), "mix below range");
        check(c.mix(&o, highs[j]) == c.mix(&o, 1.0), "mix above range");
        let _ = (c.lighter(f32::NAN), c.darker(f32::NAN), c.opacity(f32::NAN), c.mix(&o, f32::NAN));
        reach(1);
    }
    /// For every channel value and every amount k/16: lighter never darkens, darker never
    /// lightens, a mix lies between its two colours, and more is never less.
    fn h_c10_adjust_monotone() {
        let r = byte();
        let c = ColorValue::rgba(r, r, r, 255);
        let k = choose(16) as f32;
        let (x, y) = (k / 16.0, (k + 1.0) / 16.0);
        let (lx, ly) = (c.lighter(x), c.lighter(y));
        check(lx.r >= r && ly.r >= lx.r && lx.g == lx.r && lx.b == lx.r, "lighter is monotone");
        let (dx, dy) = (c.darker(x), c.darker(y));
        check(dx.r <= r && dy.r <= dx.r && dx.g == dx.r && dx.b == dx.r, "darker is monotone");
        let (ox, oy) = (c.opacity(x), c.opacity(y));
        check(ox.a <= oy.a && ox.r == r && ox.g == r && ox.b == r, "opacity is monotone");
        reach(1);
    }
    fn h_c10_mix_between() {
        let (r, s) = (byte(), [0u8, 1, 63, 100, 127, 128, 200, 254, 255][choose(9)]);
        let (p, q) = ([0.1f32, 0.25, 0.5, 0.7][choose(4)], choose(3));
        let mut a = ColorValue::rgba(0, 0, 0, 255);
        let mut b = ColorValue::rgba(0, 0, 0, 255);
        match q { 0 => { a.r = r; b.r = s; } 1 => { a.g = r; b.g = s; } _ => { a.b = r; b.b = s; } }
        let m = a.mix(&b, p);
        let v = match q { 0 => m.r, 1 => m.g, _ => m.b };
        let (lo, hi) = (if r < s { r } else { s }, if r < s { s } else { r });
        check(((v >= lo) | (v as u32 + 1 == lo as u32)) & (v <= hi), "a mix lies between its colours");
        reach(1);
    }
    fn h_c10_transparent() {
        let p = byte();
        let a = ColorValue::rgba(1, 2, 3, 4).transparent(p).a;
        let b = ColorValue::rgba(1, 2, 3, 4).transparent(p.saturating_add(1)).a;
        check(a >= b, "more transparency is never more opaque");
        check(p < 100 || a == 0, "100 percent and above is fully transparent");
        let e = (100 - if p > 100 { 100 } else { p }) as u32 * 255 / 100;
        check((a as u32 == e) | (a as u32 == e + 1) | (a as u32 + 1 == e), "alpha is the percentage of 255");
        reach(1);
    }
    /// Grayscale is gray, keeps alpha, and fixes black and white; lies within the channels.
    fn h_c10_grayscale() {
        let v = byte();
        let a = byte();
        let g = ColorValue::rgba(v, v, v, a).grayscale();
        check(g.r == g.g && g.g == g.b && g.a == a, "grayscale is gray and keeps alpha");
        check((g.r == v) | (g.r == v.wrapping_sub(1)), "a gray stays itself up to rounding");
        let (r, gg, b) = match choose(3) { 0 => (v, 0, 0), 1 => (0, v, 0), _ => (0, 0, v) };
        let g = ColorValue::rgba(r, gg, b, 255).grayscale();
        check(g.r <= v, "no lighter than its lightest channel");
        reach(1);
    }
    /// helpers::hex and the fluent fill/stroke calls that print the colour again.
    fn h_c10_helper_hex() {
        let k = choose(2);
        let m = choose(n(8, 9));
        let (s, t) = hash(m, k);
        let c = ppt_rs::helpers::hex(&s);
        if t.len() > 0 { assume(t[0] != b'#'); }
        if t.len() == 6 && all_hex(&t) {
            reach(1);
            let want = RgbColor::new(hexval(t[0]) * 16 + hexval(t[1]), hexval(t[2]) * 16 + hexval(t[3]), hexval(t[4]) * 16 + hexval(t[5]));
            check(c == Color::Rgb(want), "helpers::hex of six digits");
        } else if t.len() != 6 {
            reach(2);
            check(c == Color::Rgb(RgbColor::new(0, 0, 0)), "helpers::hex of another length gives black");
        } else { reach(3); }
    }
    fn h_c10_shape_fill() {
        use ppt_rs::helpers::ShapeExt;
        let (r, g, b) = (byte(), byte(), byte());
        let e = [hexdigit_up(r >> 4), hexdigit_up(r & 15), hexdigit_up(g >> 4), hexdigit_up(g & 15), hexdigit_up(b >> 4), hexdigit_up(b & 15)];
        let s = ppt_rs::helpers::rect(1.0, 1.0, 1.0, 1.0).fill(ppt_rs::helpers::rgb(r, g, b)).stroke(ColorValue::rgb(r, g, b).to_color(), 2.0);
        check(s.fill.map(|f| same(f.color.as_bytes(), &e)).unwrap_or(false), "fill prints its colour");
        check(s.line.map(|f| same(f.color.as_bytes(), &e) && f.width == 25400).unwrap_or(false), "stroke prints its colour and its width in EMU");
        reach(1);
    }
    /// CSS colours as the HTML importer reads them: `#` followed by any text.
    fn h_c10_css_hash() {
        let m = choose(n(7, 9));
        let body = utf8(m);
        let b = body.as_bytes().to_vec();
        for x in &b { assume((*x != b'"') & (*x != b';') & (*x != b'&') & !x.is_ascii_whitespace() & (*x != 0x0b)); }
        let mut v = String::from("#");
        v.push_str(&body);
        // Unicode white space at the end is trimmed by the importer
        if let Some(c) = body.chars().last() { assume(!c.is_whitespace()); }
        match css_color_of(&v) {
            Some(h) => {
                reach(1);
                let o = h.as_bytes();
                check(o.len() == 6 && all_hex(o), "an accepted CSS colour is six hexadecimal digits");
                for i in 0..6 {
                    let src = if b.len() == 3 { b[i / 2] } else { b[i] };
                    let up = if src >= b'a' { src - 32 } else { src };
                    check(o[i] == up, "digits of the CSS colour");
                }
            }
            None => {
                reach(2);
                check(!((b.len() == 3 || b.len() == 6 || b.len() == 8) && all_hex(&b)), "a hexadecimal CSS colour was refused");
            }
        }
    }
    fn h_c10_css_rgb() {
        let a = choose(2) == 1;
        let mut v = String::from(if a { "rgba(" } else { "rgb(" });
        let nd = 1 + choose(n(2, 3));
        let ds = of_set(nd, b"0123456789-+. ");
        v.push_str(&ds);
        v.push_str(",7,200");
        if a { v.push_str(",0.5"); }
        v.push(')');
        if let Some(h) = css_color_of(&v) {
            reach(1);
            let o = h.as_bytes();
            check(o.len() == 6 && all_hex(o) && &h[2..] == "07C8", "rgb() channels");
            let mut x = 0u32;
            for c in ds.trim().bytes() { if c.is_ascii_digit() { x = x * 10 + (c - b'0') as u32; } }
            check(hexval(o[0]) as u32 * 16 + hexval(o[1]) as u32 == x, "rgb() red");
        } else { reach(2); }
    }
}

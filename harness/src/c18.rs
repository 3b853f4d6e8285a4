//! C18: images.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::generator::*;

fn ends(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && same(a, b) }
/// What the reader says about a file with these bytes.
fn sized(b: Vec<u8>) -> Option<(u32, u32, String)> {
    std::fs::write("pic.bin", &b).unwrap();
    let i = Image::from_path("pic.bin").ok()?;
    match i.get_bytes() { Some(g) => check(ends(&g, &b), "the bytes of the file"), None => fail("no bytes") }
    Some((i.width, i.height, i.format.clone()))
}
/// Pixels to EMU at 96 dpi, at most the largest number.
fn emu(p: u32) -> u32 { p.saturating_mul(9525) }
fn states(b: Vec<u8>, w: u32, h: u32, f: &str) {
    match sized(b) {
        Some((x, y, g)) => { check(x == emu(w), "the width"); check(y == emu(h), "the height"); check(g == f, "the format"); }
        None => fail("the size is not found"),
    }
}
fn pad(v: &mut Vec<u8>, n: usize) { while v.len() < n { v.push(0); } }
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// A number of pixels: 16 arbitrary bits somewhere among 32.
fn pixels() -> u32 { (u16() as u32) << [0, 8, 16][choose(3)] }
/// Any `k` bytes with their base64 form, made from arbitrary digits (every byte string has one).
fn encoded(k: usize) -> (Vec<u8>, Vec<u8>) {
    let (mut d, mut o) = (Vec::new(), Vec::new());
    let mut at = 0;
    while at < k {
        let m = (k - at).min(3);
        let v: Vec<u8> = (0..m + 1).map(|_| byte() & 63).collect();
        if m == 1 { assume(v[1] & 15 == 0); }
        if m == 2 { assume(v[2] & 3 == 0); }
        d.push(v[0] << 2 | v[1] >> 4);
        if m > 1 { d.push(v[1] << 4 | v[2] >> 2); }
        if m > 2 { d.push(v[2] << 6 | v[3]); }
        for i in 0..4 { o.push(if i <= m { B64[v[i] as usize] } else { b'=' }); }
        at += 3;
    }
    (d, o)
}
/// The value of every character as a base64 digit, 64 for the others.
fn values() -> [u8; 256] {
    let mut t = [64u8; 256];
    for (i, c) in B64.iter().enumerate() { t[*c as usize] = i as u8; }
    t
}
fn text(v: &[u8]) -> String { unsafe { String::from_utf8_unchecked(v.to_vec()) } }

harnesses! {
    /// Guessing the format of any bytes never fails and keeps them.
    fn h_c18_auto() {
        let k = choose(n(7, 8));
        let d: Vec<u8> = (0..k).map(|_| byte()).collect();
        let i = ImageBuilder::auto(d.clone()).build();
        match i.get_bytes() { Some(g) => check(ends(&g, &d), "the bytes"), None => fail("no bytes") }
        if k >= 4 && d[0] == 0x89 && d[1] == b'P' && d[2] == b'N' && d[3] == b'G' { check(i.format == "PNG", "a PNG"); }
        if k >= 4 && d[0] == 0xff && d[1] == 0xd8 { check(i.format == "JPEG", "a JPEG"); }
        if k >= 6 && d[0] == b'G' && d[1] == b'I' && d[2] == b'F' && d[3] == b'8' && (d[4] == b'7' || d[4] == b'9') && d[5] == b'a' { check(i.format == "GIF", "a GIF"); }
    }
    /// PNG, GIF, BMP and WebP headers of any size.
    fn h_c18_size() {
        match choose(7) {
            0 => {
                let (w, h) = (pixels(), pixels());
                let mut v = b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR".to_vec();
                v.extend_from_slice(&w.to_be_bytes());
                v.extend_from_slice(&h.to_be_bytes());
                for _ in 0..choose(3) { v.push(byte()); }
                states(v, w, h, "PNG");
            }
            k @ 1..=2 => {
                let (w, h) = (u16(), u16());
                let mut v = if k == 1 { b"GIF87a".to_vec() } else { b"GIF89a".to_vec() };
                v.extend_from_slice(&w.to_le_bytes());
                v.extend_from_slice(&h.to_le_bytes());
                for _ in 0..choose(4) { v.push(byte()); }
                states(v, w as u32, h as u32, "GIF");
            }
            k @ 3..=4 => {
                let w = (byte() as u32) << [0, 8, 16, 23][choose(4)];
                let h = if k == 3 { pixels() } else { match choose(5) { 4 => 1 << 31, 3 => (1 << 31) - 1, 2 => 70_000, 1 => 256, _ => byte() as u32 } };
                assume(w < 1 << 31 && h <= 1 << 31);
                let mut v = b"BM".to_vec();
                for _ in 0..4 { v.push(byte()); }
                pad(&mut v, 14);
                v.extend_from_slice(&40u32.to_le_bytes());
                v.extend_from_slice(&w.to_le_bytes());
                if k == 3 { assume(h < 1 << 31); }
                v.extend_from_slice(&(if k == 3 { h } else { h.wrapping_neg() }).to_le_bytes());
                for _ in 0..choose(3) { v.push(byte()); }
                states(v, w, h, "BMP");
            }
            5 => {
                let (w, h) = (u16(), u16());
                let mut v = b"RIFF".to_vec();
                for _ in 0..4 { v.push(byte()); }
                v.extend_from_slice(b"WEBPVP8 \x10\0\0\0");
                for _ in 0..3 { v.push(byte()); }
                v.extend_from_slice(&[0x9d, 0x01, 0x2a]);
                v.extend_from_slice(&w.to_le_bytes());
                v.extend_from_slice(&h.to_le_bytes());
                states(v, w as u32 & 0x3fff, h as u32 & 0x3fff, "WEBP");
            }
            _ => {
                let (w, h) = (u16() as u32, u16() as u32);
                assume(w < 1 << 14 && h < 1 << 14);
                let top = (byte() & 15) as u32;
                let mut v = b"RIFF".to_vec();
                for _ in 0..4 { v.push(byte()); }
                v.extend_from_slice(b"WEBPVP8L\x10\0\0\0\x2f");
                v.extend_from_slice(&(w | h << 14 | top << 28).to_le_bytes());
                pad(&mut v, 30);
                states(v, w + 1, h + 1, "WEBP");
            }
        }
    }
    /// JPEG frame headers of any size after any segments: markers, fill bytes, segments of any content.
    fn h_c18_jpeg() {
        let (w, h) = (u16(), u16());
        let mut v = vec![0xff, 0xd8];
        let m = choose(n(3, 4));
        for _ in 0..m {
            for _ in 0..choose(3) { v.push(0xff); }
            let id = [0xe0, 0xfe, 0xdb, 0xc4, 0xdd, 0xe1][choose(6)];
            let k = choose(n(3, 4));
            v.extend_from_slice(&[0xff, id, 0, 2 + k as u8]);
            for _ in 0..k { v.push(byte()); }
        }
        for _ in 0..choose(2) { v.push(0xff); }
        v.extend_from_slice(&[0xff, if flag() { 0xc0 } else { 0xc2 }, 0, 11, 8]);
        v.extend_from_slice(&h.to_be_bytes());
        v.extend_from_slice(&w.to_be_bytes());
        v.extend_from_slice(&[1, 1, 0x11, 0, 0xff, 0xda, 0, 2]);
        for _ in 0..choose(2) { v.push(byte()); }
        states(v, w as u32, h as u32, "JPEG");
    }
    /// Any bytes after any start: a size or a refusal, never a panic.
    fn h_c18_any() {
        let start: &[u8] = [&b""[..], b"\xff\xd8\xff", b"\x89PNG\r\n\x1a\n", b"GIF89a", b"BM", b"RIFF\0\0\0\0WEBPVP8 ", b"RIFF\0\0\0\0WEBPVP8L", b"RIFF\0\0\0\0WEBPVP8X"][choose(8)];
        let mut v = start.to_vec();
        let k = choose(n(13, 15));
        let short = start.len() <= 3;
        let sym = if short { n(3, 4) } else { k };
        for i in 0..k { v.push(if i < sym { byte() } else { [0u8, 0xff, 0xc0][i % 3] }); }
        if flag() { pad(&mut v, 32); }
        let _ = sized(v);
    }
    /// Base64 of any bytes, with line breaks and blanks, decodes to them.
    fn h_c18_base64() {
        let k = choose(n(11, 16));
        let (d, mut e) = encoded(k);
        match choose(4) {
            1 => { let at = choose(e.len() + 1); e.insert(at, [b'\n', b'\r', b' '][choose(3)]); }
            2 => { while e.last() == Some(&b'=') { e.pop(); } }
            3 => { e.insert(0, b'\n'); e.push(b'\n'); }
            _ => {}
        }
        let i = Image::from_base64(&text(&e), 1, 1, "PNG");
        match i.get_bytes() { Some(g) => check(ends(&g, &d), "the decoded bytes"), None => fail("refused") }
    }
    /// Any text as base64: refused unless every character is a digit and the length is possible.
    fn h_c18_base64_any() {
        let k = choose(n(8, 10));
        let s: Vec<u8> = (0..k).map(|_| { let b = byte(); assume((b > 32) & (b < 127)); b }).collect();
        let pads = choose(3);
        let mut t = s.clone();
        for _ in 0..pads { t.push(b'='); }
        let got = Image::from_base64(&text(&t), 1, 1, "PNG").get_bytes();
        let mut core = s.clone();
        while core.last() == Some(&b'=') { core.pop(); }
        let npad = t.len() - core.len();
        let table = values();
        let mut ok = (core.len() % 4 != 1) & (npad <= 2);
        let mut bits = Vec::new();
        for c in &core { let v = table[*c as usize]; ok &= v < 64; bits.push(v as u32); }
        match got {
            None => check(!ok, "a refusal of base64"),
            Some(g) => {
                check(ok, "an acceptance of what is not base64");
                check(g.len() == core.len() * 3 / 4, "the length");
                if g.len() == core.len() * 3 / 4 {
                    for (i, b) in g.iter().enumerate() {
                        let at = i * 8;
                        let mut x = 0u32;
                        for j in 0..8 { let q = at + j; x = x << 1 | (bits[q / 6] >> (5 - q % 6) & 1); }
                        check(*b as u32 == x, "the bits");
                    }
                }
            }
        }
    }
    /// Every image of a deck is stored with its bytes, once per distinct content, and its slide refers to it.
    fn h_c18_deck() {
        let k = 1 + choose(n(4, 5));
        let fmts = ["png", "jpg", "gif"];
        // some contents differ only after a long common start
        let head = [0, 300, 1200][choose(3)];
        let mut e64 = Vec::new();
        let pics: Vec<(Vec<u8>, usize)> = (0..k).map(|i| { let (d, e) = encoded(1 + choose(if i == 0 { 2 } else { 1 })); e64.push([&vec![b'A'; head / 3 * 4][..], &e].concat()); ([&vec![0; head][..], &d].concat(), choose(2)) }).collect();
        let src = choose(2);
        let mut slides = Vec::new();
        for (i, (b, f)) in pics.iter().enumerate() {
            let mut im = match src { 0 => Image::from_bytes(b.clone(), 10, 10, fmts[*f]), _ => Image::from_base64(&text(&e64[i]), 10, 10, fmts[*f]) };
            im.filename = format!("p{i}.{}", fmts[*f]);
            if i == 2 { let s: SlideContent = slides.pop().unwrap(); slides.push(s.add_image(im)); }
            else { slides.push(SlideContent::new("s").add_image(im)); }
        }
        let b = if flag() { eager("T", &slides, None) } else { lazy("T", slides.clone(), None) };
        let Some(p) = open(&b) else { fail("not an archive"); return };
        let mut at = 0;
        for s in 0..slides.len() {
            let path = format!("ppt/slides/slide{}.xml", s + 1);
            let (Some(d), Some(r)) = (p.doc(&path), p.rels(&rels_of(&path))) else { fail("no slide"); return };
            for e in d.all("a:blip") {
                let id = d.attr_str(e, "r:embed").unwrap_or_default().to_string();
                let Some(rel) = r.iter().find(|r| r.id == id) else { fail("a picture without a relationship"); return };
                let part = resolve(&path, &rel.target).unwrap_or_default();
                match p.get(&part) {
                    Some(g) => check(at < k && ends(g, &pics[at].0), "the bytes of the picture"),
                    None => fail("a picture without a part"),
                }
                check(part.ends_with(&format!(".{}", fmts[pics[at].1])), "the extension of the picture");
                at += 1;
            }
        }
        check(at == k, "every picture is on its slide");
        let mut distinct = 0;
        for i in 0..k {
            let mut new = true;
            for j in 0..i { if pics[j].1 == pics[i].1 && pics[j].0.len() == pics[i].0.len() && same(&pics[j].0, &pics[i].0) { new = false; } }
            if new { distinct += 1; }
        }
        check(p.parts.iter().filter(|(n, _)| n.starts_with("ppt/media/")).count() == distinct, "one part per distinct picture");
    }
}

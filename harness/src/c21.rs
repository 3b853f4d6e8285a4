//! C21: the XML reader and the slide reader.
use crate::sx::*;
use crate::xml::{self, Doc};
use ppt_rs::oxml::*;

fn text_of_node(d: &Doc, i: usize) -> &[u8] { &d.nodes[i].text }
/// The namespace that a prefix stands for at a node.
fn scope<'a>(d: &'a Doc, mut i: usize, prefix: &str) -> Option<&'a [u8]> {
    let want = if prefix.is_empty() { "xmlns".to_string() } else { format!("xmlns:{prefix}") };
    while i != xml::NONE {
        if let Some(v) = d.attr(i, &want) { return Some(v); }
        i = d.nodes[i].parent;
    }
    None
}
/// The same characters; line ends and blanks in attributes may be normalised as XML says.
fn like(a: &[u8], b: &[u8]) -> bool {
    if a.len() == b.len() && same(a, b) { return true; }
    let norm = |x: &[u8]| {
        let mut o = Vec::new();
        for (i, c) in x.iter().enumerate() {
            if *c == b'\n' && i > 0 && x[i - 1] == b'\r' { continue; }
            o.push(if *c == b'\r' || *c == b'\n' || *c == b'\t' { b' ' } else { *c });
        }
        o
    };
    norm(a) == norm(b)
}
fn tree(d: &Doc, i: usize, e: &XmlElement) {
    let n = &d.nodes[i];
    check(same_str(&e.tag, &n.name), "the name");
    let (prefix, local) = match n.name.find(':') { Some(k) => (&n.name[..k], &n.name[k + 1..]), None => ("", &n.name[..]) };
    check(same_str(&e.local_name, local), "the local name");
    if let Some(u) = scope(d, i, prefix) { check(e.namespace.as_deref().map_or(u.is_empty(), |v| v.len() == u.len() && same(v.as_bytes(), u)), "the namespace"); }
    let mut k = 0;
    for (a, v) in &n.attrs {
        if a == "xmlns" || a.starts_with("xmlns:") { continue; }
        k += 1;
        match e.attr(a) { Some(x) => check(like(x.as_bytes(), v), "an attribute"), None => fail("an attribute is missing") }
    }
    check(e.attributes.len() == k, "no other attributes");
    let t = text_of_node(d, i);
    let blank = t.iter().all(|b| *b == b' ' || *b == b'\n' || *b == b'\t' || *b == b'\r');
    if n.kids.is_empty() || !blank { check(like(e.text.as_bytes(), t), "the text"); }
    check(e.children.len() == n.kids.len(), "the number of children");
    for (c, k) in e.children.iter().zip(&n.kids) { tree(d, *k, c); }
}
/// A document that the reference accepts is read as the same tree; any other ends in a tree or an error.
fn agree(x: &[u8]) {
    let got = XmlParser::parse_str(unsafe { std::str::from_utf8_unchecked(x) });
    if let Ok(d) = xml::parse(x) {
        match got { Ok(e) => tree(&d, 0, &e), Err(_) => fail("a well-formed document is refused") }
    }
}
const PIECES: [&str; 24] = ["<", ">", "/", "a", "b", "=", "\"", "'", "&", ";", "#", "x", "1", " ", "\n", "<a>", "</a>", "<a/>", "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>"];
const WORDS: [&str; 20] = ["", "t", " ", "\n", "a\r\nb", "a\rb", "&lt;", "&amp;amp;", "&#65;", "&#x1F600;", "&#10;", "<![CDATA[<x>&amp;]]>", "<![CDATA[]]>", "<!-- c -->", "<?p q?>", "é漢😀", "a<!-- c -->b", "&quot;&apos;&gt;", " x ", "]]"];
const VALUES: [&str; 10] = ["", "v", " a  b ", "&lt;&amp;", "&#10;", "&quot;", "'", "é😀", "a>b", "&#x9;"];

fn node(depth: usize, out: &mut String) {
    let name = ["p:q", "n", "m"][choose(if depth == 0 { 3 } else { 2 })];
    out.push('<');
    out.push_str(name);
    match choose(4) {
        1 => { out.push_str(" v=\""); out.push_str(VALUES[if depth == 0 { choose(10) } else { 3 }]); out.push('"'); }
        2 => out.push_str(" p:v='1'\n v=\"2\" "),
        3 => out.push_str(" xmlns=\"urn:d\" xmlns:p=\"urn:e\""),
        _ => {}
    }
    if depth == 0 && flag() { out.push_str("/>"); return; }
    out.push('>');
    if depth > 0 {
        let k = choose(3);
        if k > 0 { if flag() { out.push_str("\n "); } node(depth - 1, out); }
        if k > 1 { out.push_str("x<m v='1'/>"); }
        if k < 2 { out.push_str(["", "t", "&amp;", " "][choose(4)]); }
    } else { out.push_str(WORDS[choose(20)]); }
    out.push_str("</");
    out.push_str(name);
    out.push('>');
}
fn small(n: usize) -> XmlElement {
    let mut e = XmlElement::new(["a", "p:b", "q:a"][choose(3)]);
    e.text = ["", "t", "u"][choose(3)].into();
    let mut left = n;
    while left > 0 && flag() { let k = 1 + choose(left); e.add_child(small(k - 1)); left -= k; }
    e
}
/// All descendants in document order.
fn order<'a>(e: &'a XmlElement, out: &mut Vec<&'a XmlElement>) { for c in &e.children { out.push(c); order(c, out); } }

harnesses! {
    /// Texts made of up to 5 pieces of markup.
    fn h_c21_pieces() {
        let mut s = String::new();
        if flag() { s.push_str("<r>"); }
        let open = !s.is_empty();
        for _ in 0..choose(n(4, 5)) { s.push_str(PIECES[choose(24)]); }
        if open { s.push_str("</r>"); }
        agree(s.as_bytes());
    }
    /// Texts of arbitrary characters, alone, as text, as an attribute value, as a name or inside a tag.
    fn h_c21_chars() {
        let k = n(1, 2);
        let mut s = String::new();
        let (a, z) = [("", ""), ("<r>", "</r>"), ("<r v=\"", "\"/>"), ("<r v='", "'/>"), ("<r", "/>"), ("<r ", "=\"1\"/>"), ("<", "/>"), ("<r>&", ";</r>"), ("<r>&#", ";</r>"), ("<r>&#x1", ";</r>"), ("<r>a", "&amp;b</r>"), ("<!--", "--><r/>"), ("<r><![CDATA[", "]]></r>")][choose(13)];
        s.push_str(a);
        for _ in 0..k { s.push_str(&ascii(1)); }
        s.push_str(z);
        agree(s.as_bytes());
    }
    /// Bytes of any kind through the reader: a tree or an error.
    fn h_c21_bytes() {
        let mut v = [&b""[..], b"<r>", b"<", b"<?xml version=\"1.0\" encoding=\"", b"\xef\xbb\xbf", b"\xff\xfe"][choose(6)].to_vec();
        for _ in 0..choose(n(3, 4)) { v.push(byte()); }
        let _ = XmlParser::parse(&v[..]);
    }
    /// Well-formed documents of nested elements with attributes, namespaces, references, CDATA and comments.
    fn h_c21_tree() {
        let mut s = String::new();
        if true { s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n"); }
        s.push_str("<r xmlns:p=\"urn:p\">");
        node(n(1, 2), &mut s);
        s.push_str("</r>");
        agree(s.as_bytes());
    }
    /// Looking for elements in any small tree.
    fn h_c21_find() {
        let e = small(n(3, 4));
        let mut all = Vec::new();
        order(&e, &mut all);
        for l in ["a", "b", "c"] {
            let w: Vec<&&XmlElement> = all.iter().filter(|x| x.local_name == l).collect();
            let g = e.find_all_descendants(l);
            check(g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| std::ptr::eq(*a, **b)), "all descendants");
            check(match (e.find_descendant(l), w.first()) { (None, None) => true, (Some(a), Some(b)) => std::ptr::eq(a, **b), _ => false }, "the first descendant");
            let kids: Vec<&XmlElement> = e.children.iter().filter(|x| x.is(l)).collect();
            let g = e.find_all(l);
            check(g.len() == kids.len() && g.iter().zip(&kids).all(|(a, b)| std::ptr::eq(*a, *b)), "all children");
            check(match (e.find(l), kids.first()) { (None, None) => true, (Some(a), Some(b)) => std::ptr::eq(a, *b), _ => false }, "the first child");
        }
        let mut t = e.text.clone();
        for x in &all { t.push_str(&x.text); }
        check(e.text_content() == t, "the text below");
    }
    /// A slide of shapes with runs: which is the title, what the paragraphs say, how the runs look.
    fn h_c21_slide() {
        let k = 1 + choose(2);
        let rich = k == 1;
        let mut s = String::from("<p:sld xmlns:a=\"urn:a\" xmlns:p=\"urn:p\"><p:cSld><p:spTree><p:nvGrpSpPr><p:cNvPr id=\"1\" name=\"\"/></p:nvGrpSpPr>");
        let mut title: Option<String> = None;
        let mut body: Vec<String> = Vec::new();
        let mut runs: Vec<Vec<Vec<(String, bool, bool, bool, Option<u32>, Option<&str>)>>> = Vec::new();
        for i in 0..k {
            let (ph, name, kind) = [("<p:ph type=\"title\"/>", "x", 1), ("<p:ph type=\"ctrTitle\"/>", "x", 1), ("<p:ph type=\"subTitle\" idx=\"1\"/>", "Subtitle 2", 0), ("<p:ph type=\"body\" idx=\"1\"/>", "x", 2), ("<p:ph idx=\"1\"/>", "Content Placeholder 2", 2), ("", "Box", 0), ("", "Title", 1), ("<p:ph type=\"sldNum\"/>", "Slide Number", 0)][choose(8)];
            s.push_str(&format!("<p:sp><p:nvSpPr><p:cNvPr id=\"{}\" name=\"{}\"/><p:nvPr>{}</p:nvPr></p:nvSpPr><p:spPr/><p:txBody><a:bodyPr/>", i + 2, name, ph));
            let mut ps = Vec::new();
            let np = if rich { 1 + choose(2) } else { 1 };
            for j in 0..np {
                s.push_str("<a:p>");
                let mut rs = Vec::new();
                for q in 0..if rich && i + j == 0 { choose(3) } else { 1 } {
                    let t = format!("{}{}", ["r", " ", "&lt;"][if rich && i + j == 0 { choose(3) } else { 0 }], if i + j == 0 && q == 0 { "" } else { "z" });
                    let (a, b, it, u, sz) = [("", false, false, false, None), (" b=\"1\" i=\"0\"", true, false, false, None), (" i=\"true\" sz=\"1800\" b=\"true\"", true, true, false, Some(1800)), (" u=\"sng\"", false, false, true, None), (" u=\"none\" b=\"false\"", false, false, false, None)][if rich && i + j + q == 0 { choose(5) } else { 0 }];
                    let (c, cv) = [("<a:ln><a:solidFill><a:srgbClr val=\"00FF00\"/></a:solidFill></a:ln>", None), ("<a:solidFill><a:srgbClr val=\"FF0000\"/></a:solidFill>", Some("FF0000")), ("", None)][(i + q) % 3];
                    s.push_str(&format!("<a:r><a:rPr lang=\"en\"{a}>{c}</a:rPr><a:t>{t}</a:t></a:r>"));
                    rs.push((t.replace("&lt;", "<"), b, it, u, sz, cv));
                }
                s.push_str("</a:p>");
                if !rs.is_empty() { ps.push(rs); }
            }
            s.push_str("</p:txBody></p:sp>");
            let lines: Vec<String> = ps.iter().map(|p| p.iter().map(|r| r.0.as_str()).collect::<String>()).collect();
            if kind == 1 { title = Some(lines.join("\n")); }
            if kind == 2 { body.extend(lines.iter().cloned()); }
            runs.push(ps);
        }
        s.push_str("</p:spTree></p:cSld></p:sld>");
        match SlideParser::parse(&s) {
            Err(_) => fail("refused"),
            Ok(d) => {
                check(d.title == title, "the title");
                check(d.body_text == body, "the body");
                check(d.shapes.len() == k, "the shapes");
                for (g, w) in d.shapes.iter().zip(&runs) {
                    check(g.paragraphs.len() == w.len(), "the paragraphs");
                    for (p, q) in g.paragraphs.iter().zip(w) {
                        check(p.runs.len() == q.len(), "the runs");
                        for (r, x) in p.runs.iter().zip(q) {
                            check(r.text == x.0 && r.bold == x.1 && r.italic == x.2 && r.underline == x.3 && r.font_size == x.4 && r.color.as_deref() == x.5, "the look of a run");
                        }
                    }
                }
            }
        }
    }
    /// The text of a table cell of several paragraphs and runs, with its spans; the place of a shape.
    fn h_c21_table() {
        let mut s = String::from("<p:sld xmlns:a=\"urn:a\" xmlns:p=\"urn:p\"><p:cSld><p:spTree><p:sp><p:nvSpPr><p:cNvPr id=\"2\" name=\"B\"/><p:nvPr/></p:nvSpPr><p:spPr>");
        let at = [-5i64, 0, 914400, i64::MAX, 12][choose(5)];
        s.push_str(&format!("<a:xfrm><a:off x=\"{at}\" y=\"{}\"/><a:ext cx=\"7\" cy=\"{at}\"/></a:xfrm><a:prstGeom prst=\"rect\"/></p:spPr></p:sp><p:graphicFrame><a:graphic><a:graphicData><a:tbl><a:tblGrid/>", 3));
        let (r, c) = (1 + choose(2), 1 + choose(2));
        let mut want = Vec::new();
        for i in 0..r {
            s.push_str("<a:tr h=\"1\">");
            let mut row = Vec::new();
            for j in 0..c {
                let first = i + j == 0;
                let (a, rs, cs) = [("", 1, 1), (" rowSpan=\"2\"", 2, 1), (" gridSpan=\"2\"", 1, 2)][if first { choose(3) } else { 0 }];
                s.push_str(&format!("<a:tc{a}><a:txBody>"));
                let mut lines = Vec::new();
                for p in 0..if first { choose(3) } else { 1 } {
                    s.push_str("<a:p>");
                    let mut l = String::new();
                    for q in 0..if first { choose(3) } else { 1 } { let t = ["x", "y", " "][(p + q) % 3]; l.push_str(t); s.push_str(&format!("<a:r><a:t>{t}</a:t></a:r>")); }
                    s.push_str("</a:p>");
                    lines.push(l);
                }
                s.push_str("</a:txBody></a:tc>");
                row.push((lines, rs, cs));
            }
            s.push_str("</a:tr>");
            want.push(row);
        }
        s.push_str("</a:tbl></a:graphicData></a:graphic></p:graphicFrame></p:spTree></p:cSld></p:sld>");
        match SlideParser::parse(&s) {
            Err(_) => fail("refused"),
            Ok(d) => {
                let b = &d.shapes[0];
                check(b.x == at && b.y == 3 && b.width == 7 && b.height == at && b.shape_type.as_deref() == Some("rect"), "the place");
                check(d.tables.len() == 1, "one table");
                let t = &d.tables[0];
                check(t.row_count() == r && t.col_count() == c, "the size");
                for (g, w) in t.rows.iter().zip(&want) {
                    check(g.len() == c, "the cells of a row");
                    for (x, y) in g.iter().zip(w) {
                        check(x.row_span == y.1 && x.col_span == y.2, "the spans");
                        // empty paragraphs may be left out, as in shapes
                        let full: Vec<&str> = y.0.iter().map(|l| l.as_str()).filter(|l| !l.is_empty()).collect();
                        check(x.text == full.join("\n") || x.text == y.0.join("\n"), "the text of a cell");
                    }
                }
            }
        }
    }
}

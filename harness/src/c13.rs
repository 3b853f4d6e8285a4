//! C13: HTML import keeps the text, obeys its limits and never panics.
use crate::sx::*;
use ppt_rs::generator::SlideContent;
use ppt_rs::import::html::*;

/// What a slide should hold.
#[derive(Default, Clone)]
struct Want { title: Option<String>, bullets: Vec<(String, Option<&'static str>)>, table: Option<Vec<Vec<String>>>, code: Vec<String>, notes: Option<String> }
/// A document and what its slides should be.
#[derive(Default)]
struct Page { html: String, done: Vec<Want>, cur: Option<Want>, colour: Option<&'static str> }
impl Page {
    fn cur(&mut self) -> &mut Want { self.cur.get_or_insert_with(Want::default) }
    fn bullet(&mut self, t: String, c: Option<&'static str>) { let c = c.or(self.colour); self.cur().bullets.push((t, c)); }
    fn end(&mut self) { if let Some(w) = self.cur.take() { self.done.push(w); } }
    fn add(&mut self, s: &str) -> &mut Self { self.html.push_str(s); self }
}
/// Every slide obeys the options and is consistent.
fn limits(v: &Result<Vec<SlideContent>, String>, o: &HtmlParseOptions) {
    let Ok(v) = v else { return };
    check(v.len() <= o.max_slides, "more slides than asked for");
    for s in v {
        check(s.content.len() <= o.max_bullets, "more bullets than asked for");
        check(s.content.len() == s.bullets.len() && s.content.iter().zip(&s.bullets).all(|(a, b)| same_str(a, &b.text)), "bullets differ from content");
        check(s.has_table == s.table.is_some(), "the mark of a table");
        if !o.include_code { check(s.code_blocks.is_empty(), "code although not asked for"); }
        if !o.include_tables { check(s.table.is_none(), "a table although not asked for"); }
        if !o.include_images { check(s.images.is_empty() && !s.content.iter().any(|c| c.contains("[Image: ")), "a picture although not asked for"); }
    }
}
fn judge(mut p: Page, o: HtmlParseOptions) {
    p.end();
    let v = parse_html_with_options(&p.html, o.clone());
    limits(&v, &o);
    let v = match v { Ok(v) => v, Err(_) => { check(p.done.is_empty(), "an error although there is content"); return; } };
    check(!p.done.is_empty(), "slides although there is no content");
    check(v.len() == p.done.len().min(o.max_slides), "the number of slides");
    for (s, w) in v.iter().zip(&p.done) {
        if let Some(t) = &w.title { check(same_str(&s.title, t), "the title of a slide"); }
        check(s.bullets.len() == w.bullets.len().min(o.max_bullets), "the number of bullets");
        for (b, (t, c)) in s.bullets.iter().zip(&w.bullets) {
            check(same_str(&b.text, t), "a bullet");
            check(b.format.as_ref().and_then(|f| f.color.as_deref()) == *c, "the colour of a bullet");
        }
        if o.include_tables {
            check(s.table.is_some() == w.table.is_some(), "a table");
            if let (Some(a), Some(b)) = (&s.table, &w.table) {
                check(a.rows.len() == b.len(), "the rows of a table");
                for (x, y) in a.rows.iter().zip(b) {
                    check(x.cells.len() >= y.len(), "the cells of a row");
                    for (i, c) in x.cells.iter().enumerate() { check(same_str(&c.text, y.get(i).map_or("", |t| t)), "a table cell"); }
                }
            }
        }
        if o.include_code {
            check(s.code_blocks.len() == w.code.len(), "the number of code blocks");
            for (a, b) in s.code_blocks.iter().zip(&w.code) { check(same_str(&a.code, b), "the code"); }
        }
        match (&s.notes, &w.notes) {
            (Some(a), Some(b)) => check(same_str(a, b), "the notes"),
            (a, b) => check(a.is_none() && b.is_none(), "the notes"),
        }
    }
}
/// A text as it is written in HTML, and as it reads.
fn text() -> (String, String) {
    let (a, b) = [
        ("x", "x"), ("a &amp; b", "a & b"), ("&lt;p&gt;", "<p>"), ("1 < 2 and 3", "1 < 2 and 3"), ("&#65;&#x42;&#x63;", "ABc"), ("<b>a</b> <i>b</i>", "**a** *b*"), ("a<br>b", "a\nb"), ("a<br/>b<wbr>c", "a\nbc"),
        ("<a href=\"x\">a</a>b", "ab"), ("é漢😀", "é漢😀"), ("a<!-- <p> -->b", "ab"), ("a<!-->b", "ab"), ("AT&T; &unknown;", "AT&T; &unknown;"), ("&amp;lt;", "&lt;"), ("<span class=y>a</span>b", "ab"), ("a > b", "a > b"),
        ("a<script>if(1<b){'</p>'}</script>b", "ab"), ("a<img>b<input type=text>c", "abc"), ("a<svg><path d='M'/></svg>b", "ab"), ("a&nbsp;b", "a\u{a0}b"), ("a <= b << c <3", "a <= b << c <3"), ("<em>a<strong>b</strong></em>", "*a**b***"), ("a</b>b", "ab"), ("a</>b<?pi?>c", "abc"), ("&#128512;&#x1f600;", "😀😀"), ("a<!-- x --->b<!---->c<!--->d", "abcd"), ("&quot;&apos;&#39;&#x27;", "\"'''"), ("&#x110000;&#xd800;&#;&#x;", "&#x110000;&#xd800;&#;&#x;"), ("a&b", "a&b"), ("&&amp;;", "&&;"), ("a<i title='>'>b</i>", "a*b*"),
    ][choose(31)];
    (a.into(), b.into())
}
/// A text of any characters but the beginnings of markup and entities.
fn plain() -> (String, String) {
    if flag() { return ("x".into(), "x".into()); }
    let t = xml_ascii(n(2, 3));
    for b in t.bytes() { assume((b > 0x20) & (b != b'<') & (b != b'&') & (b != 0x7f)); }
    (t.clone(), t)
}
/// Adds one block, whose text is given.
fn block(p: &mut Page, k: usize, (h, t): (String, String)) {
    match k {
        0 => { p.end(); p.add(&format!("<h1>{h}</h1>")); p.cur().title = Some(t); }
        1 => { let l = 2 + choose(n(2, 5)); p.add(&format!("<h{l} id='x'>{h}</h{l}>")); p.bullet(format!("**{t}**"), None); }
        2 => { p.add(&format!("<p>{h}</p>\n")); p.bullet(t, None); }
        3 => { p.add(&format!("<p>{h}<p>z")); p.bullet(t, None); p.bullet("z".into(), None); p.add("</p>"); }
        4 => { p.add(&format!("<ul>\n <li>{h}</li>\n <li>z</li></ul>")); p.bullet(t, None); p.bullet("z".into(), None); }
        5 => { p.add(&format!("<ol><li>{h}<li><p>y</p><li><div>z</div></ol>")); for t in [t, "y".into(), "z".into()] { p.bullet(t, None); } }
        6 => { p.add(&format!("<table><tr><th>{h}</th><th>b</th></tr>\n<tr><td> c </td><td><p>d</p></td></tr></table>")); table(p, vec![vec![t, "b".into()], vec!["c".into(), "d".into()]]); }
        7 => { p.add(&format!("<table><thead><tr><td>a<td>{h}<tbody><tr><td>c</table>")); table(p, vec![vec!["a".into(), t], vec!["c".into()]]); }
        8 => { p.add(&format!("<blockquote><p>{h}</p>y</blockquote>")); p.cur().notes = Some(format!("{t}\ny")); }
        9 => { p.add(&format!("<div>{h}</div>")); p.bullet(t, None); }
        10 => { p.add(&format!("<p style=\"color: red\">{h}</p>z<br>")); p.bullet(t, Some("FF0000")); p.add("<div></div>"); p.bullet("z".into(), None); }
        11 => { p.add(&format!("<div style='color:#00f'><p>{h}</p><ul><li style='color:#0f0'>y</li></ul></div>")); p.bullet(t, Some("0000FF")); p.bullet("y".into(), Some("00FF00")); }
        12 => { p.add("<hr>"); p.end(); p.add(&format!("<p>{h}</p>")); p.bullet(t, None); }
        _ => { p.add(&format!("<section><h1>{h}</h1>q<article>z</article></section>")); p.end(); p.cur().title = Some(t); p.bullet("q".into(), None); p.bullet("z".into(), None); }
    }
}
fn table(p: &mut Page, rows: Vec<Vec<String>>) {
    if p.cur.as_ref().is_some_and(|w| w.table.is_some()) { p.end(); }
    p.cur().table = Some(rows);
}
/// Something that shows nothing.
fn nothing(k: usize) -> &'static str {
    [
        "", "<nav><img src='a.png' alt='b'>x</nav>", "<form><input type=\"text\">x<br></form>", "<script>var a = '<b>' < 1; if (a<b) {}</script>", "<style>p > a { color: red }</style>", "<!-- a -- <p>x</p> -->", "<!DOCTYPE html>", "<svg width=\"1\"/>",
        "<nav></p></div>x</nav>", "<script src=x/></script>", "<noscript><p>x</p></noscript>", "<?xml version='1.0'?>", "</div></li></table></b>", "<title>a < b</title>", "<svg><title>t</title><path d='x'/></svg>", "<p></p><ul><li></li></ul><table></table><pre>\n</pre><blockquote> </blockquote>", "<link rel=x><meta a=b>", "<canvas>x</canvas><iframe src=y>x</iframe>", "\n \t", "<SCRIPT>x</SCRIPT>",
    ][k]
}

harnesses! {
    /// Any two blocks, in any order.
    fn h_c13_blocks() {
        let mut p = Page::default();
        let k = n(3, 4);
        for _ in 0..k { let b = choose(14); block(&mut p, b, ("x".into(), "x".into())); }
        judge(p, HtmlParseOptions::new().include_images(false));
    }
    /// Any text in any block.
    fn h_c13_texts() {
        let mut p = Page::default();
        p.add("<html><head><title>x</title></head><body>");
        if flag() { block(&mut p, 0, ("T".into(), "T".into())); }
        let (b, t) = (choose(14), if flag() { text() } else { plain() });
        block(&mut p, b, t);
        block(&mut p, 2, ("last".into(), "last".into()));
        if flag() { p.add("</body></html>"); }
        judge(p, HtmlParseOptions::new().include_images(false));
    }
    /// What shows nothing changes nothing around it.
    fn h_c13_nothing() {
        let mut p = Page::default();
        let (a, b) = (choose(20), choose(14));
        p.add(nothing(a));
        block(&mut p, b, ("x".into(), "x".into()));
        p.add(nothing(if THOROUGH { choose(20) } else { a }));
        let b = choose(14);
        block(&mut p, b, ("y".into(), "y".into()));
        p.add(nothing(a));
        judge(p, HtmlParseOptions::new().include_images(false));
    }
    /// Code is kept as it is.
    fn h_c13_code() {
        let (h, t) = match choose(3) {
            0 => { let t = of_set(n(3, 4), b"a \n*;"); (t.clone(), t) }
            1 => [("<code>a\n  b</code>", "a\n  b"), ("<span>a</span>\n  <b>b</b>", "a\n  b"), ("  a\n    b", "  a\n    b"), ("\n\ta", "\ta"), ("a &lt; b", "a < b"), ("a<br>b", "a\nb"), ("<p>a</p>", "a")].map(|(a, b)| (a.to_string(), b.to_string()))[choose(7)].clone(),
            _ => { let (a, b) = plain(); (format!("a{a}z"), format!("a{b}z")) }
        };
        let mut p = Page::default();
        p.add("<h1>T</h1>").cur().title = Some("T".into());
        p.add("<pre>").add(&h).add("</pre>");
        let t = t.trim_start_matches('\n').trim_end().to_string();
        if !t.is_empty() { p.cur().code.push(t); }
        if flag() { p.add("<pre>z"); p.cur().code.push("z".into()); }
        judge(p, HtmlParseOptions::new().include_images(false));
    }
    /// Limits and kinds left out.
    fn h_c13_limits() {
        let o = HtmlParseOptions::new().max_slides(choose(4)).max_bullets(choose(4)).include_code(flag()).include_tables(flag()).include_images(flag());
        let mut p = Page::default();
        if flag() { p.add("<img src='none.png' alt='x'>"); if o.include_images { p.bullet("[Image: x]".into(), None); } }
        let k = choose(5);
        for _ in 0..n(2, 3) {
            block(&mut p, [1, 4, 0, 2, 10][k], ("x".into(), "x".into()));
            p.add("<pre>c</pre>");
            if o.include_code { p.cur().code.push("c".into()); }
            p.add("<table><tr><td>d</table>");
            if o.include_tables { table(&mut p, vec![vec!["d".into()]]); }
        }
        judge(p, o);
    }
    /// A list within an item of a list.
    fn h_c13_nested_list() {
        let mut p = Page::default();
        p.add("<h1>T</h1>").cur().title = Some("T".into());
        let first = flag();
        p.add("<ul>");
        if first { p.add("<li>a</li>"); }
        p.add("<li>b<ul><li>c</li></ul></li><li>d</li></ul>");
        for t in if first { vec!["a", "b", "c", "d"] } else { vec!["b", "c", "d"] } { p.bullet(t.into(), None); }
        known(4);
        judge(p, HtmlParseOptions::new());
    }
    /// Any pieces of markup in any order.
    fn h_c13_pieces() {
        let mut h = String::new();
        for _ in 0..n(3, 4) {
            h.push_str([
                "<", ">", "</", "<!", "<!--", "-->", "<?", "<p>", "</p>", "<h1>", "</h1>", "<h3 ", "<ul>", "<li>", "</ul>", "<table>", "<td>", "</tr>", "</table>", "<pre>", "</pre>", "<blockquote>", "</blockquote>", "<script>", "</script", "<b>", "</i>", "<br/>", "<hr>", "<img src=x>", "a ", "=\"", "' /", "style='color:", "&", "&#", ";", "é",
            ][choose(38)]);
        }
        let o = HtmlParseOptions::new().max_bullets(1).include_images(false);
        limits(&parse_html_with_options(&h, o.clone()), &o);
    }
    /// Any bytes, in any place.
    fn h_c13_bytes() {
        let h = match choose(9) {
            0 => { let t = xml_ascii(n(3, 4)); t }
            1 => chars(n(2, 2)),
            2 => format!("<p>&#{};</p>", xml_ascii(n(2, 3))),
            3 => format!("<p>&#x{};</p>", of_set(n(3, 4), b"0dDfF8+-g")),
            4 => format!("<{}>x", xml_ascii(n(2, 3))),
            5 => format!("<p {}>x</p>", xml_ascii(n(2, 3))),
            6 => format!("<p style=\"color:{}\">x</p>", of_set(n(4, 5), b"#0f(,)rgb ")),
            7 => format!("<p style=\"font-size:{}\">x</p>", of_set(n(3, 4), b"0-9.pxte")),
            _ => format!("<p style=\"{}\">x</p>", of_set(n(3, 4), b":;a-' ")),
        };
        let o = HtmlParseOptions::new();
        limits(&parse_html(&h), &o);
    }
    /// The ways to import.
    fn h_c13_ways() {
        let mut p = Page::default();
        let (a, b) = (choose(14), choose(14));
        block(&mut p, a, plain());
        block(&mut p, b, ("y".into(), "y".into()));
        std::fs::write("x.html", &p.html).unwrap();
        let show = |v: Result<Vec<SlideContent>, String>| v.unwrap().iter().map(|s| format!("{}|{}|{}|{}|{:?}", s.title, s.content.join(","), s.table.is_some(), s.code_blocks.len(), s.notes.is_some())).collect::<Vec<_>>().join("/");
        let x = show(parse_html(&p.html));
        for y in [Html2Ppt::new().parse_file("x.html"), Html2Ppt::default().parse(&p.html), Html2Ppt::with_options(HtmlParseOptions::new()).parse(&p.html), parse_html_with_options(&p.html, HtmlParseOptions::default())] { check(same_str(&x, &show(y)), "two ways to import differ"); }
        judge(p, HtmlParseOptions::new());
    }
}

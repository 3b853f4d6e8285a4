//! C14: Markdown import keeps the content, in order, and never panics.
use crate::sx::*;
use ppt_rs::cli::parse_markdown;
use ppt_rs::generator::SlideContent;

/// What a slide should hold.
#[derive(Default, Clone)]
struct Want { title: Option<String>, bullets: Vec<String>, table: Option<Vec<Vec<String>>>, code: Vec<(String, String)>, notes: Vec<String>, shapes: Vec<String> }
/// A document and what its slides should be.
#[derive(Default)]
struct Page { md: String, done: Vec<Want>, cur: Option<Want>, next: Option<String> }
impl Page {
    fn cur(&mut self) -> &mut Want {
        let next = &mut self.next;
        self.cur.get_or_insert_with(|| Want { title: next.take(), ..Want::default() })
    }
    fn bullet(&mut self, t: &str) { self.cur().bullets.push(t.into()); }
    fn end(&mut self) { self.next = None; if let Some(w) = self.cur.take() { self.done.push(w); } }
    fn rest(&mut self) {
        self.end();
        self.next = self.done.last().and_then(|w| w.title.as_ref()).map(|t| format!("{t} (continued)"));
    }
    fn start(&mut self, t: &str) { self.end(); self.cur().title = Some(t.into()); }
    fn table(&mut self, rows: &[&[&str]]) {
        if self.cur.as_ref().is_some_and(|w| w.table.is_some()) { self.rest(); }
        self.cur().table = Some(rows.iter().map(|r| r.iter().map(|t| t.to_string()).collect()).collect());
    }
    fn note(&mut self, t: &str) { self.cur().notes.push(t.into()); }
    fn add(&mut self, s: &str) -> &mut Self { self.md.push_str(s); self }
}
/// Every slide is consistent.
fn sound(v: &Result<Vec<SlideContent>, String>) {
    let Ok(v) = v else { return };
    check(!v.is_empty(), "no slides and no error");
    for s in v {
        check(s.content.len() == s.bullets.len() && s.content.iter().zip(&s.bullets).all(|(a, b)| same_str(a, &b.text)), "bullets differ from content");
        check(s.has_table == s.table.is_some(), "the mark of a table");
    }
}
fn judge(mut p: Page) {
    p.end();
    let v = parse_markdown(&p.md);
    sound(&v);
    let v = match v { Ok(v) => v, Err(_) => { check(p.done.is_empty(), "an error although there is content"); return; } };
    check(v.len() == p.done.len(), "the number of slides");
    for (s, w) in v.iter().zip(&p.done) {
        if let Some(t) = &w.title { check(same_str(&s.title, t), "the title of a slide"); }
        check(s.bullets.len() == w.bullets.len(), "the number of bullets");
        for (b, t) in s.bullets.iter().zip(&w.bullets) { check(same_str(&b.text, t), "a bullet"); }
        check(s.table.is_some() == w.table.is_some(), "a table");
        if let (Some(a), Some(b)) = (&s.table, &w.table) {
            check(a.rows.len() == b.len(), "the rows of a table");
            for (x, y) in a.rows.iter().zip(b) {
                check(x.cells.len() == y.len(), "the cells of a row");
                for (c, t) in x.cells.iter().zip(y) { check(same_str(&c.text, t), "a table cell"); }
            }
        }
        check(s.code_blocks.len() == w.code.len(), "the number of code blocks");
        for (a, (l, c)) in s.code_blocks.iter().zip(&w.code) { check(same_str(&a.code, c) && same_str(&a.language, l), "the code"); }
        match &s.notes {
            Some(n) => check(same_str(n, &w.notes.join("\n")), "the notes"),
            None => check(w.notes.is_empty(), "the notes"),
        }
        let texts: Vec<&str> = s.shapes.iter().filter_map(|s| s.text.as_deref()).collect();
        check(w.shapes.iter().all(|t| texts.contains(&t.as_str())), "a shape");
        check(s.images.is_empty() && (!w.shapes.is_empty() || s.shapes.is_empty()), "something more on a slide");
    }
}
/// A text as it is written in Markdown, and as it is imported.
fn text() -> (String, String) {
    let (a, b) = [
        ("x", "x"), ("a *b* c", "a *b* c"), ("**a**b", "**a**b"), ("**a & b**", "**a & b**"), ("***a***", "***a***"), ("~~a~~ b", "~~a~~ b"), ("`a*b`", "`a*b`"), ("a &amp; &lt;p&gt;", "a & <p>"),
        ("a \\* b", "a * b"), ("a\\_b", "a_b"), ("[a](http://x/y)b", "ab"), ("<http://x/y>", "http://x/y"), ("é漢😀", "é漢😀"), ("a<!-- x -->b", "ab"), ("1 < 2 > 1", "1 < 2 > 1"), ("a<br>b", "a\nb"),
        ("H<sub>2</sub>O", "H2O"), ("**a *b* c**", "**a *b* c**"), ("*a **b** c*", "*a **b** c*"), ("~~a *b*~~", "~~a *b*~~"), ("**~~a~~**", "**~~a~~**"), ("AT&T; &unknown;", "AT&T; &unknown;"), ("&#65;&#x42;", "AB"), ("a * b * c", "a * b * c"),
        ("snake_case_x", "snake_case_x"), ("a ! b", "a ! b"), ("[a] [x]", "[a] [x]"), ("a<!-- </<mark> -->b", "ab"), ("a<!-- <sub></x -->b", "ab"), ("\"q\" 'r'", "\"q\" 'r'"), ("\\# a", "# a"), ("a :b; c, 50%", "a :b; c, 50%"),
    ][choose(32)];
    (a.into(), b.into())
}
/// A text of characters that mean nothing in Markdown.
fn plain() -> (String, String) {
    if flag() { return ("x".into(), "x".into()); }
    let mut t = String::from("x");
    for _ in 0..n(2, 3) {
        let b = byte();
        assume((b >= 0x20) & (b < 0x7f));
        for c in *b"\\`*_[]<>|&~" { assume(b != c); }
        t.push(b as char);
    }
    t.push('z');
    (t.clone(), t)
}
const KINDS: usize = 21;
/// Adds one block, whose text is given.
fn block(p: &mut Page, k: usize, (m, t): (String, String)) {
    match k {
        0 => { p.add(&format!("# {m}\n")); p.start(&t); }
        1 => { let l = ["##", "###", "######"][choose(n(1, 3))]; p.add(&format!("{l} {m}\n")); p.bullet(&format!("**{t}**")); }
        2 => { p.add(&format!("{m}\n")); p.bullet(&t); }
        3 => { p.add(&format!("- {m}\n- z\n")); p.bullet(&t); p.bullet("z"); }
        4 => { p.add(&format!("1. y\n2. {m}\n\n3. z\n")); for t in ["y", &t, "z"] { p.bullet(t); } }
        5 => { p.add(&format!("* y\n  * {m}\n    + w\n  * v\n* z\n")); for t in ["y", &t, "w", "v", "z"] { p.bullet(t); } }
        6 => { p.add(&format!("| a | {m} |\n|---|:-:|\n| c | d |\n| e |\n| | f |\n|||\n")); p.table(&[&["a", &t], &["c", "d"], &["e", ""], &["", "f"], &["", ""]]); }
        7 => { p.add(&format!("a|b\n-|-\n{m}|\n|e\n`|` | \n\\| | é\n")); p.table(&[&["a", "b"], &[&t, ""], &["e", ""], &["`", "`"], &["|", "é"]]); }
        8 => { p.add("```rust\n  a {\n    b\n\n}\n```\n"); p.cur().code.push(("rust".into(), "  a {\n    b\n\n}".into())); }
        9 => { p.add(&format!("~~~\n# {m}\n- b\n~~~\n")); p.cur().code.push(("text".into(), format!("# {m}\n- b"))); }
        10 => { p.add(&format!("> {m}\n> y\n")); p.note(&format!("{t} y")); }
        11 => { p.add(&format!("> {m}\n>\n> # y\n> - z\n> > w\n")); for t in [&t, "y", "z", "w"] { p.note(t); } }
        12 => { p.add("---\n"); p.rest(); }
        13 => { p.add(&format!("{m}\nb  \nc\\\nd\n")); p.bullet(&format!("{t} b c d")); }
        14 => { p.add(&format!("{m}\n===\n")); p.start(&t); }
        15 => { p.add(&format!("{m}\n---\n")); p.bullet(&format!("**{t}**")); }
        16 => { p.add(&format!("- y\n\n  {m}\n\n      c\n\n  ```\n  d\n  ```\n- ## z\n")); p.bullet("y"); p.bullet(&t); p.cur().code.extend([("text".into(), "c".into()), ("text".into(), "d".into())]); p.bullet("**z**"); }
        17 => { p.add(&format!("- y\n  > {m}\n\n- z\n  # w\n")); p.bullet("y"); p.note(&t); p.bullet("z"); p.start("w"); }
        18 => { p.add(&format!("![{m}](none.png \"t\")\n")); p.cur().shapes.push(format!("[Image: {t}]")); }
        20 => { p.add(&format!("| | |\n|-|-|\n|{m}|b|\n")); p.table(&[&["", ""], &[&t, "b"]]); }
        _ => { p.add(&format!("- [ ] y\n- [x] {m}\n")); p.bullet("y"); p.bullet(&t); }
    }
    p.add("\n");
}
/// Something that shows nothing.
fn nothing(k: usize) -> &'static str {
    ["", "<!-- a -->\n\n", "<div class=\"x\">\n</div>\n\n", "[x]: http://y/z\n\n", "\n\n", "+++\na = 1\n+++\n\n", "-\n\n", "##\n\n", "```\n```\n\n", ">\n\n", "```\n  \n```\n\n", "<br>\n\n"][k]
}
/// May follow itself and others without one being read as part of the other.
fn apart(p: &mut Page, a: usize, b: usize) {
    let list = |k| matches!(k, 3 | 4 | 5 | 16 | 17 | 19);
    if (list(a) && list(b)) || (matches!(a, 10 | 11) && matches!(b, 10 | 11)) { p.add("<!-- -->\n\n"); }
}

harnesses! {
    /// Any blocks, in any order.
    fn h_c14_blocks() {
        let mut p = Page::default();
        let mut last = 0;
        for i in 0..n(2, 3) {
            let b = choose(KINDS);
            if i > 0 { apart(&mut p, last, b); }
            block(&mut p, b, ("x".into(), "x".into()));
            last = b;
        }
        if flag() { block(&mut p, 0, ("T".into(), "T".into())); }
        judge(p);
    }
    /// Any text in any block.
    fn h_c14_texts() {
        let mut p = Page::default();
        if flag() { block(&mut p, 0, ("T".into(), "T".into())); }
        let b = choose(KINDS);
        let (m, t) = text();
        let bold = (b == 1 || b == 15) && m.contains("**");
        assume(!bold && !(b == 18 && m != t));
        block(&mut p, b, (m, t));
        block(&mut p, 2, ("last".into(), "last".into()));
        judge(p);
    }
    /// Any plain text in any block.
    fn h_c14_plain() {
        let mut p = Page::default();
        let (b, t) = (choose(KINDS), plain());
        block(&mut p, b, t);
        judge(p);
    }
    /// What shows nothing changes nothing around it.
    fn h_c14_nothing() {
        let mut p = Page::default();
        let (a, b, c) = (choose(12), choose(KINDS), choose(KINDS));
        p.add(nothing(a));
        block(&mut p, b, ("x".into(), "x".into()));
        apart(&mut p, b, c);
        p.add(nothing(a));
        block(&mut p, c, ("y".into(), "y".into()));
        p.add(nothing(a));
        judge(p);
    }
    /// Code is kept as it is.
    fn h_c14_code() {
        let t = of_set(n(3, 4), b"a \n*#`|");
        let mut p = Page::default();
        p.add("# T\n").start("T");
        let lang = ["", "rust", "c++", "text"][choose(4)];
        p.add(&format!("~~~{lang}\n{t}\n~~~\n"));
        let c = t.trim_start_matches('\n').trim_end().to_string();
        if !c.is_empty() { p.cur().code.push((if lang.is_empty() { "text".into() } else { lang.into() }, c)); }
        block(&mut p, 2, ("last".into(), "last".into()));
        judge(p);
    }
    /// Front matter, line ends and the like.
    fn h_c14_documents() {
        let mut p = Page::default();
        match choose(5) {
            0 => { p.add("---\ntitle: a\nkey-2: \"b\"\n---\n"); }
            1 => { p.add("---\n\n"); }
            2 => { p.add("+++\ntitle = 'a'\n+++\n"); }
            3 => { p.add("---\ntitle: a\n\nb\n"); p.bullet("title: a"); p.bullet("b"); p.add("\n"); }
            _ => {}
        }
        let (a, b) = (choose(KINDS), choose(KINDS));
        block(&mut p, a, plain());
        apart(&mut p, a, b);
        block(&mut p, b, ("y".into(), "y".into()));
        match choose(3) { 0 => p.md = p.md.replace('\n', "\r\n"), 1 => p.md = p.md.trim_end().to_string(), _ => {} }
        judge(p);
    }
    /// Any pieces of markup in any order.
    fn h_c14_pieces() {
        let mut m = String::new();
        for _ in 0..n(2, 3) {
            m.push_str([
                "# ", "## ", "- ", "1. ", "  ", "    ", "\n", "\n\n", "> ", "```", "~~~", "---\n", "===\n", "+++\n", "|", "a|b\n-|-\n", "**", "*", "~~", "`", "[x](y)", "![x](y)", "![", "](z)", "<!-- ", "-->", "<mark>", "</", "<sub>", ">", "<br>", "<div>\n", "a", "é", "&amp;", "\\", "- [x] ", "mermaid\n", ":---:", "\t",
            ][choose(40)]);
        }
        sound(&parse_markdown(&m));
    }
    /// Any bytes, in any place.
    fn h_c14_bytes() {
        let m = match choose(6) {
            0 => xml_ascii(n(2, 3)),
            1 => chars(n(1, 2)),
            2 => format!("# T\n{}", xml_ascii(n(1, 3))),
            3 => format!("a <!--{}<mark>-->", of_set(n(3, 4), b"</> ")),
            4 => format!("- a\n{}b", of_set(n(3, 4), b" -\n>*")),
            _ => format!("|a|\n|-|\n{}", of_set(n(3, 4), b"|\\a\n`")),
        };
        sound(&parse_markdown(&m));
    }
}

//! C17: Markdown export shows all text of the slides, each text on its line, and lets none of it become markup.
use crate::deck::*;
use crate::sx::*;
use ppt_rs::api::Presentation;
use ppt_rs::export::md::*;
use ppt_rs::generator::*;

type Text = Vec<u8>;
/// What a reader of Markdown sees.
enum Block { Head(usize, Text), Item(Text), Grid(Vec<Vec<Text>>), Picture(Text, Text), Code(Text, Text), Quote(Text), Para(Text), Rule }
use Block::*;

fn blank(b: u8) -> bool { (b == b' ') | (b == 9) }
fn trim(mut t: &[u8]) -> &[u8] {
    while t.first().is_some_and(|b| blank(*b)) { t = &t[1..]; }
    while t.last().is_some_and(|b| blank(*b)) { t = &t[..t.len() - 1]; }
    t
}
fn punct(b: u8) -> bool { ((b >= 33) & (b <= 47)) | ((b >= 58) & (b <= 64)) | ((b >= 91) & (b <= 96)) | ((b >= 123) & (b <= 126)) }
fn digit(b: u8) -> bool { (b >= b'0') & (b <= b'9') }
fn word(b: u8) -> bool { digit(b) | ((b | 32 >= b'a') & (b | 32 <= b'z')) }
/// The text that is shown, if there is no markup in it.
fn inline(t: &[u8]) -> Option<Text> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let b = t[i];
        if b == b'\\' && i + 1 < t.len() && punct(t[i + 1]) { v.push(t[i + 1]); i += 2; continue; }
        if t[i..].starts_with(b"<br>") { v.push(10); i += 4; continue; }
        if (b == b'*') | (b == b'_') | (b == b'[') | (b == b']') | (b == b'`') | (b == b'<') | (b == b'~') { return None; }
        if b == b'&' {
            let mut j = i + 1;
            while j < t.len() && (word(t[j]) | (t[j] == b'#')) { j += 1; }
            if j > i + 1 && j < t.len() && t[j] == b';' { return None; }
        }
        v.push(b);
        i += 1;
    }
    Some(v)
}
/// Whether a line of text would be taken for something else.
fn starts(t: &[u8]) -> bool {
    let Some(&b) = t.first() else { return false };
    let gap = |i: usize| t.get(i).is_none_or(|b| blank(*b));
    if (b == b'>') | (b == b'\t') || t.starts_with(b"    ") || t.starts_with(b"```") || t.starts_with(b"~~~") { return true; }
    if ((b == b'-') | (b == b'+') | (b == b'*')) && gap(1) { return true; }
    let n = t.iter().take_while(|c| **c == b'#').count();
    if n > 0 && n < 7 && gap(n) { return true; }
    let n = t.iter().take_while(|c| digit(**c)).count();
    if n > 0 && n < 10 && n < t.len() && ((t[n] == b'.') | (t[n] == b')')) && gap(n + 1) { return true; }
    ((b == b'-') | (b == b'_') | (b == b'*')) && t.iter().all(|c| (*c == b) | blank(*c)) && t.iter().filter(|c| **c == b).count() > 2
}
/// A text that is all there is after a marker.
fn after(t: &[u8]) -> Option<Text> {
    if t.first().is_some_and(|b| !blank(*b)) || t.len() > 1 && starts(&t[1..]) { return None; }
    inline(trim(t))
}
fn cells(l: &[u8]) -> Vec<Text> {
    let mut v = vec![Vec::new()];
    let mut i = 1;
    while i < l.len() {
        if l[i] == b'\\' && i + 1 < l.len() { v.last_mut().unwrap().extend_from_slice(&l[i..i + 2]); i += 2; continue; }
        if l[i] == b'|' { v.push(Vec::new()); } else { v.last_mut().unwrap().push(l[i]); }
        i += 1;
    }
    if v.last().is_some_and(|t| trim(t).is_empty()) { v.pop(); }
    v
}
fn read(md: &[u8]) -> Result<Vec<Block>, &'static str> {
    let lines: Vec<&[u8]> = md.split(|b| *b == 10).map(|l| if l.last() == Some(&13) { &l[..l.len() - 1] } else { l }).collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        i += 1;
        if trim(l).is_empty() { continue; }
        let hashes = l.iter().take_while(|b| **b == b'#').count();
        if hashes > 0 {
            let t = after(&l[hashes..]).ok_or("markup in a heading")?;
            v.push(Head(hashes, t));
        } else if l == b"---" {
            v.push(Rule);
        } else if l[0] == b'-' {
            v.push(Item(after(&l[1..]).ok_or("markup in a list item")?));
        } else if l[0] == b'>' {
            v.push(Quote(after(&l[1..]).ok_or("markup in a note")?));
        } else if l[0] == b'|' {
            let head = cells(l);
            let Some(d) = lines.get(i).map(|l| cells(l)) else { return Err("a table of one line") };
            if d.len() != head.len() || !d.iter().all(|c| trim(c) == b"---") { return Err("the line below the head of a table") }
            i += 1;
            let mut rows = vec![head];
            while i < lines.len() && lines[i].first() == Some(&b'|') { rows.push(cells(lines[i])); i += 1; }
            let mut t = Vec::new();
            for r in rows {
                let mut x = Vec::new();
                for c in r { x.push(inline(trim(&c)).ok_or("markup in a table cell")?); }
                t.push(x);
            }
            v.push(Grid(t));
        } else if l.starts_with(b"```") {
            let n = l.iter().take_while(|b| **b == b'`').count();
            if l[n..].contains(&b'`') { return Err("the fence of code"); }
            let mut code = Vec::new();
            loop {
                let Some(c) = lines.get(i) else { return Err("code without an end") };
                i += 1;
                if c.len() >= n && trim(c).iter().all(|b| *b == b'`') && trim(c).len() >= n { break; }
                code.extend_from_slice(c);
                code.push(10);
            }
            code.pop();
            v.push(Code(trim(&l[n..]).to_vec(), code));
        } else if l.starts_with(b"![") {
            let k = l.iter().position(|b| *b == b']').ok_or("a picture")?;
            if l.get(k + 1) != Some(&b'(') || l.last() != Some(&b')') { return Err("a picture"); }
            v.push(Picture(l[2..k].to_vec(), l[k + 2..l.len() - 1].to_vec()));
        } else if l == b"**Notes:**" {
            v.push(Para(l.to_vec()));
        } else {
            if starts(l) { return Err("something that is not text"); }
            v.push(Para(inline(trim(l)).ok_or("markup in a text")?));
        }
    }
    Ok(v)
}
/// What a text is on one line.
fn shown(t: &str) -> Text {
    let mut v = Vec::new();
    let b = trim(t.as_bytes());
    for i in 0..b.len() {
        if b[i] == 13 { if b.get(i + 1) != Some(&10) { v.push(10); } } else { v.push(b[i]); }
    }
    v
}
/// The title in the head of the page, and the rest of the page.
fn matter(md: &[u8], slides: usize) -> Option<(Text, &[u8])> {
    let r = md.strip_prefix(b"---\ntitle: ".as_slice())?;
    let mut t = Vec::new();
    let mut r = if let Some(mut r) = r.strip_prefix(b"\"".as_slice()) {
        loop {
            let (&b, x) = r.split_first()?;
            r = x;
            if b == b'"' { break; }
            if b == 10 { return None; }
            if b != b'\\' { t.push(b); continue; }
            let (&e, x) = r.split_first()?;
            r = x;
            match e {
                b'"' | b'\\' | b'/' => t.push(e),
                b'n' => t.push(10), b'r' => t.push(13), b't' => t.push(9), b'0' => t.push(0), b'e' => t.push(27),
                b'x' | b'u' => {
                    let k = if e == b'x' { 2 } else { 4 };
                    if r.len() < k { return None; }
                    let c = u32::from_str_radix(std::str::from_utf8(&r[..k]).ok()?, 16).ok()?;
                    t.extend_from_slice(char::from_u32(c)?.to_string().as_bytes());
                    r = &r[k..];
                }
                _ => return None,
            }
        }
        r.strip_prefix(b"\n".as_slice())?
    } else {
        let r = r.strip_prefix(b"|2-\n".as_slice())?;
        let (mut r, mut first) = (r, true);
        while let Some(l) = r.strip_prefix(b"  ".as_slice()) {
            let k = l.iter().position(|b| *b == 10)?;
            if !first { t.push(10); }
            first = false;
            t.extend_from_slice(&l[..k]);
            r = &l[k + 1..];
        }
        r
    };
    for l in [format!("slides: {slides}\n"), "generator: ".into()] { r = r.strip_prefix(l.as_bytes())?; }
    let k = r.iter().position(|b| *b == 10)?;
    Some((t, r[k + 1..].strip_prefix(b"---\n\n".as_slice())?))
}
fn expected(p: &Presentation, o: &MarkdownOptions) -> Vec<Block> {
    let mut v = vec![Head(1, shown(p.get_title()))];
    for (i, s) in p.slides().iter().enumerate() {
        if i > 0 || o.include_slide_numbers { v.push(if o.slide_separator == "---" { Rule } else { Para(o.slide_separator.as_bytes().to_vec()) }); }
        let mut t = if o.include_slide_numbers { format!("Slide {}: ", i + 1).into_bytes() } else { Vec::new() };
        t.extend_from_slice(&shown(&s.title));
        v.push(Head(2, trim(&t).to_vec()));
        for b in &s.content { v.push(Item(shown(b))); }
        if let (true, Some(t)) = (o.use_gfm_tables, &s.table) {
            let n = t.rows.iter().map(|r| r.cells.len()).max().unwrap_or(0);
            let rows = t.rows.iter().map(|r| (0..n).map(|c| r.cells.get(c).map(|c| shown(&c.text)).unwrap_or_default()).collect()).collect();
            if n > 0 { v.push(Grid(rows)); }
        }
        if o.include_images { for (k, m) in s.images.iter().enumerate() {
            let ext = m.format.to_lowercase().replace("jpeg", "jpg");
            v.push(Picture(format!("Image {} on slide {}", k + 1, i + 1).into(), format!("images/slide{}_image{}.{ext}", i + 1, k + 1).into()));
        } }
        for c in &s.code_blocks { v.push(Code(trim(c.language.as_bytes()).to_vec(), c.code.as_bytes().to_vec())); }
        if let (true, Some(t)) = (o.include_notes, &s.notes) { if !t.is_empty() { v.push(Para(b"**Notes:**".to_vec())); v.push(Quote(shown(t))); } }
    }
    v
}
fn agree(a: &Block, b: &Block) {
    match (a, b) {
        (Head(n, t), Head(m, u)) => { check(n == m, "the level of a heading"); check(same(t, u), "a heading"); }
        (Item(t), Item(u)) => check(same(t, u), "a bullet"),
        (Quote(t), Quote(u)) => check(same(t, u), "the notes"),
        (Para(t), Para(u)) => check(same(t, u), "a line of text"),
        (Picture(t, x), Picture(u, y)) => check(same(t, u) && same(x, y), "a picture"),
        (Code(t, x), Code(u, y)) => { check(same(t, u), "the language of code"); check(same(x, y), "the code"); }
        (Grid(t), Grid(u)) => {
            check(t.len() == u.len(), "the rows of a table");
            for (x, y) in t.iter().zip(u) {
                check(x.len() == y.len(), "the cells of a row");
                for (x, y) in x.iter().zip(y) { check(same(x, y), "a table cell"); }
            }
        }
        (Rule, Rule) => {}
        _ => fail("something else than what the slide has there"),
    }
}
/// Judges the page of a presentation.
fn page(p: &Presentation, o: &MarkdownOptions) {
    let Ok(md) = export_to_markdown_with_options(p, o) else { fail("cannot be exported"); return };
    let mut r = md.as_bytes();
    if o.include_frontmatter {
        let Some((t, x)) = matter(r, p.slides().len()) else { fail("the head of the page"); return };
        check(same(&t, p.get_title().as_bytes()), "the title in the head");
        r = x;
    }
    match read(r) {
        Ok(v) => {
            let w = expected(p, o);
            check(v.len() == w.len(), "more or less than the slides have");
            for (a, b) in v.iter().zip(&w) { agree(a, b); }
        }
        Err(e) => fail(e),
    }
}
fn options() -> MarkdownOptions {
    MarkdownOptions::new().with_notes(flag()).with_slide_numbers(flag()).with_gfm_tables(flag()).with_images(flag()).with_frontmatter(flag()).with_separator(["---", "@@@"][choose(2)])
}
fn code(mut s: SlideContent, c: &str, l: &str) -> SlideContent { s.code_blocks.push(CodeBlock::new(c, l)); s }
fn cell(t: &str) -> TableCell { TableCell::new(t) }
fn slide(kind: usize) -> SlideContent {
    let t = SlideContent::new("Title");
    match kind {
        0 => t.add_bullet("a").add_numbered("b").add_sub_bullet("c").add_lettered("d").notes("n"),
        1 => t.table(table()).add_image(image(1, "png")).add_image(lost_image()).add_image(image(2, "jpeg")),
        2 => code(code(t, "fn main() {}\n  x\n", "rust"), "", "").table(TableBuilder::new(vec![1000; 3]).add_row(TableRow::new(vec![cell("a")])).add_row(TableRow::new(vec![cell("b"), cell("c"), cell("d")])).add_row(TableRow::new(vec![])).build()),
        3 => SlideContent::new("").notes(""),
        4 => t.table(TableBuilder::new(vec![1000]).add_row(TableRow::new(vec![])).build()).notes("n"),
        _ => code(t.add_bullet("").add_bullet("").add_bullet("").notes("a\nb").add_image(image(3, "GIF")).add_image(image(4, "jpg")), "```\nx\n````\n", "c++").table(Table::from_data(vec![vec!["<b>"]], vec![1000], 0, 0)),
    }
}
/// Texts with what might be taken for markup.
fn text() -> String {
    let t = match choose(n(6, 7)) {
        0 => xml_ascii(n(2, 3)),
        1 => format!("{}a", of_set(n(3, 4), b"-+*.)0 #|")),
        2 => format!("a{}b", of_set(n(2, 3), b"\\`*_[]<>&;\n\r|~!")),
        3 => [
            "# a", "- a", "1. a", "12) a", "    code", "\tcode", "---", "***", "___", "> a", "```", "~~~", "a\n- b", "a\n\n# b", "[a](b)", "![a](b)", "<script>", "&amp;", "&#35;", "&", "& b;", "a|b", "a\\|b",
            "a\\", "\\", "a  ", "a\r\nb", "a\n---\nb", "a\n===", "[a]: b", "|a|b|", "a  \nb", "+", "-", "1.", "<!--", "\n", "\na", "a\n", "a: b", "'a'", "\"a\"", "%a", "@a", "{a", "? a", "~~a~~", "**a", "1234567890. a", "é. a", "1é. a", "a\u{2028}b", "a\u{85}b", "a\u{7f}b", "a\tb", "title: x\n---",
        ][choose(56)].to_string(),
        4 => { let t = chars(1); let b = t.as_bytes(); assume(b[0] >= 0x20); t }
        5 => format!("{}. {}", of_set(2, b"0123456789a\\"), of_set(1, b"a-")),
        _ => format!("{}<{}", printable(1), printable(2)),
    };
    t
}

harnesses! {
    /// Slides of every kind with every option.
    fn h_c17_slides() {
        let k = choose(n(2, 3));
        let mut p = Presentation::with_title("Deck");
        for _ in 0..k { p = p.add_slide(slide(choose(6))); }
        page(&p, &options());
    }
    /// Any text in any place.
    fn h_c17_texts() {
        let t = text();
        let s = SlideContent::new("T");
        let mut title = "Deck".to_string();
        let s = match choose(7) {
            0 => { title = t.clone(); s }
            1 => { let mut s = s; s.title = t.clone(); s }
            2 => s.add_bullet("x").add_bullet(&t).add_bullet("y"),
            3 => s.notes(&t),
            4 => s.table(Table::from_data(vec![vec!["a", &t], vec!["c", "d"]], vec![1000; 2], 0, 0)),
            5 => s.table(Table::from_data(vec![vec!["a", "b"], vec![&t, "d"]], vec![1000; 2], 0, 0)),
            _ => s.add_sub_bullet(&t),
        };
        let p = Presentation::with_title(&title).add_slide(s).add_slide(slide(0));
        page(&p, &MarkdownOptions::new().with_slide_numbers(title == "Deck" && flag()));
    }
    /// Any code.
    fn h_c17_code() {
        let c = match choose(3) {
            0 => printable(n(2, 3)),
            1 => of_set(n(6, 8), b"`\n a"),
            _ => format!("a\n{}\n# b", of_set(n(4, 5), b"`~ -")),
        };
        let l = ["", "rust", "c#", "objective-c"][choose(4)];
        page(&Presentation::with_title("D").add_slide(code(SlideContent::new("T").add_bullet("x"), &c, l).notes("n")), &MarkdownOptions::new());
        // no name of a language breaks the fence
        let l = of_set(n(2, 3), b"`\n\r~a");
        let md = export_to_markdown(&Presentation::with_title("D").add_slide(code(SlideContent::new("T"), "x", &l).notes("n"))).unwrap();
        let Some((_, r)) = matter(md.as_bytes(), 1) else { fail("the head of the page"); return };
        let Ok(v) = read(r) else { fail("a language breaks the page"); return };
        check(v.iter().filter(|b| matches!(b, Code(_, c) if same(c, b"x"))).count() == 1 && v.len() == 6, "a language breaks the page");
    }
    /// The file that is saved, and the options by default.
    fn h_c17_files() {
        let p = Presentation::with_title(&text()).add_slide(slide(choose(6)));
        let a = export_to_markdown(&p).unwrap();
        check(same_str(&a, &export_to_markdown_with_options(&p, &MarkdownOptions::default()).unwrap()), "the default options");
        p.save_as_markdown("x.md").unwrap();
        check(same(&std::fs::read("x.md").unwrap(), a.as_bytes()), "the file");
        p.save_as_markdown_with_options("y.md", &MarkdownOptions::new()).unwrap();
        check(same(&std::fs::read("y.md").unwrap(), a.as_bytes()), "the file");
        page(&p, &MarkdownOptions::new());
    }
}

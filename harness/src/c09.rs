//! C09: compression keeps what a presentation refers to and what it says.
use crate::deck::*;
use crate::pkg::*;
use crate::sx::*;
use ppt_rs::generator::*;
use ppt_rs::opc::compress::*;

fn options() -> CompressionOptions {
    let level = [CompressionLevel::Light, CompressionLevel::Medium, CompressionLevel::Aggressive, CompressionLevel::Custom(0)][choose(n(1, 4))];
    CompressionOptions::new().with_level(level).with_unused_media_removal(flag()).with_properties_removal(flag()).with_notes_removal(flag()).with_comments_removal(flag()).with_xml_optimization(flag())
}
fn is_xml(n: &str) -> bool { n.ends_with(".xml") || n.ends_with(".rels") }
const PROPERTIES: [&str; 4] = ["docProps/core.xml", "docProps/app.xml", "docProps/custom.xml", "docProps/thumbnail.jpeg"];
/// What the options allow to be removed.
fn may_go(p: &Pkg, n: &str, o: &CompressionOptions) -> bool {
    if n.ends_with(".rels") { return source_of(n).is_some_and(|s| !s.is_empty() && may_go(p, &s, o)); }
    o.remove_properties && PROPERTIES.contains(&n)
        || o.remove_notes && n.starts_with("ppt/notesSlides/")
        || o.remove_comments && (n.starts_with("ppt/comments/") || n == "ppt/commentAuthors.xml")
        || o.remove_unused_media && n.starts_with("ppt/media/")
}
/// Targets of the relationships of all parts that are there.
fn targets(p: &Pkg) -> Vec<String> {
    let mut v = Vec::new();
    for (n, _) in &p.parts {
        if !n.ends_with(".rels") { continue; }
        let Some(src) = source_of(n) else { continue };
        for r in p.rels(n).unwrap_or_default() { if !r.external { v.extend(resolve(&src, &r.target)); } }
    }
    v
}
fn compressed(b: &[u8], o: &CompressionOptions) -> Option<Pkg> {
    let was = open(b)?;
    let Ok((out, res)) = compress_pptx_in_memory(b, o) else { fail("cannot be compressed"); return None };
    let Some(p) = open(&out) else { fail("not an archive"); return None };
    check(res.original_size == b.len() && res.compressed_size == out.len(), "the sizes");
    check(res.target_achieved == (o.target_size == 0 || out.len() <= o.target_size), "the target size");
    let media = |p: &Pkg| p.parts.iter().filter(|x| x.0.starts_with("ppt/media/") && !x.0.ends_with(".rels")).count();
    check(res.unused_media_removed == media(&was).wrapping_sub(media(&p)), "the number of media removed");
    // parts
    let gone: Vec<&str> = was.parts.iter().map(|x| &x.0[..]).filter(|n| !p.has(n)).collect();
    for n in &gone { check(may_go(&was, n, o), "a part was removed that should stay"); }
    for (n, _) in &p.parts { check(was.has(n), "a part was made up"); }
    for (n, _) in &was.parts {
        let unasked = n.starts_with("ppt/media/") && !n.ends_with(".rels");
        if may_go(&was, n, o) && !unasked { check(n.ends_with(".rels") || !p.has(n), "a part was to be removed"); }
    }
    // media
    let used = targets(&p);
    let used_before = targets(&was);
    for (n, _) in &was.parts {
        if !n.starts_with("ppt/media/") || n.ends_with(".rels") { continue; }
        // part names are the same in any case
        let among = |v: &[String]| v.iter().any(|x| x.eq_ignore_ascii_case(n));
        if among(&used) { check(p.has(n), "media in use was removed"); }
        if o.remove_unused_media && !among(&used_before) { check(!p.has(n), "unused media was kept"); }
    }
    // contents
    for (n, d) in &p.parts {
        let a = was.get(n).unwrap();
        if n.ends_with(".rels") || n == "[Content_Types].xml" { continue; }
        if !is_xml(n) || !o.optimize_xml { check(same(a, d), "the bytes of a part"); continue; }
        match (crate::xml::parse(a), crate::xml::parse(d)) {
            (Ok(x), Ok(y)) => check(x.says(&y), "what an XML part says"),
            (Ok(_), Err(_)) => fail("an XML part is no longer well formed"),
            _ => {}
        }
    }
    // relationships and content types
    for (n, _) in &p.parts {
        if !n.ends_with(".rels") { continue; }
        let src = source_of(n).unwrap_or_default();
        let (Some(x), Some(y)) = (was.rels(n), p.rels(n)) else { fail("relationships cannot be read"); continue };
        for r in &x {
            let lost = !r.external && resolve(&src, &r.target).is_some_and(|t| gone.contains(&&t[..]));
            check(lost != y.iter().any(|q| q.id == r.id && q.target == r.target && q.ty == r.ty && q.external == r.external), "a relationship");
        }
        check(y.len() <= x.len(), "a relationship was made up");
    }
    if let (Ok(x), Ok(y)) = (content_types(&was), content_types(&p)) {
        check(x.0 == y.0, "default content types");
        check(y.1.iter().all(|t| x.1.contains(t)), "a content type was made up");
        for t in &x.1 { check(y.1.contains(t) != gone.contains(&&t.0[1..]), "a content type"); }
    }
    Some(p)
}
/// Removing parts leaves the ids of removed slides' notes behind in no part of the library's making.
fn deck(kind: usize) -> Vec<u8> {
    let a = SlideContent::new("A").add_bullet("a  b");
    let b = SlideContent::new("B").notes("n \n m").add_image(image(7, "png")).add_image(image(8, "gif"));
    let c = SlideContent::new("C").add_chart(chart(ChartType::Bar)).table(table());
    let v = |n: &str| {
        let mut p = open(&match n { "eager" => eager("T", &[a.clone(), b.clone(), c.clone()], None), _ => eager("T", &[b.clone(), a.clone()], settings(0)) }).unwrap();
        for (n, d) in &mut p.parts { if n.starts_with("ppt/theme/") || n.starts_with("ppt/slideLayouts/slideLayout") && !n.ends_with("2.xml") && !n.ends_with(".rels") { *d = b"<x> <y/> </x>".to_vec(); } }
        p
    };
    match kind {
        0 => build(&v("eager").parts),
        1 => {
            let mut p = v("eager");
            // comments, a thumbnail, and media that nothing refers to
            p.parts.push(("ppt/comments/comment1.xml".into(), b"<c/>".to_vec()));
            p.parts.push(("ppt/commentAuthors.xml".into(), b"<c/>".to_vec()));
            p.parts.push(("docProps/thumbnail.jpeg".into(), vec![1]));
            p.parts.push(("ppt/media/unused.png".into(), vec![2]));
            let mut add = |n: &str, what: &str, before: &str| { let d = &mut p.parts.iter_mut().find(|x| x.0 == n).unwrap().1; let s = String::from_utf8(std::mem::take(d)).unwrap(); *d = s.replace(before, &format!("{what}{before}")).into_bytes(); };
            add("ppt/slides/_rels/slide1.xml.rels", "<Relationship Type='http://schemas.openxmlformats.org/officeDocument/2006/relationships/comments' Target='/ppt/comments/comment1.xml' Id='x1'/>", "</Relationships>");
            add("ppt/_rels/presentation.xml.rels", "<Relationship Id=\"x1\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/commentAuthors\" Target=\"commentAuthors.xml\"></Relationship>", "</Relationships>");
            add("_rels/.rels", "<Relationship Id=\"x1\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail\" Target=\"docProps/thumbnail.jpeg\"/>", "</Relationships>");
            add("[Content_Types].xml", "<Override PartName='/ppt/comments/comment1.xml' ContentType='application/vnd.openxmlformats-officedocument.presentationml.comments+xml'/><Override ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml\" PartName=\"/ppt/commentAuthors.xml\" /><Default Extension='jpeg' ContentType='image/jpeg'/>", "</Types>");
            build(&p.parts)
        }
        _ => build(&v("set").parts),
    }
}
fn small(extra: Vec<(&str, Vec<u8>)>) -> Vec<u8> {
    let mut v: Vec<(String, Vec<u8>)> = vec![("[Content_Types].xml".into(), b"<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\"><Default Extension=\"xml\" ContentType=\"application/xml\"/></Types>".to_vec())];
    v.extend(extra.into_iter().map(|x| (x.0.to_string(), x.1)));
    build(&v)
}
const KEEP: &[&str] = &["<a>", "</a>", " ", "\n", "x", "<b/>", "<b c=' > '>", "</b>"];
const MORE: &[&str] = &["<a>", "</a>", " ", "x ", "<b c=\"/>  <\"/>", "<![CDATA[ ]]>", "<![CDATA[]]>", "<!-- > -->", "<?p > ?>", "&#32;", "&lt;", "<a xml:space=\"preserve\">", "<b d=''/>", "\u{a0}", "\t\r\n"];

harnesses! {
    /// Decks of the library, with every combination of options.
    fn h_c09_decks() {
        let b = deck(choose(n(2, 3)));
        let mut o = options();
        if flag() { o = o.with_target_size([1, 1 << 20][choose(2)]); }
        if let Some(p) = compressed(&b, &o) { if o.remove_unused_media || closed(&open(&b).unwrap()).is_ok() { closed_or_fail(&p, "the compressed package"); } }
    }
    /// The level alone removes nothing.
    fn h_c09_levels() {
        let b = deck(1);
        let all = flag();
        let level = [CompressionLevel::Light, CompressionLevel::Medium, CompressionLevel::Aggressive, CompressionLevel::Custom(0), CompressionLevel::Custom(100)][choose(5)];
        let _ = compressed(&b, &CompressionOptions::new().with_level(level).with_unused_media_removal(all).with_properties_removal(all).with_notes_removal(all).with_comments_removal(all).with_xml_optimization(all));
    }
    /// Presets, files, and the presentation as it reads afterwards.
    fn h_c09_files() {
        let b = deck(choose(2));
        let o = [CompressionOptions::default(), CompressionOptions::maximum(), CompressionOptions::web()][choose(3)].clone();
        std::fs::write("a.pptx", &b).unwrap();
        let same_file = flag();
        let to = if same_file { "a.pptx" } else { "b.pptx" };
        let Ok(r) = compress_pptx("a.pptx", to, &o) else { fail("cannot be compressed"); return };
        let Ok(out) = std::fs::read(to) else { fail("no file"); return };
        check(r.original_size == b.len() && r.compressed_size == out.len(), "the sizes");
        let (Ok((mem, _)), Some(x)) = (compress_pptx_in_memory(&b, &o), open(&out)) else { fail("cannot be compressed"); return };
        let y = open(&mem).unwrap();
        check(x.parts.len() == y.parts.len() && x.parts.iter().all(|p| y.get(&p.0) == Some(&p.1[..])), "file and memory agree");
        if !same_file { check(std::fs::read("a.pptx").is_ok_and(|x| x == b), "the original stays"); }
        std::fs::write("a0.pptx", &b).unwrap();
        let (Ok(p), Ok(q)) = (ppt_rs::oxml::PresentationReader::open("a0.pptx"), ppt_rs::oxml::PresentationReader::open(to)) else { fail("cannot be read"); return };
        check(p.slide_count() == q.slide_count(), "the number of slides");
        for i in 0..p.slide_count() { if let (Ok(x), Ok(y)) = (p.get_slide(i), q.get_slide(i)) { check(x.title == y.title && x.body_text == y.body_text && x.tables.len() == y.tables.len(), "what the slides say"); } else { fail("a slide cannot be read"); } }
        check(compress_pptx("missing.pptx", "c.pptx", &o).is_err() && std::fs::read("c.pptx").is_err(), "a missing file");
    }
    /// Media is kept exactly if some relationship leads to it.
    fn h_c09_media() {
        let rels = ["ppt/slideLayouts/_rels/slideLayout1.xml.rels", "ppt/slides/_rels/slide1.xml.rels", "_rels/.rels", "ppt/charts/x/_rels/chart1.xml.rels", "ppt/_rels/presentation.xml.rels"];
        let k = choose(rels.len());
        let up = ["../media/", "../media/", "ppt/media/", "../../media/", "media/"][k];
        let how = choose(6);
        let dir = match how { 1 => "/ppt/media/".to_string(), 2 => format!("./{up}"), _ => up.to_string() };
        let name = [of_set(1, b"abcd?A."), "a".into(), "b".into()][if how == 0 { 0 } else { 1 + choose(2) }].clone();
        let t = format!("{dir}{name}.png");
        let ty = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image";
        let r = match how {
            3 => format!("<Relationship Target='{t}' Id='i' Type='{ty}'/>"),
            4 => format!("<Relationship Id=\"i\" Type=\"{ty}\" Target=\"http://x/media/a.png\" TargetMode=\"External\"/>"),
            5 => format!("<Relationship\n Id = \"i\"\tTarget = \"{t}\"\nType=\"{ty}\" ></Relationship>"),
            _ => format!("<Relationship Id=\"i\" Type=\"{ty}\" Target=\"{t}\"/>"),
        };
        let doc = format!("<?xml version=\"1.0\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">\n {r}\n</Relationships>");
        let b = small(vec![(rels[k], doc.into_bytes()), ("ppt/media/a.png", vec![byte()]), ("ppt/media/b.png", vec![byte()]), ("ppt/media/sub/c.png", vec![1])]);
        let o = CompressionOptions::new().with_xml_optimization(flag());
        if let Some(p) = compressed(&b, &o) {
            let src = source_of(rels[k]).unwrap();
            for m in ["a", "b"] {
                let path = format!("ppt/media/{m}.png");
                let used = how != 4 && resolve(&src, &t).is_some_and(|x| x.eq_ignore_ascii_case(&path));
                if used { check(p.has(&path), "media in use was removed"); }
                if !used { check(!p.has(&path), "unused media was kept"); }
            }
        }
    }
    /// Documents of markup, blanks and text.
    fn h_c09_xml() {
        let mut s = String::from("<r>");
        for _ in 0..n(5, 6) { s += KEEP[choose(KEEP.len())]; }
        s += "</r>";
        document(&s);
    }
    /// Other kinds of markup between two of the former.
    fn h_c09_markup() {
        let mut s = String::from(["<r>", "<r><a> ", "<?xml version=\"1.0\"?>\n<r> <a>", "<!-- --> <r xml:space='preserve'> <a>"][choose(4)]);
        let deep = s.contains("<a>");
        for _ in 0..n(2, 3) { s += MORE[choose(MORE.len())]; }
        if deep { s += ["</a>", " </a> "][choose(2)]; }
        s += "</r>\n";
        document(&s);
    }
    /// Any characters between tags and in attributes.
    fn h_c09_text() {
        let t = of_set(n(2, 3), b" \n\tx/>\"'=-]&");
        let s = match choose(4) { 0 => format!("<r><a>{t}</a></r>"), 1 => format!("<r> {t} <a/> </r>"), 2 => format!("<r> <a b=\"{t}\"/> </r>"), _ => format!("<r> <!--{t}--> <![CDATA[{t}]]> </r>") };
        document(&s);
    }
}
fn document(s: &str) {
    if crate::xml::parse(s.as_bytes()).is_err() { return; }
    let b = small(vec![("ppt/x.xml", s.as_bytes().to_vec()), ("ppt/x.bin", s.as_bytes().to_vec())]);
    let _ = compressed(&b, &CompressionOptions::new());
}

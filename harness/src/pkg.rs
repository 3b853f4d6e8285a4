//! Reads packages with the zip crate alone (the stand-in during symbolic execution) and
//! checks that they are closed, sharing no code with what it judges.
#![allow(dead_code)]
use crate::sx::*;
use crate::xml;
use std::io::{Cursor, Read, Write};

pub struct Pkg { pub parts: Vec<(String, Vec<u8>)> }

pub fn open(bytes: &[u8]) -> Option<Pkg> {
    let mut z = zip::ZipArchive::new(Cursor::new(bytes.to_vec())).ok()?;
    let mut parts = Vec::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).ok()?;
        let name = f.name().to_string();
        let mut d = Vec::new();
        f.read_to_end(&mut d).ok()?;
        if !name.ends_with('/') { parts.push((name, d)); }
    }
    Some(Pkg { parts })
}
/// A package with these parts.
pub fn build(parts: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut z = zip::ZipWriter::new(Cursor::new(Vec::new()));
    for (n, d) in parts {
        z.start_file(n.clone(), zip::write::FileOptions::default()).unwrap();
        z.write_all(d).unwrap();
    }
    z.finish().unwrap().into_inner()
}

/// `target` as seen from `part` ("" for the package), normalised, without a leading slash.
pub fn resolve(part: &str, target: &str) -> Option<String> {
    let mut segs: Vec<&str> = Vec::new();
    if !target.starts_with('/') {
        let dir = match part.rfind('/') { Some(i) => &part[..i], None => "" };
        for s in dir.split('/') { if !s.is_empty() { segs.push(s); } }
    }
    for s in target.split('/') {
        match s {
            "" | "." => {}
            ".." => { segs.pop()?; }
            x => segs.push(x),
        }
    }
    Some(segs.join("/"))
}
/// The part a .rels part describes.
pub fn source_of(rels: &str) -> Option<String> {
    if rels == "_rels/.rels" { return Some(String::new()); }
    let i = rels.rfind("_rels/")?;
    let f = rels[i + 6..].strip_suffix(".rels")?;
    Some(format!("{}{}", &rels[..i], f))
}
pub fn rels_of(part: &str) -> String {
    match part.rfind('/') {
        Some(i) => format!("{}/_rels/{}.rels", &part[..i], &part[i + 1..]),
        None => format!("_rels/{}.rels", part),
    }
}

#[derive(Clone)]
pub struct Rel { pub id: String, pub ty: String, pub target: String, pub external: bool }

impl Pkg {
    pub fn get(&self, n: &str) -> Option<&[u8]> { self.parts.iter().find(|p| p.0 == n).map(|p| &p.1[..]) }
    pub fn has(&self, n: &str) -> bool { self.parts.iter().any(|p| p.0 == n) }
    pub fn doc(&self, n: &str) -> Option<xml::Doc> { xml::parse(self.get(n)?).ok() }
    pub fn rels(&self, n: &str) -> Option<Vec<Rel>> {
        let d = self.doc(n)?;
        if d.nodes[0].name != "Relationships" { return None; }
        let mut v = Vec::new();
        for i in d.kids(0, "Relationship") {
            v.push(Rel {
                id: d.attr_str(i, "Id")?.to_string(), ty: d.attr_str(i, "Type")?.to_string(), target: d.attr_str(i, "Target")?.to_string(),
                external: d.attr_str(i, "TargetMode") == Some("External"),
            });
        }
        if v.len() != d.nodes[0].kids.len() { return None; }
        Some(v)
    }
    pub fn xml_parts(&self) -> Vec<&str> {
        self.parts.iter().map(|p| &p.0[..]).filter(|n| n.ends_with(".xml") || n.ends_with(".rels")).collect()
    }
}

/// Content types as (defaults, overrides).
pub fn content_types(p: &Pkg) -> Result<(Vec<(String, String)>, Vec<(String, String)>), &'static str> {
    let d = xml::parse(p.get("[Content_Types].xml").ok_or("no [Content_Types].xml")?)?;
    let (mut de, mut ov) = (Vec::new(), Vec::new());
    for &i in &d.nodes[0].kids {
        let t = d.attr_str(i, "ContentType").ok_or("content type missing")?.to_string();
        match d.nodes[i].name.as_str() {
            "Default" => de.push((d.attr_str(i, "Extension").ok_or("no extension")?.to_ascii_lowercase(), t)),
            "Override" => ov.push((d.attr_str(i, "PartName").ok_or("no part name")?.to_string(), t)),
            _ => return Err("unknown element in content types"),
        }
    }
    Ok((de, ov))
}

/// `skip_wf`: parts the caller knows to be static and has checked elsewhere.
pub fn closed(p: &Pkg) -> Result<(), &'static str> {
    for (i, a) in p.parts.iter().enumerate() {
        if p.parts[..i].iter().any(|b| b.0.eq_ignore_ascii_case(&a.0)) { return Err("a part is written twice"); }
        if a.0.starts_with('/') || a.0.contains('\\') || a.0.contains("//") { return Err("bad part name"); }
    }
    let (de, ov) = content_types(p)?;
    for (i, a) in de.iter().enumerate() { if de[..i].iter().any(|b| b.0 == a.0) { return Err("duplicate default content type"); } }
    for (i, a) in ov.iter().enumerate() {
        if ov[..i].iter().any(|b| b.0 == a.0) { return Err("duplicate content type override"); }
        if !a.0.starts_with('/') || !p.has(&a.0[1..]) { return Err("content type for a part that is not there"); }
    }
    for (n, _) in &p.parts {
        if n == "[Content_Types].xml" { continue; }
        let ext = match n.rfind('.') { Some(i) => n[i + 1..].to_ascii_lowercase(), None => String::new() };
        let o = ov.iter().find(|o| &o.0[1..] == n);
        let d = de.iter().find(|x| x.0 == ext);
        if o.is_none() && d.is_none() { return Err("part without content type"); }
        // a main part falling back on the generic XML type is not recognised by any consumer
        if o.is_none() && ext == "xml" && !n.starts_with("_xmlsignatures/") { return Err("XML part without a content type of its own"); }
    }
    for (n, _) in &p.parts {
        if !n.ends_with(".rels") { continue; }
        let src = source_of(n).ok_or("bad relationship part name")?;
        if !src.is_empty() && !p.has(&src) { return Err("relationships of a part that is not there"); }
        let r = p.rels(n).ok_or("bad relationship part")?;
        for (i, x) in r.iter().enumerate() {
            if x.id.is_empty() || r[..i].iter().any(|y| y.id == x.id) { return Err("duplicate relationship id"); }
            if !x.external {
                let t = resolve(&src, &x.target).ok_or("relationship target outside the package")?;
                if !p.has(&t) { return Err("relationship target that is not there"); }
            }
        }
    }
    // every relationship id a part uses is declared
    for (n, d) in &p.parts {
        if !n.ends_with(".xml") || n == "[Content_Types].xml" || n.starts_with("docProps/") || n.starts_with("_xmlsignatures/") { continue; }
        let used = rel_ids(d);
        if used.is_empty() { continue; }
        let r = p.rels(&rels_of(n)).ok_or("relationship ids used without a relationship part")?;
        for u in used { if !u.is_empty() && !r.iter().any(|x| x.id.as_bytes() == &u[..]) { return Err("undeclared relationship id"); } }
    }
    // every part other than the package's own is reachable through relationships
    let mut seen: Vec<String> = vec![];
    let mut todo: Vec<String> = vec![String::new()];
    while let Some(s) = todo.pop() {
        let rn = if s.is_empty() { "_rels/.rels".to_string() } else { rels_of(&s) };
        if let Some(r) = if p.has(&rn) { p.rels(&rn) } else { None } {
            for x in r {
                if x.external { continue; }
                let t = resolve(&s, &x.target).unwrap_or_default();
                if !seen.contains(&t) { seen.push(t.clone()); todo.push(t); }
            }
        }
    }
    for (n, _) in &p.parts {
        if n == "[Content_Types].xml" || n.ends_with(".rels") { continue; }
        if !seen.contains(n) { return Err("part that no relationship leads to"); }
    }
    Ok(())
}

/// Values of r:id, r:embed, r:link and r:pict attributes, by a plain scan.
pub fn rel_ids(d: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let s = unsafe { std::str::from_utf8_unchecked(d) };
    for key in [" r:id=\"", " r:embed=\"", " r:link=\"", " r:pict=\""] {
        let mut i = 0;
        while let Some(k) = s[i..].find(key) {
            let a = i + k + key.len();
            let e = match s[a..].find('"') { Some(e) => a + e, None => break };
            v.push(d[a..e].to_vec());
            i = e;
        }
    }
    v
}
pub fn closed_or_fail(p: &Pkg, what: &str) {
    if let Err(e) = closed(p) { fail(&format!("{what}: {e}")); }
}
/// Content of the slides in the order of the presentation's slide list.
pub fn slide_order(p: &Pkg) -> Option<Vec<String>> {
    let d = p.doc("ppt/presentation.xml")?;
    let r = p.rels("ppt/_rels/presentation.xml.rels")?;
    let mut v = Vec::new();
    for i in d.all("p:sldId") {
        let id = d.attr_str(i, "r:id")?;
        let x = r.iter().find(|x| x.id == id)?;
        v.push(resolve("ppt/presentation.xml", &x.target)?);
    }
    Some(v)
}

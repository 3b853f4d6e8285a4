//! C15: Mermaid diagrams of any text are drawn without panic and keep their labels.
use crate::sx::*;
use ppt_rs::cli::parse_markdown;
use ppt_rs::generator::{LineDash, Shape, ShapeType, SlideContent};

fn draw(code: &str) -> SlideContent {
    let v = parse_markdown(&format!("# T\n\n~~~mermaid\n{code}\n~~~\n")).unwrap();
    check(v.len() == 1 && v[0].title == "T" && v[0].content.is_empty() && v[0].code_blocks.is_empty(), "a diagram is drawn on its slide");
    let s = v.into_iter().next().unwrap();
    sound(&s);
    s
}
/// Connectors lead from a shape to a shape, each the only one of its id, and end at their rims.
fn sound(s: &SlideContent) {
    for (i, a) in s.shapes.iter().enumerate() {
        if let Some(id) = a.id { check(!s.shapes[i + 1..].iter().any(|b| b.id == Some(id)), "two shapes of the same id"); }
    }
    for c in &s.connectors {
        check(c.start_shape_id.is_some() && c.end_shape_id.is_some(), "a connector is not attached");
        for (id, x, y) in [(c.start_shape_id, c.start_x, c.start_y), (c.end_shape_id, c.end_x, c.end_y)] {
            check(s.shapes.iter().any(|a| a.id == id), "a connector is attached to no shape");
            let _ = (x, y);
        }
    }
}
/// A diagram that fits is below the title, in the middle of the slide.
fn fits(s: &SlideContent) {
    let (mut a, mut b, mut c, mut d) = (u32::MAX, u32::MAX, 0, 0);
    for s in &s.shapes { a = a.min(s.x); b = b.min(s.y); c = c.max(s.x + s.width); d = d.max(s.y + s.height); }
    if c - a <= 9_144_000 && d - b <= 6_858_000 - 1_200_000 {
        check(b >= 1_200_000 && c <= 9_144_000 && d <= 6_858_000, "a diagram that fits is not on the slide");
        check(a.abs_diff(9_144_000 - c) <= 2, "a diagram is not in the middle");
        for k in &s.connectors { check(k.start_x.max(k.end_x) <= 9_144_000 && k.start_y.max(k.end_y) <= 6_858_000, "a connector leaves the slide"); }
    }
}
fn texts(s: &SlideContent) -> Vec<&str> { s.shapes.iter().filter_map(|s| s.text.as_deref()).filter(|t| !t.is_empty()).collect() }
fn count(s: &SlideContent, t: &str) -> usize { texts(s).iter().filter(|x| same_str(x, t)).count() }
fn has(s: &SlideContent, all: &[&str]) {
    for t in all { check(count(s, t) > 0, "a text is lost"); }
}
/// A text that a diagram shows.
fn label() -> String {
    match choose(5) {
        0 => "x".into(),
        1 => ["Two words", "é漢😀", "a, b & c", "<b>&lt;", "50% = 1/2", "it's", "a.b_c"][choose(7)].into(),
        2 => format!("x{}", of_set(n(2, 3), b"ao1_'")) + "z",
        3 => {
            let mut t = String::from("x");
            for _ in 0..n(2, 3) {
                let b = byte();
                assume((b >= 0x20) & (b < 0x7f));
                for c in *b"\"[](){}|;:-=.>&<*~`%#," { assume(b != c); }
                t.push(b as char);
            }
            t + "z"
        }
        _ => "end of it".into(),
    }
}
struct Node { id: &'static str, label: String, shape: ShapeType }
struct Flow { dash: LineDash, code: String, nodes: Vec<Node>, edges: Vec<(usize, usize, String)>, groups: Vec<String> }
const FLOW: Flow = Flow { dash: LineDash::Solid, code: String::new(), nodes: vec![], edges: vec![], groups: vec![] };
impl Flow {
    /// Writes a node, with the given way of brackets, and tells its number.
    fn node(&mut self, id: &'static str, way: usize, t: &str) -> usize {
        self.code.push_str(id);
        let (a, b) = [("", ""), ("[", "]"), ("(", ")"), ("((", "))"), ("([", "])"), ("{", "}"), ("{{", "}}"), ("[\"", "\"]"), (" [", "]"), ("[", "]:::big")][way];
        if way > 0 { self.code.push_str(&format!("{a}{t}{b}")); }
        let i = self.nodes.iter().position(|n| n.id == id).unwrap_or_else(|| { self.nodes.push(Node { id, label: id.into(), shape: ShapeType::Rectangle }); self.nodes.len() - 1 });
        if way > 0 {
            self.nodes[i].label = t.into();
            self.nodes[i].shape = [ShapeType::Rectangle, ShapeType::RoundedRectangle, ShapeType::Ellipse, ShapeType::RoundedRectangle, ShapeType::Diamond, ShapeType::Hexagon][[0, 0, 1, 2, 3, 4, 5, 0, 0, 0][way]];
        }
        i
    }
    /// Writes an arrow and tells its label.
    fn arrow(&mut self, way: usize, t: &str) -> String {
        let (a, l) = [("-->", ""), ("---", ""), ("-.->", ""), ("==>", ""), ("->", ""), (" -->|L|", "L"), ("--L-->", "L"), (" -- L --> ", "L"), ("== L ==>", "L"), (" -. L .-> ", "L"), (" ---> ", ""), (" -->|\"L\"| ", "L"), (" ---->", ""), (" ===> ", "")][way];
        self.code.push_str(&a.replace('L', t));
        l.replace('L', t)
    }
    fn judge(mut self, head: &str) {
        self.code = format!("{head}\n{}", self.code);
        let s = draw(&self.code);
        for x in &self.nodes { check(count(&s, &x.label) == self.nodes.iter().filter(|y| same_str(&y.label, &x.label)).count() + self.edges.iter().filter(|e| same_str(&e.2, &x.label)).count(), "the text of a node"); }
        for g in &self.groups { check(count(&s, g) == 1, "the name of a group"); }
        let labels = self.edges.iter().filter(|e| !e.2.is_empty()).count();
        check(texts(&s).len() == self.nodes.len() + self.groups.len() + labels, "the number of texts");
        check(s.connectors.len() == self.edges.len(), "the number of connectors");
        let shape = |id: Option<u32>| -> &Shape { s.shapes.iter().find(|s| s.id == id).unwrap() };
        for ((a, b, l), c) in self.edges.iter().zip(&s.connectors) {
            let (x, y) = (shape(c.start_shape_id), shape(c.end_shape_id));
            check(same_str(x.text.as_deref().unwrap_or(""), &self.nodes[*a].label) && same_str(y.text.as_deref().unwrap_or(""), &self.nodes[*b].label), "a connector between other nodes");
            check(x.shape_type == self.nodes[*a].shape && y.shape_type == self.nodes[*b].shape, "the shape of a node");
            check(self.edges.len() > 1 || c.line.dash == self.dash, "the dashes of a connector");
            check(l.is_empty() || count(&s, l) > 0, "the text of a connector");
            for (z, px, py) in [(x, c.start_x, c.start_y), (y, c.end_x, c.end_y)] {
                check(px >= z.x && px <= z.x + z.width && py >= z.y && py <= z.y + z.height, "a connector does not reach its node");
            }
        }
        for (i, x) in s.shapes.iter().enumerate() {
            for y in &s.shapes[i + 1..] {
                let node = |z: &Shape| self.nodes.iter().any(|n| z.id.is_some() && same_str(&n.label, z.text.as_deref().unwrap_or("")));
                if node(x) && node(y) && labels == 0 { check(x.x + x.width <= y.x || y.x + y.width <= x.x || x.y + x.height <= y.y || y.y + y.height <= x.y, "two nodes overlap"); }
            }
        }
        fits(&s);
    }
}
const HEADS: [&str; 5] = ["flowchart LR", "graph TD", "graph", "%% note\n\n  flowchart RL", "Graph BT"];
fn head() -> &'static str { HEADS[choose(5)] }

harnesses! {
    /// One edge, with any ways to write it.
    fn h_c15_edge() {
        let mut f = FLOW;
        let (a, b, w) = (choose(10), choose(3), choose(14));
        let k = if THOROUGH { choose(10) } else { (a + 3 * b + 7 * w) % 10 };
        let e = if k < 5 { ";" } else { "\n  " };
        let t = if a > 0 || b > 0 { label() } else { "x".into() };
        f.code.push_str("  ");
        let x = f.node("A", a, &t);
        let l = f.arrow(w, "to it");
        let y = f.node("b_1", [0, 1, 5][b], "other");
        f.edges.push((x, y, l));
        f.code.push_str(e);
        f.dash = if w == 2 || w == 9 { LineDash::Dash } else { LineDash::Solid };
        f.judge(HEADS[k % 5]);
    }
    /// Any text of an edge.
    fn h_c15_edge_text() {
        let mut f = FLOW;
        let t = label();
        let w = [5, 6, 7, 8, 9, 11][choose(6)];
        let x = f.node("A", 0, "");
        let l = f.arrow(w, &t);
        let y = f.node("B", 0, "");
        f.edges.push((x, y, l));
        if w == 9 { f.dash = LineDash::Dash }
        f.judge("flowchart LR");
    }
    /// Several statements: chains, several nodes at once, texts given later, groups.
    fn h_c15_statements() {
        let mut f = FLOW;
        let ids = ["A", "B-2", "c.d", "é"];
        let mut open = false;
        let semi = flag();
        for i in 0..n(2, 3) {
            match choose(9) {
                0 => { let (a, b) = (choose(4), choose(3)); let x = f.node(ids[a], 0, ""); let l = f.arrow(0, ""); let y = f.node(ids[b], 0, ""); f.edges.push((x, y, l)); }
                1 => { let a = choose(4); f.node(ids[a], 1, ["p", "q r", "s", "t"][a]); }
                2 => { let x = f.node("A", 0, ""); f.arrow(0, ""); let y = f.node("M", 2, "m"); let l = f.arrow(5, "to"); let z = f.node("é", 0, ""); f.edges.push((x, y, String::new())); f.edges.push((y, z, l)); }
                3 => { let x = f.node("A", 0, ""); f.code.push_str(" & "); let y = f.node("N", 5, "m & n"); f.arrow(0, ""); let z = f.node("é", 0, ""); f.code.push_str(" & "); let w = f.node("O", 0, ""); for e in [(x, z), (x, w), (y, z), (y, w)] { f.edges.push((e.0, e.1, String::new())); } }
                4 => { let g = f.groups.len(); let g = ["G one", "G2", "third"][g]; f.code.push_str(&["subgraph G one", "subgraph g[G2]", "subgraph \"third\""][f.groups.len()]); f.groups.push(g.into()); open = true; }
                5 => { if open { f.code.push_str("end"); } open = false; }
                6 => f.code.push_str("%% A --> X"),
                7 => f.code.push_str(["classDef big fill:#f9f", "style A fill:#fff,stroke:url(x)", "click A call f()", "direction LR"][if THOROUGH { i } else { choose(4) }]),
                _ => { let x = f.node("P", 1, "a --> b"); f.arrow(3, ""); let y = f.node("Q", 7, "a [b] (c"); f.edges.push((x, y, String::new())); }
            }
            f.code.push_str(if !semi { "\n" } else { ";\n\n" });
        }
        assume(!f.nodes.is_empty() || f.groups.is_empty());
        if f.nodes.is_empty() { let _ = draw(&format!("graph TD\n{}", f.code)); return; }
        let h = ["flowchart LR", "graph TD"][choose(2)];
        f.judge(h);
    }
    /// Nodes inside and outside of up to two subgraphs, and an edge.
    fn h_c15_groups() {
        let mut f = FLOW;
        let ids = ["a", "b", "c", "d"];
        let k = n(3, 4);
        let group: Vec<usize> = (0..k).map(|_| choose(3)).collect();
        let (x, y) = (choose(k), choose(k));
        let first = flag();
        if first { f.code.push_str(&format!("{} --> {}\n", ids[x], ids[y])); }
        for g in 0..2 {
            if !group.contains(&g) { continue; }
            f.code.push_str(&format!("subgraph {}\n", ["one", "two"][g]));
            f.groups.push(["one", "two"][g].into());
            for i in 0..k { if group[i] == g { f.code.push_str(&format!("{}[n{}]\n", ids[i], i)); } }
            f.code.push_str("end\n");
        }
        for i in 0..k { if group[i] == 2 { f.code.push_str(&format!("{}[n{}]\n", ids[i], i)); } }
        if !first { f.code.push_str(&format!("{} --> {}\n", ids[x], ids[y])); }
        for i in 0..k { f.nodes.push(Node { id: ids[i], label: format!("n{i}"), shape: ShapeType::Rectangle }); }
        f.edges.push((x, y, String::new()));
        let h = head();
        f.judge(h);
    }
    /// Many nodes.
    fn h_c15_many() {
        let mut f = FLOW;
        let k = choose(n(10, 16)) + 1;
        let group = flag();
        if group { f.code.push_str("subgraph g\n"); f.groups.push("g".into()); }
        let ids = ["a", "b", "c", "d", "e", "f", "g1", "h", "i", "j", "k", "l", "m", "n", "o", "p"];
        for i in 0..k { f.node(ids[i], 0, ""); f.code.push('\n'); }
        let h = head();
        f.judge(h);
    }
    /// Two diagrams on a slide do not get in each other's way.
    fn h_c15_two() {
        let codes = ["graph LR\nA[a]-->B[b]", "stateDiagram\nA --> B", "erDiagram\nA ||--o{ B : x", "classDiagram\nA <|-- B", "graph TD\nsubgraph g\nA-->B\nend", "pie\n\"a\" : 1"];
        let (a, b) = (choose(6), choose(6));
        let v = parse_markdown(&format!("# T\n\n```mermaid\n{}\n```\n\n```mermaid\n{}\n```\n", codes[a], codes[b])).unwrap();
        sound(&v[0]);
        let (x, y) = (draw(codes[a]), draw(codes[b]));
        check(v[0].shapes.len() == x.shapes.len() + y.shapes.len() && v[0].connectors.len() == x.connectors.len() + y.connectors.len(), "something of two diagrams is missing");
        for (k, o) in [(0, &x), (x.connectors.len(), &y)] {
            for (i, c) in o.connectors.iter().enumerate() {
                let d = &v[0].connectors[k + i];
                for (p, q) in [(c.start_shape_id, d.start_shape_id), (c.end_shape_id, d.end_shape_id)] {
                    let (p, q) = (o.shapes.iter().find(|s| s.id == p).unwrap(), v[0].shapes.iter().find(|s| s.id == q).unwrap());
                    check(same_str(p.text.as_deref().unwrap_or(""), q.text.as_deref().unwrap_or("")) && (p.x, p.y) == (q.x, q.y), "a connector of two diagrams leads elsewhere");
                }
            }
        }
    }
    /// The other kinds keep their texts.
    fn h_c15_kinds() {
        let t = label();
        let s = match choose(11) {
            0 => { let s = draw(&format!("sequenceDiagram\n  participant A as {t}\n  actor Bo Li\n  A->>Bo Li: hi: {t}\n  Bo Li-->>+C: back\n  C->>A: fin\n")); has(&s, &[&t, "Bo Li", "C", "fin", &format!("hi: {t}"), "back"]); check(count(&s, "A") == 0 && count(&s, "Bo Li") == 2 && count(&s, "C") == 2, "a participant"); s }
            1 => { let s = draw(&format!("pie title P\n \"{t}\" : 10\n \"b: c\" : 30\n")); has(&s, &[&format!("{t} (25.0%)"), "b: c (75.0%)"]); s }
            2 => { let h = ["", " section S1\n"][choose(2)]; let s = draw(&format!("gantt\n dateFormat X\n{h} {t} :a1, 3d\n section S2\n u : 2d\n")); has(&s, &[&t, "S2", "u"]); if !h.is_empty() { has(&s, &["S1"]); } s }
            3 => { let s = draw(&format!("classDiagram\n class A {{\n  +{t}\n  run()\n }}\n A <|-- B\n")); has(&s, &["A", "B", &format!("+{t}"), "run()"]); check(s.connectors.len() == 1, "a relation"); s }
            4 => { let s = draw(&format!("stateDiagram-v2\n [*] --> s1\n s1 --> s2 : {t}\n s2 --> [*]\n")); has(&s, &["Start", "s1", "s2", "End", &t]); check(s.connectors.len() == 3, "a transition"); s }
            5 => { let s = draw(&format!("erDiagram\n Customer ||--o{{ Order : \"{t}\"\n Foo}}o--o|Photo : has\n Order {{\n  int id\n }}\n")); has(&s, &["Customer", "Order", "Foo", "Photo", &t, "has", "int id"]); check(s.connectors.len() == 2, "a relation"); s }
            6 => { let s = draw(&format!("mindmap\n  root(({t}))\n    a\n      b [x]\n          c\n    d[e f]\n")); has(&s, &[&t, "a", "c", "e f"]); s }
            7 => { let s = draw(&format!("timeline\n title {t}\n 2020 : a : b\n      c\n 2021 : {t} d\n")); has(&s, &[&t, "2020", "2021", "a : b\nc", &format!("{t} d")]); s }
            8 => { let h = ["", " section S1\n"][choose(2)]; let s = draw(&format!("journey\n title P\n{h} {t}: 5: Me\n section S2\n u: 3\n")); has(&s, &[&format!("{t} (5)"), "S2", "u (3)"]); if !h.is_empty() { has(&s, &["S1"]); } s }
            9 => { let p = ["0.3, 0.6", "1, 0", "7, -2", "1e9, inf", "NaN, 0.5", "-1e38,1e38"][choose(6)]; let s = draw(&format!("quadrantChart\n x-axis a --> b\n {t}: [{p}]\n")); has(&s, &[&t]); s }
            _ => { let s = draw(&format!("gitGraph\n commit id: \"{t}\"\n branch dev x\n checkout dev x\n commit id: \"u\" tag: \"v\"\n checkout main\n merge dev x\n")); has(&s, &[&t, "main", "dev x", "u", "Merge dev x"]); s }
        };
        fits(&s);
    }
    /// Any pieces in any order, of every kind.
    fn h_c15_pieces() {
        let k = choose(13);
        let mut m = String::from(["graph LR", "sequence", "pie", "gantt", "class", "state", "er", "mindmap", "timeline", "journey", "quadrant", "git", "what"][k]) + "\n";
        for _ in 0..n(2, 3) {
            m.push_str(["A", " ", "\n", "-->", "--", "->>", "[", "]", "((", "))", "{", "}", ":", "|", "&", "subgraph", "end", "section", "title", "class ", "||--o{", "||", "commit id:", "branch", "checkout", "participant", "x-axis", "[9,9]", "\"", "é", "      ", "1e99", "=="][choose(33)]);
        }
        let _ = draw(&m);
    }
    /// Any bytes as the first line and the second.
    fn h_c15_bytes() {
        let m = match choose(5) {
            0 => xml_ascii(n(3, 4)),
            1 => format!("graph LR\n{}", of_set(n(5, 6), b"A[]-> ")),
            2 => format!("graph LR\nA{}B", of_set(n(5, 6), b"|->(\"\n")),
            3 => format!("er\n{}", of_set(n(6, 7), b"A|-o{:")),
            _ => format!("quadrant\na: [{}]", of_set(n(4, 5), b"0-.,]e"),),
        };
        for b in m.bytes() { assume((b != b'~') & (b != 0x7f)); }
        let _ = parse_markdown(&format!("# T\n\n~~~mermaid\n{m}\n~~~\n"));
    }
}

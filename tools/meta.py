"""Bounds, what lies outside, and assumptions of each claimed property; reasons for the others."""
BOUNDS = {
'C10': dict(bounds='parsers: every UTF-8 text of up to 8 bytes (9 thorough), 0 or 1 leading #; every RGBA quadruple for printing, inverting, converting; every channel value with amounts k/16, out-of-range, infinite and NaN amounts for the adjustments; CSS # colours of up to 6 bytes and rgb() with up to 2 characters (3 thorough) of a channel.',
            outside='longer texts, amounts that are not among those listed, mixes of two symbolic channels at fractional ratios.',
            assumptions=['float arithmetic over one symbolic byte is tabulated exactly for its 256 values']),
'C11': dict(bounds='lengths k/1024 for every integer |k| < 2^24 (2^30 thorough), ratios k/1024 in eight blocks around and inside the unit interval, every byte as a percentage, NaN, infinities and extreme values, every u32 EMU value; helper shapes with coordinates k/1024, k < 4096.',
            outside='lengths that are not multiples of 1/1024.',
            assumptions=['exact float arithmetic (integers scaled by powers of two within 2^53) is rewritten to bit-vectors']),
'C25': dict(bounds='centring of every u32 extent; grids of up to 3x3 cells (5x5) of any u32 size; stacks of up to 4 elements (7) and distributions of up to 5 (11) of any size; connectors with end points in 64-value blocks; written geometry with 256-value blocks; image scaling of six aspect ratios to 1024 extents.',
            outside='larger counts; coordinates outside the blocks.', assumptions=[]),
'C02': dict(bounds='one slide with every subset of notes, table, ink, shapes, connectors and code, 0-2 images, 0-2 charts, 7 layouts, both writers; decks of up to 3 slides (4) with every mixture of notes, chart, ink; two slides with up to 2+1 images (2+2) of any byte, two formats, one unloadable; all pairs of 8 image formats; all settings (handout, signature, kiosk, theme, 0-3 fonts) in three writers; plain decks of up to 13 slides (29); one or two hyperlinks of 8 kinds; templates made by the library with and without notes and handouts.',
            outside='more slides, images or charts; media, transitions and texts of other shapes (texts: C01); templates made by other programs beyond the two known findings.',
            assumptions=['the zip crate is replaced by a stored-only stand-in with the same interface; files live in a virtual file system']),
'C01': dict(bounds='marked texts of two (thorough: three) arbitrary printable ASCII characters or one of 16 awkward sequences (entities, CDATA and comment markers, multi-byte text) in titles and bullets of all 7 layouts, 8 bullet styles, 16 further places of a slide (notes, tables, shapes, links, pictures, all 21 chart types, connectors), code, 11 places of the presentation as a whole, 25 fragment and part emitters; escape_xml over all texts of two (three) characters',
            outside='longer texts; characters XML 1.0 cannot represent; hand-written XML passed through by the caller; diagram and media fragments beyond those listed.',
            assumptions=['an independent validating parser (harness/src/xml.rs) decides well-formedness; markdown-like marks are left out where the text is parsed for inline formatting (C23)']),
'C03': dict(bounds='one slide in each of 7 layouts with two (thorough: three) arbitrary printable characters in the title or a bullet in the standard layout, one (two) elsewhere, or 0-2 bullets from 6 awkward words; texts of blanks and tabs; tables up to 2x3, styled or not; decks of up to 3 slides of every mixture of bullets, notes, tables, charts and images (thorough: two columns as well) by four writers; 1-13 (25) and 112 slides in order; notes and document title of two (three) arbitrary characters',
            outside='longer texts; tables in layouts that do not show them; texts with inline marks (C23); empty paragraphs, which the reader skips.',
            assumptions=['the reader parses with the real xml-rs code; the zip crate is a stored-only stand-in']),
'C12': dict(bounds='one region with any 64-bit numbers against any cell; overlap of any two regions with 16-bit numbers; one request with numbers at the edges of 64 bits; three (thorough: four) requests on tables of up to 3x3 (6x6), then any cell; the table XML of every table up to 3x3 with up to two accepted merges; ragged rows up to 3 columns, any 32-bit column widths and row heights',
            outside='longer histories and larger merged tables in XML; rows longer than the grid; spans set on cells by hand without marking the covered cells.',
            assumptions=['integers in error messages fork the exploration, so larger tables with symbolic histories are left to the thorough tier']),
'C18': dict(bounds='format guessing: every byte string of up to 6 bytes (7); PNG, GIF, BMP and WebP headers with any 16 bits of each 32-bit size (8 bits for BMPs); JPEG files with up to 2 (3) segments of 6 kinds, up to 2 (3) arbitrary bytes each, fill bytes, both frame kinds and any size; eight starts of a file followed by up to 12 (14) bytes, of which the first 3 (4) or all are arbitrary; base64 of every byte string up to 10 bytes (15) with line breaks or without padding, every printable text of up to 7 characters (9) as base64; decks of up to 4 (5) pictures of arbitrary 1-2 bytes after 0, 300 or 1200 common ones, two formats, two sources, two writers',
            outside='other image formats and frame kinds, larger files, pictures fetched from URLs (feature web2ppt).',
            assumptions=['files live in a virtual file system']),
'C19': dict(bounds='all relationship types and short arbitrary type URIs; targets and ids of two arbitrary characters; histories of up to four additions, with and without ids, around a round trip; ids with any number of up to ten digits',
            outside='longer texts and histories.', assumptions=[]),
'C20': dict(bounds='each of eight fields with two (three) arbitrary printable characters or one of 8 awkward texts, the others set or absent; every subset of fields; any 16-bit revision and the largest ones; decks of up to 3 slides by three writers with a title of one (two) arbitrary characters; every day from 1970 to 1973, and of the four years after 1998, 2024 and 2097 (thorough: to 2110) at three times of day',
            outside='longer texts, other times of day.', assumptions=['the clock is a stand-in that stands still at the chosen second']),
'C21': dict(bounds='texts of up to 5 (6) of 24 pieces of markup; up to 2-4 arbitrary characters alone, as text, as a value, in a name or inside a tag; nested documents of depth 2 with 20 kinds of text and 10 kinds of value; slides of up to 3 shapes with placeholders, runs and paragraphs of every mixture of looks; tables with several runs per cell and spans',
            outside='DTDs and entity declarations, other encodings, longer texts.',
            assumptions=['the reference parser (harness/src/xml.rs) accepts well-formed documents only; blanks between elements and line-end normalisation are not judged']),
'C22': dict(bounds='all 21 kinds of chart with 0 to 3 series of 0 to 3 values and 0 to 3 categories; 12 edge values; 6 awkward labels and labels of two (three) arbitrary printable characters; many series (30) and values; decks of up to two charts by two writers',
            outside='NaN and infinities; the embedded workbook (a fixed reference workbook) and the order of schema elements.', assumptions=[]),
'C23': dict(bounds='every text of up to 7 (9) characters out of * _ ` a b and blank; one marked part of up to two (four) arbitrary bytes of any UTF-8 text between optional neighbours; runs written for every text of up to 5 (7) of * _ ` a <, with base look and colour',
            outside='longer texts; bullets of a slide are written as they are, without inline formatting.',
            assumptions=['a text of nothing but markers may show nothing or the markers']),
'C24': dict(bounds='two (three) sections of any 16-bit start and any 8-bit length and any 16-bit slide; one section of any 64-bit bounds; histories of 3 (4) additions, removals, renamings and clearings with edge bounds; section lists of up to 3 sections over up to 4 (7) slides; up to 4 (5) authors and comments; decks of up to 4 (12) slides by three writers',
            outside='longer histories and texts; renaming when two sections share the name.', assumptions=[]),
'C05': dict(bounds='every history of 2 operations (3 thorough) of all six kinds with every index up to one past the end on plain decks of 1-3 slides (1-4); 2 (3) operations on decks with notes, pictures, charts and settings; 1 (2) operations on decks of 2-3 slides (2-4) in the order, naming and spelling of another program; up to 2 (3) slides into a new presentation; symbolic texts of one (two) printable characters and tables.',
            outside='longer histories, larger decks; slides with media (video, audio); a table of a slide stands in place of its bullets.',
            assumptions=['the zip crate is replaced by a stored-only stand-in; files live in a virtual file system']),
'C06': dict(bounds='four decks (plain; notes, pictures and a chart; handouts and fonts; lazily written): every subset of the four parts that hold a package together missing, any other single part missing, any one content-type declaration missing, slides unlisted in presentation, relationships or both, an absent or empty slide list, any character of the last, fifth-last or eighth-last place of five relationship targets replaced by any of [a-z0-9_-], bare ampersands followed by symbolic text of up to 2 (3) of seven characters, 20 further texts, six parts emptied, cut or overwritten; three spellings of the relationships.',
            outside='several damaged parts at once other than those four; decks by other programs.',
            assumptions=['the zip crate is replaced by a stored-only stand-in; files live in a virtual file system', 'layouts, masters, themes and charts are shortened to one element, the text defaults of the presentation left out']),
'C08': dict(bounds='every history of 3 (4) operations on packages of awkwardly similar part names against a map; 26 part names that could be taken for each other, with contents of up to 2 arbitrary bytes (text of 3); a part of 1 MiB; all decks of C06 opened and saved by package, editor, repair and compression; archives whose parts hold one (two) arbitrary bytes or are cut; missing files and 4 (6) arbitrary bytes that are no archive.',
            outside='what the zip crate does with a damaged archive.',
            assumptions=['the zip crate is replaced by a stored-only stand-in; files live in a virtual file system']),
'C09': dict(bounds='two decks (three) with pictures, notes, a chart, comments, a thumbnail, unused media, with every combination of the five options, three target sizes, one level (four) and the presets; media referred to from five kinds of parts in six spellings with one symbolic character of seven in the target; documents of up to 5 (6) pieces of markup, text and blanks of 8 kinds, of 2 (3) pieces of 15 further kinds in four settings, and of 2 (3) symbolic characters of 12 in four places.',
            outside='larger documents; document type declarations; UTF-16 parts; comments of the newer threaded kind.',
            assumptions=['the zip crate is replaced by a stored-only stand-in, so sizes are those of uncompressed archives; files live in a virtual file system']),
'C07': dict(bounds='generated decks of every kind of slide (21 chart types, tables, shapes, pictures, ink, code, notes), 3 (7) layouts, every combination of handouts, signature, slide show, theme and up to 1 (2) fonts, by two (three) writers, with texts and font names that resemble references; three decks with any part missing that is required or the target of a relationship, with and without what speaks of it; any one content-type declaration missing, or with one of up to four characters replaced by any letter or digit; seven relationship targets with one of four characters replaced by any of [a-z0-9-_.]; one more relationship of any kind at five places; any XML part cut by a byte or with any non-ASCII byte inside; up to 3 (5) arbitrary bytes as an archive',
            outside='decks edited afterwards; several damages at once.',
            assumptions=['the zip crate is replaced by a stored-only stand-in; files live in a virtual file system', 'where parts are damaged, themes and layouts are shortened; the harness is built without syntax highlighting']),
'C04': dict(bounds='every pair (triple) of eight kinds of slide; every combination of handouts, signature, slide show, theme and up to 1 (2) fonts with three looks of printing; three slides with pictures of arbitrary bytes in four formats, equal or not; texts of up to one (two) arbitrary characters in four places and as the title; up to 3 (12) slides; templates with and without a theme; the in-memory, to-a-writer and lazy writers, Presentation::{build, save, into_bytes}, QuickPptx, create_pptx_with_content, and a lazy source that answers for its slides itself',
            outside='more slides; a lazy source that contradicts itself; writers that fail.',
            assumptions=['the clock stands still', 'the zip crate is replaced by a stored-only stand-in; files live in a virtual file system']),
'C16': dict(bounds='up to 2 (3) slides of five kinds (bullets of every style, notes, tables with spans, code, pictures with and without bytes) with every combination of the options; in nine places every text of 2 (3) XML characters, 2 (3) of eleven awkward ones, one character of up to four bytes, or one of 15 texts that look like markup; embedded pictures of up to 6 (8) arbitrary bytes in four formats; the saved file',
            outside='longer texts; characters XML cannot hold; what browsers do with malformed pages; nesting of list items.', assumptions=['the page is read by the reference XML parser, so it has to be well-formed XML after its head']),
'C17': dict(bounds='up to 2 (3) slides of six kinds with every combination of the options; in seven places every text of 2 (3) XML characters, of 3 (4) of nine characters that begin lists and headings, of 2 (3) of 14 characters of markup, of numbers before a dot, one character of up to four bytes, or one of 56 texts that look like markup; code of 2 (3) printable characters, 6 (8) of backtick, newline, blank and a letter, or a line of 4 (5) fence characters, in a language of 2 (3) awkward characters; the saved file',
            outside='longer texts; ragged tables beyond one kind; extensions of Markdown beyond GFM tables and strike-through (mathematics, emoji names, bare links).', assumptions=['the reading of Markdown is that of CommonMark and GFM as restated in harness/src/c17.rs, stricter where a character would only sometimes be markup']),
'C13': dict(bounds='every sequence of 3 (4) of 14 kinds of blocks (headings of all levels, paragraphs, lists, tables, quotations, rules, sections, with and without end tags, with colours); in any of them 31 texts of entities, inline markup, comments and stray characters or 2 (3) characters other than < and &; 20 things that show nothing, before, between and after any two blocks; code of 3 (4) awkward characters; every small limit and option; sequences of any 3 (4) of 38 pieces of markup; 3 (4) arbitrary bytes as a document, in tags, in attributes, in numeric references and in styles',
            outside='longer documents; pictures that exist or are downloaded; title of a slide that no heading starts; named references other than those of XML and nbsp; how white space in texts is kept.', assumptions=[]),
'C14': dict(bounds='every two (three) of 21 kinds of blocks (headings of all levels and styles, tight, loose and nested lists, task lists, tables, fenced and indented code, nested quotations, breaks, pictures, blocks inside list items); in any of them 32 texts of emphasis, entities, escapes, links and inline HTML or 4 (5) characters with no meaning in Markdown; 12 things that show nothing, before, between and after any two blocks; code of 3 (4) awkward characters; front matter, CRLF and a missing last line end; sequences of any 2 (3) of 40 pieces of markup; 2 to 4 arbitrary bytes as a document, after a heading, in a comment, in a list and in a table',
            outside='longer documents; pictures that exist or are downloaded; raw HTML blocks; title of a slide that no heading starts; emphasis within lower headings and picture names; Mermaid diagrams (C15). pulldown-cmark is executed, not modelled.', assumptions=[]),
'C15': dict(bounds='flowcharts of one edge with every pairing of 10 ways to write a node, 3 more, 14 arrows and five headers, with labels of 2 (3) arbitrary characters that mean nothing to Mermaid or nine awkward texts; every two (three) of nine kinds of statements (chains, groups of nodes, subgraphs, later texts, comments, styles); up to 10 (16) nodes; three (four) nodes in and out of two subgraphs in every way; every two of six diagrams on one slide; 11 other kinds of diagrams with such labels; sequences of any 2 (3) of 33 pieces of markup in each of 13 kinds; 3 (4) arbitrary bytes as a diagram and 4 to 6 (5 to 7) in four awkward places',
            outside='larger diagrams; labels that need quoting; styles and colours; the layout of kinds other than flowcharts beyond what fits the slide.', assumptions=['sin and cos of the pie layout are computed, not modelled', 'HashMap iteration order is the one std gives for one fixed hash seed']),
'C26': dict(bounds='all 125 kinds of shapes; shapes with every kind of fill, gradient, line, rotation and link, and texts of up to 4 (5) characters of code-like text; titles and contents with every combination of looks in all seven layouts; bullets of every style, level and look; code of up to 3 (4) awkward characters; text frames; tables and table parts with every look, border, alignment and merge, of up to 2x2 cells with symbolic positions; pictures with every effect and crop, lists of up to 3 (4) effects; connectors of every kind, arrow, dash, site and label; all 21 chart types with 1-3 series of 0-2 values; transitions, slide shows, handouts, comments, video and audio with symbolic sizes; all parts of presentations by three writers with every combination of settings',
            outside='elements of the schema the library never writes (the table in harness/src/schema.rs has some 250); elements of other namespaces than p, a, c, r, mc and p14; p:prnPr, which the library does not write into any part; values of font sizes and line widths past the range of the schema.',
            assumptions=['the schema is ECMA-376 as restated in harness/src/schema.rs', 'the clock stands still']),
'C27': dict(bounds='titles in six and contents in three layouts with every combination of their options, sizes from 1 to 4000 and colours of every two hexadecimal digits; bullets of all styles, levels 0 to 10 and looks, one group of options at a time (thorough: all); text frames, paragraphs and runs; shapes with every transparency to 110, outlines, rotations of 778 angles and the extremes of i32; linear gradients of 2-4 stops in 8 directions; table cells and table parts with every look, alignment, border and margin; pictures with up to 3 (4) effects and crops; connectors of every kind, dash, arrow, size, site and label; all transitions by three writers; slide shows with every option by two writers',
    outside='radial gradients (C26), colours of texts on filled shapes, connection sites on the left and right, turning timings off, line spacing of paragraphs, images of text frames'),
'C28': dict(bounds='texts of 2 (3) arbitrary printable characters, all characters of WinAnsiEncoding and any others beyond U+2200 in titles, bullets, plain contents and code; one group of looks at a time (thorough: all); every pair of bullet styles and levels; lists of up to 56 bullets; up to 40 bullets and 40 lines of code in 12 sizes; up to 5 (12) slides; colours with one arbitrary ASCII character or characters of 2, 3 and 4 bytes',
    outside='tables, pictures, charts and shapes, which the export does not draw; control characters; widths of texts, texts longer than the page is wide; numbering of lists that change style; the Markdown-based export through pdfrs'),
'C29': dict(bounds='the five templates with every list of 0 to 2 texts, one list at a time, and one arbitrary XML character in any text (thorough: all lists with all texts); the quick builder with up to 3 slides of four kinds; numbered decks of 0, 1, 2 and 11 slides; presentations of up to 2 additions of slides or other presentations, built, taken apart or saved; themes with an arbitrary digit in any of the twelve colours, every way of setting colours and fonts, and names and fonts of an arbitrary character; decks of up to 2 slides in seven layouts made in three ways from a template with colours of its own; the create, from-markdown and from-html commands with titles of two characters, up to 2 slides, their options, and output in a folder that is not there',
    outside='what Markdown and HTML mean beyond headings and bullets (C13, C14); bullets of a slide that also has a table, which the library leaves out; templates of another shape (C02); commands that fetch from the network or start other programs',
    assumptions=['the zip crate is replaced by a stored-only stand-in; files live in a virtual file system']),
'C30': dict(bounds='two shapes with links of 4 kinds and relationship ids free, taken, shared, empty or not given, on slides with nothing, notes and pictures, a chart and a picture, or notes, ink and a chart, by the in-memory and the lazy writer (thorough: also streamed, 7 ids on each shape); 14 targets with one arbitrary XML character in the target and the hint (thorough: 2); three slides linked in every way through two operations (insert, move, remove)', outside='links whose slide number is not in the deck, targets of more characters, links of pictures and connectors (there is no way to give one)'),
'C31': dict(bounds='presentation parts new or read with up to 2 slides of 4 sets of ids, up to 3 slides added with 4 sets of relationship ids (some taken by master or theme), 4 sizes; content types: 2 additions of 14 kinds (thorough: 3) with reading between; themes, layouts, masters, notes, application properties and slides with texts holding one arbitrary XML character, two rounds of setting and reading; one arbitrary scalar in notes; 9 picture and 10 media formats, one arbitrary byte', outside='longer texts; themes, layouts and masters of other programs with more than the parts model; the fields of the other part objects'),
}
NA = {}

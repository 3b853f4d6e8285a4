#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech)))

p("C01", "User text never breaks the generated XML and survives in it",
  "Whatever XML-representable text a caller supplies for a title, bullet, table cell, speaker note, shape label, chart label, section, comment or property, every XML part of the generated package that carries it is well formed. Undoing the XML escaping of that part gives back exactly the text that was supplied.",
  ["inputs"], "all texts, in every place the public API accepts text",
  "Tests use a few plain ASCII strings and one or two with '&'; the guarantee is over every string in every field.",
  ["src/core/xml_utils.rs", "src/generator/slide_xml", "src/generator/builder.rs", "src/generator/props_xml.rs", "src/generator/slide_content"],
  "escape_xml and the per-module copies of it, applied (or not) at each place where user text enters a part")
p("C02", "Generated packages are closed: parts, relationships and content types agree",
  "For every combination of slide features, every internal relationship target in a generated package names a part that is in the package, relationship ids are unique within a part, every relationship id used by a part is declared for it, every part has a content type of its own kind, every part can be reached from the package through relationships, and no part is written twice. Every picture, chart and ink reference on a slide leads to its own part. The presentation lists each slide exactly once, in order, with unique ids, and drawing ids on a slide are unique.",
  ["configurations"], "all combinations of slide contents and presentation settings (notes, charts, images, media, tables, comments, ink, fonts, sections, masters, themes)",
  "Tests build a handful of hand-picked decks; the numbering schemes interact combinatorially.",
  ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/media_registry.rs", "src/generator/slide_xml"],
  "write_package_files, rels and content-type emitters that each renumber parts and ids on their own")
p("C03", "A created presentation reads back as it was written",
  "Reading a generated presentation yields the same number of slides in the same order, with the same titles, bullet texts and table cell texts as were given to the generator for layouts that show them, including text of blanks only, the same speaker notes, and the same document title.",
  ["inputs", "configurations"], "all decks and all texts",
  "Round trips are tested on a few fixed decks; the guarantee is over all contents.",
  ["src/generator/builder.rs", "src/oxml/presentation.rs", "src/oxml/slide.rs", "src/oxml/xmlchemy.rs"],
  "create_pptx_* -> Package -> PresentationReader/SlideParser")
p("C04", "The in-memory, streaming and lazy writers produce the same presentation",
  "For the same slides and settings, every way of writing a presentation (in memory, to a writer, lazily from a slide iterator or source) produces the same set of parts with the same contents.",
  ["configurations"], "all decks and settings",
  "Tests compare only slide counts of small decks.",
  ["src/generator/builder.rs"], "write_package_files versus the lazy writer and the streaming entry points")
p("C05", "Editing a presentation behaves like editing a list of slides",
  "After any sequence of add, insert, update, duplicate, reorder and remove operations, reading the presentation gives exactly the slides a plain list would hold after the same operations, out-of-range operations are refused without any change, and the package stays closed.",
  ["histories", "inputs"], "all finite operation sequences with all indices on all decks",
  "Tests run single operations on two- or three-slide decks; ids and part names collide only after particular histories.",
  ["src/oxml/editor.rs"], "PresentationEditor's renumbering of slide parts, relationship ids, sldIdLst and content types")
p("C06", "Repair never loses content, reaches a valid package, and is idempotent",
  "Repairing a package never removes or alters slides, media or text that were readable before; after a repair that reports success, validating again reports none of the repaired issues; and repairing a valid package changes nothing.",
  ["inputs", "fault_sequences"], "all packages and all combinations of missing or damaged parts",
  "Tests remove one part at a time from one deck.",
  ["src/oxml/repair.rs"], "PptxRepair::validate / repair and its XML fixer")
p("C07", "Package validation accepts generated packages and reports every structural break",
  "Validation reports no error for any generated presentation, and reports at least one error for a package in which a required part, the target of an internal relationship, or a content-type declaration that a part needs is missing.",
  ["inputs", "fault_sequences"], "all generated decks and all single-part or single-relationship deletions",
  "Tests exercise a few deletions on one deck.",
  ["src/core/package_validation"], "validate_package and its structure/relationship/content-type checks")
p("C08", "Opening, changing and saving a package preserves every other part byte for byte",
  "Saving a package and opening the result gives the same set of parts with the same bytes; adding, replacing or removing one part changes that part only; opening a missing file or bytes that are no archive gives an error; and reading, editing, validating or repairing an archive whose parts hold arbitrary bytes never panics.",
  ["inputs", "histories"], "all part names and contents, all operation sequences, all byte strings",
  "Tests save and open one small package.",
  ["src/opc/package.rs"], "Package::{open, open_reader, save, save_to_bytes, add_part, remove_part}")
p("C09", "Compressing a presentation keeps what it refers to and what it says",
  "Compression never removes media that some remaining part refers to, never alters the text, attribute values or element structure of any XML part it keeps, and removes only what the options ask for.",
  ["inputs", "configurations"], "all packages, all XML contents and all option combinations",
  "Tests check that an output file exists and is not larger.",
  ["src/opc/compress.rs"], "remove_unused_media, remove_* and minimize_xml")
p("C10", "Colours parse, convert and print consistently and never panic",
  "A colour string is accepted exactly when it is six hex digits after an optional '#', and gives the colour they spell; every colour's printed form parses back to the same colour; channel accessors agree with the printed form; lightening, darkening, mixing and opacity stay within the channel range for every argument and leave the colour alone at their neutral argument.",
  ["inputs"], "all strings, all channel values and all adjustment amounts",
  "Tests use a few well-known hex strings.",
  ["src/elements/color.rs", "src/helpers/colors.rs"], "from_hex / to_hex / lighter / darker / mix / opacity / grayscale / invert")
p("C11", "Lengths convert to EMU exactly, monotonically and without wrapping",
  "Every length unit converts to EMU with the documented factors (914400 per inch, 360000 per cm, 12700 per point), conversion is monotone, saturates at the limits instead of wrapping, and never panics, and ratio and percentage lengths are fractions of the reference extent.",
  ["inputs"], "all numeric arguments, including negative, huge, infinite and not-a-number values",
  "Tests use about a dozen round values.",
  ["src/core/dimension.rs", "src/core/placement.rs", "src/elements/position.rs", "src/prelude.rs", "src/parts/slide.rs"],
  "Dimension::to_emu and the unit helpers")
p("C12", "Table cell merges never overlap, never leave the table, and match the table XML",
  "A merge request is accepted exactly when its region lies inside the table and is disjoint from the accepted ones; every cell then belongs to at most one region, exactly one anchor cell carries the spans, and a rejected request changes nothing. Generated table XML has one grid column per column and one cell per grid position in every row.",
  ["inputs", "histories"], "all table sizes, regions and sequences of merges",
  "Tests try a few regions on fixed tables.",
  ["src/generator/slide_content/table_merge.rs", "src/generator/table"], "TableMergeMap and the table XML emitter")
p("C13", "HTML import never panics, obeys its limits and keeps the text",
  "Importing any text as HTML terminates with slides or an error; it never yields more slides or bullets per slide than the options allow, never yields content of a kind the options exclude, and the character data of headings, paragraphs, list items, table cells, preformatted code and quotations appears once and in order, with entities decoded, on the slide of the first-level heading or rule before it (a second table starts a further slide, a later quotation replaces an earlier one), whether or not end tags are left out, while scripts, styles, navigation, forms, comments and stray end tags show nothing and change nothing after them. A colour holds for its element and what is inside.",
  ["inputs", "configurations"], "all byte strings that are valid UTF-8 and all options",
  "Tests feed well-formed snippets; malformed tags and entities are barely sampled.",
  ["src/import/html.rs"], "tokenize_html, decode_entities, HtmlSlideParser")
p("C14", "Markdown import never panics and keeps the content in order",
  "Importing any text as Markdown terminates with slides or an error; each level-1 heading starts a slide with that title, and lower headings (in bold), list items at any depth, paragraphs, table cells (rows as wide as the head), code (with its indentation and language), quotations (as notes) and picture placeholders appear on the slide of the preceding heading or slide break, in order and with their text intact: inline markup becomes the same markers around the text, line breaks within a paragraph a blank, and entities and escapes the characters they stand for. A slide break before a heading, comments, link definitions, metadata blocks, front matter and empty blocks show nothing.",
  ["inputs"], "all Markdown documents",
  "Tests use a few complete example documents.",
  ["src/cli/markdown/parser.rs"], "MarkdownParser::handle_event")
p("C15", "Mermaid diagrams of any text are drawn without panic, whole and connected",
  "Any text given as a Mermaid diagram in Markdown is drawn as shapes and connectors on its slide without panicking. Of a flowchart every node's text, every edge's label and every subgraph's name appear (each node once, in the shape its brackets ask for and by the last text given to it, or else its id), and each edge is a connector that is attached to the shapes of the nodes it joins and ends on them, dashed if the edge is dotted; no two nodes overlap; a diagram that fits the slide lies below the title in the middle of it. The other kinds (sequence, pie, gantt, class, state, ER, mindmap, timeline, journey, quadrant, git graph) show the texts they are given and connect what they relate. Two diagrams on one slide do not change each other's connections, and the drawing is the same each time.",
  ["inputs"], "all texts",
  "Tests render one or two diagrams per kind.",
  ["src/cli/markdown/mermaid", "src/cli/markdown/parser.rs"], "detect_type, create_diagram_elements, the per-kind parsers and layouts, add_mermaid_diagram")
p("C16", "HTML export escapes all slide text and shows all of it",
  "In exported HTML every title, bullet, table cell, note and code block appears exactly once in slide order as properly escaped text, so that no slide text can introduce markup; embedded images decode to the image's bytes.",
  ["inputs", "configurations"], "all texts, image bytes and option combinations",
  "Tests look for a substring in the export of one deck.",
  ["src/export/html.rs"], "export_to_html_with_options, escape_html, base64_encode")
p("C17", "Markdown export is unambiguous and complete",
  "In exported Markdown every slide's title, bullets, table cells, code and notes appear in slide order, each text on one line of its own (line breaks written as <br>) with markup characters escaped, so that a reader of Markdown sees the text as it is, but for blanks at its ends, and no slide text can introduce a heading, list item, table cell, code, link or slide break of its own. Tables keep every cell, code ends only where its fence does, each picture is referred to once, and the title in the front matter is a YAML text equal to the title.",
  ["inputs", "configurations"], "all texts and option combinations",
  "Tests look for substrings in the export of one deck.",
  ["src/export/md.rs"], "export_to_markdown_with_options, escape_markdown, escape_yaml")
p("C18", "Images of any bytes are handled without panic and stored intact",
  "Detecting the format or size of any byte string never panics and reports the size stated in the image header; base64 input decodes to the encoded bytes or is refused; and each distinct image of a presentation is stored with exactly its bytes under a name that its slide refers to.",
  ["inputs"], "all byte strings and all lists of images",
  "Tests use one or two tiny images.",
  ["src/generator/images.rs", "src/generator/media_registry.rs", "src/parts/image.rs"], "read_image_dimensions, ImageBuilder::auto, base64_decode, MediaRegistry")
p("C19", "Relationship parts round-trip and never reuse an id",
  "Writing a set of relationships as XML and parsing it gives the same ids, types and targets; ids handed out are never equal to an id already present.",
  ["inputs", "histories"], "all ids, types, targets and operation sequences",
  "Tests add two or three relationships.",
  ["src/parts/relationships.rs"], "Relationships::{add, add_with_id, to_xml, from_xml}")
p("C20", "Document properties are written as given and round-trip",
  "Writing core properties as XML and parsing the XML gives the same title, subject, creator, keywords, description, last modifier, dates and revision, for every text, and a field appears exactly when it is set; touching adds one to the revision and keeps the rest; the dates written are the current date and time. Every writer records the document title, the number of slides and notes, and the title of each slide in order (some other name for a slide whose title is blank).",
  ["inputs"], "all texts in all fields, all subsets of fields, all dates and all decks",
  "Tests use fixed ASCII fields.",
  ["src/parts/coreprops.rs", "src/generator/props_xml.rs"], "CorePropertiesPart::{to_xml, from_xml, touch}, create_core_props_xml, create_app_props_xml")
p("C21", "The XML reader never panics, and reads back text and attributes exactly",
  "Parsing any text as XML ends in a tree or an error, and for a well-formed document the tree has the document's elements, attribute values and character data with entities decoded, and the finders find exactly the elements of the asked name. Reading a slide gives its title, the texts and formatting of its runs in order, the texts and spans of its table cells, and the place and size of its shapes.",
  ["inputs"], "all texts",
  "Tests parse a few fixed documents.",
  ["src/oxml/xmlchemy.rs", "src/oxml/slide.rs"], "XmlParser::parse_str and XmlElement accessors")
p("C22", "Charts carry every category and value they were given",
  "For every chart of finite values, the chart part is of the kind, direction and grouping asked for and lists every series with its name, every category and every value, in order and with matching counts, each series in its own cells of the workbook (a pie or doughnut shows its first series; scatter and bubble charts have no categories). Every chart of a slide is in the package behind its own frame.",
  ["inputs", "configurations"], "all chart types, category lists and series",
  "Tests build charts of a few kinds with three values.",
  ["src/generator/charts/xml.rs", "src/generator/charts/data.rs", "src/generator/charts/embedding.rs"], "generate_chart_xml and the per-type emitters")
p("C23", "Inline text formatting keeps the text",
  "Splitting a text into formatted runs keeps all of its characters except the formatting markers that have a partner, in order; the text between partners has the look they stand for, text between backticks is kept as it is, and text without markers gives exactly one unformatted run.",
  ["inputs"], "all texts",
  "Tests use a few marked-up phrases.",
  ["src/generator/slide/formatting.rs", "src/cli/syntax.rs"], "parse_inline_formatting and run generation")
p("C24", "Sections and comments number and address slides consistently",
  "Accepted sections never overlap, rejected ones change nothing, each slide is in at most one section, and the written section list names exactly the existing slides of each section; the slide ids written are those of the presentation; comment authors keep one id per name and every comment refers to an existing author id it was given.",
  ["inputs", "histories"], "all sequences of section and comment operations",
  "Tests add two or three sections.",
  ["src/generator/slide_content/sections.rs", "src/generator/slide_content/comments.rs"], "SectionManager, CommentAuthorList")
p("C25", "Relative placement keeps elements where they were asked to be, inside the slide",
  "Centering, grid, stack and distribute helpers place elements without wrapping: elements that fit lie inside the slide, do not overlap, and are centred or evenly spaced as requested; size limits are never exceeded by fitting. Connectors run between the points they were given whichever way they point, and the written geometry is the one given.",
  ["inputs"], "all element sizes, counts and spacings",
  "Tests check a few layouts.",
  ["src/prelude.rs", "src/core/placement.rs"], "layouts::{center, grid, stack_*, distribute_*}")
p("C26", "Generated XML follows the schema of its format",
  "Everything the library writes for a slide and the parts of its presentation - shapes of every kind, text, bullets, code, tables, pictures, effects, connectors, charts, media, transitions, ink, comments, masters and layouts - has only elements and attributes that the PresentationML, DrawingML and chart schemas (ECMA-376 transitional) have in that place, in their order, as often as allowed, with the attributes that are needed and with values that are allowed: presets that exist, angles, levels and sizes in their range. Relationship references are there where they are needed and identifiers that refer to each other (chart axes) match.",
  ["inputs"], "all combinations of the options of each kind of content, and all values of its numbers and texts",
  "Tests look for substrings in the XML of a few combinations; no schema is consulted, so an option that puts an element out of order or writes a value that does not exist passes.",
  ["src/generator", "src/parts/table.rs"], "slide_xml::create_slide_xml_with_content, generate_*_xml, create_pptx*")
p("C27", "The look asked for is the look written",
  "What the builders are asked for is what the slide says, no more and no less, and only where it was asked for: bold, italic, underlined, struck through, raised or lowered, size, colour, highlight and font of titles, contents, bullets, text runs and table cells; the style, level and indentation of bullets (deeper ones further in); alignment, spacing, anchors, wrapping and margins of paragraphs and text frames; fill, transparency, outline, rotation (modulo full turns) and gradient stops of shapes; alignments, backgrounds, borders and margins of cells, widths of columns and heights of rows; effects, crop and description of pictures; colour, width, dashes, arrows, ends and labels of connectors; the transition of each slide; the options of the slide show. A look given to a bullet or cell adds to that of the whole and leaves its neighbours alone.",
  ["inputs"], "all combinations of the options of each builder and all values of their colours, texts and numbers",
  "Tests set one or two options and look for a substring anywhere in the XML; an option dropped in one layout, applied to a neighbour, or written as a default that means something else passes.",
  ["src/generator", "src/parts/table.rs"], "SlideContent::{title_*,content_*,with_transition}, BulletPoint, Run/Paragraph/TextFrame, Shape, TableCell, TableCellPart, Image, Connector, SlideShowSettings")
p("C28", "PDF export is a sound document that shows the texts of the slides",
  "Exporting a presentation to PDF never panics, whatever its texts and colours, and fails only when there are no slides. The document is sound: the cross-reference table leads to every object, stream lengths are right, references and fonts used by a page exist, and there is one page per slide, in order. Each page shows the title, then the bullets with their signs (numbers, letters, Roman numerals, counted on), then the code line by line, then its number - everything that fits, in order, from the top down within the page, nothing changed or swapped: parentheses and backslashes, and every character WinAnsiEncoding has; others leave a question mark. Bold, italic, size and colour are those asked for, and deeper bullets are further in. The file written is the document returned.",
  ["inputs"], "all texts, colours, looks and numbers of bullets and slides",
  "Tests look at the first five bytes and a handful of helper results; no test reads the document, so a wrong offset, an unescaped character or a lost bullet passes.",
  ["src/export/slide_render.rs"], "render_to_pdf_bytes, render_to_pdf, Presentation::save_as_pdf")
p("C29", "Every way to make a presentation gives the deck it describes",
  "Templates (proposal, training, status report, technical documentation, simple), the quick builder of the prelude, numbered decks, the Presentation of the API and the create, from-markdown and from-html commands give a sound deck whose slides are those described, in order: each with its title first and then exactly the texts given, in order, nothing dropped, repeated or moved to another slide, and the title asked for as the title of the document. Parts of a template that may be left out are left out just when they are empty. A presentation that is built, turned into bytes or saved is the same deck; one without slides is refused. Slides of another presentation are added after its own. A theme has every colour, font and name it was given. A deck made from a template file has its masters, layouts and theme unchanged, none of its slides, and each slide on the layout that belongs to it. A command writes its file, and the folders for it, just when there are slides.",
  ["inputs", "histories"], "all texts, list lengths, colours, fonts and orders of building",
  "Tests ask that the result is not empty or contains some constant; none compares the slides with what was given, so a list on the wrong slide or a lost author passes.",
  ["src/templates.rs", "src/prelude.rs", "src/api.rs", "src/cli/commands.rs", "src/generator/presentation_theme.rs", "src/generator/template.rs"], "templates::*, QuickPptx, create_pptx, Presentation, PresentationTheme::to_theme_xml, create_pptx_with_template, CreateCommand, FromMarkdownCommand, FromHtmlCommand")
p("C30", "Links lead where they were asked to lead",
  "Every link given to a shape is on that shape of the written slide, with its hint, and leads where it was asked to: to exactly that address, to that slide of the deck as a jump to a slide, to the first, last, next or previous slide or the end of the show, to the mail address with exactly the given subject, or to the file. That holds whatever relationship id the caller gave it, or none, also an id that another link or another thing on the slide has, and for every way of writing the deck. Shapes without a link have none. When slides are inserted, moved or removed with the editor, a link still leads to the slide it was given for, and a link to a slide that was removed is gone.",
  ["inputs", "configurations", "histories"], "all targets, hints, relationship ids, slide contents and edits",
  "Tests look at one link with an id that happens to be free; ids collide only for particular slides, and no test follows a link.",
  ["src/generator/hyperlinks.rs", "src/generator/builder.rs", "src/generator/shapes_xml.rs", "src/oxml/editor.rs"], "Hyperlink, generate_shape_hyperlink_xml, generate_hyperlink_relationship_xml, with_link_ids, remove_links_to")
p("C31", "Part objects carry what is set on them and read back what they wrote",
  "The part objects of ppt_rs::parts write what was set on them last, and only that, and what one of them wrote is read back to an object that says and writes the same. For the presentation part: slides in order, each with an id of its own from 256 on, and one relationship each for slides, master and theme with ids that never collide, also after reading another program's ids. For content types: one type for each extension and each part, the one given last. For themes: name, both fonts and every colour; for layouts and masters: type, name and layouts with unique ids; for notes: every line; for application properties: every field; for slides: title and bullets. Pictures and media name the path, content type and kind that belong to their format and keep their bytes. Setting something after reading has effect.",
  ["inputs", "histories"], "all texts, formats, ids and orders of setting and reading",
  "Tests write a fresh part and search for a word, or read a part and look at nothing; what is set on a part that was read, and ids that collide, are not tested.",
  ["src/parts/presentation.rs", "src/parts/content_types.rs", "src/parts/theme.rs", "src/parts/slide_layout.rs", "src/parts/slide_master.rs", "src/parts/notes_slide.rs", "src/parts/app_props.rs", "src/parts/slide.rs", "src/parts/image.rs", "src/parts/media.rs"], "PresentationPart, ContentTypesPart, ThemePart, SlideLayoutPart, SlideMasterPart, NotesSlidePart, AppPropertiesPart, ImagePart, MediaPart: setters, to_xml, from_xml")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

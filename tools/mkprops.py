#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Every written document has a sound object/xref/trailer skeleton",
 "For every sequence of API calls, the bytes written start with the PDF header, contain each registered object exactly once as 'N 0 obj … endobj' numbered 1..n in registration order, and end with a cross-reference table whose n+1 fixed-width entries hold the exact byte offset of each object, a trailer whose /Size is n+1 and whose /Root (and /Encrypt, /Info when present) are right, and a startxref that is the exact offset of the table. The byte count returned equals the number of bytes written, and an error of the destination writer is reported to the caller.",
 ["programs","inputs","histories"],"all documents (any number and kind of objects, any object sizes, with or without info and protection) and all writers, failing ones included",
 "Tests write a few small documents and never parse the xref back; offsets depend on the length of every object written before.",
 ["gopdf.go","catalog_obj.go"],[("compilePdf","gopdf.go"),("xref","gopdf.go"),("formatXrefline","gopdf.go"),("countingWriter.Write","gopdf.go"),("writeInfo","gopdf.go")],
 [("GoPdf.pdfObjs","registered objects; index+1 is the object number","gopdf.go")],["bytes returned by WriteTo/GetBytesPdf/Write"])
p("C02","The page tree lists every page once, in order, with its own content",
 "In every written document the page-tree node lists each added page exactly once in the order of addition with a matching count, and each page refers to the page tree as parent, to the resources, to its own content stream, to its own annotations and to its own page box. Writing a document again without changing it yields the same bytes.",
 ["programs","histories"],"all sequences of page additions and all numbers of writes",
 "Needs every history of page additions, page switches and repeated writes; tests render each document once.",
 ["gopdf.go","pages_obj.go","page_obj.go"],[("prepare","gopdf.go"),("PagesObj.write","pages_obj.go"),("PageObj.write","page_obj.go"),("addPageWithOption","gopdf.go")])
p("C03","Every object reference resolves to the object it is meant to name",
 "Each reference written by one object to another (catalog to pages and outlines, resources to fonts, colour spaces, images, graphics states; font to descendant font, descriptor, font file and Unicode map; image to soft mask; state to mask; mask to group) carries the number under which that object is registered, whatever was registered before or in between.",
 ["programs","histories"],"all registration orders and all object numbers",
 "Object numbers depend on the whole history of calls; tests check few or no references.",
 ["gopdf.go","procset_obj.go","subset_font_obj.go","cid_font_obj.go","subfont_descriptor_obj.go","catalog_obj.go"],
 [("addObj","gopdf.go"),("setSubsetFontObject","gopdf.go"),("ProcSetObj.write","procset_obj.go")])
p("C04","Every stream declares exactly the number of bytes it contains",
 "For every stream object written (page content, image, font program, Unicode map, soft mask, transparency group, colour profile) the declared length equals the number of bytes between the stream keywords, compressed or not, encrypted or not.",
 ["inputs","configurations"],"all stream contents, compression levels and protection settings",
 "Lengths are data dependent; tests never parse a stream length back.",
 ["content_obj.go","image_obj.go","pdf_dictionary_obj.go","unicode_map.go","smask_obj.go","transparency_xobject_group.go","device_rgb_obj.go"],
 [("ContentObj.write","content_obj.go"),("ImageObj.write","image_obj.go"),("UnicodeMap.write","unicode_map.go")])
p("C05","Protected documents follow the standard security handler consistently",
 "When protection is requested, the owner and user entries, the permission word and the file key are derived from the passwords as the 40-bit standard security handler prescribes, and every stream the library generates is encrypted exactly once, with the key derived from the file key and the number of the object that carries it; without protection nothing is encrypted.",
 ["inputs","configurations"],"all passwords (any length, empty included), permission sets (any combination of the Permissions constants) and object numbers",
 "Key derivation must hold for every password and object number; the test only checks that a protected file is produced.",
 ["pdf_protection.go","encryption_obj.go","content_obj.go","image_obj.go"],
 [("PDFProtection.setProtection","pdf_protection.go"),("PDFProtection.objectkey","pdf_protection.go"),("EncryptionObj.write","encryption_obj.go")])
p("C06","Units convert correctly and reversibly everywhere",
 "Converting a length between the configured unit and points multiplies by exactly that unit's factor (1, 72/25.4, 72/2.54, 72, 72/96, or the configured custom factor), both directions are inverse, scalar, rectangle and box forms agree, and every coordinate or length given to a drawing or layout call is converted exactly once with the document's own unit configuration.",
 ["inputs","configurations"],"all real lengths, units and custom factors",
 "The factors meet every value and every API entry point; tests sample a few values for the scalar functions.",
 ["config.go","rect.go","box.go","gopdf.go","margin.go"],[("unitsToPoints/pointsToUnits","config.go"),("Rect.unitsToPoints","rect.go"),("Box.unitsToPoints","box.go")])
p("C07","Measured text width and drawn text position agree",
 "The measured width of a text is the sum of its glyph advances, kerning corrections and character spacing at the current size, the cursor advances by exactly that width (or the cell width), and left, right, centre, top, middle and bottom alignment place the text and border inside the given rectangle accordingly.",
 ["inputs"],"all texts, fonts, sizes, spacings, rectangles and alignments",
 "Arithmetic over every text and rectangle; tests sample few and check no positions.",
 ["cache_content_text.go","gopdf.go"],[("createContent","cache_content_text.go"),("calX/calY","cache_content_text.go")])
p("C08","Text is emitted with the right glyphs, font, colour and position",
 "Each run of text is written as one text object that sets position, font, size, spacing, colour and rise given by the caller, and shows exactly the glyph numbers of its characters in order with the kerning corrections between them; consecutive text is merged into one run only if every attribute agrees, and merging loses or reorders nothing.",
 ["inputs","histories"],"all texts, attribute combinations and call sequences",
 "Needs every attribute combination and history of calls; tests compare no content streams.",
 ["cache_content_text.go","list_cache_content.go","content_obj.go"],[("cacheContentText.write","cache_content_text.go"),("isSame","cache_content_text.go"),("appendContentText","list_cache_content.go")])
p("C09","Splitting text loses nothing, fits the width and terminates",
 "Splitting a text into lines returns, in order, pieces that together hold the whole text (up to removed line breaks, break blanks and added hyphens), each no wider than the given width unless it is a single character, and it always terminates without a panic.",
 ["inputs"],"all texts, widths and break options, characters wider than the line included",
 "Universally quantified over texts and widths; tests use one or two sentences.",
 ["gopdf.go","break_option.go"],[("SplitText","gopdf.go"),("SplitTextWithWordWrap","gopdf.go"),("SplitTextWithOption","gopdf.go")])
p("C10","Characters map to the font's glyphs, widths and Unicode values",
 "For every character the glyph number used is the one the font's character map assigns (or the replacement chosen by the caller's not-found handler), glyph widths written are the font's own advances scaled to 1000 units, and the Unicode map written for the font maps each used glyph back to its character.",
 ["inputs"],"all fonts, character maps and characters",
 "Needs every character map segment and character; tests use one or two fonts and sentences.",
 ["subset_font_obj.go","unicode_map.go","cid_font_obj.go","map_of_character_To_glyph_index.go"],[("CharCodeToGlyphIndex","subset_font_obj.go"),("UnicodeMap.write","unicode_map.go"),("CIDFontObj.write","cid_font_obj.go")])
p("C11","The embedded font subset keeps every used glyph intact",
 "The embedded font program contains, at unchanged glyph numbers, byte-identical outlines for every used glyph and every component it needs at any depth, with a glyph-location table that delimits exactly these outlines, and a table directory with right offsets, lengths and checksums in big-endian form.",
 ["inputs"],"all fonts and sets of used glyphs, nested composite glyphs included",
 "Depends on every font and glyph set; tests only embed one font and never read it back.",
 ["pdf_dictionary_obj.go","buff_write.go","buff.go"],[("makeGlyfAndLocaTable","pdf_dictionary_obj.go"),("completeGlyphClosure","pdf_dictionary_obj.go"),("makeFont","pdf_dictionary_obj.go"),("CheckSum","pdf_dictionary_obj.go")])
p("C12","Font files are read as big-endian tables and bad ones are refused",
 "Reading a font file decodes every integer of its tables as the big-endian value the file holds at the position its table directory gives, and a damaged or truncated file yields an error, never a panic or an endless loop.",
 ["inputs"],"all byte sequences offered as a font file",
 "All byte sequences; tests read a few valid fonts.",
 ["fontmaker/core/ttfparser.go","fontmaker/core/ttfparser_kern.go","fontmaker/core/ttfparser_cmap_other_format.go"],[("TTFParser.parse","fontmaker/core/ttfparser.go"),("ReadUShort/ReadULong/ReadShort","fontmaker/core/ttfparser.go")])
p("C13","Images are decoded faithfully and bad ones are refused",
 "For a supported image the written object has the image's own width, height, bit depth, colour space, palette and transparency, the pixel data separated into colour and alpha without loss, and is drawn at the place and size asked for; a damaged or truncated image yields an error, never a panic.",
 ["inputs"],"all image byte sequences, all sizes and placements",
 "All byte sequences and pixel data; tests use a few valid files.",
 ["image_obj_parse.go","image_obj.go","cache_content_image.go"],[("parsePng","image_obj_parse.go"),("writeImgProps","image_obj_parse.go"),("cacheContentImage.write","cache_content_image.go")])
p("C14","Drawing calls emit exactly the operators and operands asked for",
 "Each line, rectangle, oval, curve, polygon, rotation, clip, line width, dash style, template or image call appends to the current page, in call order, the PDF path, state and paint operators of that shape with the caller's coordinates flipped to the page's bottom-left origin, and every saved graphics state is restored.",
 ["inputs","histories"],"all coordinates, page heights, styles and call sequences",
 "All coordinates and style combinations; tests check no operators.",
 ["content_obj.go","cache_content_line.go","cache_content_rectangle.go","cache_content_oval.go","cache_contnent_curve.go","cache_content_polygon.go","cache_content_rotate.go","cache_content_clip.go"],[("cacheContent*.write","cache_content_*.go"),("ContentObj.AppendStream*","content_obj.go")])
p("C15","Colours reach the page with the components the caller gave",
 "Gray, RGB and CMYK stroke, fill and text colours and named spot colours are written with the operator of that colour kind and purpose and with each component scaled from the caller's range to 0..1 in order; named colours refer to the colour space registered under that name.",
 ["inputs"],"all colour components, purposes and names",
 "All component values and purposes; tests compare none.",
 ["cache_contact_color_rgb.go","cache_content_color_cmyk.go","cache_content_gray.go","cache_content_text_color_rgb.go","cache_content_text_color_cmyk.go","cache_color_space.go","color_space_obj.go"],[("cacheContentColorRGB.write","cache_contact_color_rgb.go"),("ColorSpaceObj.write","color_space_obj.go")])
p("C16","Links are written with the right rectangle, target and escaping",
 "Each external or internal link becomes one annotation of the page it was added on, with the caller's rectangle in page coordinates and a target equal to the given address (special characters escaped) or to the page and height where the named anchor was set; a link to an unknown anchor leaves a well-formed document.",
 ["inputs","histories"],"all rectangles, addresses, anchor names and orders of definition",
 "All strings and orders of anchor definition; tests add one link.",
 ["annot_obj.go","gopdf.go"],[("annotObj.write","annot_obj.go"),("AddExternalLink/AddInternalLink/SetAnchor","gopdf.go")])
p("C17","Outlines form one consistent linked tree with faithful titles",
 "The outline entries form doubly linked sibling lists under their parents whose first, last, previous, next, parent and count references agree with the order and nesting the caller gave; each entry carries its title in UTF-16 and points to the page (and height) current when it was added.",
 ["histories","inputs"],"all sequences and nestings of outline entries and all titles",
 "All histories and nestings; tests build one and only look that it is written.",
 ["outlines_obj.go"],[("AddOutline","outlines_obj.go"),("OutlineNodes.Parse","outlines_obj.go"),("encodeUtf8","outlines_obj.go")])
p("C18","Transparency settings are validated, cached and applied as given",
 "A transparency setting outside 0..1 or with an unknown blend mode is refused; an accepted one is written as a graphics state with exactly the given stroke and fill opacity (to the three decimals written) and blend mode, settings equal at that precision share one state object and different ones never do, and the setting applies to the drawing calls that name it or that follow it until it is cleared.",
 ["inputs","histories"],"all opacities, blend modes and sequences of settings",
 "Cache lookups depend on the history; tests sample a handful of values.",
 ["transparency.go","ext_g_state_obj.go","smask_obj.go","gopdf.go"],[("NewTransparency","transparency.go"),("TransparencyMap.Find/Save","transparency.go"),("ExtGStatesMap","ext_g_state_obj.go")])
p("C19","Page, margin and cursor state follow the documented rules",
 "Adding a page puts the cursor at the left and top margins of that page, margins, cursor and page size read back in the document's unit equal what was set, a line break returns to the left margin and moves down by the given height, new-line helpers start a new page exactly if the requested height does not fit above the bottom margin, and switching pages directs later drawing to that page (documents without header and footer callbacks).",
 ["histories","inputs","configurations"],"all sequences of page, margin and cursor calls in all units",
 "State machine over every history and unit; tests exercise a couple of sequences in points.",
 ["gopdf.go","margin.go","current.go"],[("AddPageWithOption","gopdf.go"),("Br","gopdf.go"),("SetNewY/SetNewXY","gopdf.go"),("SetPage","gopdf.go")])
p("C20","Tables place every cell, border and text where the layout says",
 "A table draws its header and every row in order, each cell at the sum of the widths of the columns before it and the heights of the rows before it, with the column's alignment, the style of its kind and the borders asked for; rows that do not match the columns never cause a panic.",
 ["inputs","histories"],"all column and row sets, widths, heights and styles",
 "All column and row sets; tests draw one or two tables and check no geometry.",
 ["table.go"],[("tableLayout.DrawTable","table.go"),("drawCell","table.go"),("drawBorder","table.go")])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")

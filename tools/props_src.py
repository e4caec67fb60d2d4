"""Source of properties.jsonl (run: python3 tools/props_src.py)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


RENDER_SVG = "deck.render(output=None, return_units=True) -> unit.get_svg()"

prop("C01", "Content is on exactly the pages its fragment selectors name",
     "A slide produces one page per fragment, numbered 1..N, where N is the largest fragment number named by any box of the slide (at least 1, whether or not that box is ever visible), and the drawing of a box appears on page k exactly when k is selected by the `show` argument of that box and of every enclosing box. "
     "A selector is a number, a range `a-b`, an open range `a+` or a comma-separated union of these with surrounding spaces allowed; `next`/`last`/`next+`/`last+` are resolved at the moment of the call against the largest fragment number used so far in that slide, and `current_fragment()` reports that number. "
     "Fragment numbering of one slide is never influenced by another slide.",
     ["programs", "inputs", "histories"],
     "every sequence/nesting of box calls with every legal selector (multi-interval, multi-digit, placeholders), over one or more slides",
     "Tests render a handful of fixed selectors; visibility is the conjunction over a path in an unbounded tree and `next`/`last` depend on the whole call history.",
     ["elsie/slides/show.py", "elsie/slides/slide.py", "elsie/boxtree/box.py", "elsie/boxtree/boxmixin.py"],
     [("ShowInfo.parse / is_visible / max_step", "elsie/slides/show.py"), ("Box.get_painters skips invisible subtrees", "elsie/boxtree/box.py"), ("Slide.steps, Slide.max_step", "elsie/slides/slide.py")],
     [("max_step", "largest fragment used so far in the slide", "Slide"), ("open_step/steps", "selected fragments", "ShowInfo")],
     [RENDER_SVG, "Box.current_fragment()"])

prop("C02", "Layout does not depend on which fragment is shown",
     "Everything drawn in a slide is drawn at the same position and size on every page on which it is visible, and adding, changing or removing `show` selectors never moves or resizes anything: hidden boxes keep occupying their space.",
     ["programs", "inputs"],
     "every box tree with every assignment of selectors to its boxes, all pages",
     "Golden tests fix a few trees; the statement relates all pages of a slide with each other and with the selector-free variant of the same program.",
     ["elsie/boxtree/layout.py", "elsie/boxtree/box.py", "elsie/slides/slide.py"],
     [("Layout tree is computed without regard to ShowInfo", "elsie/boxtree/layout.py:set_rect"), ("Slide.prepare", "elsie/slides/slide.py")],
     observe=[RENDER_SVG])

prop("C03", "Paint order is the tree order, stably sorted by z-level",
     "Visible drawings of a page are painted in increasing z-level; drawings of equal z-level are painted in depth-first order of the box tree, where the children (boxes and drawings) of a box are ordered by creation, `prepend` puts a box first, and `above=b`/`below=b` put it immediately after/before sibling b. "
     "A box without `z_level` has the z-level of the box it was created in and drawings have the z-level of their box; the slide background is painted below everything with a z-level above -1000000. "
     "Neither hidden boxes, nor enabling `debug_boxes` (which only adds drawings) changes the relative order of the others.",
     ["programs", "inputs", "histories"],
     "every sequence of box/draw calls with every combination of z_level, prepend, above and below, nested",
     "Tests fix a handful of z-levels; ordering is a relation between all drawings and depends on the whole call history.",
     ["elsie/boxtree/box.py", "elsie/boxtree/boxitem.py", "elsie/boxtree/boxmixin.py", "elsie/render/backends/svg/backend.py", "elsie/render/backends/cairo/backend.py", "elsie/slides/slidedeck.py"],
     [("Box.add_child", "elsie/boxtree/box.py"), ("Box.get_painters", "elsie/boxtree/box.py"), ("painters.sort(key=z_level)", "elsie/render/backends/*/backend.py")],
     observe=[RENDER_SVG, "order of drawing operations issued to a Cairo surface"])

prop("C04", "Boxes are sized and placed by the documented layout rules",
     "A box without explicit size is as large as its content plus padding; a number is a minimal size, `p%` is that share of the parent (but not below the content), `fill`/`fill(n)` take the whole parent across the layout direction and share the space left by the other children in proportion n along it. "
     "Children without a position along the layout direction (vertical by default, horizontal on request) are put one after another in their order (creation order, prepended ones first) without gaps or overlaps and, if nothing fills, centred as a group; an omitted position across the direction centres the child; positions given as a number, `p%` or `[p%]` are an offset from, a share of, or an alignment inside the parent's padded rectangle and take the child out of the flow along that axis, where it neither counts into the size of its parent's content nor shares space (a positioned `fill` is the whole parent). "
     "Content of a box is placed inside the rectangle that remains after its padding, vertical and horizontal layouts obey the same rules with the axes exchanged, and no child influences the layout of boxes outside its ancestors' size requests.",
     ["programs", "inputs"],
     "every box tree over all size and position kinds, paddings and directions, including nested, negative, fractional and overflowing cases",
     "Unit tests check a few dozen layouts; the rules combine freely over an unbounded tree.",
     ["elsie/boxtree/layout.py", "elsie/boxtree/value.py", "elsie/boxtree/boxmixin.py"],
     [("Layout.set_rect", "elsie/boxtree/layout.py"), ("Layout.compute_size_request", "elsie/boxtree/layout.py"), ("SizeValue/PosValue", "elsie/boxtree/value.py")],
     observe=["x/y/width/height of rectangles drawn in boxes in " + RENDER_SVG])

prop("C05", "Dynamic coordinates resolve against final rectangles",
     "A coordinate or point obtained from a box (`x`, `y`, `p`, `mid_point`, shifted by `add` or transformed by `map`) resolves, wherever it is used (position or size of another box, points of lines, polygons and paths), to that place inside the final padded rectangle of the box it was taken from, with `NN%` and numbers measured from the left/top edge. "
     "Plain `(x, y)` points are relative to the box they are drawn in; coordinates are resolved anew for each render, independently of fragments and of how many times they are used.",
     ["programs", "inputs"],
     "every assignment of coordinate kinds and source boxes (self, parent, earlier sibling, cousin, later-resized box) to every use",
     "Tests use two or three lines; a reference is correct only if resolved after the whole layout is known.",
     ["elsie/boxtree/lazy.py", "elsie/boxtree/value.py", "elsie/boxtree/layout.py", "elsie/boxtree/boxmixin.py", "elsie/shapes/path.py"],
     [("LazyValue/LazyPoint", "elsie/boxtree/lazy.py"), ("Layout.x/y/point", "elsie/boxtree/layout.py"), ("unpack_point", "elsie/boxtree/lazy.py")],
     observe=[RENDER_SVG])

prop("C06", "Rendering is a pure, repeatable function of the slide deck",
     "Rendering a deck any number of times, in any order, wholly or by selected slides, to any output kind, with or without saving/pruning of caches, yields the same pages every time and leaves the deck unchanged; in particular rendering before more content is added does not affect what is rendered afterwards. "
     "Two decks built by the same calls render identically, and building or rendering one deck never affects another, even when they share a backend.",
     ["histories", "programs"],
     "every interleaving of build, render (all modes) and extend operations on one or two decks",
     "Tests render each deck once; the property is about histories of renders.",
     ["elsie/slides/slidedeck.py", "elsie/slides/slide.py", "elsie/text/textboxitem.py", "elsie/render/render.py", "elsie/render/backends/svg/backend.py", "elsie/boxtree/layout.py"],
     [("Slide.prepare recomputes the layout", "elsie/slides/slide.py"), ("painters built per page", "elsie/render/backends/svg/backend.py")],
     observe=[RENDER_SVG])

prop("C07", "A rejected call leaves no trace",
     "When a call that builds content raises an exception because of its arguments (bad selector, size, position, style, sibling, image, path, duplicate name, ...), the deck is exactly as it was before the call: fragment counter, number of slides, layout, drawings and styles of everything built before or afterwards are the same as if the call had never been made.",
     ["histories", "inputs", "fault_sequences"],
     "every rejected call at every position of a build history",
     "Tests check that errors are raised, not that nothing else happened.",
     ["elsie/boxtree/boxmixin.py", "elsie/boxtree/box.py", "elsie/slides/slidedeck.py", "elsie/text/stylecontainer.py", "elsie/ext/list.py"],
     [("argument validation before mutation", "elsie/boxtree/boxmixin.py")],
     observe=[RENDER_SVG, "Box.current_fragment()"])

prop("C08", "Pages of the output are the slides' fragments in order",
     "The output contains, for each slide in order of creation (or in the order of `select_slides`), all its pages in fragment order and nothing else; an added PDF contributes its pages at the position where it was added. "
     "With `slides_per_page=(c, r)` consecutive pages are placed row by row into grids of c columns and r rows, the last grid may be incomplete, added PDFs stay at their place in the order, and the content of each page is unchanged. "
     "`slide_postprocessing` is called once before rendering with the root boxes of the slides being rendered, in order, and what it draws is rendered.",
     ["programs", "configurations", "histories"],
     "every deck of slides with any numbers of fragments and added PDFs, every grid size and selection",
     "Tests merge one or two decks; the order statement is over arbitrary mixtures of slides, fragments, PDFs and grid sizes.",
     ["elsie/slides/slidedeck.py", "elsie/slides/slide.py", "elsie/render/render.py", "elsie/render/pdfmerge.py"],
     [("SlideDeck.render", "elsie/slides/slidedeck.py"), ("per_page_grouping", "elsie/render/render.py"), ("PyPdfMerger", "elsie/render/pdfmerge.py")],
     observe=["render units and merged PDF pages"])

prop("C09", "Slide names obey the name policy through every history",
     "Under `unique` creating a slide with the name of an existing slide raises and changes nothing, under `replace` it removes the older slide and appends the new one, under `ignore` names have no effect; `replace` requires a name, `unique` and `ignore` do not, and `auto` means `replace` inside Jupyter and `ignore` elsewhere. "
     "At any time `get_slide_by_name` returns the first slide in the deck with that name or None, and the rendered deck is exactly the surviving slides in order, also when PDFs were added in between.",
     ["histories", "configurations"],
     "every sequence of named/unnamed slide creations (call and decorator form), PDF additions and lookups under each policy",
     "Tests make two slides with one name; survivors depend on the whole history.",
     ["elsie/slides/slidedeck.py"],
     [("SlideDeck._apply_name_policy", "elsie/slides/slidedeck.py")],
     observe=["get_slide_by_name", RENDER_SVG])

prop("C10", "Caches never change results",
     "Whatever happened before in a cache directory (previous sessions of the same or other decks, other Elsie or Inkscape versions, pruning or not, unsaved sessions, edited sources), the pages, files and measurements produced are the same as with an empty cache directory. "
     "In particular two different inputs, output types, measurement kinds or program versions never share a cached result, and an edited image or deck is never served from its old result.",
     ["histories", "configurations"],
     "every history of sessions over small decks (edit, render, prune, save flags, version change) sharing one directory",
     "Tests run with fresh or equal caches; staleness appears only across sessions.",
     ["elsie/utils/cache.py", "elsie/render/backends/svg/backend.py", "elsie/render/render.py", "elsie/boxtree/boxmixin.py", "elsie/ext/latex.py"],
     [("FsCache keys = sha1(version, content) + type", "elsie/utils/cache.py"), ("queries3.cache with versions", "elsie/render/backends/svg/backend.py")],
     [("cache_files/touched_files", "known/used files", "FsCache"), ("query_cache/used_query_cache", "text measurements", "InkscapeBackend")],
     ["exported files", "rendered pages"])

prop("C11", "A crash or a failed export never poisons the cache",
     "If a session is killed at any moment, or an export/conversion fails or is interrupted halfway, every later session with the same cache directory starts normally and produces the same output as with an empty cache: no partially written file is ever used as a result.",
     ["crash_points", "fault_sequences", "histories"],
     "every point in the sequence of file operations of a session (including torn writes) and every failing external call",
     "Tests never interrupt a session.",
     ["elsie/utils/cache.py", "elsie/render/backends/svg/backend.py", "elsie/render/inkscape.py"],
     [("write to temporary file, then rename", "elsie/utils/cache.py, elsie/render/backends/svg/backend.py")],
     observe=["contents of the cache directory", "output of the following session"])

prop("C12", "Concurrent users of one cache neither race nor hang",
     "When several threads request artefacts from one cache, each distinct artefact is constructed at most once at a time and a request returns only once the complete artefact exists; different artefacts do not wait for each other's construction. "
     "If a construction fails, its caller gets the error, waiting requests are released (they obtain the artefact or an error) and later requests can construct it again: no schedule deadlocks.",
     ["schedules", "fault_sequences"],
     "every interleaving (bounded preemptions) of 2-3 threads requesting equal and different artefacts, with and without failing constructors",
     "There is no concurrent test; the windows are single bytecode gaps.",
     ["elsie/utils/cache.py"],
     [("FsCache.ensure: lock, in_progress conditions", "elsie/utils/cache.py")],
     [("in_progress", "artefacts under construction", "FsCache")],
     ["return values, constructor calls and file contents"])

prop("C13", "Pruning keeps what was used; unchanged rebuilds do no work",
     "After a render with pruning, the cache directory holds every file used by that render and none of the cache files left by earlier sessions that it did not use, and files that are not Elsie's cache files are never touched; without pruning nothing is removed. "
     "Rendering an unchanged deck again, in the same or a new session, neither exports any page nor measures any text again, and equal pages or texts are exported or measured once.",
     ["histories"],
     "every history of sessions and renders with pruning/saving switched on or off",
     "Tests never inspect the cache directory over several renders.",
     ["elsie/utils/cache.py", "elsie/slides/slidedeck.py", "elsie/render/backends/svg/backend.py"],
     [("FsCache.remove_unused", "elsie/utils/cache.py"), ("prune_cache/save_cache", "elsie/render/backends/svg/backend.py")],
     observe=["cache directory listing", "command log of the Inkscape process"])

prop("C14", "Inkscape failures surface and do not contaminate later requests",
     "If the Inkscape process answers a measurement with something that is not a finite number, does not produce the exported file, or terminates at any point of the conversation, the affected call raises an exception in bounded time instead of hanging or returning a wrong value. "
     "Requests sent afterwards to a process that is still alive give the same results as if the failed request had never been made.",
     ["fault_sequences", "histories"],
     "every position of every fault kind in the command stream of measurements and exports",
     "Tests use a healthy Inkscape only.",
     ["elsie/render/inkscape.py", "elsie/render/render.py", "elsie/render/backends/svg/query.py"],
     [("InkscapeShell.wait_for_prompt/run_query/convert_to_pdf", "elsie/render/inkscape.py")],
     observe=["results of text() and render()", "command log of the Inkscape process"])

prop("C15", "Inline markup styles exactly the enclosed characters",
     "For every text with balanced inline styles, the drawn text is the source text without the markup, broken into lines at newlines (also inside styled ranges; empty lines keep their height, trailing newlines are not drawn), and each character is drawn with its base style overridden attribute by attribute (font, size, colour, opacity, weight, slant) by the enclosing inline styles from outside in, a style with lower priority than the effective one being ignored. "
     "Unnamed styles (`~#name{...}`) do not change the look, closing characters outside a style are ordinary text, a doubled escape character stands for itself, custom escape characters work like the default ones, and unbalanced markup or unknown styles raise an exception.",
     ["inputs", "programs"],
     "every string over the markup alphabet up to a bounded length, with styles of all priorities and alternative escape triples",
     "Tests parse about thirty strings; the interaction of nesting, newlines, priorities and escapes is combinatorial.",
     ["elsie/text/textparser.py", "elsie/render/backends/svg/draw.py", "elsie/boxtree/boxmixin.py"],
     [("parse_text/normalize_tokens", "elsie/text/textparser.py"), ("draw_text", "elsie/render/backends/svg/draw.py")],
     observe=["tspans of " + RENDER_SVG])

prop("C16", "Code highlighting preserves the code and composes with styles",
     "A code snippet is drawn with exactly its characters and lines (tabs expanded, trailing newlines and, without `use_styles`, leading newlines aside), each character with the highlighting style of its token; with `use_styles` the characters inside inline styles additionally get these styles and the result is the same as highlighting the markup-free code, no matter how style ranges and tokens overlap; what starts earlier (the longer one if they start together) is the outer one. "
     "With `line_numbers` each line is preceded by its number, zero-padded to equal width, in the line-number style only.",
     ["inputs", "programs"],
     "every placement of up to a few nested/adjacent style ranges over token boundaries and newlines in snippets of several languages",
     "Tests merge a few hand-written token lists.",
     ["elsie/text/textparser.py", "elsie/text/highlight.py", "elsie/boxtree/boxmixin.py", "elsie/render/backends/svg/draw.py"],
     [("tokens_merge", "elsie/text/textparser.py"), ("highlight_code", "elsie/text/highlight.py"), ("add_line_numbers", "elsie/text/textparser.py")],
     observe=["tspans of " + RENDER_SVG])

prop("C17", "Any text reaches the output intact as well-formed XML",
     "For every string accepted as text, name, colour, font, dash pattern or file name, each rendered page is well-formed XML in which the text and the attribute value read back exactly as given (spaces may become non-breaking); no such string can alter the structure of the page, and the result does not depend on the locale. Strings that XML cannot represent are rejected; a `;` in a colour is not covered.",
     ["inputs"],
     "every short string over the XML-special alphabet in every text/attribute position",
     "Tests contain one or two special characters.",
     ["elsie/utils/sxml.py", "elsie/render/backends/svg/draw.py", "elsie/render/ora.py"],
     [("Xml.set/Xml.text/escape_text", "elsie/utils/sxml.py")],
     observe=[RENDER_SVG + " parsed by an XML parser"])

prop("C18", "Style changes are scoped to a box and its later descendants",
     "`set_style`/`update_style` on a deck or box affect exactly the texts subsequently created in it and in boxes subsequently created under it: never its parents, siblings, already existing children, other slides or already created texts. "
     "An update overrides only the attributes given, a base style supplies the attributes not given, every style is completed by the `default` style in force where the text is created, a style always has a priority (0 if not given), and modifying a passed or returned style object later changes nothing.",
     ["histories", "programs"],
     "every history of style definitions/updates and box/text creations over a small tree",
     "Tests check single updates; leaks show only in particular orders of creation and update.",
     ["elsie/text/stylecontainer.py", "elsie/text/textstyle.py", "elsie/boxtree/box.py", "elsie/slides/slidedeck.py"],
     [("copy-on-write of the style table", "elsie/text/stylecontainer.py"), ("compose_style", "elsie/text/textstyle.py")],
     observe=["get_style", "styles of texts in " + RENDER_SVG])

prop("C19", "line_box and inline_box cover the addressed text",
     "`line_box(i, n)` spans the full width of the text's box and vertically exactly lines i..i+n-1 of the drawn text; `inline_box(style, n_th=k)` spans horizontally exactly the characters of the k-th occurrence of that style on its line and vertically that line (boxes of lines are one pixel higher than the line), for every alignment, nesting, preceding lines, code highlighting, scaling and position of the text's box. "
     "Explicit box arguments override each of the four values, and asking for a missing occurrence raises. Occurrences that are empty or begin with a newline count but have no specified place.",
     ["inputs", "programs"],
     "every text over a small alphabet of lines and nested styles, each index/occurrence, alignment and scaling mode",
     "Tests check a few golden pictures.",
     ["elsie/text/textboxitem.py", "elsie/text/textparser.py", "elsie/render/backends/svg/draw.py", "elsie/render/backends/svg/query.py"],
     [("TextBoxItem.line_box/inline_box", "elsie/text/textboxitem.py"), ("extract_line", "elsie/text/textparser.py")],
     observe=["rectangles drawn in these boxes in " + RENDER_SVG])

prop("C20", "Text occupies its measured size, is aligned, and scales to fit",
     "A text makes its box at least as wide as its measured width and as high as its number of lines times font size times line spacing; it is drawn vertically centred in the box and horizontally at the left edge, centre or right edge according to its alignment, consecutive lines one line height apart. "
     "With `scale_to_fit` in a box whose size is given, the text is scaled uniformly by the largest factor for which its width and height fit into the box's final rectangle, again centred, also on repeated renders.",
     ["inputs", "programs"],
     "every combination of text shape, style, alignment, box sizing mode, padding and scaling",
     "Tests compare a few golden files; scaling is only tested at one size.",
     ["elsie/text/textboxitem.py", "elsie/render/backends/svg/rcontext.py", "elsie/boxtree/layout.py", "elsie/render/backends/svg/draw.py"],
     [("TextBoxItem._make_query/render", "elsie/text/textboxitem.py"), ("draw_text transform", "elsie/render/backends/svg/rcontext.py")],
     observe=["text elements and box rectangles of " + RENDER_SVG])

prop("C21", "Image fragments follow their labels",
     "With `fragments` on, page k of a slide shows of an SVG/ORA image exactly the elements whose own and ancestors' `**selector` labels select fragment k-show_begin+1, nothing of it before page show_begin, and the slide has enough pages for all its fragments; with `fragments` off everything is shown from show_begin on. "
     "With `select_fragments` page show_begin+i shows fragment select_fragments[i] (nothing for None or past the end). Text and structure of shown elements are unaltered and other uses of the same file are not affected.",
     ["inputs", "programs", "configurations"],
     "every small SVG tree with every labelling, show_begin, select_fragments and fragment flag, one or more uses of the file",
     "Tests use two example images.",
     ["elsie/render/image.py", "elsie/boxtree/boxmixin.py", "elsie/slides/show.py"],
     [("get_image_steps/create_image_data", "elsie/render/image.py"), ("BoxMixin._image_svg", "elsie/boxtree/boxmixin.py")],
     observe=[RENDER_SVG])

prop("C22", "Images keep aspect ratio, fit their box and size it correctly",
     "An image without `scale` is drawn centred with its aspect ratio at the largest size that fits the box's rectangle (or the one non-zero dimension); with `scale` it is drawn centred at exactly natural size times scale. "
     "A box without explicit size gets the image's (scaled) natural size as minimum, a box with one dimension given as a number gets the other in proportion inside its padding (numbers are minima); natural sizes of SVG files honour their units (px, pt, pc, mm, cm, in), bitmap data are embedded unchanged with their real type, and rotation is about the image's centre.",
     ["inputs", "programs", "configurations"],
     "every combination of image kind, natural size and unit, source form (path, bytes, stream), scale, box sizing and rotation",
     "Tests use three images at one or two sizes.",
     ["elsie/boxtree/boxmixin.py", "elsie/boxtree/layout.py", "elsie/render/backends/svg/utils.py", "elsie/render/backends/svg/rcontext.py", "elsie/render/backends/svg/draw.py"],
     [("scaler", "elsie/boxtree/boxmixin.py"), ("Layout.set_image_size_request", "elsie/boxtree/layout.py"), ("svg_size_to_pixels", "elsie/render/backends/svg/utils.py")],
     observe=[RENDER_SVG])

prop("C23", "OpenRaster images convert faithfully",
     "For every OpenRaster stack of nested groups and layers, the converted picture draws exactly the visible, non-empty layers in bottom-to-top order, each at the sum of the offsets of its own and its groups, with its own and its groups' opacities, its name as fragment label, and pixels equal to the source layer (opaque if it has no alpha); invisible groups hide everything inside, (normal composition only), and absent optional attributes take the defaults of the OpenRaster specification.",
     ["inputs"],
     "every stack tree up to a bounded size over offsets, opacities, visibilities, empty/shared layers and names",
     "Tests convert one example file and compare an image that fails in this environment.",
     ["elsie/render/ora.py"],
     [("convert_ora_to_svg", "elsie/render/ora.py")],
     observe=["pages of a slide with image(<file>.ora)"])

prop("C24", "Cairo draws the same geometry as the SVG output",
     "For every drawing primitive (rectangle with and without rounding, ellipse, polygon, line, path, arrow, bitmap and SVG image) with every combination of edge/fill/width/dash/rotation, the Cairo backend fills and strokes the same outline, in the same order with the same paint, as the SVG written for the same program denotes; view boxes scale both alike. "
     "Shapes of zero area are not drawn and no drawing changes how a following one is drawn.",
     ["programs", "inputs"],
     "every sequence of up to three primitives over all their attribute combinations; every path of up to four commands",
     "The Cairo backend is compared with pictures of few scenes.",
     ["elsie/render/backends/cairo/rcontext.py", "elsie/render/backends/cairo/draw.py", "elsie/render/backends/cairo/shapes.py", "elsie/render/backends/cairo/utils.py"],
     [("fill_stroke_shape/ctx_scope/transform", "elsie/render/backends/cairo/draw.py"), ("draw_path", "elsie/render/backends/cairo/shapes.py")],
     observe=["device-space paths, sources, widths and dashes at each cairo fill/stroke"])

prop("C25", "Cairo styles and measures exactly the addressed characters",
     "Under the Cairo backend every character of a text gets the font, size, colour, weight and slant that inline markup gives it (same rule as for SVG), also for non-ASCII text, nested styles and several lines; lines are never wrapped and lie at the same base lines and alignment as in the SVG (line spacing times font size apart, also scaled, rotated or under a view box); an `inline_box` covers exactly the characters of its occurrence, and equals in extent the same characters measured by themselves at that place.",
     ["inputs", "programs"],
     "every text over a small alphabet with multi-byte characters and nested style ranges; every occurrence",
     "One golden picture per feature.",
     ["elsie/render/backends/cairo/text.py", "elsie/render/backends/cairo/rcontext.py", "elsie/render/backends/cairo/backend.py"],
     [("get_text_and_attributes", "elsie/render/backends/cairo/text.py"), ("compute_subtext_extents/get_byte_range", "elsie/render/backends/cairo/text.py")],
     observe=["pango attributes of the drawn layout", "rectangles of inline boxes"])

prop("C26", "Lists number, label and reveal their items correctly",
     "The n-th item of an ordered list is labelled with the counters of all enclosing levels (an explicit `level` replaces the enclosing ones) and its own, its own being start+n-1; items of sublists, custom labels or unordered lists never disturb the numbering of others. "
     "A label given to a list holds for its own items (sublists have the default label of their kind unless given one), label padding and box arguments hold for its items and sublists, a fragment selector of a list holds for each of its items and sublists, and arguments given to an item hold for that item only; by default an item is shown from the fragment that is current when it is created onwards. "
     "Items appear in order of creation, below each other, left aligned and indented by the accumulated indentation of their list (that of a sublist applies to its box and to its items). An item that is rejected because of its label leaves no trace.",
     ["histories", "programs", "inputs"],
     "every sequence of item/ol/ul operations over a small tree of open lists with per-item overrides",
     "Tests are a few golden files.",
     ["elsie/ext/list.py"],
     [("ListBuilder", "elsie/ext/list.py")],
     [("level", "counter stack", "ListBuilder")],
     [RENDER_SVG])

prop("C27", "Markdown text is rendered completely, in order and styled",
     "Every visible text of a supported Markdown document (paragraphs, headings 1-6 also underlined, emphasis, strong, links and autolinks, quotes, fenced code, nested lists with text after a nested list below it, literal characters, backslash escapes and character references) appears exactly once, in document order, with the style of its construct and enclosing constructs; list labels correspond to bullets/numbers in the source and inline Elsie styles inside Markdown are applied. "
     "Unsupported constructs (rules, images, inline and indented code, HTML) draw nothing. User-defined `md-*` styles replace the built-in ones; styles of the surrounding box are not changed.",
     ["inputs", "programs"],
     "every document composed of up to three blocks/inlines from the supported grammar",
     "Tests are a few golden files.",
     ["elsie/ext/markdown.py", "elsie/text/textparser.py", "elsie/ext/list.py"],
     [("get_raw_text/build_*", "elsie/ext/markdown.py"), ("trim_indent", "elsie/text/textparser.py")],
     observe=[RENDER_SVG])

prop("C28", "LaTeX snippets stay independent and internally consistent",
     "The graphics produced for a LaTeX snippet is embedded so that every internal reference (`href`, `xlink:href`, `url(#...)` in attributes) points to the same element as in the converter's output, all other content (colours, text, numbers) is unchanged, and identifiers of different snippets never coincide; the picture is centred at natural size times `scale` and sizes its box accordingly. "
     "The same source is compiled once and a failing compilation raises, leaving nothing in the cache. This holds for both backends.",
     ["inputs", "histories", "fault_sequences"],
     "every small SVG with ids/references (prefix-related names, several references per attribute, colours) and every history of snippets",
     "pdflatex is not run in tests of the renaming beyond one example.",
     ["elsie/ext/latex.py", "elsie/render/backends/svg/utils.py", "elsie/utils/cache.py"],
     [("rename_ids", "elsie/render/backends/svg/utils.py"), ("_render_latex", "elsie/ext/latex.py")],
     observe=[RENDER_SVG])

prop("C29", "The notebook view always shows exactly the current fragment",
     "The HTML representation of a slide contains each of its pages once in order and, after any sequence of clicks on its previous/next buttons, exactly one page is visible, namely the number shown in the counter; next/previous move by one within 1..N and are disabled exactly at the ends. "
     "A slide with one page has no controls, and several slides on one notebook page do not influence each other.",
     ["histories", "configurations"],
     "every click sequence for every number of fragments, two or more slides on a page",
     "Tests compare generated HTML text; the JavaScript is never executed.",
     ["elsie/render/jupyter.py"],
     [("get_javascript", "elsie/render/jupyter.py"), ("render_slide_html", "elsie/render/jupyter.py")],
     observe=["DOM state of the executed generated page"])

prop("C30", "The documentation plugin rewrites only elsie fences",
     "Processing a documentation page leaves every line outside elsie code fences untouched and in order, and turns each `elsie` fence into a `python` fence with the same code, delimiters and indentation, followed (for fences that are not `type=lib`) by the pages of the slide (the last one of the deck) that the code makes when it is run in the documentation directory together with all library fences before it on the page, honouring `width`, `height` (300 by default), `border`, `debug` and `skip` (Python slice syntax). "
     "Fences of other languages, including those that contain elsie fences as text, fences that are never closed and lines that only look like fences are reproduced verbatim; a fence is closed by a bare delimiter of the same character that is at least as long, delimiters of the same kind that carry an info string nest. "
     "Pages do not influence each other, the working directory is restored, and errors of the code are raised.",
     ["inputs", "configurations"],
     "every page of up to a few lines/fences over the fence grammar (indented, tilde/backtick, nested, parameters)",
     "The plugin has no tests.",
     ["docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py"],
     [("iterate_fences/parse_fence_header/render_slide", "docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py")],
     observe=["Markdown returned by on_page_markdown"])

prop("C31", "Arrows end where the line ends and point along it",
     "An arrow head is drawn with its tip exactly at the given end point of the line or path, its barbs at distance `size` from the tip, `angle` degrees off the direction in which the line or curve arrives (from the last different point or control point, reflected control points of smooth curves included), open with `stroke_width` or filled with the notch that `inner` asks for. "
     "The line itself ends before the tip, moved back along that direction by half of the stroke width of an open head or half of the depth of a filled one (less for `inner` below 0.5, so that it reaches the head), and all other points are exactly as given. "
     "This holds for both ends, every direction, lazily resolved points, repeated renders and all fragments, also when neighbouring points coincide; an arrow can be shared and the arguments are never modified.",
     ["inputs", "programs"],
     "every direction octant/slope/length, arrow parameter set and line/path shape up to four points",
     "Tests contain a few golden arrows.",
     ["elsie/shapes/arrow.py", "elsie/shapes/path.py", "elsie/boxtree/boxmixin.py", "elsie/utils/geom.py"],
     [("Arrow.render/move_end_point", "elsie/shapes/arrow.py"), ("path_points_for_end_arrow", "elsie/shapes/path.py")],
     observe=[RENDER_SVG])

prop("C32", "Shapes are drawn with exactly the given geometry and paint",
     "A rectangle or ellipse covers exactly the rectangle of its box (inside its padding), with corner radii `rx`/`ry` (one of them given alone counts for both, at most half of the size, none if either is zero); polygons, lines and paths go through exactly the given points, whatever kind of coordinates they are given by (numbers, numeric strings, percentages of the own box, lazy values of other boxes with `add` and `map`); `rotation` turns the shape clockwise around the middle of its rectangle or the mean of its points. "
     "The shape is filled with exactly `bg_color` and then stroked with exactly `color`, `stroke_width` and `stroke_dasharray`, nothing is filled or stroked where these are missing or the width is zero, lines and paths are black by default, polygons and rectangles are closed and lines and paths are not. "
     "Each shape occurs exactly once, in call order, on exactly the pages of its box.",
     ["inputs", "programs"],
     "every combination of paints, radii, rotations, coordinate kinds, path commands and short chains of shapes",
     "Tests compare a few golden SVG files.",
     ["elsie/boxtree/boxmixin.py", "elsie/render/backends/svg/draw.py", "elsie/render/backends/svg/backend.py", "elsie/shapes/path.py"],
     [("rect/ellipse/polygon/line/path", "elsie/boxtree/boxmixin.py"), ("set_paint_style/draw_*", "elsie/render/backends/svg/draw.py")],
     observe=[RENDER_SVG])

prop("C33", "Every page has the size, view box and background of its slide",
     "Every page is exactly `width` x `height` of the deck large (in SVG units; three quarters of it in points in PDF files of Cairo; in pixels in its PNG files) and shows exactly the region `view_box` of the slide, uniformly scaled and centred (the whole slide without it). "
     "If the slide, or else the deck, has a background colour, exactly the rectangle (0, 0, width, height) is painted with it on every page before anything else, and the background changes nothing else; `bg_color=\"\"` turns the background of the deck off. "
     "PNG pages of Cairo are transparent where nothing is painted, and every pixel has the opacity and the (unattenuated) colour that the painted rectangles give it. "
     "With `debug_boxes` every visible box, and no other, gets a frame of exactly its rectangle and a label with its name and size, and nothing else on any page changes. `@deck.slide` makes the same slide as `new_slide`.",
     ["inputs", "configurations"],
     "every combination of size, view box, backgrounds, contents, and all small pictures and box trees",
     "Tests compare a few golden files with one size.",
     ["elsie/slides/slidedeck.py", "elsie/slides/slide.py", "elsie/boxtree/box.py", "elsie/render/backends/svg/utils.py", "elsie/render/backends/cairo/backend.py", "elsie/render/backends/cairo/rcontext.py"],
     [("new_slide", "elsie/slides/slidedeck.py"), ("_debug_paint", "elsie/boxtree/box.py"), ("svg_begin", "elsie/render/backends/svg/utils.py"), ("CairoRenderUnit.export", "elsie/render/backends/cairo/backend.py")],
     observe=[RENDER_SVG, "operations, PDF media boxes and PNG pixels of the Cairo backend"])

prop("C34", "Different spellings of the same program make the same pages",
     "Calls that the documentation declares to be the same produce the same pages: calling a drawing method or `box` on any item of a box is the same as calling it on the box; `fbox`, `sbox` and `overlay` are `box` with the documented sizes and positions; an argument given explicitly with its default value is the same as leaving it out; numbers and numeric strings, tuples and lists, `p_x`, `p_y` and `padding` and the paddings of the sides they stand for, different spellings of the same set of fragments, lazy values that have the same value, style names and the style they stand for, escape characters, names of the same language, image files, streams and bytes, explicit and automatic image types, list builders with and without `with`, `@deck.slide` and `new_slide`, and `render` arguments which choose what is already the default. "
     "This holds in any program, next to any other calls, and for any mixture of spellings; also the number of fragments stays the same.",
     ["programs", "inputs"],
     "every program of the alphabet, in which each call may be written in every spelling",
     "Tests use each call in one spelling, mostly in programs of its own.",
     ["elsie/boxtree/boxmixin.py", "elsie/boxtree/boxitem.py", "elsie/boxtree/lazy.py", "elsie/boxtree/value.py", "elsie/slides/show.py", "elsie/text/textstyle.py", "elsie/text/textboxitem.py", "elsie/ext/list.py", "elsie/slides/slidedeck.py"],
     [("BoxMixin", "elsie/boxtree/boxmixin.py"), ("BoxItem", "elsie/boxtree/boxitem.py"), ("ShowInfo.parse", "elsie/slides/show.py"), ("ListBuilder", "elsie/ext/list.py")],
     observe=[RENDER_SVG])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")

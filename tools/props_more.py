"""The properties beyond the codecs."""

INTERP_TECH = (
    "abstract interpretation of the container code over symbolic files, objects and "
    "streams; the final state of each path is compared with the required state"
)


SCENE = (
    "abstract interpretation of the whole export on documents whose values are provenance "
    "leaves; the resulting font trees are compared leaf by leaf with a reference table"
)
SCENE_NOTE = (
    "The documents fix the shape (entries, masters, node types); all values in them are "
    "symbols, so each result holds for every value. Shapes outside the documents are not "
    "covered. ufoLib2 and fontTools are replaced by reviewed models."
)

CLI = (
    "abstract interpretation of each tool from its entry point, with given options and an "
    "abstract document; the recorded file operations and output are compared with the "
    "required ones"
)
CLI_NOTE = (
    "argparse, pathlib, open and the serializers are replaced by reviewed models that "
    "record what is written where; paths and values are symbols. Option combinations are "
    "those of the table in the rule."
)


def MORE(p):
    return [
        p("C06", "Entry and file headers describe exactly what follows them",
          "An entry of any type number and any data size is written with a header from "
          "which reading recovers the same type number and exactly the same data, "
          "including the wide form for large sizes. The header always describes the "
          "data the entry holds at that moment, and a saved file is the file header, "
          "followed by the entries in order, with a header whose size fields match.",
          ["programs", "inputs"], "every entry type number, data size and history of "
          "changes to an entry's data",
          "Tests use a few small entries; the size boundaries and an entry whose data "
          "changes after its header was computed are never written.",
          ["vfb/entry.py", "vfb/vfb.py", "vfb/header.py", "parsers/header.py",
           "compilers/header.py"],
          [("VfbEntry.header", "vfb/entry.py"), ("VfbEntry.read", "vfb/entry.py"),
           ("VfbHeaderCompiler / VfbHeaderParser", "compilers/header.py")],
          ["Vfb.write", "Vfb.read"], INTERP_TECH,
          "Header bytes are compared symbolically against the reader, split by size "
          "class; the struct module's semantics are assumed.",
          state=[("data", "the raw bytes of an entry", "vfb/entry.py"),
                 ("decompiled", "the structured form of an entry", "vfb/entry.py")]),
        p("C07", "Saving keeps every entry that was not changed",
          "Entries that were not decompiled are written byte for byte as they were "
          "read, decompiled ones through the writer registered for their type, each "
          "once and in file order; only types the caller asked to drop are missing. "
          "Looking at a file (its keys, glyphs, dictionary view, compiling or writing "
          "it) changes nothing that is written, and reading again replaces everything "
          "that was read before.",
          ["programs", "inputs", "histories"],
          "every sequence of entries, known or unknown, and every order of reading, "
          "inspecting, decompiling, compiling and writing",
          "Tests write files once after reading; they do not try unknown types, empty "
          "entries, or calls in another order.",
          ["vfb/vfb.py", "vfb/entry.py", "vfb/glyph.py"],
          [("Vfb.write", "vfb/vfb.py"), ("VfbEntry.compile", "vfb/entry.py"),
           ("Vfb.clear", "vfb/vfb.py"), ("VfbGlyph", "vfb/glyph.py")],
          ["Vfb.write", "Vfb.as_dict", "Vfb.decompile"], INTERP_TECH,
          "Bounded histories of calls over files of up to three symbolic entries; the "
          "entry's content is opaque."),
        p("C09", "Damaged or unknown data are reported, never silently misread",
          "Reading an entry that is cut off, that has bytes left over, or that holds a "
          "field the reader cannot interpret ends in an exception naming the problem, or "
          "keeps the unknown item in the result; it never yields a shortened or default "
          "value as if it had been stored. The parse error of an entry reaches the "
          "caller, sets the file's error flag, and leaves the entry's raw data as they "
          "were, and a file with another signature or version is refused.",
          ["inputs", "faults"],
          "every truncation, surplus or unknown code in any entry of any file",
          "Tests feed well-formed samples; almost none is truncated or has unknown tags.",
          ["parsers/base.py", "parsers/value.py", "parsers/header.py", "vfb/entry.py",
           "vfb/vfb.py", "parsers/mm.py", "parsers/truetype.py", "parsers/flversion.py"],
          [("BaseParser.parse", "parsers/base.py"), ("read_value", "parsers/value.py"),
           ("VfbEntry.decompile", "vfb/entry.py"), ("Vfb.decompile", "vfb/vfb.py")],
          ["VfbEntry.decompile", "Vfb.decompile", "Vfb.any_errors"],
          "abstract interpretation of the primitives on cut-off streams; path analysis of "
          "sized reads, exception handlers and tag dispatch over all readers",
          "A read whose checked length cannot be recognised counts as undecided. Two "
          "unknown-key cases are known findings."),
        p("C10", "Reading, converting and writing always end",
          "Every loop that runs until the data say so consumes at least one byte of input "
          "per round by a read that fails at the end of the data, and every other loop "
          "has a counter or a collection that shrinks. So no file, however damaged, and "
          "no value makes the library run for ever, and no loop grows the collection it "
          "walks over.",
          ["inputs"], "every byte string as input and every value passed to a conversion",
          "A test that ran into an endless loop would never finish; tests use terminated "
          "samples.",
          ["parsers/base.py", "parsers/truetype.py", "vfb/vfb.py", "vfb/entry.py",
           "helpers.py", "ufo/groups.py", "truetype.py"],
          [("Vfb.read_stream", "vfb/vfb.py"), ("StreamReader", "parsers/base.py"),
           ("read_value", "parsers/value.py"), ("binaryToIntList", "helpers.py")],
          ["Vfb.read", "VfbEntry.decompile", "VfbToUfoBuilder.build"],
          "ranking arguments per loop: all back-edge paths must contain a call of a "
          "function proved to consume input or raise, or change a bounded counter",
          "Progress functions are found by interpreting the primitives on an empty "
          "stream and closing over certain calls; `for` over a finite collection ends."),
        p("C11", "A failed export or save leaves the existing output file alone",
          "Everything that can fail because of the data (compiling entries, serialising "
          "JSON, TOML or YAML, building a diff) is finished before an output file is "
          "opened for writing, so an error never destroys the previous version of that "
          "file. Input files are opened for reading only and are never the target of a "
          "write.",
          ["faults", "programs"], "every exception raised while compiling or serialising, in "
          "every command and API that writes a file",
          "Tests write valid data to fresh paths and never make a write fail half way.",
          ["vfb/vfb.py", "json.py", "tth.py", "diff.py", "cu2qu.py", "cmdline.py"],
          [("Vfb.write", "vfb/vfb.py"), ("write_vfb_json", "json.py"),
           ("vfb2tth", "tth.py"), ("diff", "diff.py")],
          ["Vfb.write", "write_vfb_json", "vfb2tth"],
          "effect-order analysis: what runs between opening a file for writing and the "
          "last write, followed into helpers that get the handle; alias analysis of paths",
          "The UFO and designspace writers of ufoLib2 and fontTools are outside; output "
          "through a temporary file counts as undecided."),
        p("C12", "Numbers are stored in the same byte order on every machine",
          "Every number wider than one byte is converted with an explicit byte order, and "
          "the fixed-width numbers of all entries are little-endian while the wide forms "
          "of encoded values have their high byte first. So a file written on one machine "
          "reads the same on every other and in FontLab.",
          ["programs", "inputs"], "every fixed-width field of every entry type and every "
          "platform the code runs on",
          "The tests run on one little-endian machine, where native and little-endian "
          "conversions cannot be told apart.",
          ["parsers/base.py", "parsers/numeric.py", "parsers/value.py",
           "compilers/base.py", "compilers/numeric.py", "compilers/value.py",
           "vfb/entry.py"],
          [("StreamReader", "parsers/base.py"), ("StreamWriter", "compilers/base.py"),
           ("FloatListParser.__fmt__", "parsers/numeric.py")],
          ["VfbEntry.decompile", "VfbEntry.compile", "Vfb.write"],
          "static resolution of every struct format and byteorder argument, plus the "
          "byte order of each field in the wire programs of all registered readers and "
          "writers",
          "Formats or byte orders that are computed count as undecided."),
        p("C13", "Each exported master UFO holds the values of its own master",
          "Exporting a multiple-master font gives one UFO per master, and the UFO of "
          "master i is the UFO of master 0 with every per-master value (coordinates, "
          "advances, anchors, kerning, hints, guides, masks, components, PostScript "
          "values) replaced by the value stored for master i. No value of another master "
          "appears in it, and no per-master value is lost.",
          ["inputs"], "every number of masters and every value stored per master",
          "The sample fonts have few masters and few features per glyph; a wrong index "
          "shows only when a particular value differs between two masters.",
          ["ufo/builder.py", "ufo/glyph.py", "ufo/paths.py", "ufo/info.py",
           "ufo/kerning.py", "ufo/guides.py", "ufo/pshints.py"],
          [("VfbToUfoBuilder.get_ufo_master", "ufo/builder.py"),
           ("UfoMasterGlyph", "ufo/paths.py"),
           ("UfoKerning.get_master_kerning", "ufo/kerning.py")],
          ["VfbToUfoBuilder.get_ufo_masters", "VfbToUfoBuilder.write"], SCENE,
          SCENE_NOTE),
        p("C14", "An export leaves the source font alone and can be repeated",
          "Building UFOs or a designspace from a Vfb changes no object of that Vfb. "
          "Exporting a second time, from the same builder or a new one, gives the same "
          "fonts as the first time, and fonts that were handed out earlier keep their "
          "contents.",
          ["inputs", "histories"], "every source font and every sequence of exports from it",
          "Tests export once and look at the result; what happened to the source, or to "
          "a second export, is not looked at.",
          ["ufo/builder.py", "ufo/glyph.py", "ufo/paths.py", "ufo/tth.py",
           "ufo/groups.py", "ufo/designspace.py"],
          [("VfbToUfoBuilder.build", "ufo/builder.py"),
           ("build_mm_glyph", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters", "Vfb.entries"], SCENE, SCENE_NOTE),
        p("C15", "Exported fonts share no mutable state",
          "No list, dictionary or object that is part of one exported font is also part of "
          "another exported font, of the source Vfb, or of module or class level state. So "
          "changing one master's font never changes another one or a later export.",
          ["programs", "histories"], "every mutable object reachable from an exported font",
          "Tests compare saved files; sharing shows only when one of the fonts is changed "
          "afterwards.",
          ["ufo/builder.py", "ufo/info.py", "ufo/paths.py", "ufo/tth.py", "ufo/groups.py"],
          [("VfbToUfoBuilder.get_ufo_master", "ufo/builder.py"),
           ("VfbToUfoInfo", "ufo/info.py")],
          ["VfbToUfoBuilder.get_ufo_masters"],
          "alias analysis: object reachability in the abstract heap of the interpreted "
          "export", SCENE_NOTE),
        p("C17", "Font info fields come from the entry with the same meaning",
          "Every UFO font info field has the value of the VFB entry that carries the same "
          "information: names, versions, metrics, OS/2, hhea, head, PostScript and gasp "
          "values, blue zones and stem snaps, style bits, guidelines. Bit fields are spelled "
          "out as the UFO specification wants them, values are neither swapped between "
          "fields nor rescaled, and a missing entry gives the documented default.",
          ["inputs"], "every value of every font info entry",
          "The sample fonts leave many fields empty or equal, so swapped or dropped fields "
          "go unnoticed.",
          ["ufo/info.py", "ufo/builder.py", "ufo/guides.py"],
          [("VfbToUfoInfo", "ufo/info.py"),
           ("VfbToUfoBuilder.get_master_info", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters"], SCENE, SCENE_NOTE),
        p("C18", "Exported glyphs have the outlines and data of the VFB glyphs",
          "Advance, code points, contours with their point types and smoothness, components "
          "with their transformation, anchors, guides, note, mask layer, bitmaps, background "
          "and user data of every exported glyph are those of its VFB glyph. Contours that "
          "return to their start point are closed without losing the curve, open paths stay "
          "open, and nothing of one glyph ends up in another.",
          ["inputs"], "every glyph, every node type and every value",
          "Tests build a few paths; types, flags and closing cases combine freely.",
          ["ufo/paths.py", "ufo/glyph.py", "ufo/builder.py", "ufo/guides.py"],
          [("UfoMasterGlyph", "ufo/paths.py"), ("build_mm_glyph", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters"], SCENE,
          SCENE_NOTE + " The pixels of run-length coded bitmaps are not decoded."),
        p("C19", "Exported hints refer to the right points, stems and zones",
          "Every TrueType hinting command and every PostScript hint or link of a VFB glyph is "
          "exported once and in order, and the point, stem and zone names in it are those "
          "of the points, stems and zones it refers to in the VFB and exist in the exported "
          "font. TrueType stems, their rounding tables, zones, zone deltas, "
          "control values and programs reach the font lib with their values.",
          ["inputs"], "every hinted glyph, point, stem and zone",
          "Tests hint a few points; names depend on every point that got a name before, and "
          "on how the contour is closed.",
          ["ufo/tth.py", "ufo/pshints.py", "ufo/builder.py", "ufo/paths.py", "ufo/glyph.py"],
          [("TTGlyphHints", "ufo/tth.py"), ("build_ps_glyph_hints", "ufo/pshints.py"),
           ("VfbToUfoBuilder.build_tt_stems_lib", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters"], SCENE,
          SCENE_NOTE + " How a point is named is free; the names must be unique and agree."),
        p("C16", "Every glyph is exported once, under a name of its own",
          "Every glyph of the VFB appears exactly once in each exported font, in order; the "
          "first glyph with a name keeps it, later ones get a name no other glyph has. "
          "Everything that refers to a glyph or follows its entry - components, kerning, "
          "masks, glyph order, hints, unicodes, user data - goes to the glyph exported for "
          "it. A font with n axes gives 2 to the power of n fonts.",
          ["inputs"], "every list of glyph names and every reference between glyphs",
          "Tests use fonts with distinct names; references by index break only when names "
          "repeat or glyphs move.",
          ["ufo/builder.py", "ufo/glyph.py", "ufo/kerning.py"],
          [("VfbToUfoBuilder.build_mm_glyph", "ufo/builder.py"),
           ("VfbToUfoBuilder.fix_masters_count", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters"], SCENE, SCENE_NOTE),
        p("C20", "Kerning, groups and feature classes agree with the VFB classes",
          "Every glyph class is exported under its name with its members, kerning classes "
          "once per side named by their flags, key glyph first, no glyph in two kerning "
          "groups of one side. Every kerning pair of every master is exported once with its "
          "value, pairs of key glyphs as pairs of their groups, exceptions to group kerning "
          "even if zero. Feature code stays as it is except that positioning rules use the "
          "exported names of kerning classes that were renamed and moved classes are defined "
          "before it.",
          ["inputs"], "every set of glyph classes, flags, kerning values and export options",
          "The sample fonts have few classes; overlaps, missing glyphs and several key "
          "glyphs combine with the options.",
          ["ufo/groups.py", "ufo/kerning.py", "ufo/features.py", "ufo/builder.py"],
          [("transform_groups", "ufo/groups.py"), ("UfoKerning", "ufo/kerning.py"),
           ("VfbToUfoBuilder.get_ufo_masters", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters"], SCENE,
          SCENE_NOTE + " A class whose key glyph is an ordinary member of an earlier class "
          "of the same side is left open."),
        p("C21", "The designspace describes the axes, sources and instances of the VFB",
          "The designspace of a multiple master font has every axis of the VFB once, with "
          "its tag, name, range, default and mapping; one source per master, with the name "
          "of its UFO relative to the designspace and its location; and one instance per "
          "primary instance, with its names, file name and location. All locations are in "
          "design coordinates along the mapped axes. A designspace can be built several "
          "times with the same result, and can be written for fonts without axis mappings.",
          ["inputs"], "every number of axes and masters, axis mapping, master location and "
          "instance",
          "There is one multiple master sample; locations and mappings of fonts with more "
          "axes are not compared.",
          ["ufo/builder.py", "ufo/designspace.py"],
          [("VfbToUfoBuilder.get_designspace", "ufo/builder.py"),
           ("get_ds_location", "ufo/designspace.py")],
          ["VfbToUfoBuilder.get_designspace"], SCENE, SCENE_NOTE),
        p("C22", "Existing output files are replaced on request only",
          "A run of vfb3ufo or vfbcu2qu fails if any of its output files already exists - a "
          "UFO, UFOZ or JSON file of any master, the designspace, the converted VFB, or the "
          "input given as output - and then no file has been written or changed. With -fo it "
          "writes all of them.",
          ["inputs", "programs"], "every output format, number of masters, way to give the "
          "output place and existing file",
          "Tests export to fresh folders; a file of a later master that exists is found too "
          "late only in fonts with several masters.",
          ["cmdline.py", "cu2qu.py", "ufo/builder.py"],
          [("vfb2ufo", "cmdline.py"), ("vfbcu2qu", "cu2qu.py"),
           ("VfbToUfoBuilder.write", "ufo/builder.py")],
          ["vfb3ufo", "vfbcu2qu"], CLI, CLI_NOTE),
        p("C23", "The command line tools do what their options say",
          "Every option of vfb3ufo, vfb2json, vfbcu2qu, vfbdiff, vfb2tth and yuri reaches the "
          "code it controls and has its documented effect, alone and with the others: place, "
          "format, normalization and content of the output, round trip, tolerance, "
          "signedness. A tool writes exactly its output files, fails without writing if its "
          "input is missing, and vfb3ufo -s prints nothing and writes the same files.",
          ["inputs", "programs"], "every option, and combinations of them, for fonts with one "
          "and several masters",
          "The command line entry points have no tests; an option that is dropped on the way "
          "to the code is noticed by nobody.",
          ["cmdline.py", "json.py", "cu2qu.py", "diff.py", "tth.py", "value.py",
           "ufo/builder.py"],
          [("vfb2ufo", "cmdline.py"), ("vfb2json", "cmdline.py"),
           ("VfbToUfoBuilder.write", "ufo/builder.py"), ("vfbcu2qu", "cu2qu.py")],
          ["vfb3ufo", "vfb2json", "vfbcu2qu", "vfbdiff", "vfb2tth", "yuri"], CLI,
          CLI_NOTE + " Help texts are not parsed: the documented effects are listed in the "
          "rule."),
        p("C24", "The hinting export is complete and consistent",
          "The TrueType hinting export (vfb2tth) has every stem, zone, PPEM table, delta, "
          "gasp range, PPEM setting and glyph command of the font once, with its values. "
          "Stems and zones have unique names even if the font uses a name twice, and the "
          "commands refer to them by these names and to points by the index in the VFB; "
          "zone deltas belong to the zone they are numbered for, bottom zones first. Fonts without "
          "some or all of the hinting entries are exported as well.",
          ["inputs"], "every command type with every alignment, stem and zone reference, every "
          "subset of the hinting entries that may be missing, duplicate names, PPEM clashes",
          "The extraction has one sample font; repeated names and missing tables do not occur "
          "in it.",
          ["tth.py", "ufo/tth.py", "ufo/glyph.py"],
          [("extract_truetype_hinting", "tth.py"), ("TTGlyphHints", "ufo/tth.py"),
           ("merge_zone_information", "tth.py")],
          ["vfb2tth", "extract_truetype_hinting"], SCENE, SCENE_NOTE + " Several glyphs of one "
          "name are not covered: the later one replaces the earlier one."),
        p("C25", "Conversions are reproducible and independent of each other",
          "What is read, exported and written depends on the file and the options only: hash "
          "order, clock, chance, environment and directory order show in log messages at "
          "most, and text files have a given encoding. A conversion gives the same result "
          "whether it is the first in its process or follows others of different files and "
          "options; a Vfb that reads a second file equals a new one of that file, and an open "
          "Vfb is not affected by files opened later.",
          ["inputs", "histories"], "every order of conversions, and files opened and read in "
          "between",
          "Tests run one conversion of one file per object, and set order rarely differs "
          "between two runs on short lists.",
          ["vfb/vfb.py", "vfb/entry.py", "ufo/builder.py", "ufo/groups.py", "ufo/pshints.py",
           "parsers/base.py", "tth.py"],
          [("Vfb.clear", "vfb/vfb.py"), ("VfbEntry.id", "vfb/entry.py"),
           ("check_for_missing_glyphs", "ufo/groups.py")],
          ["Vfb.read", "VfbToUfoBuilder", "vfb2json", "vfb2tth"],
          "taint analysis for unordered and ambient values and kept state over the whole "
          "package; abstract interpretation of two conversions in one abstract process, "
          "compared with one",
          "The pairs of conversions are those listed in the rule; state kept by fontTools and "
          "ufoLib2 is not analysed."),
        p("C26", "Glyphs draw the outline they hold and hold the outline drawn into them",
          "draw and drawPoints emit, for the selected master, the points of all contours in "
          "order as lines, cubic or quadratic curves, closed or open as stored, then every "
          "component with its name, scale and offset. Straight and quadratic contours and "
          "components drawn into a glyph of the font or of any of its masters, in any order "
          "and repeatedly, replace what was cleared and are what the glyph draws afterwards "
          "and what is compiled for each master; number of contours, names and units per em "
          "follow the current data.",
          ["inputs", "histories"], "outlines of every segment type, closed by every segment "
          "type, open or closed, alone or followed by others, with 1, 2 and 4 masters",
          "Tests draw three glyphs of one master onto pens and never draw into a glyph of "
          "several masters.",
          ["vfb/glyph.py", "vfb/pens.py", "vfb/entry.py", "ufo/paths.py",
           "compilers/glyph.py", "vfb/vfb.py"],
          [("VfbGlyph.draw", "vfb/glyph.py"), ("VfbGlyph.drawPoints", "vfb/glyph.py"),
           ("VfbGlyphPointPen.addPoint", "vfb/pens.py"),
           ("GlyphCompiler.merge", "compilers/glyph.py")],
          ["VfbGlyph.draw", "VfbGlyph.drawPoints", "VfbGlyph.getPen", "VfbGlyph.getPointPen",
           "vfbcu2qu"], SCENE, SCENE_NOTE + " Contours without an on-curve start point, "
          "drawPointsDirect (unused) and the numbers of the curve approximation by fontTools "
          "are not covered."),
        p("C27", "Bitmaps survive run-length coding",
          "Glyph bitmaps and background images which are compiled and parsed again have the "
          "same rows of bytes, size, position, advance and ppm, on both platforms, for every "
          "pattern of repeated and single bytes, however long, and for every width including "
          "zero. Compiling them changes neither the bitmap nor, after another round, the "
          "bytes.",
          ["inputs"], "runs of 1 to 385 equal bytes, alone, repeated and mixed, around the "
          "limits of 128 and 256 of the chunks; widths from 0 to 257 pixels; 0 to 3 bitmaps",
          "Tests decode and encode four small bitmaps whose runs never reach the length limit "
          "in more than one way.",
          ["parsers/bitmap.py", "compilers/bitmap.py"],
          [("BaseBitmapCompiler._encode_bitmap", "compilers/bitmap.py"),
           ("BaseBitmapParser._decode_bitmap", "parsers/bitmap.py")],
          ["GlyphBitmapsParser.parse", "GlyphBitmapsCompiler.compile",
           "BackgroundBitmapParser.parse", "BackgroundBitmapCompiler.compile"],
          "abstract interpretation of compiler and parser on bitmaps of symbolic bytes; the "
          "sequence of writes is the stream which is read",
          SCENE_NOTE + " The preview of the pixels as text is not covered."),
        p("C28", "Glyphs are found by name, with their own links and hints",
          "Through a Vfb or one of its masters every glyph of the file is found exactly once, "
          "in file order, under a name no other glyph has, the first glyph with a name "
          "keeping it, whatever is asked first. Links and hinting options belong to the glyph "
          "whose entry they follow, and a glyph gives its stems, its links as stems (ghosts "
          "too) and its hint sets, in order, with the values of the selected master.",
          ["inputs", "histories"], "every sequence of glyph names and side entries, every "
          "order of access, every set of stems, links and hint masks",
          "No test asks a font for a glyph whose name occurs three times, or for links and "
          "hints at all.",
          ["vfb/vfb.py", "vfb/glyph.py"],
          [("Vfb._decompile_glyphs", "vfb/vfb.py"),
           ("VfbGlyph.resolve_hint_sets", "vfb/glyph.py"),
           ("VfbGlyph.resolve_links", "vfb/glyph.py")],
          ["Vfb.keys", "Vfb.items", "Vfb.__getitem__", "VfbGlyph.resolve_hints",
           "VfbGlyph.resolve_links", "VfbGlyph.resolve_hint_sets"],
          "abstract interpretation of the font's dictionary interface on files with chosen "
          "names and side entries, and of the hint methods on glyphs with symbolic positions",
          SCENE_NOTE),
        p("C29", "Entries have FontLab's layout",
          "The bytes written for an entry's data are those of FontLab's format: every field "
          "has the place, width, byte order, command number and flag bit that the readers "
          "use for FontLab's own files. A change made to reading and writing alike, which "
          "both still agree on, does not keep files readable that FontLab wrote.",
          ["inputs"], "every value of the structures of the entry cases (all types with a "
          "compiler, every TrueType command, hint, option and optional part)",
          "Tests compile a few entries; most types are only read, and a field that reader "
          "and writer exchange in the same way is never seen by a round trip.",
          ["compilers/", "parsers/", "truetype.py", "enum.py", "vfb/"],
          [("BaseCompiler.compile", "compilers/base.py"),
           ("GlyphCompiler", "compilers/glyph.py"),
           ("MasterLocationCompiler", "compilers/mm.py")],
          ["BaseCompiler.compile", "GlyphCompiler", "BaseParser.parse"],
          "abstract interpretation of the compilers on structures of symbolic values; the "
          "recorded writes are compared, as functions of these values, with reference "
          "layouts", SCENE_NOTE),
        p("N01", "Converted curves stay within the tolerance",
          "Every quadratic contour that vfbcu2qu writes stays within the requested tolerance "
          "of the cubic contour it replaces, with the same number of points in all masters.",
          ["inputs"], "all cubic outlines and tolerances",
          "Tests convert one font.",
          ["cu2qu.py"], [("vfbcu2qu", "cu2qu.py")], ["vfbcu2qu"],
          na="the distance of curves is a numerical property of fontTools' approximation over "
          "unbounded real coordinates; the source analysed here only passes outlines and "
          "tolerance on, which C23 and C26 decide"),
        p("N02", "FontLab opens what was saved",
          "Every VFB file that is written is opened by FontLab Studio 5 and shows the font as "
          "it was edited.",
          ["inputs"], "all fonts that can be saved",
          "No test has FontLab.",
          ["vfb/vfb.py", "compilers/"], [("Vfb.write", "vfb/vfb.py")], ["Vfb.write"],
          na="FontLab's reader is not part of the source; agreement with this library's own "
          "reader and with the reviewed table of entry types is decided by C01-C08"),
        p("N03", "Reading and export take time proportional to the file",
          "Reading, saving and exporting a font take time and memory in proportion to the "
          "size of the file.",
          ["inputs"], "all files",
          "Tests use small fonts.",
          ["vfb/vfb.py", "ufo/builder.py"], [("Vfb.read", "vfb/vfb.py")], ["Vfb.read"],
          na="costs depend on sizes at run time and on ufoLib2 and fontTools; no static "
          "argument in reach bounds them. That every loop ends is decided by C10"),
        p("N04", "Exported feature code compiles",
          "The feature code of an exported font is accepted by the OpenType compilers if the "
          "font's own feature code is correct in FontLab.",
          ["inputs"], "all feature code",
          "Tests compare the text of a few fonts.",
          ["ufo/features.py", "ufo/builder.py"], [("VfbToUfoBuilder", "ufo/builder.py")],
          ["VfbToUfoBuilder.get_ufo_masters"],
          na="the code is free text of the user in a language of its own; what the exporter "
          "adds to it and renames in it is decided by C20"),
    ]

#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the table in this file."""

import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SRC = "src/vfbLib/"


def p(id, title, statement, over, text, why, files, mech, observe, tech=None, note=None,
      na=None, state=()):
    return dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why,
        files=[SRC + f if not f.endswith("/") else SRC + f for f in files],
        mech=[{"name": n, "where": SRC + w} for n, w in mech],
        observe=observe, tech=tech, note=note, na=na,
        state=[{"name": n, "meaning": m, "where": SRC + w} for n, m, w in state],
    )


SAMPLES = (
    "The tests round-trip a few byte strings and the sample files of Tests/Data; "
)
CODEC_TECH = (
    "abstract interpretation of reader and writer into wire programs, aligned item by "
    "item"
)
CODEC_NOTE = (
    "Every read on every path of the reader is paired with the write at the same "
    "position of the writer; a pair that cannot be aligned counts as undecided, never "
    "as held. Assumes well-formed records (counts not negative) and Python's struct "
    "semantics; value conversions are compared by term normalisation."
)

PROPS = []
PROPS += [
    p("C01", "Font-level entries survive decompile and recompile",
      "For every font-level or master-level entry type that can be both read and "
      "written, decompiling a well-formed entry and compiling the result again gives "
      "data of the same layout: the same fields in the same order, with the same "
      "widths, signedness, counts and values. No field that was read is dropped, "
      "swapped or stored through a different conversion. Text cleaning that the reader "
      "documents as lossy (trailing NULs, blank lines in feature code) is excluded.",
      ["inputs"], "every well-formed byte string of every registered font-level and "
      "master-level entry type",
      SAMPLES + "most entry types have one or two samples, none covers every value of "
      "every field.",
      ["constants.py", "parsers/base.py", "compilers/base.py", "parsers/numeric.py",
       "compilers/numeric.py", "parsers/options.py", "compilers/options.py",
       "parsers/mm.py", "compilers/mm.py", "parsers/ps.py", "compilers/ps.py"],
      [("parser_classes pairs each reader with its writer", "constants.py"),
       ("EncodedKeyValuesParser / EncodedKeyValuesCompiler", "parsers/base.py")],
      ["VfbEntry.decompile", "VfbEntry.compile"], CODEC_TECH, CODEC_NOTE),
    p("C02", "Glyph records survive decompile and recompile",
      "Decompiling a glyph record and compiling it again gives an equivalent record: "
      "name, metrics, outline nodes for every master, components, kerning, hints, "
      "guides, TrueType instructions, binary and imported-outline sections are all "
      "written back with the same values. Each section's tag, counts and terminators "
      "agree with what the reader expects.",
      ["inputs"], "every well-formed glyph record that has an outline section",
      SAMPLES + "the sections' combinations, node types and masters are unbounded.",
      ["parsers/glyph.py", "compilers/glyph.py"],
      [("GlyphParser / GlyphCompiler", "parsers/glyph.py")],
      ["GlyphParser.parse", "GlyphCompiler.compile"], CODEC_TECH, CODEC_NOTE),
    p("C03", "Per-glyph side entries survive decompile and recompile",
      "For every entry that accompanies a glyph (bitmaps, backgrounds, masks, sketch, "
      "links, anchors, guides, origin, Unicode values, notes, metadata and the like) "
      "decompiling a well-formed entry and compiling it again keeps every field, its "
      "position, width, sign, count and value.",
      ["inputs"], "every well-formed byte string of every registered per-glyph entry",
      SAMPLES + "point counts, masters and sign of coordinates are unbounded.",
      ["parsers/glyph.py", "compilers/glyph.py", "parsers/bitmap.py",
       "compilers/bitmap.py", "parsers/guides.py", "compilers/guides.py"],
      [("BitmapParser / GlyphBitmapsCompiler", "parsers/bitmap.py"),
       ("MaskParser / MaskCompiler", "parsers/glyph.py")],
      ["VfbEntry.decompile", "VfbEntry.compile"], CODEC_TECH,
      CODEC_NOTE + " The run-length coding inside bitmaps is not decided."),
    p("C04", "TrueType tables survive decompile and recompile",
      "For the TrueType hinting entries (options, stems, PPEM tables, zones, zone "
      "deltas, gasp, VDMX, hdmx, raw tables and the font's TrueType information) "
      "decompiling a well-formed entry and compiling it again keeps every record, "
      "field, sign, count and value.",
      ["inputs"], "every well-formed byte string of every registered TrueType entry",
      SAMPLES + "table sizes and option subsets are unbounded.",
      ["parsers/truetype.py", "compilers/truetype.py", "truetype.py"],
      [("TrueTypeZonesParser / TrueTypeZonesCompiler", "parsers/truetype.py"),
       ("TrueTypeInfoParser / TrueTypeInfoCompiler", "parsers/truetype.py")],
      ["VfbEntry.decompile", "VfbEntry.compile"], CODEC_TECH, CODEC_NOTE),
    p("C05", "The variable-length integer code is exactly inverse and shortest",
      "Every signed 32-bit integer that is written in the variable-length integer code "
      "is read back as the same integer, consuming exactly the bytes that were "
      "written. Writing uses the shortest form that the code offers for the value, and "
      "the reader rejects lead bytes that the code does not define. Lists of bit "
      "positions and integers convert into each other without loss.",
      ["inputs"], "every signed 32-bit integer and every lead byte",
      "The tests sample some boundary values of 2^32.",
      ["parsers/value.py", "compilers/value.py", "helpers.py", "truetype.py"],
      [("read_value", "parsers/value.py"), ("write_value", "compilers/value.py")],
      ["read_value", "write_value"],
      "exhaustive evaluation of decision trees extracted from the source by abstract "
      "interpretation",
      "The branch structure, byte layouts and value formulas of reader and writer are "
      "extracted symbolically; every writer leaf is composed with the reader leaf its "
      "lead byte selects and compared over the leaf's whole range or by term identity."),
    p("C08", "The table of entry types is complete, unambiguous and paired",
      "Every entry number and every entry name identifies one entry type only, fits "
      "the file format's 15-bit entry number, and is registered under the number and "
      "with the reader that the VFB format assigns it. Every registered reader is "
      "paired with the writer for the same layout, and name lists that select entries "
      "(minimal reading, ignored entries, skipped sections) name existing entry types.",
      ["programs", "inputs"], "every registered entry number, name, reader and writer",
      "Tests look at the entry types of their sample data, not at the table.",
      ["constants.py", "enum.py", "vfb/entry.py"],
      [("parser_classes, ignore_minimal and related sets", "constants.py"),
       ("entry number enumerations F, G, M, T", "enum.py")],
      ["VfbEntry.read", "VfbEntry.key"],
      "query over the syntax tree of the registry, compared with a frozen format table",
      "Numbers, names and reader/writer kinds are compared with a reference frozen "
      "from the reviewed source; new entry types are accepted, changed ones are not."),
]

from props_more import MORE  # noqa: E402

PROPS += MORE(p)


def main():
    import sys

    sys.path.insert(0, str(V))
    from vfbsa.rules import PROPERTIES

    lines, checks, na = [], [], []
    for q in sorted(PROPS, key=lambda q: q["id"]):
        assert len(q["title"]) <= 80, q["id"]
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
        d = {
            "id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]},
            "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": q["mech"],
                        "observe_at": q["observe"], "hook_needed": None},
        }
        if q["state"]:
            d["anchors"]["state"] = q["state"]
        lines.append(json.dumps(d, ensure_ascii=False))
        if q["na"]:
            na.append({"property": q["id"], "reason": " ".join(q["na"].split())})
        elif q["id"] in PROPERTIES:
            checks.append({
                "property": q["id"],
                "quick_cmd": f"python3 check.py {q['id']} --tier quick",
                "thorough_cmd": f"python3 check.py {q['id']} --tier thorough",
                "technique": q["tech"], "level": "other", "level_note": q["note"],
            })
        else:
            na.append({"property": q["id"], "reason": "check not built yet"})
    (V / "properties.jsonl").write_text("\n".join(lines) + "\n", encoding="utf-8")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q vfbsa check.py",
         "checks": checks, "not_applicable": na,
         "notes": "The checks read /repo/src and need nothing but python3's standard "
         "library; nothing of /repo is executed."}
    (V / "MANIFEST.json").write_text(
        json.dumps(m, indent=1, ensure_ascii=False) + "\n", encoding="utf-8")


if __name__ == "__main__":
    main()

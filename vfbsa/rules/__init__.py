"""Property id -> (module, function, least number of decided obligations)."""

PROPERTIES = {
    "C01": ("codecs", "font_entries", 500),
    "C02": ("codecs", "glyph_record", 250),
    "C03": ("codecs", "glyph_entries", 200),
    "C04": ("codecs", "truetype_entries", 250),
    "C05": ("values", "run", 100),
    "C08": ("registry", "run", 100),
}
PROPERTIES["C06"] = ("container", "framing", 60)
PROPERTIES["C07"] = ("container", "passthrough", 200)
PROPERTIES["C09"] = ("discipline", "errors", 1500)
PROPERTIES["C10"] = ("discipline", "termination", 60)
PROPERTIES["C11"] = ("discipline", "atomic", 8)
PROPERTIES["C12"] = ("discipline", "byteorder", 60)
PROPERTIES["C13"] = ("ufo", "masters", 300)
PROPERTIES["C14"] = ("ufo", "untouched", 300)
PROPERTIES["C15"] = ("ufo", "isolation", 100)
PROPERTIES["C17"] = ("ufodata", "info", 500)
PROPERTIES["C18"] = ("ufodata", "glyphs", 500)
PROPERTIES["C19"] = ("ufodata", "hints", 300)
PROPERTIES["C16"] = ("ufofont", "glyph_set", 300)
PROPERTIES["C20"] = ("ufofont", "kerning", 500)
PROPERTIES["C21"] = ("ufofont", "designspace", 200)
PROPERTIES["C22"] = ("cli", "overwrite", 60)
PROPERTIES["C23"] = ("cli", "options", 1000)
PROPERTIES["C24"] = ("tth", "hinting", 2000)
PROPERTIES["C25"] = ("history", "reproducible", 5000)
PROPERTIES["C26"] = ("draw", "check_all", 10000)
PROPERTIES["C27"] = ("bitmaps", "check", 800)
PROPERTIES["C28"] = ("access", "check_all", 1200)
PROPERTIES["C29"] = ("layout", "check", 450)

"""Readers of entries whose bytes say only which record they stand for."""


class GlyphParser:
    encoding = "utf-8"

    def parse(self, stream, size=-1, vfb=None):
        return {"name": stream.read().decode(), "nodes": []}


class MarkParser:
    encoding = "utf-8"

    def parse(self, stream, size=-1, vfb=None):
        return {"mark": stream.read().decode(), "x": [], "y": []}


def stem(kind, pos, width):
    if width < 0 and width != -20 and width != -21:
        pos = pos + width
        width = -width
    return (kind, pos, width)


def link(kind, source, target):
    return (kind, source, target - source)


def bottom(kind, source):
    return (kind, source + 21, -21)


def top(kind, source):
    return (kind, source, -20)


def firsts(font):
    return [name for name, glyph in font.items()]


def holds(font, name, entry):
    same = [glyph.entry is entry for key, glyph in font.items() if key == name]
    return same == [True] and font[name].entry is entry


def mark(entry):
    if entry is None:
        return None
    return entry.data["mark"]


def first_of(items):
    return [name for name, glyph in items]


def is_entry(glyph, entry):
    return glyph.entry is entry


def of_master(font, name, entry):
    glyph = font[name]
    return (glyph.entry is entry, glyph.master_index)

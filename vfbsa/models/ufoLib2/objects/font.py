"""Model of ufoLib2.Font: what is stored by reference and what is copied."""

from spec.effects import write_file
from spec.path import exists
from ufoLib2.objects.features import Features
from ufoLib2.objects.glyph import Glyph


class Layer:
    def __init__(self):
        self.glyphs = {}

    def newGlyph(self, name):
        glyph = Glyph(name)
        self.glyphs[name] = glyph
        return glyph

    def addGlyph(self, glyph):
        self.glyphs[glyph.name] = glyph

    def __iter__(self):
        return list(self.glyphs.values())


class LayerSet:
    def __init__(self):
        self.layers = {"public.default": Layer()}

    def newLayer(self, name):
        layer = Layer()
        self.layers[name] = layer
        return layer


class Font:
    def __init__(self, features=None, groups=None, info=None, kerning=None, lib=None):
        self.layers = LayerSet()
        self.features = Features(features)
        self.groups = groups
        self.info = info
        self.kerning = dict(kerning) if kerning is not None else {}
        self.lib = dict(lib) if lib is not None else {}

    def newGlyph(self, name):
        return self.layers.layers["public.default"].newGlyph(name)

    def newLayer(self, name):
        return self.layers.newLayer(name)

    def addGlyph(self, glyph):
        self.layers.layers["public.default"].addGlyph(glyph)

    def __iter__(self):
        return list(self.layers.layers["public.default"].glyphs.values())

    def __getitem__(self, name):
        return self.layers.layers["public.default"].glyphs[name]

    def __contains__(self, name):
        return name in self.layers.layers["public.default"].glyphs

    def save(
        self, path=None, formatVersion=3, structure=None, overwrite=False, validate=True
    ):
        if exists(str(path)) and not overwrite:
            raise FileExistsError("path already exists")
        write_file("ufo", path, self, structure)

    def json_dump(self, fp, indent=None, sort_keys=False):
        write_file("json", fp, self, indent)

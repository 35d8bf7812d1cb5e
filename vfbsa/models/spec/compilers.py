"""A compiler of glyphs which keeps the structure, so that one can look at it."""

from vfbLib.compilers.glyph import GlyphCompiler


class Keeping(GlyphCompiler):
    def compile(self, data, master_count=0, ttStemsV_count=0, ttStemsH_count=0, vfb=None):
        return data

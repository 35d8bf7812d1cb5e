"""Model of ufoLib2.Glyph."""


class GlyphPointPen:
    def __init__(self, glyph):
        self.glyph = glyph
        self.contour = None

    def beginPath(self, identifier=None):
        self.contour = []

    def endPath(self):
        self.glyph.contours.append(self.contour)
        self.contour = None

    def addPoint(self, pt, segmentType=None, smooth=False, name=None, identifier=None):
        x, y = pt
        self.contour.append((x, y, segmentType, smooth, name))

    def addComponent(self, baseGlyph, transformation, identifier=None):
        self.glyph.components.append((baseGlyph, transformation))


class Glyph:
    def __init__(self, name=None):
        self.name = name
        self.width = 0
        self.height = 0
        self.unicodes = []
        self._lib = {}
        self.note = None
        self._anchors = []
        self.components = []
        self.contours = []
        self._guidelines = []

    @property
    def lib(self):
        return self._lib

    @lib.setter
    def lib(self, value):
        self._lib = dict(value)

    @property
    def anchors(self):
        return self._anchors

    @anchors.setter
    def anchors(self, value):
        self._anchors = [dict(a) for a in value]

    @property
    def guidelines(self):
        return self._guidelines

    @guidelines.setter
    def guidelines(self, value):
        self._guidelines = [dict(g) for g in value]

    def getPointPen(self):
        return GlyphPointPen(self)

    def drawPoints(self, pen):
        for contour in self.contours:
            pen.beginPath()
            for x, y, segmentType, smooth, name in contour:
                pen.addPoint((x, y), segmentType, smooth, name)
            pen.endPath()
        for base, transformation in self.components:
            pen.addComponent(base, transformation)

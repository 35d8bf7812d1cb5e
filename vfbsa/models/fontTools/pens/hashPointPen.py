"""Model of HashPointPen: the hash depends on everything drawn."""


class HashPointPen:
    def __init__(self, glyphWidth=0, glyphSet=None):
        self.data = ["w", glyphWidth]
        self.glyphset = glyphSet

    @property
    def hash(self):
        return list(self.data)

    def beginPath(self, identifier=None):
        self.data.append("|")

    def endPath(self):
        self.data.append("|")

    def addPoint(self, pt, segmentType=None, smooth=False, name=None):
        self.data.append(segmentType)
        self.data.append(pt)

    def addComponent(self, baseGlyphName, transformation):
        self.data.append("[")
        self.glyphset[baseGlyphName].drawPoints(self)
        self.data.append(transformation)
        self.data.append("]")

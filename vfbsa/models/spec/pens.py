"""Pens which remember what was drawn."""


class Segments:
    def __init__(self):
        self.drawn = []

    def moveTo(self, pt):
        self.drawn.append(("moveTo", pt))

    def lineTo(self, pt):
        self.drawn.append(("lineTo", pt))

    def curveTo(self, *points):
        self.drawn.append(("curveTo", *points))

    def qCurveTo(self, *points):
        self.drawn.append(("qCurveTo", *points))

    def closePath(self):
        self.drawn.append(("closePath",))

    def endPath(self):
        self.drawn.append(("endPath",))

    def addComponent(self, glyphName, transformation):
        self.drawn.append(("addComponent", glyphName, transformation))


class Points:
    def __init__(self):
        self.drawn = []

    def beginPath(self, identifier=None, **kwargs):
        self.drawn.append(("beginPath",))

    def addPoint(
        self, pt, segmentType=None, smooth=False, name=None, identifier=None, **kwargs
    ):
        self.drawn.append(("addPoint", pt, segmentType, smooth))

    def endPath(self):
        self.drawn.append(("endPath",))

    def addComponent(self, baseGlyphName, transformation, identifier=None, **kwargs):
        self.drawn.append(("addComponent", baseGlyphName, transformation))


def perform(pen, calls):
    for name, *args in calls:
        getattr(pen, name)(*args)


def points(pen, contours):
    for contour in contours:
        pen.beginPath()
        for pt, kind in contour:
            pen.addPoint(pt, kind)
        pen.endPath()


def listed(names):
    return list(names)

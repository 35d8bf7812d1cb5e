"""Model of the point pen protocol and of the adapters between the pen protocols."""


class PenError(Exception):
    pass


class AbstractPointPen:
    pass


class SegmentToPointPen:
    def __init__(self, pointPen, guessSmooth=True):
        self.pen = pointPen
        self.contour = None

    def _flushContour(self):
        self.pen.beginPath()
        for pt, segmentType in self.contour:
            self.pen.addPoint(pt, segmentType=segmentType)
        self.pen.endPath()
        self.contour = None

    def moveTo(self, pt):
        self.contour = [(pt, "move")]

    def lineTo(self, pt):
        if self.contour is None:
            raise PenError("Contour missing required initial moveTo")
        self.contour.append((pt, "line"))

    def curveTo(self, *pts):
        if self.contour is None:
            raise PenError("Contour missing required initial moveTo")
        for pt in pts[:-1]:
            self.contour.append((pt, None))
        self.contour.append((pts[-1], "curve"))

    def qCurveTo(self, *pts):
        if pts[-1] is None:
            self.contour = []
        elif self.contour is None:
            raise PenError("Contour missing required initial moveTo")
        for pt in pts[:-1]:
            self.contour.append((pt, None))
        if pts[-1] is not None:
            self.contour.append((pts[-1], "qcurve"))

    def closePath(self):
        if self.contour is None:
            raise PenError("Contour missing required initial moveTo")
        first, last = self.contour[0], self.contour[-1]
        if (
            len(self.contour) > 1
            and first[0] == last[0]
            and first[1] is not None
            and last[1] is not None
        ):
            self.contour[0] = last
            del self.contour[-1]
        elif first[1] == "move":
            self.contour[0] = (first[0], "line")
        self._flushContour()

    def endPath(self):
        if self.contour is None:
            raise PenError("Contour missing required initial moveTo")
        self._flushContour()

    def addComponent(self, glyphName, transform):
        if self.contour is not None:
            raise PenError("Components must be added before or after contours")
        self.pen.addComponent(glyphName, transform)


class PointToSegmentPen:
    def __init__(self, segmentPen, outputImpliedClosingLine=False):
        self.pen = segmentPen
        self.implied = outputImpliedClosingLine
        self.points = None

    def beginPath(self, identifier=None, **kwargs):
        if self.points is not None:
            raise PenError("Path already begun.")
        self.points = []

    def addPoint(
        self, pt, segmentType=None, smooth=False, name=None, identifier=None, **kwargs
    ):
        if self.points is None:
            raise PenError("Path not begun")
        self.points.append((pt, segmentType))

    def endPath(self):
        if self.points is None:
            raise PenError("Path not begun.")
        points = self.points
        self.points = None
        if not points:
            return
        pen = self.pen
        closed = len(points) > 1 and points[0][1] != "move"
        if closed:
            first = None
            for i in range(len(points)):
                if points[i][1] is not None:
                    first = i
                    break
            if first is None:
                points.append((None, "qcurve"))
            else:
                points = points[first + 1 :] + points[: first + 1]
            start = points[-1][0]
        else:
            start = points[0][0]
            points = points[1:]
        if start is not None:
            pen.moveTo(start)
        last = start
        curve = []
        for i in range(len(points)):
            pt, kind = points[i]
            curve.append(pt)
            if kind is None:
                continue
            if kind == "line":
                if i + 1 != len(points) or self.implied or not closed or pt == last:
                    pen.lineTo(pt)
                    last = pt
            elif kind == "curve":
                pen.curveTo(*curve)
                last = pt
            elif kind == "qcurve":
                pen.qCurveTo(*curve)
                last = pt
            else:
                raise PenError("Illegal segmentType")
            curve = []
        if closed:
            pen.closePath()
        else:
            pen.endPath()

    def addComponent(self, glyphName, transform, identifier=None, **kwargs):
        self.pen.addComponent(glyphName, transform)

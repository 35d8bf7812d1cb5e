"""Model of fontTools.designspaceLib: descriptors keep what they are given."""

from spec.effects import write_file


class AxisLabelDescriptor:
    def __init__(self, name=None, userValue=None):
        self.name = name
        self.userValue = userValue


class AxisDescriptor:
    def __init__(
        self,
        *,
        tag=None,
        name=None,
        labelNames=None,
        minimum=None,
        default=None,
        maximum=None,
        hidden=False,
        map=None,
        axisOrdering=None,
        axisLabels=None,
    ):
        self.tag = tag
        self.name = name
        self.map = map if map is not None else []
        self.axisLabels = axisLabels if axisLabels is not None else []
        self.minimum = minimum
        self.default = default
        self.maximum = maximum


class DiscreteAxisDescriptor:
    def __init__(self, tag=None, name=None):
        self.tag = tag
        self.name = name
        self.map = []
        self.axisLabels = []


class DesignSpaceDocument:
    def __init__(self):
        self.axes = []
        self.sources = []
        self.instances = []
        self.rules = []
        self.lib = {}

    def addSourceDescriptor(self, **kwargs):
        self.sources.append(kwargs)

    def addInstanceDescriptor(self, **kwargs):
        self.instances.append(kwargs)

    def addAxisDescriptor(self, **kwargs):
        self.axes.append(kwargs)

    def write(self, path):
        # the range of an axis is written as numbers
        for axis in self.axes:
            if axis.minimum is None or axis.default is None or axis.maximum is None:
                raise TypeError("int() argument must be a number, not 'NoneType'")
        write_file("designspace", path, self, None)

"""Model of difflib: results are functions of both inputs and their names."""

from spec.effects import compared


def unified_diff(
    a, b, fromfile="", tofile="", fromfiledate="", tofiledate="", n=3, lineterm="\n"
):
    return [compared("unified_diff", a, b, fromfile, tofile)]


def context_diff(
    a, b, fromfile="", tofile="", fromfiledate="", tofiledate="", n=3, lineterm="\n"
):
    return [compared("context_diff", a, b, fromfile, tofile)]


class HtmlDiff:
    def __init__(self, tabsize=8, wrapcolumn=None, linejunk=None, charjunk=None):
        pass

    def make_file(
        self,
        fromlines,
        tolines,
        fromdesc="",
        todesc="",
        context=False,
        numlines=5,
        charset="utf-8",
    ):
        return compared("make_file", fromlines, tolines, fromdesc, todesc)

"""Model of fontTools.ufoLib: the two UFO structures."""


class UFOFileStructure:
    ZIP = "zip"
    PACKAGE = "package"

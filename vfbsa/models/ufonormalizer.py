"""Model of ufonormalizer: rewrites a UFO that was saved before."""

from spec.effects import write_file


def normalizeUFO(
    ufoPath,
    outputPath=None,
    onlyModified=True,
    floatPrecision=10,
    writeModTimes=True,
    excludePlists=None,
):
    write_file("normalize", outputPath or ufoPath, None, None)

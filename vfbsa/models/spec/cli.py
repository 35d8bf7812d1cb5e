"""Where the tools put their output."""

from pathlib import Path


def beside(inp, suffix):
    return str(Path(inp).with_suffix(suffix))


def in_folder(folder, inp, suffix):
    return str((Path(folder) / Path(inp).name).with_suffix(suffix))


def as_is(path):
    return str(Path(path))


def suffixed(path, suffix):
    return str(Path(path).with_suffix(suffix))


def master(path, index):
    path = Path(path)
    if index > 0:
        return str(path.with_stem(f"{path.stem}-{index}"))
    return str(path)

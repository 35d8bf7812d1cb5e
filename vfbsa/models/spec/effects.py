"""Placeholders; the analysis records their calls in order."""


def write_file(kind, path, what, how):
    record(kind, str(path), what, how)


def record(kind, path, what, how):
    return None


def text(path):
    return str(path)


def compared(kind, a, b, name_a, name_b):
    return kind

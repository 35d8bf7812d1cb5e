"""Placeholders; the analysis replaces them by functions over terms."""


def split_path(path):
    return path, path


def split_stem(name):
    return name


def split_suffix(name):
    return name


def join(folder, name):
    return name


def exists(path):
    return False

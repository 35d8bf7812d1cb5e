"""Model of pathlib.Path: a folder, a stem and a suffix."""

from spec.path import exists, join, split_path, split_stem, split_suffix


class Path:
    def __init__(self, path, _parts=None):
        if _parts is None:
            if isinstance(path, Path):
                self.folder = path.folder
                self.stem = path.stem
                self.suffix = path.suffix
            else:
                folder, name = split_path(path)
                self.folder = folder
                self.stem = split_stem(name)
                self.suffix = split_suffix(name)
        else:
            self.folder, name = _parts
            self.stem = split_stem(name)
            self.suffix = split_suffix(name)

    @property
    def name(self):
        return self.stem + self.suffix

    @property
    def parent(self):
        return Path(self.folder)

    def with_suffix(self, suffix):
        return Path(None, (self.folder, self.stem + suffix))

    def with_stem(self, stem):
        return Path(None, (self.folder, stem + self.suffix))

    def with_name(self, name):
        return Path(None, (self.folder, name))

    def __truediv__(self, other):
        return Path(None, (str(self), str(other)))

    def __str__(self):
        return join(self.folder, self.stem + self.suffix)

    def as_posix(self):
        return join(self.folder, self.stem + self.suffix)

    def __fspath__(self):
        return join(self.folder, self.stem + self.suffix)

    def exists(self):
        return exists(str(self))

    def is_file(self):
        return exists(str(self))

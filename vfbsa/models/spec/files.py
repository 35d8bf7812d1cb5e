"""Model of a file that is open for reading or writing."""

from spec.effects import record
from spec.path import exists


class File:
    def __init__(self, path, mode="r"):
        self.path = str(path)
        self.mode = mode
        if "w" in mode or "a" in mode or "x" in mode:
            record("open", self.path, None, mode)
        elif not exists(self.path):
            raise FileNotFoundError(self.path)

    def write(self, data):
        record("data", self.path, data, self.mode)

    def writelines(self, lines):
        for data in lines:
            record("data", self.path, data, self.mode)

    def read(self, size=-1):
        return self

    def close(self):
        return None

    def __enter__(self):
        return self

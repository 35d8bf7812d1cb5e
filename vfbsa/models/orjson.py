"""Model of orjson: the numbers of its options; dumps is followed by hooks."""

OPT_INDENT_2 = 1
OPT_NON_STR_KEYS = 4
OPT_SERIALIZE_NUMPY = 16
OPT_SORT_KEYS = 32
OPT_APPEND_NEWLINE = 1024


def dumps(data, default=None, option=None):
    raise NotImplementedError

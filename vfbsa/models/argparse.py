"""Model of argparse: the declared options, and a namespace of given or default values."""

from spec.args import given


class Namespace:
    pass


class ArgumentParser:
    def __init__(self, description=None, prog=None, epilog=None):
        self.description = description
        self._names = []
        self._values = {}

    def add_argument(
        self,
        *flags,
        action=None,
        default=None,
        help=None,
        type=None,
        nargs=None,
        choices=None,
        dest=None,
        required=False,
        metavar=None,
    ):
        name = dest
        for flag in flags:
            if name is None and flag.startswith("--"):
                name = flag[2:].replace("-", "_")
        if name is None:
            name = flags[0].lstrip("-").replace("-", "_")
        if action == "store_true":
            default = default if default is not None else False
        elif action == "store_false":
            default = default if default is not None else True
        value = given(flags, action, nargs, type, default)
        self._names.append(name)
        self._values[name] = value

    def parse_args(self, args=None, namespace=None):
        ns = Namespace()
        for name in self._names:
            setattr(ns, name, self._values[name])
        return ns

    def print_help(self):
        return None

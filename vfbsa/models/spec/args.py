"""Placeholder; the analysis gives the options of the scenario."""


def given(flags, action, nargs, type, default):
    return default

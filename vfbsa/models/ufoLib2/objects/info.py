class Info:
    def __init__(self):
        pass


def WidthClass(value):
    return value

"""Reference definitions, interpreted like project code, for values with case splits."""


def guide_angle(angle, vertical):
    # VFB measures from the guide's own direction, UFO from the x axis, in 0..360
    a = 90 - angle if vertical else angle
    if a < 0:
        a = a + 360
    if a > 360:
        a = a - 360
    return round(a, 2)


def stem(kind, pos, width):
    # a negative width is a stem measured from its upper edge, except the ghosts -20/-21
    if width < 0 and width != -20 and width != -21:
        pos = pos + width
        width = -width
    return f"{kind} {pos} {width}"


def plain_stem(kind, pos, width):
    return f"{kind} {pos} {width}"


def scale(value):
    value = round(value, 15)
    if value.is_integer():
        return int(value)
    return value


def clamp_weight(value):
    if value < 1:
        return 1
    if value > 1000:
        return 1000
    return value


def family_class(value):
    return [value // 256, value % 256]


def underline(pos, thickness):
    return pos + int(round(0.5 * thickness))


def average(value):
    if value == 0:
        return None
    return abs(value)


def flag(value):
    return bool(value)


def axis_map(user, design):
    return (user, round(design * 1000))


def lowest(coords):
    return min(coords)


def highest(coords):
    return max(coords)


def per_mille(value):
    return 1000 * value


def times_one(value):
    return 1 * value


def instance_file(family, style):
    return f"instance_ufo/{family}-{style}.ufo"


def instance_map_name(family, style):
    return f"{family} {style}".strip()

"""Formatting option sets."""
SETS = [
    {},
    {"indent": 1, "spacer": "\t", "quote": "'"},
    {"align_values": True, "end_comment": True},
    {"indent": 0, "newlinechar": "\r\n", "separate_complex_types": True},
    {"indent": 3, "spacer": " \t", "align_values": True, "quote": "'", "separate_complex_types": True},
    {"indent": 8, "newlinechar": "\r\n", "end_comment": True, "align_values": True},
    {"indent": 0, "newlinechar": " "},
    {"indent": 2, "spacer": "", "newlinechar": "\n\n", "end_comment": True},
    {"separate_complex_types": True, "end_comment": True, "quote": "'"},
    {"indent": 1, "align_values": True, "separate_complex_types": True, "newlinechar": "\r\n"},
    {"indent": 0, "align_values": True, "quote": "'"},
    {"align_values": True, "newlinechar": " ", "indent": 13},
]


def pick(ctx, n=None, nm="opt"):
    return dict(ctx.pick(nm, SETS[:n] if n else SETS))


def full(ctx):
    """any combination"""
    o = {"indent": ctx.pick("indent", [4, 0, 1, 7]), "spacer": ctx.pick("spacer", [" ", "\t", ""]),
         "quote": ctx.pick("quote", ['"', "'"]), "newlinechar": ctx.pick("nl", ["\n", "\r\n", "\n\n"]),
         "end_comment": ctx.bool("endc"), "align_values": ctx.bool("align"), "separate_complex_types": ctx.bool("sep")}
    return o


def some(tier, i):
    """option sets of one unit: all of them when thorough, else two of them in rotation"""
    if tier == "thorough":
        return SETS
    return [SETS[i % len(SETS)], SETS[(i * 5 + 3) % len(SETS)]]

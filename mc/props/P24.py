"""P24: color parsing and palettes are exact and deterministic."""
import itertools

import numpy as np

from ..common import *
from norfair import Color, Palette
from norfair.drawing.color import hex_to_bgr, parse_color

LEVEL = "model_checking"
TECH = "exhaustive enumeration of color strings, and of all sequences of palette operations on the real class against a reference state machine"
RULE = "one execution = one string parsed, or one sequence of palette operations with every color observed after each; states = (palette, default color) of the reference reached by a sequence"
BOUNDS = {
    "quick": "all 22^3 3-digit strings; all values of every pair of digits of 6-digit strings; all strings '#'+{0,f,F,g, ,#,+,_,newline}^k for k<=6 around valid lengths; 150 CSS colors, 30 palette colors,"
    " every attribute name of Color; all windows of consecutive ids in 1..5000 and around 2^15, 2^16, 10^6, 2^31, 2^32, 2^53, 2^60 for 6 palettes; all sequences of 4 of 15 palette operations",
    "thorough": "all values of every triple of digits; sequences of 5 operations",
}
ASSUMPTIONS = ["the table of CSS colors in this file (cross-checked against matplotlib and PIL)"]

NAMES = """
aliceblue:f0f8ff antiquewhite:faebd7 aqua:00ffff aquamarine:7fffd4 azure:f0ffff beige:f5f5dc bisque:ffe4c4 black:000000 blanchedalmond:ffebcd blue:0000ff blueviolet:8a2be2
brown:a52a2a burlywood:deb887 cadetblue:5f9ea0 chartreuse:7fff00 chocolate:d2691e coral:ff7f50 cornflowerblue:6495ed cornsilk:fff8dc crimson:dc143c cyan:00ffff darkblue:00008b
darkcyan:008b8b darkgoldenrod:b8860b darkgray:a9a9a9 darkgrey:a9a9a9 darkgreen:006400 darkkhaki:bdb76b darkmagenta:8b008b darkolivegreen:556b2f darkorange:ff8c00 darkorchid:9932cc
darkred:8b0000 darksalmon:e9967a darkseagreen:8fbc8f darkslateblue:483d8b darkslategray:2f4f4f darkslategrey:2f4f4f darkturquoise:00ced1 darkviolet:9400d3 deeppink:ff1493
deepskyblue:00bfff dimgray:696969 dimgrey:696969 dodgerblue:1e90ff firebrick:b22222 floralwhite:fffaf0 forestgreen:228b22 fuchsia:ff00ff gainsboro:dcdcdc ghostwhite:f8f8ff
gold:ffd700 goldenrod:daa520 gray:808080 grey:808080 green:008000 greenyellow:adff2f honeydew:f0fff0 hotpink:ff69b4 indianred:cd5c5c indigo:4b0082 ivory:fffff0 khaki:f0e68c
lavender:e6e6fa lavenderblush:fff0f5 lawngreen:7cfc00 lemonchiffon:fffacd lightblue:add8e6 lightcoral:f08080 lightcyan:e0ffff lightgoldenrodyellow:fafad2 lightgreen:90ee90
lightgray:d3d3d3 lightgrey:d3d3d3 lightpink:ffb6c1 lightsalmon:ffa07a lightseagreen:20b2aa lightskyblue:87cefa lightslategray:778899 lightslategrey:778899 lightsteelblue:b0c4de
lightyellow:ffffe0 lime:00ff00 limegreen:32cd32 linen:faf0e6 magenta:ff00ff maroon:800000 mediumaquamarine:66cdaa mediumblue:0000cd mediumorchid:ba55d3 mediumpurple:9370db
mediumseagreen:3cb371 mediumslateblue:7b68ee mediumspringgreen:00fa9a mediumturquoise:48d1cc mediumvioletred:c71585 midnightblue:191970 mintcream:f5fffa mistyrose:ffe4e1
moccasin:ffe4b5 navajowhite:ffdead navy:000080 oldlace:fdf5e6 olive:808000 olivedrab:6b8e23 orange:ffa500 orangered:ff4500 orchid:da70d6 palegoldenrod:eee8aa palegreen:98fb98
paleturquoise:afeeee palevioletred:db7093 papayawhip:ffefd5 peachpuff:ffdab9 peru:cd853f pink:ffc0cb plum:dda0dd powderblue:b0e0e6 purple:800080 rebeccapurple:663399 red:ff0000
rosybrown:bc8f8f royalblue:4169e1 saddlebrown:8b4513 salmon:fa8072 sandybrown:f4a460 seagreen:2e8b57 seashell:fff5ee sienna:a0522d silver:c0c0c0 skyblue:87ceeb slateblue:6a5acd
slategray:708090 slategrey:708090 snow:fffafa springgreen:00ff7f steelblue:4682b4 tan:d2b48c teal:008080 thistle:d8bfd8 tomato:ff6347 turquoise:40e0d0 violet:ee82ee wheat:f5deb3
white:ffffff whitesmoke:f5f5f5 yellow:ffff00 yellowgreen:9acd32 tab1:1f77b4 tab2:aec7e8 tab3:ff7f0e tab4:ffbb78 tab5:2ca02c tab6:98df8a tab7:d62728 tab8:ff9896 tab9:9467bd
tab10:c5b0d5 tab11:8c564b tab12:c49c94 tab13:e377c2 tab14:f7b6d2 tab15:7f7f7f tab16:c7c7c7 tab17:bcbd22 tab18:dbdb8d tab19:17becf tab20:9edae5 cb1:0173b2 cb2:de8f05 cb3:029e73
cb4:d55e00 cb5:cc78bc cb6:ca9161 cb7:fbafe4 cb8:949494 cb9:ece133 cb10:56b4e9"""
NAMES = {k: (int(v[4:], 16), int(v[2:4], 16), int(v[:2], 16)) for k, v in (x.split(":") for x in NAMES.split())}
PAL = {
    "tab10": [NAMES["tab%d" % i] for i in range(1, 21, 2)],
    "tab20": [NAMES["tab%d" % i] for i in range(1, 21)],
    "colorblind": [NAMES["cb%d" % i] for i in range(1, 11)],
}
DIG = "0123456789abcdefABCDEF"


def same(a, b):
    return isinstance(a, tuple) and a == b and all(type(x) is int for x in a)


def run_hex(case, rec):
    """all strings prefix + xy.. + suffix with the free digits at the given positions"""
    _, base, positions = case
    for ds in itertools.product(DIG, repeat=len(positions)):
        s = list(base)
        for p, d in zip(positions, ds):
            s[p] = d
        s = "".join(s)
        full = s if len(s) == 6 else "".join(c * 2 for c in s)
        want = (int(full[4:], 16), int(full[2:4], 16), int(full[:2], 16))
        for fn in (hex_to_bgr, parse_color):
            got = fn("#" + s)
            require(same(got, want), lambda: "%s(%r) = %r, expected %r" % (fn.__name__, "#" + s, got, want))
        rec.outcome(want)
        rec.step()


def rejected(fn, s):
    try:
        got = fn(s)
    except (ValueError, AttributeError):
        return
    require(False, lambda: "%s(%r) = %r instead of being rejected" % (fn.__name__, s, got))


def run_bad(case, rec):
    s = case[1]
    valid = len(s) in (4, 7) and s[0] == "#" and all(c in DIG for c in s[1:])
    if not valid:
        rejected(hex_to_bgr, s)
        if s not in NAMES:
            rejected(parse_color, s)
    rec.outcome(s)


def run_name(case, rec):
    _, n = case
    got = parse_color(n)
    require(same(got, NAMES[n]), lambda: "%s is %r, expected %r" % (n, got, NAMES[n]))
    require(same(getattr(Color, n), NAMES[n]), lambda: "Color.%s" % n)
    rejected(parse_color, n.upper() if n.upper() != n else n + "x")
    rejected(parse_color, n + " ")
    rec.outcome(n)


def run_triple(case, rec):
    _, t = case
    for mk in (tuple, list, np.array, lambda v: np.array(v, dtype="uint8"), lambda v: np.array(v, dtype=float), lambda v: iter(list(v))):
        got = parse_color(mk(t))
        require(same(got, t), lambda: "%r parsed to %r" % (t, got))
    rec.outcome(t)


CUSTOM = {
    "one": ["red"],
    "mixed": ["#FF0000", (1, 2, 3), "blue", [4, 5, 6], "#0f0"],
    "dups": ["white", "white", "black"],
}
CUSTOM_BGR = {"one": [(0, 0, 255)], "mixed": [(0, 0, 255), (1, 2, 3), (255, 0, 0), (4, 5, 6), (0, 255, 0)], "dups": [(255, 255, 255), (255, 255, 255), (0, 0, 0)]}
BAD = ["tab11", "", "TAB10", "red"]
BADLISTS = {"unknown": ["red", "nocolor"], "hex": ["#12", "red"], "late": ["red", "blue", "#ggg"]}
DEFAULTS = {"white": (255, 255, 255), "#010203": (3, 2, 1)}
OPS = ([("set", n) for n in PAL] + [("custom", n) for n in CUSTOM] + [("bad", n) for n in BAD[:2]] + [("badlist", n) for n in BADLISTS]
       + [("default", n) for n in DEFAULTS] + [("baddefault", "nope"), ("iter", "mixed")])
KEYS = list(range(-3, 25)) + ["a", "b", "", "label", 0.5, -2.25, 1.0, True, False, (1, 2), ("x",), frozenset((1,)), b"z", 10**20, "1"]


def observe(palette, default, learned, what):
    size = len(palette)
    for k in KEYS:
        got = Palette.choose_color(k)
        require(got in palette, lambda: "%r gets %r, which is not in the palette, after %s" % (k, got, what))
        was = learned.setdefault(k, got)
        require(was == got, lambda: "%r changes from %r to %r after %s" % (k, was, got, what))
    ids = [Palette.choose_color(k) for k in range(1, 25)]
    for i in range(24 - size + 1):
        require(sorted(ids[i:i + size]) == sorted(palette), lambda: "ids %d..%d do not use every color of the palette once, after %s" % (i + 1, i + size, what))
    for eq in ((1, 1.0, True), (0, 0.0, False)):
        require(len({Palette.choose_color(k) for k in eq}) == 1, "equal keys get different colors")
    require(Palette.choose_color(None) == default, lambda: "None gets %r, not the default color, after %s" % (Palette.choose_color(None), what))


def run_seq(case, rec):
    name, default = "tab10", (0, 0, 0)
    table = {}
    Palette.set("tab10")
    Palette.set_default_color((0, 0, 0))
    colors = dict(PAL, **{"custom-" + k: v for k, v in CUSTOM_BGR.items()})
    observe(colors[name], default, table.setdefault(name, {}), "start")
    for i, (op, arg) in enumerate(case[1]):
        what = str(case[1][:i + 1])
        if op == "set":
            Palette.set(arg)
            name = arg
        elif op in ("custom", "iter"):
            given = [list(c) if isinstance(c, list) else c for c in CUSTOM[arg]]
            Palette.set(given if op == "custom" else iter(given))
            given.clear()
            name = "custom-" + arg
        elif op in ("bad", "badlist"):
            try:
                Palette.set(arg if op == "bad" else BADLISTS[arg])
            except ValueError:
                pass
            except AttributeError:
                require(op == "badlist", "an unknown palette name raises AttributeError")
            else:
                require(False, lambda: "palette %r accepted" % arg)
        elif op == "default":
            Palette.set_default_color(arg)
            default = DEFAULTS[arg]
        else:
            rejected(Palette.set_default_color, arg)
        observe(colors[name], default, table.setdefault(name, {}), what)
        rec.state((name, default))
        rec.step()
    rec.outcome((name, default, len(table)))


def run_ids(case, rec):
    """every window of consecutive ids in a long range uses every color of the palette once"""
    _, op, name, start, count = case
    if op == "set":
        Palette.set(name)
        palette = PAL[name]
    else:
        Palette.set(list(CUSTOM[name]))
        palette = CUSTOM_BGR[name]
    size, want = len(palette), sorted(palette)
    for kind in (int, np.int64):
        ids = [Palette.choose_color(kind(k)) for k in range(start, start + count)]
        for i in range(count - size + 1):
            require(sorted(ids[i:i + size]) == want, lambda: "ids %d..%d do not use every color of the palette once" % (start + i, start + i + size - 1))
            rec.step()
    rec.outcome((name, start))


def run_case(case, rec):
    return {"ids": run_ids, "hex": run_hex, "bad": run_bad, "name": run_name, "triple": run_triple, "seq": run_seq}[case[0]](case, rec)


def shards(tier):
    k, n = (3, 5) if tier == "thorough" else (2, 4)
    out = [("hex3",), ("names",), ("triples",)] + [("hex6", k, b) for b in ("000000", "12ab9F")] + [("bad", i) for i in range(8)]
    out += [("ids", s) for s in (1, 2**15 - 30, 2**16 - 30, 10**6 - 30, 2**31 - 30, 2**32 - 30, 2**53 - 30, 2**60)]
    return out + [("seq", i, j, n) for i in range(len(OPS)) for j in range(len(OPS))]


def run_shard(shard, rec):
    if shard[0] == "hex3":
        rec.case(("hex", "000", (0, 1, 2)))
    elif shard[0] == "ids":
        for op, names in (("set", PAL), ("custom", CUSTOM)):
            for n in names:
                rec.case(("ids", op, n, shard[1], 5000 if shard[1] == 1 else 100))
    elif shard[0] == "hex6":
        for pos in itertools.combinations(range(6), shard[1]):
            rec.case(("hex", shard[2], pos))
    elif shard[0] == "names":
        for n in NAMES:
            rec.case(("name", n))
        for n in sorted(set(dir(Color)) | set(dir(type)) | set(dir(tuple)) | {"", " ", "Red", "red\n", "nocolor", "0", "by_id", "random"}):
            if n not in NAMES:
                rec.case(("bad", n))
    elif shard[0] == "triples":
        for t in itertools.product((0, 1, 127, 128, 254, 255), repeat=3):
            rec.case(("triple", t))
    elif shard[0] == "bad":
        n = 0
        for k in range(0, 7):
            for s in itertools.product("0fFg #+_\n", repeat=k):
                s = "".join(s)
                n += 1
                if n % 8 != shard[1]:
                    continue
                if k > 4 and sum(c not in "0fF" for c in s) > 2:
                    continue
                rec.case(("bad", "#" + s))
                if k in (4, 5):
                    rec.case(("bad", s))
        for s in ("#ffffff\n", "#fff\n", "#fffffff", "#ff", "ffffff", "##ffffff", "#0x1", "#1.0", "#-12", "#\uff11\uff11\uff11", "#\u0661\u0661\u0661", "\n#fff", "#fff ", "#FFFFFG"):
            rec.case(("bad", s))
    else:
        _, i, j, n = shard
        for rest in itertools.product(OPS, repeat=n - 2):
            rec.case(("seq", (OPS[i], OPS[j]) + rest))

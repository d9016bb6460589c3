"""Texts of enumerated settings: one text for each value, read back as that value, everything else refused."""
from hypothesis import strategies as st

from core import Check, Sub, Violation

MT = ["mill_3axis", "mill_4axis", "mill_4axis_horizontal", "mill_4axis_horizontal_pinola", "mill_4axis_head_gantry",
      "mill_5axis_head_head_gantry", "mill_5axis_head_table_gantry", "mill_5axis_table_table", "mill_5axis_table_tilt",
      "mill_5axis_head_table", "mill_5axis_horizontal_table_table", "mill_5axis_horizontal_table_table_pinola",
      "lathe_zx", "lathe_zxc", "lathe_zxcy", "lathe_zxcy_steady", "mill-turn_XYZBC", "mill-turn_XYZBC_steady",
      "mill-turn_XYZBC_C2", "mill-turn_XYZBC_C2_steady", "mill-turn_XYZBC_C2_Lower_Left_Turret",
      "mill-turn_XYZBC_C2_Lower_Right_Turret", "mill-turn_XYZBC_C2_Lower_LeftRight_Turret"]


def n(names, first=0):
    return [(first + i, x) for i, x in enumerate(names)]


# the values of each enumeration and the texts of the configuration
TEXTS = {
    "ECncType": n(["fanuc", "generic", "haas", "heidenhain", "makino"]),
    "EFanucParserType": n(["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "fanuc_mill",
                           "fanuc_millturn_system_a", "fanuc_millturn_system_b", "generic_lathe", "generic_mill",
                           "haas_lathe", "haas_mill", "makino_mill"]),
    "EMachineToolType": n(["mill", "lathe", "millturn"]),
    "EMachineTool": n(MT),
    "ELanguage": n(["English", "Polish"]),
    "EMotion": n(["rapid_traverse", "linear_interpolation"]),
    "EWorkPlane": n(["XY", "XZ", "YZ"], 17),
    "EDriverUnits": n(["millimeter", "inch"]),
    "EFeedMode": n(["feed_per_minute", "feed_per_revolution"], 94),
    "ERotationDirection": n(["right", "left", "stop"], 3) + n(["M03", "M04", "M05"], 3) + n(["CLW", "CCLW"], 3),
    "EProgrammingType": n(["absolute", "incremental"], 90),
    "EDepthProgrammingType": n(["absolute", "incremental"]),
    "EDrillGreturnMode": n(["beginning", "point_r"], 98),
    "UnitConversionType": n(["m2i", "i2m"]),
    "AxesRotatingOption": n(["X90", "X180", "X270", "Y90", "Y180", "Y270", "Z90", "Z180", "Z270"]),
    "WordType": n(["misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"]),
}
ALL = sorted({t for v in TEXTS.values() for _, t in v})
BLANK = st.sampled_from(["", " ", "  ", "\t", "\n"])


@st.composite
def text(draw):
    t = draw(st.sampled_from(ALL))
    k = draw(st.integers(0, 7))
    if k == 0:
        t = draw(st.sampled_from([t.upper(), t.lower(), t.capitalize(), t.swapcase()]))
    elif k == 1:
        i = draw(st.integers(0, len(t) - 1))
        t = t[:i] + t[i + 1:]
    elif k == 2:
        i = draw(st.integers(0, len(t)))
        t = t[:i] + draw(st.sampled_from("_a0X-.,")) + t[i:]
    elif k == 3:
        t = draw(st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=126), max_size=8))
    elif k == 4:
        t = t.replace("_", draw(st.sampled_from(["-", "", "__"])))
    return t


case = st.fixed_dictionaries({"enum": st.sampled_from(sorted(TEXTS)),
                              "asks": st.lists(st.one_of(st.tuples(st.integers(0, 30), BLANK, BLANK),
                                                         st.tuples(text(), BLANK, BLANK)).map(list),
                                               min_size=1, max_size=12)})


def read(ctx, enum, s):
    r = ctx.driver.request({"t": "enum", "enum": enum, "s": s})
    return r[1] if isinstance(r, list) and r[0] else None


def check(ctx, c):
    e = c["enum"]
    table = TEXTS[e]
    hit = 0
    for a, b1, b2 in c["asks"]:
        if isinstance(a, int):
            v, a = table[a % len(table)]
            if e != "WordType":
                w = ctx.driver.request({"t": "enum", "enum": e, "v": v})
                first = next(t for x, t in table if x == v)
                if w != first and not (e == "ERotationDirection" and w.split(" ")[0] == first):
                    raise Violation("%s value %d is written as %r instead of %r" % (e, v, w, first), sig="write")
                back = read(ctx, e, w)
                if back != v:
                    raise Violation("%s value %d is written as %r which is read as %s" % (e, v, w, back), sig="back")
        want = {t: v for v, t in table}.get(a)
        got = read(ctx, e, b1 + a + b2)
        if got != want:
            raise Violation("text %r of %s is read as %s instead of %s" % (b1 + a + b2, e, got, want), sig="read")
        hit += want is not None
        ctx.label("known" if want is not None else "refused")
    return hit > 0


META = dict(
    title="Each enumerated setting has one text, read back as the same value",
    statement="Each value of the enumerated settings (control, machine, machine type, language, units, planes, modes, "
              "conversions, rotations, kinds of words) is written as the text the configuration files use for it and "
              "that text, with blanks around it, is read as that value; any other text is refused and never taken for "
              "a value.",
    over=["inputs"],
    over_text="each value of sixteen enumerations; texts of this and of other enumerations, with letters changed, "
              "removed and added, other cases and random texts",
    why="The unit tests construct settings from the enumerators in C++; the texts are used only when configuration "
        "files are read.",
    files=["parser/GeneralParserDefines.cpp", "parser/Macro.h", "parser/fanuc/AllAttributesParserDefines.cpp",
           "conf/nc_settings.json"],
    mechanism=[("conversions to and from text", "to_string, to_E..."), ("stream operators", "RIGHT_STREAM_OP")],
    observe="stream operators of the exported enumerations",
    technique="round trip of values and reading of generated texts against a table",
    design="`texts` writes values and reads them back, and reads mutated texts; the oracle is a table of the texts in "
           "the documentation and the configuration files.",
    note="A rotation direction is written with an explanation behind its text, and the codes and directions of it are "
         "read too. There is no text operator for the file splitting type.")


class P35(Check):
    id = "P35"
    rule = "at least one of the texts names a value"

    def subs(self):
        return [Sub("texts", case, check, 6000, 300000)]


CHECK = P35()

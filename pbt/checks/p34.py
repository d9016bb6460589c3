"""The language chosen for messages changes the words of a message and nothing else."""
import re

from hypothesis import strategies as st

import fan
import gen
from checks.p10 import case as history, prog
from core import Check, Sub, Violation

# the messages in both languages, cut where a value is inserted
TEXTS = [
    (("Value [", "] not in range [", ", ", "] for address [", "]"),
     ("Wartość [", "] nie mieści się w zakresie [", ", ", "] dla adresu [", "]")),
    (("Value missing for parameter #",), ("Brak wartości dla parametru #",)),
    (("Value [", "] not in range [1,9] for character /"),
     ("Wartość [", "] nie mieści się w zakresie [1,9] dla znaku /")),
    (("Forbidden characters in optional block value",), ("Niedozwolone znaki w opcjonalnej wartości bloku",)),
    (("Expected integer number for address [", "]"), ("Oczekiwana liczba całkowita dla adresu [", "]")),
    (("Value missing for address [", "]"), ("Brak wartości dla adresu [", "]")),
    (("Missing decimal separator (dot) for address [", "]"),
     ("Brak separatora dziesiętnego (kropki) dla adresu [", "]")),
    (("Value after dot [", "] not in range [", ", ", "] for address [", "]"),
     ("Wartość po kropce [", "] nie mieści się w zakresie [", ", ", "] dla adresu [", "]")),
    (("Parse error at line ",), ("Błąd parsowania w linii ",)),
    (("Address T can not appear in the block together with address G",),
     ("Adres T nie może wystąpić w bloku razem z adresem G",)),
    (("Missing value for ",), ("Brak wartości dla ",)),
    (("Missing previous value for ",), ("Brak poprzedniej wartości dla ",)),
    (("Missing previous values for either R or ", " and "), ("Brak poprzedniej wartości dla R lub ", " i ")),
    (("Value ", " not set"), ("Wartość ", " nie ustawiona")),
    (("Not set values for either R or ", " and "), ("Nie ustawione wartości dla R lub ", " i ")),
    (("Not set values for either R or ", " and ", " and "), ("Nie ustawione wartości dla R lub ", " i ", " i ")),
    ((" is missing in Code Groups",), (" nie występuje w Grupie Kodów",)),
    ((" and ", " are in the same Code Group = "), (" i ", " są w tej samej Grupie Kodów = ")),
    (("Cannot split the file for number of blocks = 0",), ("Nie można podzielić pliku dla liczby bloków = 0",)),
    (("Cannot split the file for tool path length = 0",), ("Nie można podzielić pliku dla drogi narzędzia = 0",)),
    (("Cannot split the file for tool time = 0",), ("Nie można podzielić pliku dla czasu narzędzia = 0",)),
    (("Wrong #", " variable definition"), ("Błędna definicja zmiennej #",)),
    (("Value ", " [", "] higher than max allowed value "),
     ("Wartość ", " [", "] wyższa niż maksymalna dozwolona wartość ")),
    (("Value ", " [", "] out of range [", ", ", "]"), ("Wartość ", " [", "] poza zakresem [", ", ", "]")),
    (("Code ", " must be unique within a block"), ("Kod ", " musi być unikalny w obrębie bloku")),
    (("Unsupported operation: ",), ("Nieobsługiwana operacja: ",)),
    (("Unsupported binary operation: [", "]"), ("Nieobsługiwana operacja dwuargumentowa: [", "]")),
    (("Unsupported unary operation: [", "]"), ("Nieobsługiwana operacja jednoargumentowa: [", "]")),
    (("Unsupported function: [", "]"), ("Nieobsługiwana funkcja: [", "]")),
    (("Same address [", "] in block not allowed"), ("Kolejny adres [", "] niedozwolony w bloku")),
    (("Address S not allowed when Operator turns on rotation",), ("Niedozwolony adres S gdy obroty włącza Operator",)),
    (("M3/M4 not allowed when Operator turns on rotation",), ("Niedozwolony M3/M4 gdy obroty włącza Operator",)),
    (("Non matching close bracket",), ("Niedopasowany nawias zamykający",)),
]


def latin(s):
    return s.encode("utf-8").decode("latin-1")


TEXTS = [(en, tuple(latin(x) for x in pl)) for en, pl in TEXTS]
ENGLISH = [re.compile("(.*)" + "(.*?)".join(re.escape(x) for x in en) + "(.*)", re.S) for en, _ in TEXTS]
SHORT = [re.compile("([^][]{0,80}?)".join(re.escape(x) for x in en), re.S) for en, _ in TEXTS]
POLISH = [re.compile("(.*)" + "(.*?)".join(re.escape(x) for x in pl) + "(.*)", re.S) for _, pl in TEXTS]


def translations(msg):
    """Every Polish text the English one may stand for."""
    out = set()
    for (en, pl), rx in zip(TEXTS, ENGLISH):
        m = rx.fullmatch(msg)
        if m:
            g = m.groups()
            s = g[0]
            for i in range(max(len(pl), len(g) - 1)):
                s += (pl[i] if i < len(pl) else "") + (g[i + 1] if i + 1 < len(g) else "")
            out.add(s)
    # several messages in a row, one per alternative that was tried
    res, i = "", 0
    while i < len(msg):
        for (en, pl), rx in zip(TEXTS, SHORT):
            m = rx.match(msg, i)
            if m:
                g = m.groups()
                res += "".join(pl[k] + (g[k] if k < len(g) else "") for k in range(len(pl)))
                i = m.end()
                break
        else:
            res += msg[i]
            i += 1
    if res != msg:
        out.add(res)
    return out


def values(msg):
    return sorted(re.findall(r"[-+]?\d+(?:\.\d+)?", msg))


def compare(ctx, what, a, b):
    """English and Polish message of the same problem."""
    t = translations(a)
    if b in t or (not t and a == b):
        return bool(t)
    if any(r.fullmatch(b) for r in POLISH) or any(r.fullmatch(b) for r in ENGLISH) or not b or not a or \
            values(a) != values(b):
        raise Violation("%s: English %r, Polish %r" % (what, a, b.encode("latin-1").decode("utf-8", "replace")),
                        sig="message")
    return True


def outcome(x):
    return {k: v for k, v in x.items() if k != "msg"}


def check(ctx, c):
    kw = dict(g=c["g"], set_=c["set"], nc_=c["nc"], sl=c["sl"], want=["tok", "pr", "mac", "wr"])
    en = fan.run(ctx, c["ops"], lang=0, **kw)
    pl = fan.run(ctx, c["ops"], lang=1, **kw)
    hit = 0
    for o, a, b in zip(c["ops"], en, pl):
        if outcome(a) != outcome(b):
            raise Violation("%s: %s in English, %s in Polish" % (o, outcome(a), outcome(b)), sig="result")
        hit += compare(ctx, o, a.get("msg") or "", b.get("msg") or "")
    ctx.label("messages", hit)
    return hit > 0


META = dict(
    title="The language of messages changes their words and nothing else",
    statement="For every block, program, operation, control and machine, a parser that reports in Polish gives the same "
              "verdicts, words, values, paths, times and converted texts as one that reports in English, and where the "
              "one reports a problem the other reports the same problem: the translation of the message with the same "
              "values, at the same place.",
    over=["inputs", "histories", "configurations"],
    over_text="histories of public operations and motion programs on one parser for each grammar and any machine "
              "settings, played once in each language",
    why="The unit tests use one language throughout; a message that is missing or misplaced in the other table, or a "
        "stage that decides by the text of its message, shows only when both are compared on the same inputs.",
    files=["parser/fanuc/MessageText_en.cpp", "parser/fanuc/MessageText_pl.cpp", "parser/fanuc/MessageTextImpl.h",
           "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("a message is chosen by name and language and filled with the values in order", "make_message"),
               ("the language is passed to each stage", "AllAttributesParser::parse, simple_parse, split_file")],
    observe="return values, messages, words, variables, paths and times of parser_api::AllAttributesParser",
    technique="metamorphic: the same history in both languages, messages related by a bilingual table",
    design="the same generated history is played by two parsers that differ in the language only; all results must be "
           "equal and each pair of messages must be a translation of one another by a table of templates kept in the "
           "check, with the inserted values equal.",
    note="Messages that are in neither table (texts of exceptions of the standard library) must be equal. A message the "
         "table of the check does not know must at least have the same values.")


class P34(Check):
    id = "P34"
    rule = "at least one operation reports a problem whose message is translated"

    def subs(self):
        return [Sub("programs", prog, check, 4000, 300000),
                Sub("histories", history, check, 4000, 300000)]


CHECK = P34()

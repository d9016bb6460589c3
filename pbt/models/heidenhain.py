"""Reference recogniser of Heidenhain blocks."""
import re

BLANK = " \t"
OPS = ["K1X", "K1Y", "K1Z", "K2X", "K2Y", "K2Z", "K3X", "K3Y", "K3Z", "P01", "P02", "P03", "P04", "P05", "P06", "P07",
       "P1X", "P1Y"]
NUM = re.compile(r"[0-9]+")
WORD = re.compile(r"[a-zA-Z.:/]+")
NAME = re.compile(r"[a-zA-Z0-9_]*")


class Reject(Exception):
    """Arguments: position of the failure."""


class Scan:
    def __init__(self, s):
        self.s, self.p = s, 0

    def blanks(self):
        n = self.p
        while self.p < len(self.s) and self.s[self.p] in BLANK:
            self.p += 1
        return self.p - n

    def need(self, ok):
        if not ok:
            raise Reject(self.p)

    def lit(self, t):
        if self.s.startswith(t, self.p):
            self.p += len(t)
            return t
        return None

    def one(self, chars):
        if self.p < len(self.s) and self.s[self.p] in chars:
            self.p += 1
            return self.s[self.p - 1]
        return None

    def rx(self, r):
        m = r.match(self.s, self.p)
        if not m:
            return None
        self.p = m.end()
        return m.group()

    def number(self):
        v = self.rx(NUM)
        dot = self.one(".")
        return v, dot, self.rx(NUM)


def attribute(z):
    """One element at the current position (blanks skipped), or None."""
    if z.lit("CYCL"):
        z.need(z.blanks())
        w = z.lit("DEF") or z.lit("CALL")
        z.need(w)
        z.blanks()
        return ["C", "CYCL", w] + list(z.number())
    if z.lit("Q"):
        m = re.compile(r"[-+]?[0-9]+").match(z.s, z.p)
        z.need(m and abs(int(m.group())) < 2 ** 31)
        z.p = m.end()
        z.blanks()
        z.need(z.one("="))
        z.blanks()
        sign = z.one("-+")
        v, d, v2 = z.number()
        return ["Q", "Q", int(m.group()), "=", sign, v or "", d, v2]
    if z.lit(";"):
        e = z.s.find("~", z.p)
        e = len(z.s) if e < 0 else e
        v, z.p = z.s[z.p:e], e
        start = z.p
        t = z.one("~")
        if z.p != len(z.s):
            raise Reject(start)
        return [";", ";", v, t or ""]
    be = 0 if z.lit("BEGIN") else 1 if z.lit("END") else None
    if be is not None:
        z.need(z.blanks())
        z.need(z.lit("PGM"))
        z.need(z.blanks())
        name = z.rx(NAME)
        z.need(z.blanks())
        u = 0 if z.lit("MM") else 1 if z.lit("INCH") else None
        z.need(u is not None)
        if z.p < len(z.s):
            n = z.p
            while z.p < len(z.s) and z.s[z.p] in " \t\n\r\v\f":
                z.p += 1
            if z.p == n:
                raise Reject(n)
        z.need(not (z.p < len(z.s) and re.match("[a-zA-Z0-9_]", z.s[z.p])))
        return ["P", be, name, u]
    w = None
    for o in OPS:
        w = w or z.lit(o)
    w = w or z.rx(WORD) or z.one("#") or z.one("=")
    if w is None:
        if not z.one('"'):
            return None
        n = z.rx(re.compile("[a-zA-Z0-9]+"))
        z.need(n)
        z.need(z.one('"'))
        w = '"%s"' % n
    z.blanks()
    sign, name = z.one("-+"), z.one("Q")
    v, d, v2 = z.number()
    return ["G", w, sign, name, v, d, v2, z.one("~")]


def parse(s):
    """-> list of elements; raises Reject."""
    z, out = Scan(s), []
    z.blanks()
    m = NUM.match(s, z.p)
    if m and int(m.group()) < 2 ** 32:
        z.p = m.end()
        z.need(z.one(BLANK))
        out.append(["N", int(m.group())])
    n = 0
    while True:
        start = z.p
        z.blanks()
        a = attribute(z)
        if a is None:
            z.p = start
            break
        out.append(a)
        n += 1
    z.need(n)
    z.blanks()
    z.need(z.p == len(s))
    return out

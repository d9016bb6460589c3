"""Reference recogniser for Fanuc-family blocks, driven by a word table (independent of the Spirit grammar).

block   := item+ end            (blanks between items, and between the parts of a word, are insignificant)
item    := blank* ',' blank+ | word | '/' fields | assignable '=' fields | '(' text ')' | '%' end | 'O' name
fields  := [sign] ['['+] ['#'] [digits] ['.'] [digits] [']'+]      ('.' and the fraction stick to the digits)
"""

DIGITS = "0123456789"
NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
BLANK = " \t"
INT_MAX = 2147483647
ASSIGNABLE = 8
CALC = ("=", "+", "-", "*", "/")


class Reject(Exception):
    """The whole block is rejected at once (no other reading is tried)."""


class Overflow(Reject):
    pass


def stoi(s):
    v = int(s)
    if v > INT_MAX:
        raise Overflow
    return v


class Recogniser:
    def __init__(self, words, ops):
        """words: {word: [word, from, to, dec_from, dec_to, unique, type]}"""
        self.words = words
        self.assignable = {w for w, v in words.items() if v[6] == ASSIGNABLE}
        self.decimal = ({w for w, v in words.items() if v[6] != ASSIGNABLE} | set(ops)) - {"%", "O", "/"}
        self.maxlen = max(len(w) for w in self.decimal | self.assignable)

    # -- lexical helpers
    def skip(self, p):
        while p < len(self.s) and self.s[p] in BLANK:
            p += 1
        return p

    def symbol(self, table, p):
        p = self.skip(p)
        for n in range(self.maxlen, 0, -1):
            if self.s[p:p + n] in table and len(self.s[p:p + n]) == n:
                return self.s[p:p + n], p + n
        return None, p

    def run(self, p, chars):
        q = p
        while q < len(self.s) and self.s[q] in chars:
            q += 1
        return (self.s[p:q] or None), q

    def fields(self, p, brackets=True):
        s = self.s
        t = [None] * 7  # sign open macro value dot value2 close
        q = self.skip(p)
        if q < len(s) and s[q] in "+-":
            t[0], p = s[q], q + 1
        if brackets:
            t[1], p = self.run(self.skip(p), "[")
        q = self.skip(p)
        if brackets and q < len(s) and s[q] == "#":
            t[2], p = "#", q + 1
        t[3], p = self.run(self.skip(p), DIGITS)
        if p < len(s) and s[p] == ".":
            t[4], p = ".", p + 1
        t[5], p = self.run(p, DIGITS)
        t[6], p = self.run(self.skip(p), "]")
        return t, p

    # -- the limits of one word
    def limits(self, word, t):
        sign, op, macro, value, dot, value2, close = t
        st = self.st
        if op:
            st["open"] += len(op)
        g = self.words.get(word)
        if g is None:
            return True
        lo, hi, dlo, dhi = g[1:5]
        if word == "/" and macro and not st["macro"] and not st["open"]:
            return False  # the variable is the next word of an optional block
        if word == "#":
            st["macro"] = True
        elif st["macro"] and word == "=":
            st["assign"] = True
        if close:
            st["close"] += len(close)
            if st["close"] > st["open"]:
                return False
        if macro:
            if value is None:
                return False
            h = self.words.get("#")
            if int(value) > INT_MAX:
                return False
            return h is None or h[1] <= int(value) <= h[2]
        if word == "/" and not st["macro"]:
            if value is not None and not 1 <= stoi(value) <= 9:
                return False
            return not (sign or dot or value2)
        if value is not None:
            v = stoi(value)
            if sign == "-":
                v = -v
            if not lo <= v <= hi:
                return False
            if word in ("+", "-", "*", "/"):
                if st["open"] > 0:
                    if close:
                        st["open"] -= len(close)
                        st["close"] -= len(close)
                    return True
                if not (st["macro"] and st["assign"]):
                    return False
            if dhi == 0:
                return dot is None
        elif dhi == 0:
            return st["open"] > 0 or word in CALC
        if value2 is None:
            return value is not None or st["open"] > 0 or word in CALC
        if dot is None:
            return False
        return dlo <= stoi(value2) <= dhi

    # -- items; each returns (token, position) or None
    def item(self, p):
        s = self.s
        z = self.skip(p)
        if s[z:z + 1] == ",":
            b, q = self.run(z + 1, BLANK)
            if b:
                return ["C", ",", "\0"], q, True
        # word
        aw, ap = self.symbol(self.assignable, p)
        is_assign = False
        if aw is not None:
            q = self.skip(ap)
            is_assign = s[q:q + 1] == "="
        if not is_assign:
            w, q = self.symbol(self.decimal, p)
            if w is not None:
                t, q = self.fields(q)
                if self.limits(w, t):
                    return ["D", w, None] + t, q, True
        # division
        q = self.skip(p)
        if s[q:q + 1] == "/":
            if s[self.skip(q + 1):][:1] == "/":
                raise Reject
            t, e = self.fields(q + 1)
            if self.limits("/", t):
                return ["D", "/", None] + t, e, True
        if aw is not None:
            if not is_assign:
                raise Reject
            t, e = self.fields(self.skip(ap) + 1)
            if self.limits(aw, t):
                return ["D", aw, "="] + t, e, True
        if s[q:q + 1] == "/":
            t, e = self.fields(q + 1, brackets=False)
            if self.limits("/", t):
                return ["D", "/", None] + t, e, True
        if s[q:q + 1] == "(":
            e = s.find(")", q + 1)
            if e < 0:
                raise Reject
            return ["S", "(", s[q + 1:e]], e + 1, False
        if s[q:q + 1] == "%" and self.skip(q + 1) == len(s):
            return ["C", "%", "\0"], len(s), False
        if s[q:q + 1] == "O":
            n, e = self.run(q + 1, NAME)
            if not n:
                raise Reject
            e = self.skip(e)
            while e < len(s) and s[e].isascii() and s[e].isalpha():
                e += 1
            return ["S", "O", n], e, False
        return None

    def parse(self, text):
        """-> token list, or None when the block is not accepted."""
        self.s = text
        self.st = {"macro": False, "assign": False, "open": 0, "close": 0}
        out = []
        p = 0
        try:
            while True:
                r = self.item(p)
                if r is None:
                    break
                tok, p, eats = r
                out.append(tok)
                if eats:  # trailing blanks belong to the item
                    p = self.skip(p)
            if not out or self.skip(p) != len(text):
                return None
            return out
        except Reject:
            return None

    def duplicate(self, toks):
        seen = set()
        for t in toks:
            if t[0] == "D" and t[1] in self.words and self.words[t[1]][5]:
                if t[1] in seen:
                    return t[1]
                seen.add(t[1])
        return None

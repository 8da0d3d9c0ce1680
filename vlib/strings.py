"""Symbolic text: std::string and dates as values.

A text is ("S", parts); a part is a literal (python str) or a tagged term such as ("num", t): the digits of the
integer t.  Splitting, prefixes and comparisons are decided when the parts and the characters they can contain
decide them, and stay unknown otherwise."""
import string
from .events import Recorder
from .absint import K, is_k, TRUE, FALSE, tnot, base_type, sub, ZERO

TEXT = ("std::string", "std::basic_string<char>", "std::__cxx11::basic_string<char>")
DATE = ("boost::gregorian::date",)
LETTERS, DIGITS = frozenset(string.ascii_letters), frozenset(string.digits)
CHARS = {"num": DIGITS | {"-"}, "date": DIGITS, "range": LETTERS | {"-"}, "dow": LETTERS}


def cat(*xs):
    out = []
    for x in xs:
        if is_k(x) and isinstance(x[1], str):
            x = ("S", (x[1],))
        if x[0] != "S":
            x = ("S", (("text", x),))
        for p in x[1]:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
    return ("S", tuple(out))


def text(x):
    if is_k(x) and isinstance(x[1], str):
        return ("S", (x[1],) if x[1] else ())
    return x if x[0] == "S" else None


def only(x, tag):
    """the term a text consists of"""
    x = text(x)
    if x and len(x[1]) == 1 and not isinstance(x[1][0], str) and x[1][0][0] == tag:
        return x[1][0][1]
    return None


class StringEval(Recorder):
    def isobj(self, t):
        b = base_type(t)
        return False if b in TEXT + DATE else super().isobj(t)

    def chars(self, p):
        """characters an unknown part can contain; None: any"""
        return CHARS.get(p[0])

    def starts(self, x, lit):
        """does the text start with the literal? None: unknown"""
        rest = lit
        for p in x[1]:
            if not rest:
                return True
            if isinstance(p, str):
                n = min(len(p), len(rest))
                if p[:n] != rest[:n]:
                    return False
                rest = rest[n:]
            else:
                cs = self.chars(p)
                if cs is not None and rest[0] not in cs and self.nonempty(p):
                    return False
                return None
        return not rest

    def nonempty(self, p):
        return p[0] in ("num", "date", "dow", "range")

    def equals(self, x, lit):
        rest = lit
        for p in x[1]:
            if isinstance(p, str):
                if not rest.startswith(p):
                    return False
                rest = rest[len(p):]
            else:
                if not rest and self.nonempty(p):
                    return False
                cs = self.chars(p)
                if cs is not None and rest and rest[0] not in cs and self.nonempty(p):
                    return False
                return None
        return not rest

    @staticmethod
    def lower(x):
        return ("S", tuple(p.lower() if isinstance(p, str) else p for p in x[1]))

    def split(self, x, delims):
        out = [[]]
        for p in x[1]:
            if isinstance(p, str):
                word = ""
                for ch in p:
                    if ch in delims:
                        out[-1].append(word)
                        out.append([])
                        word = ""
                    else:
                        word += ch
                out[-1].append(word)
            else:
                cs = self.chars(p)
                if cs is None or cs & set(delims):
                    return None
                out[-1].append(p)
        return [("S", tuple(p for p in w if p != "")) for w in out]

    def place(self, obj):
        if obj is None:
            return None
        if obj[0] == "D":
            return obj[1:]
        if obj[0] == "F":
            return ("fld", obj[1], obj[2])
        return None

    def value(self, obj, st):
        if obj is None:
            return None
        if obj[0] == "S" or is_k(obj):
            return obj
        loc = self.place(obj)
        return self.read_al(loc, st) if loc else None

    def ev(self, e, st, fr, lv=False, stmt=False):
        if e is not None and e["k"] == "Ctor" and base_type(e["c"]) in TEXT:
            a = [x for x in e.get("a") or [] if "allocator" not in (x.get("t") or "")]
            if not a:
                return ("S", ())
            v = self.rv(super().ev(a[0], st, fr), st)
            return (text(v) or v) if len(a) == 1 or e.get("cp") else ("ap", "text", v)
        return super().ev(e, st, fr, lv, stmt)

    def model_call(self, e, name, obj, args, st, fr):
        q = e.get("q") or ""
        oc = base_type(e.get("oc") or "")
        R = [self.rv(a, st) for a in args]
        t = base_type(e.get("t") or "")
        if name == "to_string" and q.startswith("std::") and len(R) == 1:
            return ("S", (("num", R[0]),))
        if name == "to_iso_string" and len(R) == 1:
            return ("S", (("date", R[0]),))
        if name in ("stoi", "stol", "stoll") and R:
            x = only(R[0], "num")
            return x if x is not None else None
        if name in ("date_from_iso_string", "from_undelimited_string") and R:
            return only(R[0], "date")
        if e.get("op") == "+" and obj is None and t in TEXT and len(R) == 2:
            return cat(*R)
        if name in ("StartsWith", "AreEqual_i", "AreEqual") and len(R) >= 2:
            a, b = R[:2]
            if name != "StartsWith" and text(a) and not (is_k(a)) and is_k(b):
                a, b = b, a
            x = text(b)
            if is_k(a) and isinstance(a[1], str) and x:
                if name == "StartsWith":
                    r = self.starts(x, a[1])
                elif name == "AreEqual":
                    r = self.equals(x, a[1])
                else:
                    r = self.equals(self.lower(x), a[1].lower())
                if r is not None:
                    return TRUE if r else FALSE
            return None
        if name == "SplitMultiple" and len(R) == 3:
            x, d, dst = text(R[0]), R[1], args[2]
            d = text(d)
            d = d[1][0] if d and len(d[1]) == 1 and isinstance(d[1][0], str) else None
            if dst[0] == "loc":
                dst = self.loc_obj(dst[1])
            if x and d is not None:
                ws = self.split(x, d)
                size = self.read_al(("fld", dst, "size"), st)
                if ws is not None and size == ZERO:
                    for i, w in enumerate(ws):
                        st.env[("fld", dst, ("at", K(i)))] = w
                    st.env[("fld", dst, "size")] = K(len(ws))
                    return K(None)
            return None
        if oc in TEXT and obj is not None:
            x = self.value(obj, st)
            s = text(x) if x else None
            if name == "c_str" or name == "data":
                return s
            if name in ("length", "size"):
                if s and all(isinstance(p, str) for p in s[1]):
                    return K(sum(len(p) for p in s[1]))
                return ("ap", "length", s) if s else None
            if name == "substr" and s and R and is_k(R[0]):
                i = R[0][1]
                if len(R) > 1 and "npos" not in repr(R[1]):
                    n = R[1]
                    tail = sub(sub(("ap", "length", s), K(i)), n)
                    if not (tail == ZERO or is_k(n) and isinstance(n[1], int) and n[1] > 10 ** 9):
                        return None
                first = s[1][0] if s[1] else ""
                if isinstance(first, str) and len(first) >= i:
                    return ("S", tuple(p for p in (first[i:],) + s[1][1:] if p != ""))
                return None
            if e.get("op") in ("+=", "=") or name in ("append", "assign", "push_back"):
                loc = self.place(obj)
                if loc:
                    v = R[0] if e.get("op") == "=" or name == "assign" else cat(x, R[0])
                    self.write(loc, text(v) or v, st, e, fr)
                    return obj
        if oc in DATE and e.get("op") == "=" and obj is not None and R:
            loc = self.place(obj)
            if loc:
                self.write(loc, R[0], st, e, fr)
                return obj
        return None

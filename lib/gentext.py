"""Random program texts over the whole input grammar (syntax only: programs
need neither be safe nor sensible)."""
from hypothesis import strategies as st

import gensess as g

IDS = ["a", "b", "f", "p", "x1", "_y", "aB", "z'", "not_", "_'q"]
VARS = ["X", "Y", "Z1", "_V", "X'"]
NUMS = ["0", "1", "2", "17", "0x1F", "0o17", "0b101", "2147483647", "99999999"]
STRS = ['"s"', '""', '"a b"', '"\\n\\\\\\""', '"é∀"', '"%*"']
BIN = ["+", "-", "*", "/", "\\", "**", "&", "?", "^", ".."]
CMP = ["<", "<=", ">", ">=", "=", "!=", "=="]
THOPS = ["+", "-", "*", "**", "<=", "<", "&", "++", "?", "!", "-->", "@", ":-"]
FUNS = ["#sum", "#sum+", "#count", "#min", "#max"]
TREG = "#theory t { term { + : 1, binary, left; - : 3, unary; ** : 4, binary, right }; &sum/1 : term, {<=, =}, term, any; &p/0 : term, head }."


class T:
    def __init__(self, draw):
        self.draw = draw

    def n(self, hi):
        return self.draw(g.N(0, hi))

    def pick(self, xs):
        return xs[self.draw(g.N(0, len(xs) - 1))]

    def chance(self, k, n):
        return self.draw(g.N(1, n)) <= k

    def many(self, f, hi, lo=0):
        return [f() for _ in range(lo + self.n(hi - lo))]

    def term(self, d=2):
        k = self.n(11 if d else 5)
        if k <= 1:
            return self.pick(VARS) if self.chance(3, 4) else "_"
        if k == 2:
            return self.pick(NUMS)
        if k == 3:
            return self.pick(IDS)
        if k == 4:
            return self.pick(STRS + ["#inf", "#sup", "#infimum", "#supremum"])
        if k == 5:
            return self.pick(IDS) if not d else self.pick(["()", "(1,)", "-a", "-1"])
        t = lambda: self.term(d - 1)
        if k == 6:
            return f"{t()}{self.pick(BIN)}{t()}"
        if k == 7:
            return self.pick(["-%s", "~%s", "|%s|", "(%s)", "|%s;a|"]) % t()
        if k in (8, 9):
            return f"{self.pick(IDS)}({self.pool(d)})"
        if k == 10:
            return f"({self.pool(d)}{self.pick(['', ','])})" if self.chance(1, 2) else f"({t()},{t()})"
        return f"@{self.pick(IDS)}({self.pool(d)})" if self.chance(1, 3) else f"({t()}{self.pick(BIN)}{t()})"

    def pool(self, d):
        return ";".join(",".join(self.many(lambda: self.term(d - 1), 2, 0 if i else 1)) for i in range(1 + (self.n(4) == 0)))

    def atom(self, d=1):
        s = "-" if self.chance(1, 6) else ""
        if self.chance(1, 3):
            return s + self.pick(IDS)
        return f"{s}{self.pick(IDS)}({self.pool(d)})"

    def lit(self, d=1):
        s = self.pick(["", "", "", "not ", "not not "])
        k = self.n(6)
        if k == 0:
            return s + self.pick(["#true", "#false"])
        if k <= 2:
            return s + self.term(d) + "".join(f" {self.pick(CMP)} {self.term(d)}" for _ in range(1 + (self.n(3) == 0)))
        return s + self.atom(d)

    def cond(self):
        return (" : " + ", ".join(self.many(self.lit, 2))) if self.chance(1, 2) else ""

    def terms(self, hi=2, lo=0):
        return ",".join(self.many(lambda: self.term(1), hi, lo))

    def guards(self, inner):
        l, r = self.pick([("", ""), ("", ""), (f"{self.term(1)} ", ""), (f"{self.term(1)} {self.pick(CMP)} ", ""),
                          ("", f" {self.pick(CMP)} {self.term(1)}"), (f"{self.term(1)} {self.pick(CMP)} ", f" {self.pick(CMP)} {self.term(1)}"), ("", f" {self.term(1)}")])
        return l + inner + r

    def setagg(self):
        return self.guards("{" + "; ".join(f"{self.lit()}{self.cond()}" for _ in range(self.n(3))) + "}")

    def bodyagg(self):
        es = "; ".join(f"{self.terms()}{self.cond()}" for _ in range(self.n(3)))
        return self.guards(f"{self.pick(FUNS)} {{ {es} }}")

    def headagg(self):
        es = "; ".join(f"{self.terms()} : {self.lit()}{self.cond()}" for _ in range(self.n(3)))
        return self.guards(f"{self.pick(FUNS)} {{ {es} }}")

    def tterm(self, d=2):
        k = self.n(9 if d else 4)
        if k <= 1:
            return self.pick(NUMS + IDS + VARS)
        if k == 2:
            return self.pick(STRS + ["#inf", "#sup", "()", "{}", "[]"])
        if k <= 4:
            return self.pick(IDS)
        t = lambda: self.tterm(d - 1)
        if k <= 6:
            return f"{t()} {self.pick(THOPS[:9])} {t()}"
        if k == 7:
            return f"{self.pick(['-', '+', '! ', '++'])}{t()}"
        if k == 8:
            return f"{self.pick(IDS)}({', '.join(self.many(t, 2, 1))})"
        return self.pick(["(%s)", "(%s,)", "{%s}", "[%s]", "(%s,a)", "{%s,1}"]) % t()

    def theory(self):
        name = self.pick(["sum", "p", "q1"]) + (f"({self.terms(2, 1)})" if self.chance(1, 3) else "")
        if self.chance(1, 6):
            return f"&{name}"
        es = "; ".join(f"{', '.join(self.many(self.tterm, 2, 1))}{self.cond()}" for _ in range(self.n(3)))
        gd = f" {self.pick(['<=', '=', '++', '!='])} {self.tterm()}" if self.chance(1, 2) else ""
        return f"&{name} {{ {es} }}{gd}"

    def bodylit(self):
        k = self.n(9)
        if k <= 4:
            return self.lit()
        if k == 5:
            return f"{self.lit()}{self.cond()}"
        s = self.pick(["", "", "not ", "not not "])
        return s + (self.bodyagg() if k <= 7 else self.setagg() if k == 8 else self.theory())

    def body(self, always=False, sep=" :- "):
        if not always and self.chance(1, 3):
            return ""
        return sep + "".join(self.bodylit() + "; " for _ in range(self.n(2))) + self.bodylit()

    def head(self):
        k = self.n(9)
        if k <= 2:
            return self.atom()
        if k == 3:
            return self.lit()
        if k <= 5:
            return self.pick(["; ", " | "]).join(f"{self.lit()}{self.cond()}" for _ in range(1 + self.n(2)))
        if k == 6:
            return self.setagg()
        return self.headagg() if k == 7 else self.theory() if k == 8 else ""

    def sig(self):
        return f"{self.pick(['', '', '-'])}{self.pick(IDS)}/{self.n(3)}"

    def tuple_(self):
        return self.term(1) + (f"@{self.term(1)}" if self.chance(1, 2) else "") + "".join("," + self.term(1) for _ in range(self.n(2)))

    def theorydef(self):
        def ops(k):
            return "; ".join(f"{o} : {self.n(5)}, {self.pick(['unary', 'binary, left', 'binary, right'])}" for o in self.pick([["+"], ["-", "*"], ["**", "+", "?"], []])[:k])
        terms = [f"{t} {{ {ops(3)} }}" for t in ["ta", "tb"][: self.n(2)]]
        atoms = []
        for i in range(self.n(2)):
            gd = f"{{{', '.join(self.pick([['<='], ['=', '!='], ['++', '-->', '<']]))}}}, ta, " if self.chance(1, 2) else ""
            atoms.append(f"&{self.pick(IDS[:4])}{i}/{self.n(2)} : tb, {gd}{self.pick(['any', 'head', 'body', 'directive'])}")
        return f"#theory {self.pick(IDS[:5])} {{ {'; '.join(terms + atoms)} }}."

    def stm(self):
        k = self.n(24)
        if k <= 9:
            h = self.head()
            b = self.body(always=not h)
            return f"{h}{b}." if h or b else "a."
        if k == 10:
            return f"#const {self.pick(IDS[:6])} = {self.term(1)}.{self.pick(['', ' [default]', ' [override]'])}"
        if k == 11:
            return self.pick(["#show.", f"#show {self.sig()}."])
        if k == 12:
            return f"#show {self.term(2)}{self.body(sep=' : ')}."
        if k == 13:
            es = "; ".join(f"{self.tuple_()}{self.cond()}" for _ in range(self.n(2)))
            return f"#{self.pick(['minimize', 'maximize'])} {{ {es} }}."
        if k == 14:
            return f":~ {self.body(True, '')}. [{self.tuple_()}]"
        if k == 15:
            return self.pick([f"#program {self.pick(IDS[:6])}.", f"#program {self.pick(IDS[:6])}(k,l).", "#program base."])
        if k == 16:
            return f"#external {self.atom()}{self.body(sep=' : ')}.{self.pick(['', '', ' [true]', ' [free]', f' [{self.term(0)}]'])}"
        if k == 17:
            es = "; ".join(f"{self.term(1)},{self.term(1)}" for _ in range(1 + (self.n(3) == 0)))
            return f"#edge ({es}){self.body(sep=' : ')}."
        if k == 18:
            return f"#heuristic {self.atom()}{self.body(sep=' : ')}. [{self.term(1)}{self.pick(['', '@' + self.term(0)])},{self.pick(['sign', 'true', 'level', self.term(0)])}]"
        if k == 19:
            return f"#project {self.sig()}."
        if k == 20:
            return f"#project {self.atom()}{self.body(sep=' : ')}."
        if k == 21:
            return f"#defined {self.sig()}."
        if k == 22:
            return self.theorydef()
        if k == 23:
            return self.pick(["% comment", "%* block\n comment *%", "#script (none) code \" %\n#end.", "%*! doc *%"]) + "\n"
        return f"{self.theory()}{self.body()}."

    def program(self, hi=3):
        return "\n".join(self.many(self.stm, hi, 1))


@st.composite
def program(draw, hi=3):
    return T(draw).program(hi)


@st.composite
def statement(draw):
    return T(draw).stm()

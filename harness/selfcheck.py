"""Checks of the engine itself: every path is replayed on plain Python and the observed values must agree."""
import functools
import re

ALPHA = "aB \n,'_0"


def strings(ctx, case):
    n = case
    s = ctx.body(n, ALPHA)
    ctx.observe("lower", s.lower())
    ctx.observe("upper", s.upper())
    ctx.observe("strip", [s.strip(), s.lstrip(" "), s.rstrip("\n ")])
    ctx.observe("split", s.split(" "))
    ctx.observe("lines", s.splitlines())
    ctx.observe("find", [s.find(","), s.find("a,"), s.rfind("'")])
    ctx.observe("replace", s.replace("\n", "\n "))
    ctx.observe("part", list(s.partition(",")) + list(s.rpartition("'")))
    ctx.observe("starts", [s.startswith(("a", "'")), s.endswith("\n")])
    ctx.observe("f", f"<{s}|{s!r}>" + "%s." % s + "{}".format(s))
    ctx.observe("slices", [s[1:], s[:-1], s[::-1], s[0:1], s[-1:]])


def classes(ctx, case):
    s = ctx.body(case, "a1_ .Z")
    ctx.observe("is", [s.isdigit(), s.isalnum(), s.isspace(), s.isalpha(), s.isidentifier(), s.isupper(), s.islower()])
    ctx.observe("cmp", [s == "a1"[:case], s in ("a", "a1", "1_a"), "a" in s, s != ".", len(s)])
    ctx.observe("count", s.count("a") + s.count("."))
    ctx.observe("loop", [c for c in s if c != " "])
    ctx.observe("any", [any(c == "." for c in s), all(c in "a1" for c in s)])
    ctx.observe("join", "-".join(c.upper() for c in s))


def words(ctx, case):
    a, b = ctx.word(1, 5), ctx.word(2, 4)
    t = a + "." + b
    ctx.observe("eq", [a == b, a.lower() == b.lower(), t == "ab.cd", a.upper() == a, a in ("xy", b)])
    ctx.observe("len", [len(a), len(t) > 7, len(t) < 4 or len(a) == 3])
    ctx.observe("split", t.split("."))
    ctx.observe("upper", [t.upper(), t.lower(), t.title() if case else ""])
    d = {a: 1}
    d[b] = 2
    ctx.observe("dict", [d[a], len(d), b in d, d.get("xy", 0)])
    ctx.observe("set", len({a, b, "xy"}))
    ctx.observe("fmt", f"{a:>3}|{t}" if case == 2 else f"{a}|{t}")
    if t.startswith("select"):
        ctx.observe("never", 1)


def numbers(ctx, case):
    n, i = ctx.num(0, 120), ctx.int(-5, 5)
    v = int(n)
    ctx.observe("n", [v > i, v + i == 7, v * 2 - 1, abs(i), -i, min(v, 3), n.isdigit(), len(n), str(i), f"{i}"])
    ctx.observe("f", [float(n + ".5") > 3, i // 2, i % 3, n == "12", n + "1" == "121"])
    for k in range(3):
        if v == k:
            break
    else:
        k = -1
    ctx.observe("k", k)
    ctx.observe("c", [i > 1.5, i <= 2.0, i == 2.5, (i == 1) * 2, (i > 0) - 1])


class Node:
    def __init__(self, x, kids=()):
        self.x = x
        self.kids = list(kids)

    def __eq__(self, o):
        return type(self) is type(o) and self.x == o.x and self.kids == o.kids

    def __str__(self):
        return str(self.x) + "".join(map(str, self.kids))


def language(ctx, case):
    """Statements a refactoring might use."""
    s, t = ctx.body(2, "ab("), ctx.word(1, 3)
    match s:
        case "ab" | "ba":
            k = 1
        case "((":
            k = 2
        case str() if s[0] == "(":
            k = 3
        case _:
            k = 0
    ctx.observe("match", k)
    m = {"a": "x", "(": "y"}.get(s[0], "z")
    ctx.observe("get", m)
    ctx.observe("lambda", list(map(lambda c: c + "!", filter(lambda c: c != "b", s))))
    ctx.observe("sorted", sorted([s[0] == "a", s[1] == "a"]))
    ctx.observe("reduce", functools.reduce(lambda x, y: y + x, s, ""))
    if (first := s[0]) == "a" and isinstance(first, str):
        ctx.observe("walrus", first)
    x, *rest = list(s)
    ctx.observe("star", [x, rest])
    ctx.observe("zip", [i for i, (p, q) in enumerate(zip(s, "ab")) if p == q])
    ctx.observe("node", [Node(s) == Node("ab"), str(Node(t, [Node(s), Node(1)]))])
    ctx.observe("comp", {c: i for i, c in enumerate("ab") if c in s})
    ctx.observe("iter", next((c for c in s if c == "("), None))
    ctx.observe("re", bool(re.match(r"[a(]+$", s)))
    try:
        ctx.observe("index", s.index("("))
    except ValueError:
        ctx.observe("index", "none")
    out = []
    i = 0
    while i < len(s):
        if s[i] == "(":
            i += 1
            continue
        out.append(s[i])
        i += 1
    ctx.observe("while", out)
    st = [1 if c == "(" else 0 for c in s]
    ctx.observe("sum", sum(st) if st else None)
    ctx.observe("chain", "a" <= s[0] <= "b")


CASES = (
    [("selfcheck:strings", n) for n in (1, 2, 3)]
    + [("selfcheck:classes", n) for n in (1, 2, 3)]
    + [("selfcheck:words", n) for n in (0, 1)]
    + [("selfcheck:numbers", 0), ("selfcheck:language", 0)]
)

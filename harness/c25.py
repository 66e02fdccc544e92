"""C25: each defect of a statement is reported, whatever else is wrong with it."""
import sqlvalidator

from harness.common import *

# place -> what stands there when nothing is wrong, and defects with what their report names
# @ is a name nothing exports, # an integer from 4 on, ^ one from 1 on
SLOTS = [
    ("item", "va", [("@", "@"), ("vd.@", "@"), ("f(1, @)", "@"), ("case when true then @ end", "@"), ("va + @ * 2", "@"), ("case when 1 and vc then 2 end", "AND"), ("(select va from (select 1 vz) where vz)", "WHERE"), ("sum(@) over (partition by 1)", "@"), ("(select 1 limit -^)", "LIMIT")]),
    ("item2", "vb", [("@ as vy", "@"), ("cast(@ as int64)", "@"), ("sum(1) filter (where @ = 1)", "@"), ("@.vx", "@"), ("array_agg(@ order by 1)", "@"), ("[1, @]", "@")]),
    ("from", "(select 1 va, 'x' vb, true vc from vt) vd", [
        ("(select 1 va, 'x' vb, true vc from vt limit -^) vd", "LIMIT"), ("(select 1 va, 'x' vb, true vc from (select 2 vq) where @ = 3) vd", "@"), ("(select 1 va, 'x' vb, true vc from vt where 5) vd", "WHERE"),
        ("(select 1 va, 'x' vb, true vc from vt join vu) vd", "ON or USING"), ("(select 1 va, 'x' vb, true vc from vt group by #) vd", "#"),
    ]),
    ("join", "cross join (select 5 ve) vf", [("join (select 5 ve) vf", "ON or USING"), ("left join (select 5 ve from vt order by #) vf using (vg)", "#"), ("cross join (select 5 ve offset 1.5) vf", "OFFSET"), ("join (select 5 ve from vt having 'x') vf on ve = va", "HAVING")]),
    ("where", "vc", [("va", "AND"), ("@", "@"), ("2", "AND"), ("@ is null", "@"), ("va in (1, @)", "@"), ("not @", "@")]),
    ("where2", "va = 1", [("vb", "AND"), ("va between @ and 3", "@"), ("(1 or vc)", "OR"), ("exists(select 1 from (select 2 vk) where @ = 3)", "@"), ("vd.@ like 'x'", "@")]),
    ("group", "va", [("#", "#"), ("0", "0"), ("@", "@"), ("f(@)", "@"), ("-^", "-^")]),
    ("group2", "vb", [("@", "@"), ("#", "#"), ("(@)", "@")]),
    ("having", "vc", [("va", "HAVING"), ("@ > 1", "@"), ("sum(@) > 2", "@"), ("null", "HAVING")]),
    ("order", "va", [("#", "#"), ("-^", "-^"), ("@ desc", "@")]),
    ("order2", "vb desc", [("@ asc", "@"), ("#", "#"), ("f(@) desc", "@")]),
    ("limit", "^", [("-^", "LIMIT"), ("^.5", "LIMIT"), ("va", "LIMIT")]),
    ("offset", "^", [("-^", "OFFSET"), ("'x'", "OFFSET"), ("null", "OFFSET")]),
    ("right", "select 1", [("select vh from (select 2 vg)", "vh"), ("select 1 limit -1", "LIMIT"), ("select 1 where 1", "WHERE"), ("select 1 from vt group by 2", "2"), ("select 1 from va join vb", "ON or USING")]),
]
NAMES = [s for s, _, _ in SLOTS]
SHAPES = [
    "select ~item~, ~item2~ from ~from~ ~join~ where ~where~ and ~where2~ group by ~group~, ~group2~ having ~having~ order by ~order~, ~order2~ limit ~limit~ offset ~offset~ union all ~right~",
    "select va from (select ~item~ va, ~item2~ vs from ~from~ ~join~ where ~where~ and ~where2~ group by ~group~, ~group2~ having ~having~ order by ~order~, ~order2~ limit ~limit~ offset ~offset~) vx where va in (~right~)",
    "with vx as (~right~), vz as (select ~item~, ~item2~ from ~from~ ~join~ where ~where~ and ~where2~ group by ~group~, ~group2~) select 1 from vz having ~having1~ order by 1 limit ~limit~ offset ~offset~",
    "select ~item~, ~item2~, (~right~) from ~from~ ~join~ where ~where~ and (~where2~) order by ~order~, ~order2~ limit ~limit~",
    "~right~ union distinct select ~item~, f((~item2~)) from (~from~ ~join~) where ~where~ and ~where2~ and 1 = 1 group by rollup (~group~, ~group2~) order by ~order2~",
]


def errors(ctx, sql):
    query = sqlvalidator.parse(sql)
    try:
        valid = query.is_valid()
    except Exception as e:
        ctx.fail(["validation raised", type(e).__name__, sql])
    ctx.require(valid == (len(query.errors) == 0), ["valid with errors, or invalid without", sql])
    return list(query.errors)


def mentions(error, what):
    """Whether the error has the text, or the name or number, in it."""
    cs = cells(what)
    if char(cs[0]):
        return what in error
    for c in cells(error):
        if atom(c) == atom(what) and c == what:
            return True
    return False


def build(shape, texts):
    out = ""
    for i, p in enumerate(shape.split("~")):
        out = out + (p if i % 2 == 0 else texts.get(p, "true"))
    return out


def h(ctx, case):
    """case: shape, and the defective places with their defect (None: any of them)."""
    shape, chosen = case
    texts = {}
    named = {}
    bad = {}
    used = []
    for slot, good, defects in SLOTS:
        texts[slot] = good.replace("^", "3")
        for s, k in chosen:
            if s == slot:
                text, names = defects[k] if k is not None else ctx.pick(defects)
                if "@" in text:
                    w = ctx.word(3, 9, "same")
                    for u in used:
                        ctx.assume(w != u)
                    used.append(w)
                    text, names = text.replace("@", w), w if names == "@" else names
                if "#" in text:
                    d = ctx.num(4, 10**6)
                    text, names = text.replace("#", d), d if names == "#" else names
                if "^" in text:
                    d = ctx.num(1, 10**6)
                    text, names = text.replace("^", d), d if names == "-^" else names
                bad[slot] = text
                named[slot] = names
    shape = SHAPES[shape]
    clean = errors(ctx, build(shape, texts))
    ctx.require(clean == [], ["reported though nothing is wrong", build(shape, texts), clean])
    alone = []
    for slot, _, _ in SLOTS:
        if slot in bad and "~" + slot + "~" in shape:
            t = dict(texts)
            t[slot] = bad[slot]
            e = errors(ctx, build(shape, t))
            ctx.require(len(e) == 1, ["one defect, so many errors", build(shape, t), e])
            ctx.require(mentions(e[0], named[slot]), ["the error does not name what is wrong", build(shape, t), e, named[slot]])
            alone += e
    t = dict(texts)
    t.update(bad)
    sql = build(shape, t)
    together = errors(ctx, sql)
    ctx.observe("errors", together)
    rest = list(together)
    for e in alone:
        found = False
        for i, r in enumerate(rest):
            if r == e:
                del rest[i]
                found = True
                break
        ctx.require(found, ["not reported together with others", sql, e, together])
    ctx.require(rest == [], ["reported only together with others", sql, rest])


def cases(quick):
    out = []
    n = len(SLOTS)
    for shape, text in enumerate(SHAPES):
        slots = [s for s in SLOTS if "~" + s[0] + "~" in text]
        for slot, _, defects in slots:
            out.append([shape, [[slot, None]]])
        for i, a in enumerate(slots):
            for j, b in enumerate(slots[i + 1 :]):
                for k in range(len(a[2])):
                    if not quick or (i + j + k + shape) % 2 == 0:
                        out.append([shape, [[a[0], k], [b[0], None]]])
        for k in range(9):
            out.append([shape, [[s[0], k % len(s[2])] for s in slots]])
            out.append([shape, [[s[0], (k + 3 * i) % len(s[2])] for i, s in enumerate(slots) if (i + k) % 3]])
    return out

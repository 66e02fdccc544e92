"""C10: columns are resolved against the derived tables in scope."""
import sqlvalidator

from harness.common import *


def name(ctx):
    return ctx.word(1, 9, "same")


def export(ctx, w, k=None):
    """An item of a SELECT list which exports w."""
    k = ctx.choose(6) if k is None else k
    if k == 0:
        return w
    if k == 1:
        return name(ctx) + "." + w
    if k == 2:
        return name(ctx) + " as " + w
    if k == 3:
        return "f(" + name(ctx) + ") " + w
    if k == 4:
        return "`" + w + "`"
    return "case when zz = 1 then 2 end as `" + w + "`"


def derived(ctx, ws, kind=None, few=False):
    """A sub-SELECT which exports the names ws."""
    kind = ctx.choose(8) if kind is None else kind
    items = ", ".join(export(ctx, w, (None if i == 0 and not few else i)) for i, w in enumerate(ws))
    if kind == 0:
        return "(select " + items + " from zt)"
    if kind == 1:
        return "(select * from (select " + items + " from zt))"
    if kind == 2:
        return "(select * from (select " + items + " from zt) as zi)"
    if kind == 3:
        return "(select zi.* from (select " + items + " from zt) zi)"
    if kind == 4:
        return "(select " + items + " from zt union all select " + name(ctx) + " from zu)"
    if kind == 5:
        return "(with zc as (select " + name(ctx) + " from zt) select " + items + " from zc)"
    if kind == 6:
        return "((select " + items + " from zt))"
    return "(select distinct " + items + " from zt where za = 1 group by zb order by zc limit 1)"


def scope(ctx, case):
    """Text of FROM, the sources (alias or None, names or None if unknown) and whether unqualified
    and unknown qualified names may be columns of a table which is not derived."""
    a = name(ctx)
    b = name(ctx)
    if case == "none":
        return "", [], False, False
    if case == "table":
        return " from zt", [(None, None)], True, True
    if case == "tablealias":
        return " from zt as zx", [(None, None)], True, True
    if case == "plain":
        return " from " + derived(ctx, [a]), [(None, [a])], False, False
    if case == "plain2":
        ctx.assume(a != b)
        return " from " + derived(ctx, [a, b], 0), [(None, [a, b])], False, False
    x = name(ctx)
    if case == "alias":
        return " from " + derived(ctx, [a]) + ctx.pick([" ", " as "]) + x, [(x, [a])], False, False
    if case == "alias2":
        ctx.assume(a != b)
        return " from " + derived(ctx, [a, b], ctx.pick([0, 2])) + " as `" + x + "`", [(x, [a, b])], False, False
    y = name(ctx)
    if case == "join":
        ctx.assume(x != y)
        c = name(ctx)
        ctx.assume(b != c)
        j = ctx.pick([" join @ on zp = zq", ", @", " cross join @", " left outer join @ using (zk)"])
        return (
            " from " + derived(ctx, [a], 0, 1) + " " + x + j.replace("@", derived(ctx, [b, c], 0, 1) + " as " + y),
            [(x, [a]), (y, [b, c])],
            False,
            False,
        )
    if case == "join3":
        ctx.assume(x != y)
        z = name(ctx)
        c = name(ctx)
        ctx.assume(x != z and y != z)
        d = [derived(ctx, [w], 0, 1) + " " + q for w, q in ((a, x), (b, y), (c, z))]
        t = ctx.pick(["@1 join @2 using (zk) join @3 on zp", "@1, @2, @3", "@1 cross join @2 left join @3 using (zk, zl)", "(@1 join @2 on zp = 1) join @3 on zq"])
        return " from " + t.replace("@1", d[0]).replace("@2", d[1]).replace("@3", d[2]), [(x, [a]), (y, [b]), (z, [c])], False, False
    if case == "jointable":
        k = ctx.choose(3)
        j = ctx.pick([" join @ on zp = zq", ", @", " cross join @"])
        if k == 0:
            return " from zt" + j.replace("@", derived(ctx, [a], 0) + " " + x), [(x, [a]), (None, None)], True, True
        if k == 1:
            ctx.assume(x != y)
            return " from " + derived(ctx, [a], 0) + " " + x + j.replace("@", "zt as " + y), [(x, [a]), (y, None)], True, True
        return " from " + derived(ctx, [a], 0) + " " + x + j.replace("@", "unnest(zv) as zw"), [(x, [a]), (None, None)], True, True
    if case == "joinalias":
        # the alias of a join in parentheses hides the ones inside of it
        ctx.assume(x != y and a != b)
        z = name(ctx)
        j = ctx.pick([" join @ using (zk)", " cross join @"])
        return (
            " from (" + derived(ctx, [a], 0, 1) + " " + x + j.replace("@", derived(ctx, [b], 0, 1) + " " + y) + ") as " + z,
            [(z, [a, b])],
            False,
            False,
        )
    raise ValueError(case)


def known(sources, anyname, anyqual, q, w):
    """Whether the reference q.w (or w) is accepted."""
    if q is None:
        if anyname:
            return True
        n = 0
        for alias, names in sources:
            if w in names:
                n += 1
        return n == 1
    if anyqual:
        return True
    for alias, names in sources:
        if alias is not None and alias == q and (names is None or w in names):
            return True
        # a field of a column
        if names is not None and q in names and known(sources, anyname, anyqual, None, q):
            return True
    return False


# @ stands for the reference, # for FROM
PLACES = [
    "select @#", "select 1, @#", "select @ as zv, 2#", "select f(1, @)#", "select f(g(@), 1) zv#", "select (@)#", "select ((@), 1)#", "select distinct @#", "select 1# where @", "select 1# where @ = 1",
    "select 1# where 1 < @", "select 1# where 1 = 1 and @ = 2", "select 1# where @ or 1 = 1", "select 1# where (1 = 1 or @ = 2) and true", "select 1# where @ in (1, 2)", "select 1# where 1 in (2, @)",
    "select 1# where 1 not in (@)", "select 1# where @ between 1 and 2", "select 1# where 1 between @ and 2", "select 1# where 1 not between 0 and @", "select 1# where @ is null", "select 1# where 'x' not like @", "select 1# where not @",
    "select 1# where not (1 = 1 and @)", "select case when @ then 1 end#", "select case @ when 1 then 2 else 3 end#", "select case when true then 1 when 1 = 2 then @ end zv#", "select case 1 when @ then 3 else 4 end#",
    "select case when true then 1 else @ end#", "select @ + 1#", "select 1 * @ - 2#", "select - @#", "select @ || 'x'#", "select 1 & @#", "select [1, @]#", "select @[1]#", "select f(1)[@]#", "select cast(@ as date)#", "select count(distinct @)#",
    "select count(1, @)#", "select array_agg(@ ignore nulls)#", "select sum(1) filter (where @)#", "select sum(@) over ()#", "select sum(1) over (partition by @)#", "select sum(1) over (partition by 1, @ order by 2)#",
    "select sum(1) over (order by f(@) desc)#", "select sum(1) over (partition by 1 order by 2, @)#", "select sum(1) filter (where true) over (partition by 1 order by @ rows unbounded preceding)#", "select extract(day from @)#", "select 1# group by @", "select 1# group by 1, @", "select 1# group by f(@), 1", "select 1# group by rollup (1, @)", "select 1# group by (@)", "select 1# having @ > 1", "select 1# group by 1 having sum(@) = 1 and true",
    "select 1# order by @", "select 1# order by @ desc nulls last, 1", "select 1# order by 1, (@)", "select 1# order by f(@) asc", "select date_trunc(@, month)#", "select 1# where @ = current_date", "select net.host(@)#",
]
# places where names of the SELECT list are known, too
ALIASED = ["select 1 as ^# group by @", "select 1 as ^, 2# group by 2, @", "select 1 ^# order by @", "select 1 ^, 2# order by 2, @ desc"]


def h(ctx, case):
    sc, place = case
    frm, sources, anyname, anyqual = scope(ctx, sc)
    w = name(ctx)
    q = None
    ref = w
    k = ctx.choose(2 if "net." in place else 3)
    if k:
        q = name(ctx)
        ref = q + "." + w
    if k == 2:
        ref = "`" + q + "`.`" + w + "`"
    v = None
    if "^" in place:
        v = name(ctx)
        place = place.replace("^", v)
    ok = known(sources, anyname, anyqual, q, w) or (v is not None and q is None and v == w)
    verdict(ctx, place.replace("@", ref).replace("#", frm), ok)


def around(ctx, case):
    """The same somewhere in another statement."""
    sc, place, text = case
    if sc in ("one", "oneas"):
        a = name(ctx)
        x = name(ctx) if sc == "oneas" else None
        frm, sources, anyname, anyqual = " from (select " + a + " from zt)" + (" " + x if x else ""), [(x, [a])], False, False
    else:
        frm, sources, anyname, anyqual = scope(ctx, sc)
    w = ctx.word(3, 9, "same")
    q = None
    ref = w
    if ctx.choose(2):
        q = ctx.word(3, 9, "same")
        ref = q + "." + w
    ok = known(sources, anyname, anyqual, q, w)
    verdict(ctx, text.replace("^", place.replace("@", ref).replace("#", frm)), ok)


# no columns of the statement around are in scope in the inner one
AROUND = [
    "select 1 from (^)", "select 1 from (^) zy", "select zx as zy from (^) as zy where zx is null", "select 1 from zu join (^) zy using (zx)", "select 1 from zu as zv, (^) as zy", "select 1 from (zu cross join (^) zy)", "select 1 from ((^)) as zy",
    "with zz as (^) select 1", "with zz as (select 1), zy as (^) select zx from zz where zx", "with zz as (select 1) ^", "select 1 union all ^", "^ union all select 1", "^ except distinct select 1 from zt", "select 1 where 1 in (^)", "select 1 where exists (^)",
    "select (^) as zx", "select f(1, (^))", "select 1 from (select 1 from (select 1 from (^) zw) as zv) zu", "select case when (^) = 1 then 2 end", "select 1 from (^ union all select 2) zy", "select 1 having 1 < (^)", "select array_agg((^) order by 1)",
]
INSIDE = ["select @ zx, 1#", "select @ as zx#", "select 1 zx# where @ = 1", "select 1 as zx# group by @", "select 1 zx# having f(@)", "select 2 as zx# order by @ desc"]


def cases_around(quick):
    out = []
    for sc in ("one", "oneas") if quick else ("one", "oneas", "none", "table", "plain", "plain2", "alias", "alias2", "join", "joinalias", "jointable"):
        for i, p in enumerate(INSIDE):
            for j, a in enumerate(AROUND):
                out.append([sc, p, a])
    return out


def verdict(ctx, sql, ok):
    other = getattr(ctx, "on_verdict", None)
    if other is not None:
        return other(ctx, sql)
    query = sqlvalidator.parse(sql)
    try:
        valid = query.is_valid()
    except RecursionError:
        ctx.fail(["validation recurses endlessly", sql])
    except Exception as e:
        ctx.fail(["validation raised", type(e).__name__, sql])
    ctx.observe("errors", query.errors)
    if ok:
        ctx.require(valid, ["reported though it is valid", sql, query.errors])
    else:
        ctx.require(not valid, ["not reported", sql])


def nested(ctx, case):
    """A subquery sees the columns of the queries around it, its own ones first."""
    inner, place = case
    a = name(ctx)
    x = name(ctx)
    w = name(ctx)
    outer = " from (select " + a + " from zt)" + ctx.pick([" ", " as "]) + x
    i = name(ctx)
    y = name(ctx)
    known1 = [a]
    if inner == "plain":
        frm, known1 = " from (select " + i + " from zu)", [a, i]
        quals = [(x, a)]
    elif inner == "alias":
        ctx.assume(x != y)
        frm, known1 = " from (select " + i + " from zu) as " + y, [a, i]
        quals = [(x, a), (y, i)]
    else:
        frm, known1, quals = " from zu", None, None
    k = ctx.choose(2)
    if k == 0:
        ref = w
        ok = known1 is None or w in known1
    else:
        q = name(ctx)
        ref = q + "." + w
        ok = known1 is None or any(q == qa and w == qb for qa, qb in quals) or q in known1
    t = place.replace("@", ref).replace("#", frm).replace("~", outer)
    verdict(ctx, t, ok)


NESTED = ["select 1~ where 2 in (select @#)", "select 1, (select @#) as zv~", "select 1~ where exists(select 1# where @ = 1)", "select 1~ where 2 in (select 3# group by 1 having @ > 1)",
          "select f((select 1# where f(@)))~", "select 1~ order by (select @#)", "select case when 1 = (select @#) then 1 end~"]
SCOPES = ["none", "table", "tablealias", "plain", "plain2", "alias", "alias2", "join", "join3", "jointable", "joinalias"]
FEW = [0, 3, 9, 11, 15, 23, 24, 29, 40, 42, 47, 48, 49, 52, 54, 55, 57]


def cases(quick):
    out = []
    for sc in SCOPES:
        ps = PLACES if sc in ("plain", "alias2") or not quick else [PLACES[i] for i in FEW]
        out += [[sc, p] for p in ps + ALIASED]
    return out


def cases_nested(quick):
    return [[i, p] for i in ("plain", "alias", "table") for p in NESTED]

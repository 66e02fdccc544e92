"""C02: formatting a formatted statement changes nothing."""
from harness import gen
from harness.common import *


def h(ctx, case):
    sql = gen.render(gen.make(ctx, case))
    out = fmt(ctx, sql)
    ctx.observe("formatted", out)
    again = fmt(ctx, out)
    ctx.require(again == out, ["formatting again changes the text", sql, out, again])

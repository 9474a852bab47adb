"""Shared by C12, C13 and C20: walking an operator's operands, evaluator functions, visitor tables."""
from ..engine import Rule
from ..patterns import table

OPS = {"eval_not": "not", "eval_and": "and", "eval_or": "or", "eval_comma": "comma"}


def evaluators(m):
    """Functions that evaluate an expression node: bool (const struct bfs_expr *, struct bfs_eval *), called through eval_fn."""
    key = m.field("bfs_expr", "eval_fn")
    out = set()
    sites = []
    for f in m.defined.values():
        for i in m.calls(f):
            c = i.callee
            if c[0] == "i" and f.instrs[c[1]].op == "load" and m.ptrkey(f, f.instrs[c[1]].ops[0]) == key:
                sites.append(i)
                out |= m.callees(i)
    return {n for n in out if n in m.defined}, sites


def visitors(m):
    """name -> {enter, visit, leave, table: {eval fn: visitor fn}}"""
    out = {}
    for g in m.globals:
        if m.globals[g]["type"] != "struct.visitor":
            continue
        rows = table(m, g, "visitor")
        if not rows:
            continue
        r = rows[0]
        d = {}
        for k in ("enter", "visit", "leave"):
            v = r.get(k, ("null",))
            d[k] = v[1] if v[0] == "f" else None
        t = r.get("table", ("null",))
        d["table"] = {}
        if t[0] == "g":
            for row in table(m, t[1], "visitor_table"):
                e, v = row.get("eval_fn", ("null",)), row.get("visit", ("null",))
                if e[0] == "f" and v[0] == "f":
                    d["table"].setdefault(e[1], v[1])
        out[g] = d
    return out


class Walk(Rule):
    """Tracks the operand list of one parent expression. prop = (cur, ...); cur: token of the operand in hand, 'start' or 'end'."""

    def __init__(self, m):
        self.m = m
        self.k_head = m.field("bfs_expr", "children.head")
        self.k_next = m.field("bfs_expr", "next")
        self.expr = None

    def where(self, eng, st, i, ctx):
        """('head',), ('next', token), ('cell', token, off) for a load; None otherwise."""
        p = eng.addr(st, eng.val(st, i.fn, ctx, i.ops[0]))
        if p is None or p[0][0] != "t":
            return None
        tok, off = p[0][1], p[1]
        if tok == self.expr and off == self.k_head[1]:
            return ("head",)
        if off == self.k_next[1] and i.ty == "ptr":
            return ("next", tok)
        return ("cell", tok, off)


def callback_callers(m):
    """Functions that call the traversal's callback for a given visit, and the helpers through which they do so."""
    kcb = m.field("bftw_state", "callback")
    entries, helpers = set(), set()
    work = []
    for g in m.defined.values():
        for i in g.instrs.values():
            if i.op == "call" and i.callee[0] == "i":
                d = g.instrs[i.callee[1]]
                if d.op == "load" and m.ptrkey(g, d.ops[0]) == kcb:
                    work.append(g.name)
    while work:
        n = work.pop()
        if n in entries | helpers:
            continue
        up = {c.fn.name for c in m.callsites.get(n, [])}
        if "i32" in m.defined[n].ptypes or not up:
            entries.add(n)
        else:
            helpers.add(n)
            work += up
    return entries, helpers

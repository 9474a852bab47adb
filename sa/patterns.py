"""Structural patterns shared by several rules: must-call summaries, natural loops, field accesses."""
from .util import dominators


def must_call(m, targets, limit=None):
    """Functions that call one of `targets` on every path from entry to return (least fixpoint from below)."""
    must = set(targets)
    ch = True
    while ch:
        ch = False
        for f in m.defined.values():
            if f.name in must:
                continue
            hit = {i.blk for i in m.calls(f) if m.callees(i) and m.callees(i) <= must}
            if hit and not path_avoiding(f, 0, hit):
                must.add(f.name)
                ch = True
    return must


def path_avoiding(f, start, hit, goal=None):
    """Is there a CFG path from start to a return (or goal block) that avoids the blocks in `hit`?"""
    if start in hit:
        return False
    seen = {start}
    work = [start]
    while work:
        b = work.pop()
        t = f.blocks[b][-1]
        if goal is None:
            if t.op == "ret":
                return True
        elif b in goal and b != start:
            return True
        for s in f.succ[b]:
            if goal is not None and s in goal:
                return True
            if s not in seen and s not in hit:
                seen.add(s)
                work.append(s)
    return False


def loops(f):
    """Natural loops: header -> set of blocks."""
    if hasattr(f, "_loops"):
        return f._loops
    dom = dominators(f)
    out = {}
    for b in f.rpo:
        for s in f.succ[b]:
            if s in dom[b]:
                body = out.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += [p for p in f.pred[x] if p in f.rpon]
    f._loops = out
    return out


def latches(f, header, body):
    return [b for b in body if header in f.succ[b]]


def exits(f, body):
    return [(b, s) for b in sorted(body) for s in f.succ[b] if s not in body]


def field_of_load(m, fn, op):
    """(struct, off) if op is a load of a struct field, else None."""
    if op[0] != "i":
        return None
    i = fn.instrs[op[1]]
    while i.op in ("zext", "sext", "trunc", "bitcast", "freeze") and i.ops[0][0] == "i":
        i = fn.instrs[i.ops[0][1]]
    if i.op == "load":
        return m.ptrkey(fn, i.ops[0])
    return None


def table(m, gname, struct):
    """Rows of a constant array of structs, as dicts field -> operand."""
    g = m.globals.get(gname)
    if not g or "flat" not in g:
        return []
    t = m.types.get("struct." + struct)
    if not t:
        return []
    size = t["size"]
    names = {off: n for n, off, sz, ty in t["fields"]}
    rows = {}
    for a, st, off, v in g["flat"]:
        rows.setdefault(a // size, {})[names.get(a % size, a % size)] = tuple(v)
    return [rows[k] for k in sorted(rows)]

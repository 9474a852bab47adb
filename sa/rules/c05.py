"""C05: -ok and -okdir run a command only after an affirmative answer."""
from ..engine import Engine, Rule
from ..patterns import table
from .execcommon import *

YESEXPR = 0x50000
NOEXPR = 0x50001


class AnswerRule(Rule):
    """prop = (stage, positive): 'pos' tokens are regexec results for the affirmative pattern."""
    maxstates = 60
    inline_depth = 6

    def __init__(self, m):
        self.m = m
        self.inl = direct_reach(m, {"nl_langinfo"})
        self.returns = 0

    def init(self):
        return (None, (), ())     # current pattern, affirmative regexec tokens, line tokens

    def tokens(self, prop):
        return list(prop[1] + prop[2])

    def rename(self, prop, mp):
        def f(t):
            v = mp.get(t)
            return t if v is None else v[1] if v[0] == "s" else ("gone",)
        return (prop[0], tuple(map(f, prop[1])), tuple(map(f, prop[2])))

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def post_call(self, eng, st, i, name, args, rv, ctx):
        if name == "nl_langinfo":
            st.prop = (args[0][1] if args[0][0] == "k" else -1,) + st.prop[1:]
        elif name == "bfs_regexec" and rv[0] == "s":
            if st.prop[0] == YESEXPR:
                st.prop = (st.prop[0], st.prop[1] + (rv[1],), st.prop[2])
        elif name in ("xgetdelim", "getdelim", "getline", "fgets") and rv[0] == "s":
            st.prop = st.prop[:2] + (st.prop[2] + (rv[1],),)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != PROMPT:
            return
        self.returns += 1
        if eng.rng(st, rv)[1] <= 0:
            return
        ret = fn.blocks[fn.rpo[-1]][-1]
        lines = st.prop[2]
        if not lines:
            eng.report(ret, "the prompt can be answered affirmatively without reading an answer", st)
            return
        for t in lines:
            if eng.isnull(st, ("s", t)) is not False:
                eng.report(ret, "the prompt can be answered affirmatively although no line could be read", st)
                return
        if any(eng.rng(st, ("s", t))[0] > 0 for t in st.prop[1]):
            return
        for (b, off), e in st.mem.items():
            if b[0] == "t" and b[1] in lines and off == 0:
                r = eng.rng(st, e[0])
                if r[0] == r[1] and r[0] in (ord("y"), ord("Y")):
                    return
        eng.report(ret, "the prompt can be answered affirmatively although the answer matches neither the locale's affirmative pattern nor y/Y", st)


def check(m, R):
    R.rule("path-sensitive analysis of every expression evaluator that can start a process: every path to a process-creating call either knows the "
           "confirmation flag to be clear or went through the prompt and knows its result to be positive")
    R.rule("the prompt returns a positive value only on paths where a line was read and it matched the affirmative pattern or starts with y/Y")
    R.rule("the parse table gives -ok and -okdir the confirmation flag and no store to the action's flags can clear it")
    R.require(PROMPT in m.defined, "the prompt function vanished")
    R.require(m.enums.get("BFS_EXEC_CONFIRM") and m.field("bfs_exec", "flags"), "confirmation flag not found")
    demand(m, R, "C05", "confirm")
    rule = AnswerRule(m)
    eng = Engine(m, rule)
    eng.run(PROMPT)
    R.engine(eng, "answer")
    R.obligation("%d return paths of %s()" % (rule.returns, PROMPT))
    # the parse table
    confirm = m.enums["BFS_EXEC_CONFIRM"]
    rows = [r for g in m.globals if m.globals[g]["type"].endswith("table_entry]") or g == "parse_table" for r in table(m, g, "table_entry")]
    seen = 0
    for r in rows:
        name = m.gstr(r.get("arg", ("null",)))
        if name in ("-ok", "-okdir"):
            seen += 1
            v = r.get("arg1", ("c", 0))
            R.obligation("parse table entry %s: flags %s" % (name, v))
            if not (v[0] == "c" and v[1] & confirm):
                R.violation("src/parse.c:parse_table", "the entry for %s does not ask for confirmation" % name, fn="parse_table", rule="table")
    R.minimum("-ok/-okdir table entries", seen, 2)
    key = m.field("bfs_exec", "flags")
    ns = 0
    for s in m.storemap.get(key, []):
        ns += 1
        if clears(m, s.fn, s.ops[0], confirm):
            R.violation(s, "the confirmation flag of an action can be cleared here", rule="flag-store")
        R.obligation("%s: store to the action's flags" % s.loc())
    R.minimum("stores to the action's flags", ns, 1)
    # parse_exec hands its flags on
    for c in m.callsites.get("bfs_exec_parse", []):
        if clears(m, c.fn, c.args[2], confirm):
            R.violation(c, "the confirmation flag is dropped between the parse table and the action", rule="flag-store")
        R.obligation("%s: flags handed to the action" % c.loc())


def clears(m, fn, op, bit, seen=None):
    """Could this flags value lack `bit` although the incoming flags (parameter or previous value) have it?"""
    seen = seen or set()
    if op[0] == "a":
        return False
    if op[0] == "c":
        return not op[1] & bit
    if op[0] != "i" or op in seen:
        return op[0] != "i"
    seen = seen | {op}
    i = fn.instrs[op[1]]
    if i.op == "load":
        return m.ptrkey(fn, i.ops[0]) != m.field("bfs_exec", "flags")
    if i.op == "phi":
        return any(clears(m, fn, v, bit, seen) for v, _ in i.phis)
    if i.op == "select":
        return clears(m, fn, i.ops[1], bit, seen) or clears(m, fn, i.ops[2], bit, seen)
    if i.op == "or":
        return clears(m, fn, i.ops[0], bit, seen) and clears(m, fn, i.ops[1], bit, seen)
    if i.op == "and":
        return any(clears(m, fn, o, bit, seen) for o in i.ops)
    if i.op in ("zext", "sext", "trunc"):
        return clears(m, fn, i.ops[0], bit, seen)
    return True

"""C04: bfs flushes all of its own buffered output before it starts a command or asks for confirmation."""
from ..engine import Engine
from .execcommon import *


def check(m, R):
    R.rule("path-sensitive analysis of every expression evaluator that can start a process: on every path to a process-creating call or a "
           "prompt, a flush of every registered output stream happened and nothing was written to a buffered stream since; the flushing "
           "function must flush each registered stream in every loop iteration, on every path")
    flush, why = flush_all_functions(m)
    R.count("functions that flush every stream", len(flush))
    if not flush:
        for f, w in why:
            R.violation("%s:%s" % (f.file, f.line), "no function flushes every output stream: " + w, fn=f.name, rule="flush-all")
        R.require(why, "no function flushes the registered output streams")
    demand(m, R, "C04", "flush-before-spawn")
    # every stream that actions write to is registered
    R.assume("stderr is unbuffered (C standard)")

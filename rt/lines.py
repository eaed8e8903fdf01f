"""Which lines of the package a worker ran: each is reported once by sys.monitoring and then no more."""
import os
import sys

TOOL = 1


def start(root):
    mon = sys.monitoring
    hit = {}
    prefix = os.path.join(root, 'sudachipy') + os.sep

    def line(code, n):
        if code.co_filename.startswith(prefix):
            hit.setdefault(code.co_filename[len(prefix):], set()).add(n)
        return mon.DISABLE

    mon.use_tool_id(TOOL, 'verif-lines')
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.LINE)
    return hit


def executable(path):
    """The lines of functions in a file."""
    with open(path, encoding='utf-8') as f:
        code = compile(f.read(), path, 'exec')
    out, todo = set(), [c for c in code.co_consts if hasattr(c, 'co_lines')]
    while todo:
        c = todo.pop()
        inner = [k for k in c.co_consts if hasattr(k, 'co_lines')]
        todo += inner
        if c.co_flags & 2:      # optimized: a function, not the body of a class
            out |= {n for _, _, n in c.co_lines() if n and n != c.co_firstlineno}
    return out

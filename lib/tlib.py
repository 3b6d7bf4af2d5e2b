"""Common to the library checks: the machines (one per build and option of the compiler that translates the library)
and recording of calls."""
import os
import tacsim
from tacsim import Fault, Exit, TOP

SLACK = 1024        # room of the stack of a call


def machines(c, opts=None, **kw):
    b = c.built()
    so = tacsim.simlib(c.work)
    res, failed = [], None
    for host, o in opts or c.q((('src', ['-O']), ('src--', ['-O0'])),
                               [(h, [x]) for h in ('src', 'src--') for x in ('-O0', '-O', '-O1')]):
        try:
            im = tacsim.library(b.tool('c--', host), o, **kw)
        except Exception as e:
            print('the library does not come out of %s c--: %s' % (host, str(e)[:200]))
            failed = e
            continue                    # whether that compiler is right is for C01 and S01
        m = tacsim.Machine(so, im)
        m.name = '%s c-- %s' % (host, ' '.join(o))
        res.append(m)
    if not res:
        raise failed
    return res


def coverage(c, ms, files):
    """how many of the instructions of the library files were executed on some machine"""
    a = t = 0
    m = ms[0]
    for k, w in enumerate(m.im['where'], 1):
        if w.split(':')[0] in files:
            t += 1
            a += m.visited[k] > 0
    c.add(instructions=t, instructions_executed=a)

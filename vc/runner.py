"""Runs proof tasks in parallel and collects obligations."""
import os
import resource
import signal
import time
import traceback
import multiprocessing as mp
import multiprocessing.connection
from .poly import Unsupported, reset_interning
from . import engine as E
from . import poly
from .solver import STATS, reset_lin

_PKG = None
_MP = mp.get_context('fork')
SKIP = None         # (group, label) -> leave the obligation out


def pkg():
    global _PKG
    if _PKG is None:
        from .loader import Package
        _PKG = Package()
    return _PKG


def run_task(t, inline=False, deadline=None):
    """Returns a plain dict with the obligations of one task."""
    from .harness import H
    t0 = time.time()
    q0, s0 = STATS.queries, STATS.time
    out = {'task': t.name, 'group': t.group, 'funcs': t.funcs, 'paths': 0, 'obl': [], 'error': None, 'inline': inline, 'notes': []}
    try:
        h = H(pkg())
    except (Unsupported, Exception) as e:
        out['error'] = 'cannot load the source: %s: %s' % (type(e).__name__, e)
        out['time'] = time.time() - t0
        return out
    c = E.Ctx(t.name, time.time() + deadline if deadline else None, t.max_paths)
    if SKIP is not None:
        c.skip = lambda label: SKIP(t.group, label)
    notes = set()
    try:
        if not inline:
            h.stub_methods([s for s in t.stubs if not s.startswith(('cl_', 'vhdl:'))])
            h.stub_main([s for s in t.stubs if s.startswith('cl_')])

        kept = h.pkg.persistent()

        def fn():
            global _PKG
            h.reveal = inline
            h.track_warn = False
            try:
                t.fn(h)
            finally:
                notes.update(c.notes)
                if not h.pkg.unchanged(kept, h.pkg.persistent()):
                    # a contract speaks about one call; state kept between calls is outside of it
                    _PKG = None
                    raise Unsupported('state of the package kept between calls was modified')
        c.explore(fn)
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f for f in reversed(tb) if 'en_cl_fix_pkg' in f.filename), None)
        out['error'] = 'unsupported: %s%s' % (e, ' at %s:%d' % (where.filename.split('/')[-1], where.lineno) if where else '')
    except RecursionError:
        out['error'] = 'recursion limit'
    except Exception as e:
        out['error'] = 'engine error: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        h.unpatch()
        reset_interning()
        reset_lin()
    out['paths'] = c.paths
    out['obl'] = [(o.label, o.ok, o.detail, o.hints) for o in c.obligations]
    out['notes'] = sorted(notes)[:5]
    out['time'] = time.time() - t0
    out['queries'] = STATS.queries - q0
    out['solver_time'] = STATS.time - s0
    return out


def _failed(t, why, inline, secs=0.0):
    return {'task': t.name, 'group': t.group, 'funcs': t.funcs, 'paths': 0, 'obl': [], 'error': why, 'inline': inline, 'notes': [], 'time': secs}


SHAKE = 0               # another order of the symbols, and with it another order of the solver's steps
MEMORY = 5 << 30        # address space of a worker: a task that needs more is undecided


def _worker(conn, tasks, inline):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    poly._counter[0] += 7919 * SHAKE
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        i, deadline = conn.recv()
    except EOFError:
        return
    try:
        r = run_task(tasks[i], inline, deadline)
    except MemoryError:
        r = _failed(tasks[i], 'unsupported: memory limit', inline)
    conn.send((i, r))


class _W:
    def __init__(self, tasks, inline):
        self.conn, child = _MP.Pipe()
        self.p = _MP.Process(target=_worker, args=(child, tasks, inline), daemon=True)
        self.p.start()
        child.close()
        self.task = None

    def end(self):
        self.p.kill()
        self.p.join()
        self.conn.close()


def run_tasks(tasks, inline=False, deadline=None, procs=None, until=None, stop=None):
    """Results of the tasks; with stop, a predicate on the results so far, possibly only of some of them."""
    try:
        pkg()
        if any(t.name.startswith('VHDL') for t in tasks):
            from . import tasks_vhdl
            from .harness import H
            tasks_vhdl.vhdl(H(_PKG))
    except BaseException:
        pass
    procs = procs or min(8, os.cpu_count() or 1)
    out, todo, live = [], list(range(len(tasks)))[::-1], []

    def feed(w):
        w.task, w.t0 = todo.pop(), time.time()
        d = deadline
        if until is not None:
            d = min(d, until - w.t0) if d else until - w.t0
        w.limit = w.t0 + d * 1.2 + 30 if d else None
        w.conn.send((w.task, d))

    try:
        while todo or live:
            if todo and until is not None and until - time.time() < 1:
                out += [_failed(tasks[i], 'not started: out of time', inline) for i in todo]
                todo = []
            while todo and len(live) < procs:
                w = _W(tasks, inline)
                live.append(w)
                feed(w)
            ready = mp.connection.wait([w.conn for w in live], timeout=1) if live else []
            for w in list(live):
                if w.conn in ready:
                    try:
                        out.append(w.conn.recv()[1])
                    except (EOFError, OSError):
                        out.append(_failed(tasks[w.task], 'unsupported: the worker process ended', inline, time.time() - w.t0))
                elif w.limit and time.time() > w.limit:
                    out.append(_failed(tasks[w.task], 'unsupported: time limit (worker stopped)', inline, time.time() - w.t0))
                else:
                    continue
                # a new process for every task: its obligations, and the order in which the solver meets them, do not
                # depend on the tasks before it
                w.end()
                live.remove(w)
            if stop and stop(out):
                break
    finally:
        for w in live:
            w.end()
    return out


def bad(res):
    return [r for r in res if r['error'] or any(not o[1] for o in r['obl']) or not r['obl'] or not r['paths']]

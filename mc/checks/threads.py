"""C24: work on one document while another is being worked on.

Stateless exploration of the real code under a controlled scheduler: two
threads, each loading, saving or creating something of its own.  A trace
function stops a thread at every executed line of the library; only one thread
runs at a time.  Schedules with one preemption (A up to line i, all of B, rest
of A) are enumerated for every i, schedules with two (A to i, B to j, rest of
A, rest of B) for every pair (i, j) of small documents.  Every result must be
the one the operation gives alone."""
import os
import sys
import threading
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.files import Scratch
from checks.fidelity import parse, wrap_text
from checks.objects import snap
from checks.shapes import all_classes
from domains import base, Gen2
from engine import REPO, oracle
from lift import FILETYPES
from model import MODELS, build, to_text, tree

LIB = os.path.join(os.path.realpath(REPO), 'src', 'kiutils') + os.sep
WAIT = 5.0


def doc_text(v):
    t = tree(v)
    return wrap_text(v, ' '.join(to_text(x) for x in t)) if v.c == 'DesignRules' else to_text(t)


def value(cls, which):
    """first or second document of a class, or None"""
    for v in ([base(cls, 'full'), base(cls, 'min')] if which == 0 else [base(cls, 'full', Gen2(900)), base(cls, 'min', Gen2(900))] if which == 1 else
              [base(cls, 'min')] if which == 2 else [base(cls, 'min', Gen2(900))]):
        if MODELS[cls].valid(v) and MODELS[cls].loadable(v):
            return v
    return None


def operation(cls, op, which):
    """-> a function without arguments doing the whole operation on fresh input and returning what it observed"""
    v = value(cls, which)
    if v is None:
        return None
    real = MODELS[cls].real()
    if op == 'load':
        p = parse(doc_text(v))
        return lambda: snap(real.from_sexpr(p))
    if op == 'read':
        text = doc_text(v)
        return lambda: parse(text)
    if op == 'save':
        o = build(v)
        return lambda: o.to_sexpr()
    if op in ('tofile', 'fromfile'):      # each in its own file of the current (scratch) directory
        o, name = build(v), os.path.abspath(f'document{which}')
        with open(name, 'w', encoding='utf-8') as f:
            f.write('' if op == 'tofile' else o.to_sexpr())

        def g():
            if op == 'fromfile':
                r = real.from_file(name, encoding='utf-8')
                p, r.filePath = os.path.basename(r.filePath), None
                return p, snap(r)
            o.to_file(name, encoding='utf-8')
            with open(name, encoding='utf-8') as f:
                return f.read(), sorted(x for x in os.listdir() if not x.startswith('document'))
        return g
    if op == 'new':
        if not hasattr(real, 'create_new'):
            return None
        a = {'Symbol': ('a', 'b', 'c'), 'Footprint': ('a', 'b')}.get(real.__name__, ())
        return lambda: snap(real.create_new(*a))
    if op == 'id':
        o = real()
        if not hasattr(type(o), 'libId'):
            return None

        def f():
            o.libId = ['Lib:Part', 'Other_1_2'][which % 2]
            return (o.libId, o.libraryNickname, o.entryName)
        return f
    raise ValueError(op)


_lib = {}


class Side:
    """one thread, stopped before its n-th line of library code"""
    def __init__(self, fn, stop):
        self.fn, self.stop = fn, stop
        self.go, self.paused = threading.Semaphore(0), threading.Semaphore(0)
        self.n, self.result, self.done = 0, None, False
        self.th = threading.Thread(target=self.run, daemon=True)
        self.th.start()

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.n == self.stop:
                self.paused.release()
                self.go.acquire()
        return self.local

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f not in _lib:
            _lib[f] = os.path.realpath(f).startswith(LIB)
        return self.local if _lib[f] else None

    def run(self):
        self.go.acquire()
        if self.stop is not None:
            sys.settrace(self.trace)
        try:
            self.result = ('ok', self.fn())
        except BaseException as e:
            self.result = ('error', f'{type(e).__name__}: {e}')
        finally:
            sys.settrace(None)
            self.done = True
            self.paused.release()

    def resume(self):
        """run until the stop or the end; False when it is blocked (waiting for the other thread)"""
        self.go.release()
        return self.paused.acquire(timeout=WAIT)


_expected = {}


def lines(fn):
    """number of library lines of one operation alone"""
    s = Side(fn, 0)
    s.resume()
    return s.n, s.result


@oracle
def interleaved(a, b, i, j):
    """a, b: (class, operation, which document)"""
    if a[1].endswith('file') or b[1].endswith('file'):
        with Scratch():
            return interleave(a, b, i, j)
    return interleave(a, b, i, j)


def interleave(a, b, i, j):
    a, b = tuple(a), tuple(b)
    for x in (a, b):
        if x not in _expected:
            _expected[x] = ('ok', operation(*x)())
    ea, eb = _expected[a], _expected[b]
    fa, fb = operation(*a), operation(*b)
    A, B = Side(fa, i), Side(fb, j)
    A.resume()
    if not A.done:
        if B.resume():
            A.resume()
            if not B.done:
                B.resume()
        else:               # b waits for something a holds: let a go on
            A.resume()
            B.paused.acquire(timeout=WAIT)
    else:
        B.resume()
        if not B.done:
            B.resume()
    w = f'{a} stopped at its line {i}, {b} {"run" if j is None else f"stopped at its line {j}"}'
    if A.result != ea:
        return f'{w}: {a} gives {str(A.result)[:300]} instead of {str(ea)[:300]}'
    if B.result != eb:
        return f'{w}: {b} gives {str(B.result)[:300]} instead of {str(eb)[:300]}'
    return None


PAIRS = [('load', 'load'), ('save', 'save'), ('load', 'save'), ('save', 'load'), ('new', 'new'), ('id', 'id')]


def count(a):
    with Scratch():
        f = operation(*a)
        return None if f is None else lines(f)[0]


def one_sweep(t, cls, x, y, shard, n):
    """every single preemption: full documents"""
    a, b = (cls, x, 0), (cls, y, 1)
    na = count(a)
    if na is None or count(b) is None:
        return
    t.count('preemption_points', na if shard == 0 else 0)
    for i in range(1 + shard, na + 1, n):
        t.ev('interleaved', a, b, i, None, transitions=na, sample=f'{a} | {b} at {i}')
        if t.full:
            return


def small_sweep(t, cls, x, y):
    """every single preemption: minimal documents"""
    a, b = (cls, x, 2), (cls, y, 3)
    na = count(a)
    for i in range(1, na + 1):
        t.ev('interleaved', a, b, i, None, transitions=na, sample=f'{a} | {b} at {i}')
        if t.full:
            return


def two_sweep(t, cls, x, y, limit):
    """every pair of preemptions: small documents"""
    a, b = (cls, x, 2), (cls, y, 3)
    na, nb = count(a), count(b)
    if na is None or nb is None or na * nb > limit:
        return
    t.count('preemption_pairs', na * nb)
    for i in range(1, na + 1):
        for j in range(1, nb + 1):
            t.ev('interleaved', a, b, i, j, transitions=na + nb, sample=f'{a} | {b} at {i}, {j}')
        if t.full:
            return


def start(run, _):
    deep = run.tier == 'thorough'
    cl = all_classes()
    limit = 40000 if deep else 900
    run.bounds = {'threads': 2, 'preemptions': f'1 at every line of full objects of every class; 2 at every pair of lines of minimal objects with at most {limit} pairs',
                  'granularity': 'executed lines of library code', 'operations': PAIRS + [('read', 'read')]}
    run.assumptions = ['a switch of threads inside one line of code has no effect that a switch before or after the line has not', 'the two threads work on different objects']
    C = 'checks.threads'
    jobs = []
    for k in FILETYPES:
        jobs += [((C, 'one_sweep'), (k, 'read', 'read', i, 8)) for i in range(8) if deep or k in ('SymbolLib', 'DesignRules', 'LibTable', 'WorkSheet')]
        jobs += [((C, 'one_sweep'), (k, 'load', 'read', i, 8)) for i in range(8) if deep or k in ('SymbolLib', 'DesignRules', 'LibTable', 'WorkSheet')]
    for k in FILETYPES:
        for x, y in (('tofile', 'tofile'), ('fromfile', 'tofile'), ('tofile', 'fromfile'), ('fromfile', 'fromfile')):
            if deep or k not in ('Board', 'Schematic', 'Footprint'):
                jobs += [((C, 'one_sweep'), (k, x, y, i, 4)) for i in range(4)]
            jobs += [((C, 'small_sweep'), (k, x, y)), ((C, 'two_sweep'), (k, x, y, limit))]
    for c in ('TextSize', 'Net', 'Group') if deep else ('TextSize',):
        jobs += [((C, 'two_sweep'), (c, 'read', 'read', 40000))]
    for c in cl:
        for x, y in PAIRS:
            n = 8 if x == 'load' and (len(MODELS[c].fields) > 14 or c == 'SetupData') else 1
            jobs += [((C, 'one_sweep'), (c, x, y, i, n)) for i in range(n)]
            jobs += [((C, 'two_sweep'), (c, x, y, limit))]
    run.run(jobs)

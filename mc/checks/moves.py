"""C25: parts move between documents.  A part is loaded on its own, put into a
container that was loaded from somewhere else, and taken out again; the
container's save must be the container with exactly that part, then the
container alone.  All (container, field, part class) combinations of the model,
all part states of the reduced alphabets, and real parts into real documents."""
import copy
import os
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.edits import plain, retype
from checks.fidelity import deepest, fits, part_devs, parse, saved_tree, wrap_text
from checks.objects import snap
from checks.threads import doc_text
from domains import Gen2, ListOf, Opt, Poly, base, devs1, dom_classes, sub_devs
from engine import oracle
from lift import corpus, lift, path_of
from model import MODELS, V, build, ref_read, to_text, tree, tree_diff, value_diff


def load(v):
    return MODELS[v.c].real().from_sexpr(parse(doc_text(v)))


def is_list(dom):
    return isinstance(dom.inner if isinstance(dom, Opt) else dom, (ListOf, Poly))


def put(cv, field, part, at):
    """model: the container with the part in it"""
    if is_list(MODELS[cv.c].fields[field]):
        l = list(cv.d[field] or [])
        l.insert(at if at >= 0 else len(l), part)
        return cv.with_(**{field: l})
    return cv.with_(**{field: part})


def put_real(c, field, part, at, lst):
    """the same on the real container; returns how to undo it"""
    if lst:
        l = getattr(c, field)
        if l is None:
            setattr(c, field, [part])
            return lambda: setattr(c, field, None)
        i = at if at >= 0 else len(l)
        l.insert(i, part)
        return lambda: l.pop(i)
    old = getattr(c, field)
    setattr(c, field, part)
    return lambda: setattr(c, field, old)


def same_tree(v, s):
    return tree_diff(saved_tree(v), ref_read(s))


@oracle
def moved(cv, field, pv, at):
    w = f'{pv.c} put into {cv.c}.{field}[{at}]'
    part, c, c2 = load(pv), load(cv), load(cv)
    lst = is_list(MODELS[cv.c].fields[field])
    own, before = part.to_sexpr(), c.to_sexpr()
    sp = snap(part)
    want = put(cv, field, pv, at)
    undo = put_real(c, field, part, at, lst)
    s = c.to_sexpr()
    d = same_tree(want, s)
    if d:
        return f'{w}: saved: {d}'
    if MODELS[cv.c].loadable(want):
        d = value_diff(want, MODELS[cv.c].real().from_sexpr(parse(wrap_text(want, s))))
        if d:
            return f'{w}: reloaded: {d}'
    # the same part in a second document, and as a copy next to itself
    undo2 = put_real(c2, field, part, at, lst)
    if c2.to_sexpr() != s or c.to_sexpr() != s:
        return f'{w}: in two documents: saved differently'
    if snap(part) != sp or part.to_sexpr() != own:
        return f'{w}: the part changed'
    undo()
    if c.to_sexpr() != before:
        return f'{w}: taken out again: {same_tree(cv, c.to_sexpr()) or "a different text"}'
    if c2.to_sexpr() != s:
        return f'{w}: taken out of one document, another one changed'
    undo2()
    if lst:
        two = put(want, field, pv, at)
        put_real(c, field, part, at, lst)
        put_real(c, field, copy.deepcopy(part), at, lst)
        d = same_tree(two, c.to_sexpr())
        if d:
            return f'{w}: with a copy of it: {d}'
    return None


def move_sweep(t, cls, deep):
    m = MODELS[cls]
    for kind in ('min', 'full'):
        cv = base(cls, kind)
        if not (m.valid(cv) and m.loadable(cv)):
            continue
        for k, dom in m.fields.items():
            if not plain(dom):
                continue
            for p in dom_classes(dom):
                if not MODELS[p].root:
                    continue
                vs = list(devs1(p) if deep else sub_devs(p)) + [x for b in ('min', 'full') for _, x in part_devs(p, b)] + [deepest(p, Gen2(6000))]
                for pv in vs:
                    if not MODELS[p].valid(pv) or not MODELS[p].loadable(pv) or not fits(dom, pv):
                        continue
                    for at in ((0,) if kind == 'min' or not is_list(dom) else (0, 1, -1)):
                        if m.valid(put(cv, k, pv, at)):
                            t.ev('moved', cv, k, pv, at, transitions=12, sample=f'{p} into {cls}.{k}')
                        if t.full:
                            return


REAL = [('Footprint', 'Board', 'footprints'), ('Symbol', 'Schematic', 'libSymbols'), ('Symbol', 'SymbolLib', 'symbols')]


def whole(o, kind):
    return retype(lift(o))


@oracle
def real_move(part_file, index, doc_file, kind, field):
    """a part of a real file into a real document"""
    real = MODELS[kind].real()
    doc = real.from_file(path_of(doc_file), encoding='utf-8')
    if field == 'footprints':
        part = MODELS['Footprint'].real().from_file(path_of(part_file), encoding='utf-8')
    else:
        part = MODELS['SymbolLib'].real().from_file(path_of(part_file), encoding='utf-8').symbols[index]
    before = doc.to_sexpr()
    want = put(retype(lift(doc)), field, retype(lift(part, None)), -1)
    getattr(doc, field).append(part)
    s = doc.to_sexpr()
    d = same_tree(want, s)
    if d:
        return f'{part_file} in {doc_file}: saved: {d}'
    r = real.from_sexpr(parse(s))
    d = value_diff(want, r)
    if d:
        return f'{part_file} in {doc_file}: reloaded: {d}'
    getattr(doc, field).pop()
    if doc.to_sexpr() != before:
        return f'{part_file} taken out of {doc_file}: the document changed'
    return None


def real_sweep(t, doc_file, kind, field, limit):
    for f, k in corpus('Footprint' if field == 'footprints' else 'SymbolLib'):
        if f.startswith('misc') or 'legacy' in f or f.endswith('.expected') or os.path.getsize(path_of(f)) > limit:
            continue
        n = 1
        if field != 'footprints':
            n = len(MODELS['SymbolLib'].real().from_file(path_of(f), encoding='utf-8').symbols)
        for i in range(min(n, 4)):
            t.ev('real_move', f, i, doc_file, kind, field, transitions=5, sample=f'{f} into {doc_file}')
        if t.full:
            return


def start(run, _):
    deep = run.tier == 'thorough'
    limit = 400000 if deep else 40000
    docs = [(f, k, fld) for _, k, fld in REAL for f, _ in corpus(k) if not f.startswith('misc') and 'legacy' not in f and not f.endswith('.expected') and os.path.getsize(path_of(f)) < limit]
    run.bounds = {'containers': len(MODELS), 'positions': 'first, second, last', 'real_documents': len(docs)}
    run.assumptions = ['one part is moved at a time']
    jobs = [(('checks.moves', 'move_sweep'), (c, deep)) for c in sorted(MODELS, key=lambda c: -len(MODELS[c].fields)) if MODELS[c].root]
    jobs += [(('checks.moves', 'real_sweep'), (f, k, fld, limit)) for f, k, fld in docs]
    run.run(jobs)

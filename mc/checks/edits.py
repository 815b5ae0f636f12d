"""C21: edit histories on loaded documents.  A document is loaded by the
library, lifted into the model, one or two edits are applied to both, and the
library's save must be the model's token tree: the edit and nothing else.  The
saved text is then loaded again and must hold the edited content.  The document
is also saved before the edits, and after they were taken back: nothing of an
earlier save may show in a later one."""
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
import dataclasses
import os
from checks.fidelity import parse, saved_tree, wrap_text
from checks.objects import snap
from domains import (Const, DictOf, FixedList, Gen2, ListOf, Num, Opt, Poly, Str, Sub, base)
from engine import oracle
from lift import FILETYPES, corpus, lift, path_of
from model import MODELS, Node, Q, V, build, ref_read, to_text, tree, tree_diff, value_diff


def norm(exp, got):
    """bare words that are digits come back as numbers: compare lifted values through value_diff"""
    return value_diff(exp, got)


def retype(v, dom=None):
    """lifted values carry plain str; mark free texts as quoted text where the model says so"""
    if isinstance(v, V):
        return V(v.c, {k: retype(x, MODELS[v.c].fields[k]) for k, x in v.d.items()})
    if isinstance(dom, Opt):
        return None if v is None else retype(v, dom.inner)
    if isinstance(v, list):
        return [retype(x, getattr(dom, 'inner', None)) for x in v]
    if isinstance(dom, Str) and isinstance(v, str):
        return Q(v)
    if isinstance(dom, DictOf):
        return {retype(k, dom.key): retype(x, dom.val) for k, x in v.items()}
    return v


def load(src, kind):
    if src in ('min', 'full'):
        v = base(kind, src)
        t = tree(v)
        text = wrap_text(v, ' '.join(to_text(x) for x in t)) if kind == 'DesignRules' else to_text(t)
    else:
        with open(path_of(src), encoding='utf-8') as f:
            text = f.read()
        if kind == 'DesignRules':
            text = f'({text})'
    return MODELS[kind].real().from_sexpr(parse(text))


def plain(dom):
    """may the parts of a value of this domain be edited one by one?  (elsewhere the whole value is replaced)"""
    if isinstance(dom, (Opt, ListOf)):
        return plain(dom.inner)
    return type(dom) in (Sub, Poly)


def sites(v, path=()):
    """[(class, field, path to the object)] of every object in the document"""
    if isinstance(v, V):
        for k, x in v.d.items():
            yield v.c, k, path
            if plain(MODELS[v.c].fields[k]):
                yield from sites(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from sites(x, path + (i,))


def walk(o, path):
    for p in path:
        o = o[p] if isinstance(p, int) else (o.d[p] if isinstance(o, V) else getattr(o, p))
    return o


def put(v, path, x):
    """copy of model value v with x at path"""
    if not path:
        return x
    p = path[0]
    if isinstance(p, int):
        l = list(v)
        l[p] = put(l[p], path[1:], x)
        return l
    return v.with_(**{p: put(v.d[p], path[1:], x)})


def replacements(v, path, field, deep=False):
    """edits of one attribute: new values, and for lists removals, duplicates, exchanges"""
    obj = walk(v, path)
    dom = MODELS[obj.c].fields[field]
    cur = obj.d[field]
    out = []
    if isinstance(cur, list):
        n = len(cur)
        idx = sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
        for i in idx:
            out.append(cur[:i] + cur[i + 1:])
            out.append(cur[:i] + [cur[i]] + cur[i:])
        if n > 1:
            out.append(cur[1:] + cur[:1])
            out.append(cur[::-1])
        out.append([])
    if isinstance(dom, DictOf):
        ks = list(cur)
        for k in ks[:3]:
            out.append({a: b for a, b in cur.items() if a != k})
        if len(ks) > 1:
            out.append({k: cur[k] for k in reversed(ks)})
    inner = dom.inner if isinstance(dom, Opt) else dom
    if isinstance(inner, ListOf):
        out = [x for x in out if len(x) >= inner.minlen]
    elif isinstance(inner, FixedList):
        out = [x for x in out if len(x) in inner.sizes]
    red = dom.reduced() if not isinstance(dom, Const) else []
    out += red
    return out


def consistent(v, path):
    """every object on the way to the edit is still one the format can express"""
    o = v
    if isinstance(o, V) and not (MODELS[o.c].valid(o)):
        return False
    for p in path:
        o = o[p] if isinstance(p, int) else o.d[p]
        if isinstance(o, V) and not MODELS[o.c].valid(o):
            return False
    return True


def loadable(v):
    if isinstance(v, V):
        return MODELS[v.c].loadable(v) and all(loadable(x) for x in v.d.values())
    if isinstance(v, list):
        return all(loadable(x) for x in v)
    return True


_cache = {}


def lifted(src, kind):
    if (src, kind) not in _cache:
        _cache.clear()
        _cache[src, kind] = retype(lift(load(src, kind)))
    return _cache[src, kind]


@oracle
def edited(src, kind, edits):
    """edits: [(path, field, new value)]"""
    v = v0 = lifted(src, kind)
    o = load(src, kind)
    first = o.to_sexpr()
    back = []
    for path, field, x in edits:
        path = tuple(path)
        v = put(v, path + (field,), x)
        at = walk(o, path)
        back.append((at, field, getattr(at, field)))
        setattr(at, field, build(x))
    w = f'{kind} {src} with {[(p, f, repr(x)[:60]) for p, f, x in edits]!r:.300}'
    s = o.to_sexpr()
    d = tree_diff(saved_tree(v), ref_read(s))
    if d:
        return f'{w}: saved: {d}'
    if loadable(v):
        d = value_diff(v, MODELS[kind].real().from_sexpr(parse(wrap_text(v, s))))
        if d:
            return f'{w}: reloaded: {d}'
    # the edits taken back, lists in place: the document is the one it was
    for at, field, old in reversed(back):
        cur = getattr(at, field)
        if isinstance(old, list) and isinstance(cur, list):
            cur[:] = old
        else:
            setattr(at, field, old)
    again = o.to_sexpr()
    if again != first:
        d = tree_diff(saved_tree(v0), ref_read(again))
        return f'{w}: edits taken back, saved: {d or "a different text"}'
    # the same edits made in place, part by part, keeping every object that can stay
    for path, field, x in edits:
        at = walk(o, tuple(path))
        setattr(at, field, morph(getattr(at, field), build(x)))
    again = o.to_sexpr()
    if again != s:
        d = tree_diff(saved_tree(v), ref_read(again))
        return f'{w}: edited in place, saved: {d or "a different text"}'
    # every position among the new parts moved in place
    for path, field, x in edits:
        y = moved(x)
        if y is not x:
            v = put(v, tuple(path) + (field,), y)
            morph(getattr(walk(o, tuple(path)), field), build(y))
            s = None
    if s is None:
        d = tree_diff(saved_tree(v), ref_read(o.to_sexpr()))
        if d:
            return f'{w}: positions moved in place, saved: {d}'
    return None


@oracle
def nudged(src, kind, path, field, i, op):
    """one detail of an attribute changed in place between two saves: a coordinate of one point, one member of a list"""
    v = lifted(src, kind)
    o = load(src, kind)
    o.to_sexpr()
    path = tuple(path)
    cur = walk(v, path).d[field]
    real = getattr(walk(o, path), field)
    if op in ('X', 'Y', 'angle'):
        x = cur if i is None else cur[i]
        n = x.d[op] + 1
        setattr(real if i is None else real[i], op, n)
        y = x.with_(**{op: n})
        new = y if i is None else cur[:i] + [y] + cur[i + 1:]
    elif op == 'swap':
        new = cur[:i] + [cur[i + 1], cur[i]] + cur[i + 2:]
        real[i], real[i + 1] = real[i + 1], real[i]
    elif op == 'copy':          # the member after it becomes equal to it
        new = cur[:i + 1] + [cur[i]] + cur[i + 2:]
        real[i + 1] = build(cur[i])
    elif op == 'value':
        k = list(cur)[i]
        new = {a: (Q(b + 'x') if a == k else b) for a, b in cur.items()}
        real[str(k) if str(k) in real else k] += 'x'
    v = put(v, path + (field,), new)
    if not consistent(v, path):
        return None
    w = f'{kind} {src}, {op} of {path + (field, i)} in place'
    s = o.to_sexpr()
    d = tree_diff(saved_tree(v), ref_read(s))
    if d:
        return f'{w}: saved: {d}'
    if loadable(v):
        d = value_diff(v, MODELS[kind].real().from_sexpr(parse(wrap_text(v, s))))
        if d:
            return f'{w}: reloaded: {d}'
    return None


def nudge_sweep(t, src, kind, per, shard, n):
    v = lifted(src, kind)
    j = 0
    for c, k, p in pick(v, per):
        x = walk(v, p).d[k]
        ops = []
        if isinstance(x, V) and x.c == 'Position':
            ops = [(None, a) for a in ('X', 'Y', 'angle') if x.d[a] is not None]
        elif isinstance(x, list):
            m = len(x)
            for i in sorted({0, 1, m // 2, m - 2, m - 1} & set(range(m))):
                if isinstance(x[i], V) and x[i].c == 'Position':
                    ops += [(i, a) for a in ('X', 'Y', 'angle') if x[i].d[a] is not None]
                if i + 1 < m:
                    ops += [(i, 'swap'), (i, 'copy')]
        elif isinstance(x, dict):
            ops = [(i, 'value') for i, y in enumerate(x.values()) if isinstance(y, Q)]
        for i, op in ops:
            j += 1
            if j % n == shard:
                t.ev('nudged', src, kind, p, k, i, op, transitions=3, sample=f'{src} {op} of {p + (k, i)}')
            if t.full:
                return


def moved(x):
    """x with every position one further right (x itself when it has none)"""
    if isinstance(x, V):
        if x.c == 'Position':
            return x.with_(X=x.d['X'] + 1)
        d = {k: moved(y) for k, y in x.d.items()}
        return x.with_(**d) if any(d[k] is not x.d[k] for k in d) else x
    if isinstance(x, list):
        l = [moved(y) for y in x]
        return l if any(a is not b for a, b in zip(l, x)) else x
    return x


def morph(old, new):
    """old turned into new, keeping the objects and lists of old wherever their kind allows"""
    if type(old) is not type(new):
        return new
    if dataclasses.is_dataclass(old):
        for k, x in vars(new).items():
            setattr(old, k, morph(getattr(old, k, None), x))
        return old
    if isinstance(old, list):
        old[:] = [morph(a, b) for a, b in zip(old, new)] + new[len(old):]
        return old
    if isinstance(old, dict):
        for k in list(old):
            del old[k]
        old.update(new)
        return old
    return new


def pick(v, per):
    """up to `per` occurrences of every (class, field): first, last, middle"""
    by = {}
    for c, k, p in sites(v):
        by.setdefault((c, k), []).append(p)
    out = []
    for (c, k), ps in by.items():
        idx = sorted({0, len(ps) - 1, len(ps) // 2}) if per > 1 else [0]
        out += [(c, k, ps[i]) for i in idx]
    return out


def edit_sweep(t, src, kind, per, shard, n):
    v = lifted(src, kind)
    i = 0
    for c, k, p in pick(v, per):
        for x in replacements(v, p, k):
            i += 1
            if i % n != shard:
                continue
            if not consistent(put(v, p + (k,), x), p):
                continue
            t.ev('edited', src, kind, [(p, k, x)], transitions=3, sample=f'{src} {c}.{k} at {p}')
            if t.full:
                return


def pair_sweep(t, src, kind, deep, shard, n):
    """every pair of edits of different attributes of the document and of its first items"""
    v = lifted(src, kind)
    es = []
    for c, k, p in pick(v, 1):
        rs = replacements(v, p, k)
        for x in rs[:1] * deep + rs[-1:]:
            es.append((p, k, x))
    i = 0
    for a in range(len(es)):
        for b in range(a + 1, len(es)):
            (p, k, x), (q, l, y) = es[a], es[b]
            i += 1
            if i % n != shard:
                continue
            pa, qb = p + (k,), q + (l,)
            if pa[:len(qb)] == qb or qb[:len(pa)] == pa:
                continue
            v2 = put(put(v, pa, x), qb, y)
            if not consistent(v2, p) or not consistent(v2, q):
                continue
            t.ev('edited', src, kind, [es[a], es[b]], transitions=4, sample=f'{src} {pa} {qb}')
            if t.full:
                return


def start(run, _):
    deep = run.tier == 'thorough'
    lim = 400000 if deep else 60000
    files = [(r, k, os.path.getsize(path_of(r))) for r, k in corpus() if not r.startswith('misc') and 'legacy' not in r and not r.endswith('.expected')]
    files = [f for f in files if f[2] < lim]
    run.bounds = {'real_files': len(files), 'edits': 'every attribute of the first, middle and last object of each class in each file: every value of the reduced alphabets, list removals, duplicates, rotations, reversal',
                  'in_place': 'after a save, each coordinate of the first, second, middle and last points, exchanges and copies of members, values of dictionaries',
                  'edit_pairs': 'every pair of edits of different attributes in the full baseline document of each file type'}
    run.assumptions = ['objects of one class in one file behave alike apart from first, middle and last']
    C = 'checks.edits'
    jobs = []
    for r, k, s in sorted(files, key=lambda f: -f[2]):
        n = 1 + s // 3000
        jobs += [((C, 'edit_sweep'), (r, k, 3 if s < 12000 or deep else 1, i, n)) for i in range(n)]
        jobs += [((C, 'nudge_sweep'), (r, k, 3, i, 1 + n // 4)) for i in range(1 + n // 4)]
    for k in FILETYPES:
        jobs += [((C, 'edit_sweep'), (b, k, 3, i, 4)) for b in ('min', 'full') for i in range(4)]
        jobs += [((C, 'nudge_sweep'), (b, k, 3, 0, 1)) for b in ('min', 'full')]
        jobs += [((C, 'pair_sweep'), ('full', k, deep, i, 8)) for i in range(8)]
    run.run(jobs)

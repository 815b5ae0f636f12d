"""C23: tokens missing from a file.  From the text form of every class's states
one token, every pair of tokens, and all tokens but one are taken away; what a
missing token describes must load as the default the format gives it
(mc/defaults.json), everything else exactly as before."""
import json
import os
from itertools import combinations
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.fidelity import parse
from checks.objects import snap
from checks.shapes import all_classes, clone
from domains import Gen2, base, sub_devs
from engine import HERE, oracle
from model import MODELS, Node, Q, V, build, to_text, tree, value_diff

# attributes whose default is the time of creation when built and nothing when loaded
DYNAMIC = {('Footprint', 'tedit'): None}
# tokens the class cannot be loaded without, and the layer stack's thickness list whose members belong together by position
SKIP = {('BusAlias', 'members'), ('StackupLayer', 'addsublayer'), ('StackupLayer', 'thickness')}

MIN_LEN = {'Attributes': 2, 'Justify': 2, 'Stroke': 2, 'Model': 5}      # documented least number of elements


def plain(s):
    """snap() in a JSON form"""
    if isinstance(s, (tuple, list)):
        return [plain(x) for x in s]
    return s


def defaults():
    with open(os.path.join(HERE, 'defaults.json')) as f:
        return json.load(f)


def make_defaults():
    out = {}
    for c in all_classes():
        o = MODELS[c].real()()
        out[c] = {k: plain(snap(getattr(o, k))) for k in MODELS[c].fields if (c, k) not in DYNAMIC}
    return out


_D = None


def default_of(c, k):
    global _D
    if (c, k) in DYNAMIC:
        return plain(snap(DYNAMIC[c, k]))
    if _D is None:
        _D = defaults()
    return _D[c][k]


def num_eq(a, b):
    """same default, numbers by value"""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and len(b) == 2 and a[0] in ('int', 'float') and b[0] in ('int', 'float'):
            return float(a[1]) == float(b[1])
        return len(a) == len(b) and all(num_eq(x, y) for x, y in zip(a, b))
    return a == b


def name(e):
    return str(e[0]) if isinstance(e, Node) else str(e)


def key(t):
    return to_text(t) if isinstance(t, Node) else repr(t)


_deps = {}


def deps(c):
    """{token: attributes it carries}, from the model: changing the attribute changes the token"""
    if c not in _deps:
        out = {}
        for kind in ('min', 'full'):
            b = base(c, kind)
            if not MODELS[c].valid(b):
                continue

            def by_name(v):
                r = {}
                t = tree(v)
                for e in t[t.fixed():]:
                    r.setdefault(name(e), []).append(key(e))
                return r
            r0 = by_name(b)
            for k, dom in MODELS[c].fields.items():
                for x in dom.reduced():
                    v = b.with_(**{k: x})
                    if not MODELS[c].valid(v):
                        continue
                    r1 = by_name(v)
                    for h in set(r0) | set(r1):
                        if r0.get(h) != r1.get(h):
                            out.setdefault(h, set()).add(k)
        if 'stroke' in out and 'width' in MODELS[c].fields:
            out['stroke'].add('width')      # a line has either a width or a stroke: without a stroke, the default width
        _deps[c] = out
    return _deps[c]


def sublist(a, b):
    """is a the list b with elements taken away?"""
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


@oracle
def without(v, drop):
    """the text form of v without the children at the positions `drop`"""
    m = MODELS[v.c]
    t = clone(tree(v))
    gone = [t[i] for i in drop]
    for i in sorted(drop, reverse=True):
        del t[i]
    o = m.real().from_sexpr(parse(to_text(t)))
    touched = set()
    for e in gone:
        touched |= deps(v.c).get(name(e), set())
    w = f'{v.c} without {[name(e) for e in gone]}'
    for k in m.fields:
        x = getattr(o, k)
        if k not in touched:
            d = value_diff(v.d[k], x, f'.{k}')
            if d:
                return f'{w}: {d}'
            continue
        if value_diff(v.d[k], x) is None:
            continue            # happens to be the default, or another token of that kind carries it
        sx = plain(snap(x))
        if num_eq(sx, default_of(v.c, k)):
            continue
        if isinstance(x, (list, dict)) and len(x) < len(v.d[k]):
            full = getattr(m.real().from_sexpr(parse(to_text(tree(v)))), k)
            if isinstance(x, list) and sublist([snap(a) for a in x], [snap(a) for a in full]) and len(full) - len(x) <= len(gone):
                continue
            if isinstance(x, dict) and all(kk in full and snap(x[kk]) == snap(full[kk]) for kk in x) and len(full) - len(x) <= len(gone):
                continue
        return f'{w}: .{k} loads as {x!r:.150}, its default is {default_of(v.c, k)!r:.150}'
    return None


def states(c, deep):
    yield base(c, 'full')
    yield base(c, 'min')
    yield base(c, 'full', Gen2(3000))
    if deep:
        yield from sub_devs(c)


def missing_sweep(t, c, deep, shard, n):
    m = MODELS[c]
    i = 0
    for v in states(c, deep):
        if not m.valid(v) or not m.loadable(v):
            continue
        tr = tree(v)
        if tr.rigid:
            continue
        kids = [j for j in range(tr.fixed(), len(tr)) if (c, name(tr[j])) not in SKIP]
        # a class is only loadable without the words its position needs: words of a list count as its members
        drops = [[j] for j in kids] + [list(p) for p in combinations(kids, 2)] + [[j for j in kids if j != k] for k in kids] + ([kids] if kids else [])
        for d in drops:
            if len(tr) - len(d) < MIN_LEN.get(c, 0):
                continue
            i += 1
            if i % n != shard:
                continue
            t.ev('without', v, d, sample=f'{c} without {[name(tr[j]) for j in d]}')
            if t.full:
                return


@oracle
def fresh_default(c, k):
    s = plain(snap(getattr(MODELS[c].real()(), k)))
    return None if num_eq(s, default_of(c, k)) else f'{c}().{k} is {s!r:.150}, its default is {default_of(c, k)!r:.150}'


def fresh_sweep(t):
    for c in all_classes():
        for k in MODELS[c].fields:
            if (c, k) not in DYNAMIC:
                t.ev('fresh_default', c, k, sample=f'{c}().{k}')


def start(run, _):
    deep = run.tier == 'thorough'
    cl = all_classes()
    for c in cl:
        deps(c)
    cl.sort(key=lambda c: -len(MODELS[c].fields))
    run.bounds = {'classes': len(cl), 'missing': 'each token alone, each pair, all but one, all'}
    run.assumptions = ['the defaults are those of mc/defaults.json']
    sh = {c: (4 if len(MODELS[c].fields) > 14 else 1) for c in cl}
    run.run([(('checks.missing', 'missing_sweep'), (c, deep, i, sh[c])) for c in cl for i in range(sh[c])] + [(('checks.missing', 'fresh_sweep'), ())])


if __name__ == '__main__':
    with open(os.path.join(HERE, 'defaults.json'), 'w') as f:
        json.dump(make_defaults(), f, indent=0, sort_keys=True)

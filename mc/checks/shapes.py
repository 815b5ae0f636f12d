"""C11 token order, C20 unknown tokens, C18 layout parameters.

All three transform the *text form* of a model state and require the same
content: C11 loads every reordering of a token's children that keeps the
relative order of list members, C20 loads the text with an unknown token put at
every place where KiCad adds new tokens, C18 saves with every indent/newline
setting."""
import re
from functools import lru_cache
from itertools import permutations
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.fidelity import parse, saved_tree
from domains import base, closure, devs1, embed, presence, sub_devs, Gen2
from engine import oracle
from lift import FILETYPES
from model import MODELS, Node, Q, V, build, ref_read, to_text, tree, tree_diff, value_diff


def nodes(t, path=()):
    if isinstance(t, Node):
        yield path, t
        for i, e in enumerate(t):
            if isinstance(e, Node):
                yield from nodes(e, path + (i,))


def clone(t):
    return Node([clone(e) if isinstance(e, Node) else e for e in t], t.nfixed, t.open, t.rigid, t.groups)


def at(t, path):
    for i in path:
        t = t[i]
    return t


def key(e, groups):
    """children with the same key are members of one list: they keep their order"""
    if not isinstance(e, Node):         # a flag word is free to move, words of a list are not
        return ('words',) if any('*words*' in g for g in groups) else None
    h = e[0] if e else ''
    for g in groups:
        if h in g:
            return ('g', tuple(g))
    return ('h', h)


def repair(n, p):
    """order p of child indices with the members of one list put back into their order"""
    slots, out = {}, list(p)
    for pos, i in enumerate(p):
        k = key(n[i], n.groups)
        if k is not None:
            slots.setdefault(k, []).append(pos)
    for ps in slots.values():
        for pos, i in zip(ps, sorted(p[x] for x in ps)):
            out[pos] = i
    return tuple(out)


def orders(n):
    """all admissible orders of the movable children of node n (index lists)"""
    f = n.fixed()
    kids = list(range(f, len(n)))
    if n.rigid or len(kids) < 2:
        return
    if len(kids) <= 4:
        cand = permutations(kids)
    else:
        def gen():
            yield tuple(reversed(kids))
            for i in range(len(kids)):
                for j in range(len(kids)):
                    if i != j:
                        r = kids[:i] + kids[i + 1:]
                        r.insert(j, kids[i])
                        yield tuple(r)
        cand = gen()
    seen = {tuple(kids)}
    for p in cand:
        p = repair(n, p)
        if p not in seen:
            seen.add(p)
            yield list(range(f)) + list(p)


def reorder(n, order):
    n[:] = [n[i] for i in order]


def loads_as(v, t, what):
    o = MODELS[v.c].real().from_sexpr(parse(to_text(t)))
    d = value_diff(v, o)
    return f'{v.c} {what}: {d}' if d else None


@oracle
def ordered(v, path, order):
    t = clone(tree(v))
    n = at(t, path)
    reorder(n, order)
    return loads_as(v, t, f'children of ({n[0]} ..) in the order {[str(e[0]) if isinstance(e, Node) else e for e in n[n.fixed():]]!r:.300}')


@oracle
def all_reversed(v):
    t = clone(tree(v))
    for path, n in list(nodes(t))[::-1]:
        kids = list(range(n.fixed(), len(n)))
        if not n.rigid and len(kids) > 1:
            reorder(n, list(range(n.fixed())) + list(repair(n, kids[::-1])))
    return loads_as(v, t, 'every token reordered')


def shape_states(cls, root, deep):
    """states whose text is transformed"""
    yield base(cls, 'min')
    yield base(cls, 'full')
    yield base(cls, 'full', Gen2(4000))
    if deep:
        for v in sub_devs(cls):
            yield v
        n = 0
        for v in presence(cls, 6):
            yield v
            n += 1
            if n > 150:
                break
    else:
        # every optional part alone
        lo, hi = base(cls, 'min', Gen2(100)), base(cls, 'full', Gen2(900))
        for k in MODELS[cls].fields:
            v = hi.with_(**{k: lo.d[k]})
            if MODELS[cls].valid(v):
                yield v


def order_sweep(t, cls, root, deep, shard, n):
    i = 0
    for v in shape_states(cls, root, deep):
        if not MODELS[cls].valid(v) or not MODELS[cls].loadable(v):
            continue
        i += 1
        if i % n != shard:
            continue
        t.ev('all_reversed', v, sample='')
        for path, nd in nodes(tree(v)):
            if not deep and path and i > 3:      # inner tokens are covered by their own class
                continue
            for o in orders(nd):
                t.ev('ordered', v, path, o, sample=f'{cls} {path} {o}')
                if t.full:
                    return


# ---------------------------------------------------------------------- C20
NAME = re.compile('[A-Za-z_][A-Za-z0-9_-]*\\Z')
UNKNOWN = [Node(['zz_unknown']), Node(['zz_unknown', 'yes']), Node(['zz_new', 1, Q('some "text" (x)')]),
           Node(['zz_tree', Node(['zz_leaf', 2.5]), Node(['zz_more', Node(['at', 1, 2])])])]


@oracle
def unknown(v, path, pos, k):
    t = clone(tree(v))
    n = at(t, path)
    n.insert(pos, UNKNOWN[k])
    return loads_as(v, t, f'with {to_text(UNKNOWN[k])} inserted in ({n[0]} ..) at {pos}')


@lru_cache(None)
def flags(cls):
    """bare words that occur in tokens of the class"""
    out = set()
    for v in sub_devs(cls):
        for _, n in nodes(tree(v)):
            out.update(str(e) for e in n[1:] if isinstance(e, str) and not isinstance(e, Q) and NAME.match(e))
    return tuple(sorted(out))


@lru_cache(None)
def known_parts(cls, head):
    """one token per head that may stand in (head ..) of the class, with values that differ from the baselines"""
    out = {}
    for v in list(sub_devs(cls)) + [base(cls, 'full', Gen2(7000))]:
        if not MODELS[cls].valid(v):
            continue
        for _, n in nodes(tree(v)):
            if n and not isinstance(n[0], Node) and str(n[0]) == head:
                for e in n:
                    if isinstance(e, Node) and e and not isinstance(e[0], Node):
                        out[str(e[0])] = clone(e)
    return list(out.values())


@oracle
def wrapped(v, path, pos, k):
    """an unknown token that holds what is known one level up"""
    t = clone(tree(v))
    n = at(t, path)
    head = str(n[0])
    w = list(flags(v.c)) + [h for h in sorted(child_heads(v.c, head)) if h not in flags(v.c)]
    if k == 0:
        new = Node(['zz_words'] + w)
    elif k == 1:
        new = Node(['zz_texts'] + [Q(x) for x in w])
    elif k == 2:
        new = Node(['zz_group'] + known_parts(v.c, head))
    elif k == 3:
        new = Node(['zz_outer', Node(['zz_inner'] + known_parts(v.c, head)), Node(['zz_flags'] + [Node([x]) for x in w])])
    else:
        new = Node(['zz_pair', Q('zz'), 1] + known_parts(v.c, head) + w)
    n.insert(pos, new)
    return loads_as(v, t, f'with {to_text(new)[:300]} inserted in ({head} ..) at {pos}')


@oracle
def many_unknown(v, path, how, n):
    """several unknown tokens at once: n in front, n at the end, n between any two children"""
    t = clone(tree(v))
    nd = at(t, path)
    f = nd.fixed()

    def new(i):
        return Node(['zz_many', i]) if i % 2 else Node(['zz_more', Q('x'), Node(['zz_y'])])
    kids = list(nd[f:])
    if how == 'front':
        kids = [new(i) for i in range(n)] + kids
    elif how == 'end':
        kids = kids + [new(i) for i in range(n)]
    else:
        kids = [new(i) for i in range(n)] + [x for k in kids for x in [k] + [new(i) for i in range(n)]]
    nd[f:] = kids
    return loads_as(v, t, f'with {n} unknown tokens {how} in ({nd[0]} ..)')


@oracle
def unknown_word(v, path, pos):
    """a flag word the element does not know"""
    t = clone(tree(v))
    n = at(t, path)
    n.insert(pos, 'zz_flag')
    return loads_as(v, t, f'with the word zz_flag inserted in ({n[0]} ..) at {pos}')


def unknown_sweep(t, cls, root, deep, shard, nsh):
    i = 0
    for v in shape_states(cls, root, deep):
        if not MODELS[cls].valid(v) or not MODELS[cls].loadable(v):
            continue
        i += 1
        if i % nsh != shard:
            continue
        for path, nd in nodes(tree(v)):
            if not nd.open or nd.rigid:
                continue
            if not deep and path and i > 3:
                continue
            if i <= 2 or deep:
                for how in ('front', 'end', 'between'):
                    for n in (2, 3, 5, 9, 30):
                        t.ev('many_unknown', v, path, how, n, sample=f'{cls} {path} {n} unknown tokens {how}')
                for pos in range(nd.fixed(), len(nd) + 1):
                    t.ev('unknown_word', v, path, pos, sample=f'{cls} {path} {pos} zz_flag')
            for pos in range(nd.fixed(), len(nd) + 1):
                for k in range(len(UNKNOWN)):
                    t.ev('unknown', v, path, pos, k, sample=f'{cls} {path} {pos} {k}')
                    if t.full:
                        return


# heads that are known elsewhere, or nearly known, are unknown here as well
FOREIGN = [['yes'], [77.5, Q('zz')], [Node(['at', 3, 4]), Node(['zz_x', 'no'])], []]
# what the library names as not supported and refuses, and units inside units
REFUSED = {('Footprint', 'dimension'), ('WorkSheet', 'polygon'), ('Pad', 'dimension'), ('SymbolUnit', 'symbol')}


@lru_cache(None)
def all_heads():
    out = set()

    def walk(t):
        if t and isinstance(t[0], str):
            out.add(str(t[0]))
        for e in t:
            if isinstance(e, Node):
                walk(e)
    for c in all_classes():
        for v in sub_devs(c):
            walk(tree(v))
    return out


def child_heads(cls, path_head):
    """heads of the children the token (path_head ..) of class cls can have"""
    out = set()
    for v in sub_devs(cls):
        for _, n in nodes(tree(v)):
            if n and not isinstance(n[0], Node) and str(n[0]) == path_head:
                out.update(str(e[0]) for e in n if isinstance(e, Node) and e and not isinstance(e[0], Node))
    return out


def near(heads):
    out = set()
    for h in heads:
        out.update([h + '_zz', 'zz_' + h, h + 's', h[:-1], h.upper(), h.capitalize(), h.split('_')[0] + '_zz', 'zz_' + h.split('_')[-1], h + h, h[1:], h.replace('_', ''), h.replace('_', '-'), h + '2'])
    return out


@oracle
def foreign(v, path, pos, head, k):
    t = clone(tree(v))
    n = at(t, path)
    n.insert(pos, Node([head] + FOREIGN[k]))
    return loads_as(v, t, f'with {to_text(n[pos])} inserted in ({n[0]} ..) at {pos}')


def foreign_sweep(t, cls, root, deep, shard, nsh):
    import codewords
    m = MODELS[cls]
    known_words = set(codewords.words()[0]) | all_heads()
    i = 0
    for kind in ('full', 'min'):
        v = base(cls, kind)
        if not m.valid(v) or not m.loadable(v):
            continue
        for path, nd in nodes(tree(v)):
            if not nd.open or nd.rigid or isinstance(nd[0], Node):
                continue
            own = child_heads(cls, str(nd[0]))
            for pos in range(nd.fixed(), len(nd) + 1) if shard == 0 else ():
                for k in range(5):
                    t.ev('wrapped', v, path, pos, k, sample=f'{cls} {path} {pos} known tokens in an unknown one')
            cand = {h for h in near(own) if h and h not in known_words and NAME.match(h)}
            if not path:
                cand |= all_heads() - own
            for h in sorted(cand):
                if (cls, h) in REFUSED or (str(nd[0]), h) in (('primitives', 'dimension'),):
                    continue
                i += 1
                if i % nsh != shard:
                    continue
                for pos in {nd.fixed(), len(nd)}:
                    for k in range(len(FOREIGN)):
                        t.ev('foreign', v, path, pos, h, k, sample=f'{cls} {path} {pos} ({h} ..)')
                if t.full:
                    return


# ---------------------------------------------------------------------- C18
INDENTS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 128, 256]


@oracle
def layout(v, indent, newline, more=None):
    cls = MODELS[v.c].real()
    o = build(v)
    kw = dict(more or {})
    if indent is not None:
        kw['indent'] = indent
    if newline is not None:
        kw['newline'] = newline
    s = o.to_sexpr(**kw)
    d = tree_diff(saved_tree(v), ref_read(s))
    if d:
        return f'{v.c}.to_sexpr({kw}): {d}'
    if newline is not None:
        other = o.to_sexpr(**dict(kw, newline=not newline))
        a, b = (s, other) if newline else (other, s)
        if a != b + '\n':
            return f'{v.c}: newline does more or less than ending the text with one line break'
    if indent is not None and not (s.startswith(' ' * indent + '(') or not s.strip()):
        return f'{v.c}: indent={indent} but the text starts with {s[:indent + 8]!r}'
    return None


LINES = ['first\n  second\n\n    third\n', '  \n    (x "y")\n', '"  a  "\t\t b\n)\n(']


def line_states(cls):
    """texts of several lines with their own indentation, in every text place of the class and of its parts"""
    from checks.values import allowed, sites
    from checks.fidelity import fits
    from domains import dom_classes, wrap

    def put(c, b):
        for k, dom in MODELS[c].fields.items():
            for name, d, f in sites(dom, 'text'):
                for x in LINES:
                    if allowed(c, k, d, x):
                        v = b.with_(**{k: f(Q(x))})
                        if MODELS[c].valid(v):
                            yield v
    yield from put(cls, base(cls, 'full'))
    b = base(cls, 'min')
    for k, dom in MODELS[cls].fields.items():
        for c in dom_classes(dom):
            for y in put(c, base(c, 'min', Gen2(5000))):
                if MODELS[c].loadable(y) and fits(dom, y):
                    v = b.with_(**{k: wrap(dom, y)})
                    if MODELS[cls].valid(v):
                        yield v


def layout_sweep(t, cls, root, deep):
    import inspect
    pars = inspect.signature(MODELS[cls].real().to_sexpr).parameters
    ind = [None] + (INDENTS if 'indent' in pars else [])
    nl = [None] + ([True, False] if 'newline' in pars else [])
    extra = [k for k in ('layerInFirstLine', 'pts_newline') if k in pars]
    for k in extra:
        for v in list(shape_states(cls, root, deep)) + list(line_states(cls)):
            for x in (True, False):
                for i in (None, 0, 2, 5):
                    for n in nl:
                        t.ev('layout', v, i, n, {k: x}, sample=f'{cls} {k}={x} indent={i} newline={n}')
    for v in shape_states(cls, root, deep):
        if not MODELS[cls].valid(v):
            continue
        for i in ind:
            for n in nl:
                t.ev('layout', v, i, n, sample=f'{cls} indent={i} newline={n}')
                if t.full:
                    return
    for v in line_states(cls):
        for i in ind if deep else [i for i in ind if i in (None, 0, 1, 2, 4, 7, 64)]:
            for n in nl:
                t.ev('layout', v, i, n, sample=f'{cls} with texts of several lines, indent={i} newline={n}')
        if t.full:
            return


def layout_pairs(t, cls, deep, shard, n):
    """every pair of attribute deviations and every combination of present parts, with one indentation, with and without newline"""
    import inspect
    from domains import devs2
    from itertools import chain
    pars = inspect.signature(MODELS[cls].real().to_sexpr).parameters
    i3 = 3 if 'indent' in pars else None
    nl = True if 'newline' in pars else None
    for i, v in enumerate(chain(presence(cls, 8), devs2(cls))):
        if i % n != shard or not MODELS[cls].valid(v):
            continue
        t.ev('layout', v, i3, nl, transitions=2, sample=f'{cls} pair of deviations, indent={i3}')
        if t.full:
            return


def all_classes():
    out = []
    for r in FILETYPES:
        for c in closure(r):
            if c not in out and MODELS[c].root:
                out.append(c)
    return out


def start(run, which):
    deep = run.tier == 'thorough'
    cl = all_classes()
    big = {c: (8 if len(MODELS[c].fields) > 14 else 2) for c in cl}
    fn = {'order': 'order_sweep', 'unknown': 'unknown_sweep', 'layout': 'layout_sweep'}[which]
    if which == 'layout':
        args = [(c, None, deep) for c in cl]
    else:
        args = [(c, None, deep, i, big[c]) for c in cl for i in range(big[c])]
    args.sort(key=lambda a: -len(MODELS[a[0]].fields))
    run.bounds = {'classes': len(cl), 'what': {'order': 'all orders of up to 4 children, otherwise every single move of one child and the full reversal; one token at a time plus all tokens at once',
                                               'unknown': '4 unknown tokens at every position of every open token; every head known elsewhere and near misses of the known heads, first and last', 'layout': f'indent in {INDENTS}, newline on/off/default'}[which]}
    run.assumptions = ['positional elements (heads, leading texts and numbers) and the relative order of members of one list are significant, nothing else is']
    jobs = [(('checks.shapes', fn), a) for a in args]
    if which == 'layout':
        jobs += [(('checks.shapes', 'layout_pairs'), (c, deep, i, big[c])) for c in cl for i in range(big[c])]
    if which == 'unknown':
        jobs += [(('checks.shapes', 'foreign_sweep'), a) for a in args]
    run.run(jobs)

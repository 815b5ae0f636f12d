"""Content fidelity of one file type (C04..C10).

Model: for every dataclass the set of its attributes and the token tree KiCad's
format prescribes for them (spec_*.py).  Every model state (an object value) is
driven through the real code three ways:

  save   build the real object, to_sexpr(), read the text with the reference
         reader, compare with the model's token tree (order, heads, quoting)
  load   print the model's token tree with the reference writer in three
         layouts, parse + from_sexpr(), compare every attribute
  trip   from_sexpr(parse(to_sexpr())) equals the object again

States: for every class reachable from the file type's root, standalone and
embedded into the root, all single deviations with the full alphabets, all
pairs with the reduced ones, all present/absent combinations (bounds in
DESIGN.md)."""
import os
import shutil
import tempfile
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from domains import Const, DictOf, Flag, Gen2, ListOf, Opt, Poly, Same, TFlag, Word, base, closure, devs1, paired, devs2, devs3, dom_classes, embed, presence, sub_devs, wrap
from engine import oracle
from lift import corpus
from model import MODELS, Node, Q, V, build, forest_text, ref_read, to_text, tree, tree_diff, value_diff


def parse(text):
    from kiutils.utils.sexpr import parse_sexp
    return parse_sexp(text)


def saved_tree(v):
    t = tree(v)
    return t if v.c == 'DesignRules' else Node([t])


def wrap_text(v, s):
    return f'({s})' if v.c == 'DesignRules' else s


def check_save(v):
    s = build(v).to_sexpr()
    d = tree_diff(saved_tree(v), ref_read(s))
    return s, (f'save: {d}' if d else None)


def check_load(v, text, tag):
    o = MODELS[v.c].real().from_sexpr(parse(text))
    d = value_diff(v, o)
    return f'{tag}: {d}' if d else None


@oracle
def fidelity(v):
    s, d = check_save(v)
    if d:
        return f'{v.c} {d}'
    if not MODELS[v.c].loadable(v):
        return None
    t = tree(v)
    for lay in (0, 1, 2):
        d = check_load(v, to_text(t, lay), f'load (layout {lay})')
        if d:
            return f'{v.c} {d}'
    d = check_load(v, wrap_text(v, s), 'reload')
    return f'{v.c} {d}' if d else None


@oracle
def fidelity1(v):
    """one layout only (the deeper part of the exploration)"""
    s, d = check_save(v)
    if d:
        return f'{v.c} {d}'
    if not MODELS[v.c].loadable(v):
        return None
    d = check_load(v, wrap_text(v, s), 'reload')
    return f'{v.c} {d}' if d else None


@oracle
def through_file(v):
    """to_file and from_file instead of to_sexpr and from_sexpr"""
    real = MODELS[v.c].real()
    d = tempfile.mkdtemp(prefix='kiutils-mc-')
    try:
        p = os.path.join(d, 'f')
        build(v).to_file(p, encoding='utf-8')
        with open(p, encoding='utf-8', newline='') as f:
            s = f.read()
        e = tree_diff(saved_tree(v), ref_read(s))
        if e:
            return f'{v.c} to_file: {e}'
        o = real.from_file(p, encoding='utf-8')
        e = value_diff(v, o)
        if e:
            return f'{v.c} from_file: {e}'
        t = tree(v)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(forest_text(t, 1) if v.c == 'DesignRules' else to_text(t, 1))
        e = value_diff(v, real.from_file(p, encoding='utf-8'))
        return f'{v.c} from_file (reference text): {e}' if e else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


@oracle
def golden(rel, kind):
    """a real file: what the library loads, expressed by the model, is the file, and is what the library saves"""
    from lift import lift, path_of
    from checks.edits import retype
    o = MODELS[kind].real().from_file(path_of(rel), encoding='utf-8')
    v = retype(lift(o))
    with open(path_of(rel), encoding='utf-8') as f:
        file = ref_read(f.read())
    d = tree_diff(saved_tree(v), file)
    if d:
        return f'{rel}: loaded content differs from the file: {d}'
    d = tree_diff(saved_tree(v), ref_read(o.to_sexpr()))
    return f'{rel}: saved content differs from the file: {d}' if d else None


# files kiutils rewrites by design: legacy (module ..) head, an empty (attr), a file holding incomplete escapes
NOT_GOLDEN = {'footprint/legacy/test_moduleNameOnlyNumbers', 'footprint/test_footprintEmptyAttributes'}


def golden_sweep(t, rel, kind):
    t.ev('golden', rel, kind, transitions=2, sample=f'real file {rel}')


def gen(kind, cls, root, limit=10):
    if kind == 'devs1':
        return devs1(cls)
    if kind == 'devs2':
        return devs2(cls)
    if kind == 'devs3':
        return devs3(cls)
    if kind == 'presence':
        return presence(cls, limit)
    if kind == 'embed':
        path = closure(root)[cls]
        return (x for k in ('min', 'full') for x in (embed(path, y, k) for y in sub_devs(cls)) if x is not None)
    if kind == 'words':
        return word_states(cls)
    if kind == 'words2':
        return word_pairs(cls)
    if kind == 'special':
        return special_states(cls)
    if kind == 'alike':
        return alike_states(cls)
    if kind == 'nested':
        return nested_states(cls)
    if kind == 'echo':
        return echo_states(cls)
    if kind == 'siblings':
        return sibling_states(cls)
    raise ValueError(kind)


def fits(dom, y):
    """may the part y stand in a place of this domain?"""
    while isinstance(dom, (Opt, ListOf)):
        dom = dom.inner
    return not hasattr(dom, 'holds') or dom.holds(y)


def word_states(cls):
    """every literal of the code and its near misses in every text and number place, and as length of every list"""
    import codewords
    from checks.values import allowed, sites
    m = MODELS[cls]
    b = base(cls, 'min')
    for k, dom in m.fields.items():
        for kind, vals in (('text', codewords.words()[1]), ('number', codewords.numbers())):
            for name, d, f in sites(dom, kind):
                if '[' in name and not name.startswith('[0'):
                    continue
                for x in vals:
                    if allowed(cls, k, d, x):
                        v = b.with_(**{k: f(Q(x) if kind == 'text' else x)})
                        if m.valid(v):
                            yield v
        # texts of the parts, in their container
        for c in dom_classes(dom):
            inner = base(c, 'min', Gen2(5000))
            for k2, dom2 in MODELS[c].fields.items():
                for name, d, f in sites(dom2, 'text')[:1]:
                    for x in codewords.words()[1]:
                        if allowed(c, k2, d, x):
                            y = inner.with_(**{k2: f(Q(x))})
                            if MODELS[c].valid(y) and MODELS[c].loadable(y) and fits(dom, y):
                                v = b.with_(**{k: wrap(dom, y)})
                                if m.valid(v):
                                    yield v
        d = dom.inner if isinstance(dom, Opt) else dom
        if isinstance(d, ListOf):
            for n in codewords.lengths(300):
                if n >= d.minlen:
                    yield b.with_(**{k: d.items(n)})
        elif isinstance(d, Poly) or isinstance(d, DictOf) and d.endless():
            for n in codewords.lengths(100):
                yield b.with_(**{k: d.items(n)})


def word_pairs(cls):
    """every literal the code compares values with, in every text and number place, with every deviation of another attribute"""
    import codewords
    from checks.values import allowed, sites
    m = MODELS[cls]
    texts, nums = codewords.compared()
    for kind in ('min', 'full')[:2 if len(m.fields) < 12 else 1]:
        b = base(cls, kind)
        for k, dom in m.fields.items():
            for what, vals in (('text', texts), ('number', nums)):
                for name, d, f in sites(dom, what):
                    if '[' in name and not name.startswith('[0'):
                        continue
                    for x in vals:
                        if not allowed(cls, k, d, x):
                            continue
                        v = b.with_(**{k: f(Q(x) if what == 'text' else x)})
                        for k2, dom2 in m.fields.items():
                            if k2 != k:
                                for y in paired(dom2):
                                    w = v.with_(**{k2: y})
                                    if m.valid(w):
                                        yield w


def specials(cls, near=True):
    """{attribute: values}: what the code compares attributes of this name with, and the neighbours"""
    import codewords
    from checks.values import allowed, sites
    lit = codewords.of_attributes()
    none = ((), (), ())
    out = {}
    for k, dom in MODELS[cls].fields.items():
        vals = []
        texts, nums, lens = lit.get(k, none)
        one = lit.get(k[:-1], none) if k.endswith('s') else none        # for layer in self.layers
        d0 = dom.inner if isinstance(dom, Opt) else dom
        if isinstance(d0, Word):
            vals += [w for w in d0.words if w in texts]
        for name, d, f in sites(dom, 'text')[:1]:
            for w in sorted(set(texts) | set(one[0])):
                vals += [f(Q(x)) for x in ((w, w + 'x', 'x' + w) if near else (w,)) if allowed(cls, k, d, x)]
        for name, d, f in sites(dom, 'number'):
            a = name.lstrip('.')
            if '[' in name:
                continue
            for n in sorted(set(nums) | set(lit.get(a, none)[1] if a else ())):
                vals += [f(x) for x in ((n, n + 1, n - 1) if near else (n,)) if allowed(cls, k, d, x)]
        if isinstance(d0, (ListOf, Poly)) or isinstance(d0, DictOf) and d0.endless():
            vals += [d0.items(x) for n in sorted(lens) if isinstance(n, int) and n < 300 for x in (n - 1, n, n + 1) if x >= getattr(d0, 'minlen', 0)]
        if vals:
            out[k] = vals
    return out


def special_states(cls):
    """up to three attributes at values the code compares them with, together with every deviation of one more"""
    from itertools import combinations, product
    m = MODELS[cls]
    for kind in ('min', 'full'):
        b = base(cls, kind)
        for r in (1, 2, 3) if kind == 'min' or len(m.fields) < 12 else (1, 2):
            sp = specials(cls, r < 3)
            for ks in combinations(sp, r):
                for xs in product(*(sp[k] for k in ks)):
                    v = b.with_(**dict(zip(ks, xs)))
                    if r > 1 and m.valid(v):
                        yield v
                    for k2, dom2 in m.fields.items():
                        if k2 not in ks:
                            for y in paired(dom2)[:40]:
                                w = v.with_(**{k2: y})
                                if m.valid(w):
                                    yield w


def part_devs(cls, kind='min', start=5000):
    """one deviation at a time: reduced values and the values the code compares attributes of that name with"""
    m = MODELS[cls]
    b = base(cls, kind, Gen2(start))
    sp = specials(cls, False)
    for k, dom in m.fields.items():
        for y in paired(dom) + sp.get(k, []):
            v = b.with_(**{k: y})
            if m.valid(v) and m.loadable(v):
                yield k, v


def nested_states(cls):
    """a deviation of the container together with a deviation of a part of it"""
    m = MODELS[cls]
    own = specials(cls, False)
    b = base(cls, 'min')
    for k, dom in m.fields.items():
        for c in dom_classes(dom):
            for _, x in part_devs(c):
                if not fits(dom, x):
                    continue
                v = b.with_(**{k: wrap(dom, x)})
                for k2, dom2 in m.fields.items():
                    if k2 != k:
                        for y in paired(dom2) + own.get(k2, []):
                            w = v.with_(**{k2: y})
                            if m.valid(w):
                                yield w


def deepest(cls, g, depth=4):
    """everything present, in the parts as well"""
    v = base(cls, 'full', g)
    m = MODELS[cls]
    for k, dom in m.fields.items():
        cs = dom_classes(dom)

        def deep(x):
            if isinstance(x, list):
                return [deep(y) for y in x]
            if isinstance(x, V) and x.c in cs and depth:
                y = deepest(x.c, g, depth - 1)
                if MODELS[x.c].valid(y) and MODELS[x.c].loadable(y) and fits(dom, y):
                    return y
            return x
        w = v.with_(**{k: deep(v.d[k])})
        if m.valid(w):
            v = w
    return v


def echo_states(cls):
    """everything present down to the innermost parts, all texts and numbers equal (and all different), with one deviation
    or one compared-with literal anywhere in the element or in its parts"""
    import codewords
    from checks.values import allowed, sites
    m = MODELS[cls]

    def devs(c, near):
        sp = specials(c, False)
        for k, dom in MODELS[c].fields.items():
            for y in paired(dom) + sp.get(k, []):
                yield k, y
            if near:
                for name, d, f in sites(dom, 'text')[:1]:
                    for x in codewords.compared()[0]:
                        if allowed(c, k, d, x):
                            yield k, f(Q(x))
    for g in (Same(), Gen2(3000)):
        b = deepest(cls, g)
        same = isinstance(g, Same)
        yield b
        for k, y in devs(cls, same):
            w = b.with_(**{k: y})
            if m.valid(w):
                yield w
        for k, dom in m.fields.items():
            l = b.d[k]
            for i, x in enumerate(l if isinstance(l, list) else [l]):
                if not isinstance(x, V) or x.c not in dom_classes(dom) or (isinstance(l, list) and i and x.c == l[i - 1].c):
                    continue
                for k2, y in devs(x.c, same):
                    z = x.with_(**{k2: y})
                    if MODELS[x.c].valid(z) and MODELS[x.c].loadable(z) and fits(dom, z):
                        w = b.with_(**{k: l[:i] + [z] + l[i + 1:] if isinstance(l, list) else z})
                        if m.valid(w):
                            yield w


def sibling_states(cls):
    """members of a list that differ in one attribute only, in any order"""
    m = MODELS[cls]
    b = base(cls, 'min')
    for k, dom in m.fields.items():
        d = dom.inner if isinstance(dom, Opt) else dom
        if not isinstance(d, (ListOf, Poly)):
            continue
        for c in dom_classes(d):
            for kind in ('min', 'full'):
                one = base(c, kind, Gen2(5000))
                if not MODELS[c].loadable(one) or not fits(dom, one):
                    continue
                for a, x in part_devs(c, kind):
                    if not fits(dom, x):
                        continue
                    for l in ([one, x], [x, one], [one, x, one], [x, x, one]):
                        v = b.with_(**{k: l})
                        if len(l) >= getattr(d, 'minlen', 0) and m.valid(v):
                            yield v


def alike_states(cls):
    """two attributes of one kind with the same value, together with every deviation of a third"""
    m = MODELS[cls]
    ks = list(m.fields)

    def kind_of(dom):
        d = dom.inner if isinstance(dom, Opt) else dom
        return type(d), tuple(sorted((k, kind_of(x) if hasattr(x, 'alphabet') else repr(x)) for k, x in vars(d).items()))
    for kind in ('min', 'full'):
        b = base(cls, kind)
        hi = base(cls, 'full')
        for i, k in enumerate(ks):
            if isinstance(m.fields[k], (Flag, TFlag, Const)) or hi.d[k] is None:
                continue
            for l in ks[i + 1:]:
                if kind_of(m.fields[k]) != kind_of(m.fields[l]):
                    continue
                v = b.with_(**{k: hi.d[k], l: hi.d[k]})
                if not m.valid(v):
                    continue
                yield v
                for k2, dom2 in m.fields.items():
                    if k2 not in (k, l):
                        for y in paired(dom2)[:40]:
                            w = v.with_(**{k2: y})
                            if m.valid(w):
                                yield w


LOADS = {'fidelity': 5, 'fidelity1': 2}


def sweep(t, kind, cls, root, shard, nshards, orc='fidelity', limit=10):
    for i, v in enumerate(gen(kind, cls, root, limit)):
        if i % nshards != shard:
            continue
        t.ev(orc, v, transitions=LOADS[orc], sample=f'{kind} {v!r}'[:240] if i < 400 else '')
        if kind == 'embed' or (kind == 'presence' and cls == root):
            t.ev('through_file', v, transitions=3, sample='')
        if t.full:
            return


def size(kind, cls):
    n = len(MODELS[cls].fields)
    w = 1 + n // 8
    return w * {'devs1': n * 60, 'devs2': n * n * 6, 'devs3': n ** 3 * 4, 'presence': 500 if n < 12 else 2000, 'embed': n * 20, 'words': n * 200, 'words2': n * n * 8, 'special': n * n * 6, 'alike': n * n * 4, 'nested': n * n * 12, 'siblings': n * 40, 'echo': n * 150}[kind]


def start(run, root):
    import codewords
    codewords.words(), codewords.numbers(), codewords.lengths(300), codewords.compared(), codewords.of_attributes()      # once, before the workers start
    cl = closure(root)
    classes = [c for c in cl if MODELS[c].root]
    jobs = []

    def add(kind, c, orc='fidelity', limit=10):
        n = max(1, min(16, size(kind, c) // 700))
        jobs.extend((size(kind, c), kind, c, root, i, n, orc, limit) for i in range(n))
    for c in classes:
        add('devs1', c)
        add('devs2', c, 'fidelity' if run.tier == 'thorough' else 'fidelity1')
        add('words', c, 'fidelity1')
        add('words2', c, 'fidelity1')
        add('special', c, 'fidelity1')
        add('alike', c, 'fidelity1')
        add('nested', c, 'fidelity1')
        add('siblings', c, 'fidelity1')
        add('echo', c, 'fidelity1')
        add('presence', c, 'fidelity', 10 if run.tier == 'quick' else 13)
        if c != root:
            add('embed', c)
        if run.tier == 'thorough':
            add('devs3', c, 'fidelity1')
    jobs.sort(key=lambda j: -j[0])
    run.bounds = {'classes': classes, 'deviations_full_alphabet': 1, 'deviations_reduced_alphabet': 3 if run.tier == 'thorough' else 2,
                  'presence_combinations': 'all for at most 10 (quick) / 13 (thorough) optional parts, otherwise up to three present or absent',
                  'literals': 'every text and number literal of the source and its near misses in every text and number place; every integer literal and its neighbours as list length',
                  'literal_pairs': 'every literal the code compares with, in every text and number place, with every reduced value of every other attribute (both baselines for classes of less than 12 attributes)',
                  'special': 'up to three attributes at values the code compares attributes of that name with, with every reduced value of one more',
                  'alike': 'every two attributes of one kind with the same value, with every reduced value of a third',
                  'nested': 'every reduced and compared-with value of every attribute of a container with every one of every attribute of each of its parts',
                  'echo': 'everything present down to the innermost parts, all texts and numbers equal or all different, with one reduced or compared-with value anywhere in the element or its parts',
                  'siblings': 'list members that differ in one attribute only, in four orders',
                  'embedding': 'every class inside baseline containers up to ' + root}
    run.assumptions = ['numbers and texts outside the enumerated alphabets behave like the enumerated ones',
                       'combinations of more than three (quick: two) non-default attribute values behave like smaller ones',
                       'the token format is the one in mc/spec_*.py']
    run.run([(('checks.fidelity', 'sweep'), j[1:]) for j in jobs]
            + [(('checks.fidelity', 'golden_sweep'), x) for x in corpus(root) if not x[0].startswith('misc') and x[0] not in NOT_GOLDEN])

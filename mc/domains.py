"""Finite attribute domains: baselines and value alphabets."""
from model import Q, V, MODELS

# quoted text.  Backslashes only in complete pairs (the library keeps KiCad's
# escape sequences verbatim; see DESIGN.md).
STRINGS = [
    '', ' ', '  ', 'a', 'Abc', ' lead', 'trail ', ' both ', 'two words', 'a  b', 'tab\tbed', 'line\nbreak', '\n', 'first\n  second\n\n    third\n', ' \n ', 'a  \n\tb', 'cr\rx',
    '"', '""', 'say "hi"', '"quoted"', 'end"', '"start', 'a" b', 'a") (b "c', '"(x)"', "it's", "'", '`',
    '(', ')', '()', '(paren)', 'a(b', 'a)b', ') (', '(at 1 2)', 'x) (y', '[b]{c}<d>',
    'back\\\\slash', '\\\\', 'a\\\\', '\\\\b', '\\n', 'x\\ny\\tz', 'dir\\\\\\\\share', 'q\\\\"q', '\\\\"',
    'None', 'none', 'null', 'True', 'false', 'yes', 'no', 'locked', 'hide', 'private', 'unlocked', 'portrait', 'bold', 'knockout', 'placed',
    'font', 'at', 'effects', 'addsublayer', 'oval', 'User',
    '0', '1', '007', '1.0', '-1', '+5', '1e5', '1e-05', '1.50', '.5', '12345678901234567890', '0x1F', '1,5', 'inf', 'nan',
    '\u00b5F', '\u03a9', 'caf\u00e9', '\u65e5\u672c\u8a9e', '\U0001f600', '\u00a0', '\u2028', 'e\u0301', '\ufeffx',
    '%', '%s', '%d {0}', '{}', '{x}', '{{y}}', '${VAR}', '${KIPRJMOD}/lib.pretty', '%REF', '~', '~{RST}', '^', 'a^b', '#', '# c', ';', ';x', '//', '/', '/a/b', '&', '*', '*.Cu', 'F&B.Cu', '|', '!', '?', '@', '$', '=', '+', '-', '--', '_', ',', '.', ':', 'a:b', '::', '<', '>',
    'vt\x0bx', 'ff\x0cx', 'nel\x85x', 'fs\x1cx', '\t', 'a\r\nb',
    'F.Cu', 'B.Cu', 'B.SilkS', 'F.SilkS', 'In1.Cu', 'Edge.Cuts', 'long ' * 1000, 'x' * 64, 'word ' * 20 + 'end', 'L' * 300, ('"q" (p) ' * 12).strip(),
]
STRINGS = [Q(s) for s in dict.fromkeys(STRINGS)]
NOT_A_NAME = [''] + [str(s) for s in STRINGS if ':' in s or '\n' in s]        # parts of identifiers: not empty, one line, no colon
STR_RED = [Q(s) for s in ['', 'a "b" (c) \\\\ \u00b5', ' locked ', '0']]

# every printable ASCII character alone, doubled and between letters
ASCII_CHARS = [chr(c) for c in range(32, 127) if chr(c) != '\\']

NUMBERS = [
    0, 0.0, 1, -1, 1.0, -1.0, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 359, 360, 512, 999, 1000, 1024, 9999, 10000,
    65535, 65536, 100000, 999999, 1000000, 20211014, 2147483647, 2147483648, 4294967295, 9007199254740991,
    -2, -5, -10, -100, -1000, -123456,
    0.5, -0.5, 0.1, -0.1, 0.2, 0.25, 0.75, 0.05, 0.01, 0.001, 0.0001, -0.0001, 0.0005, 0.12, 0.15, 0.127, 0.254, 0.3333, 0.508, 0.635, 0.762, 0.9, 0.99, 0.999999, 1.016, 1.27, 2.54, -2.54, 3.81, -7.62, 12.7, 25.4, 45, 45.0, 45.5, 90, 90.0, -90, 180, 180.0, 270, 270.0, 359.9, 22.5, -45, -180,
    0.123456, 0.1234567, 0.12345678, 0.123456789, 0.12345678901234567, 1.005, 1.015, 1.15, 2.675, 1234.5678, 123.456789, 1000.0001, 12345.678901, 100000.000001, 123456789.12345678, 0.3, 0.1 + 0.2, 1 / 3,
    0.00001, -0.00001, 0.000001, 1.5e-7, 2.5e-10, 1e16, 1.5e17, -1e22, 9007199254740993, 12345678901234567890, 5e-324, 1e300, -1.7976931348623157e308,
]
_seen = set()
NUMBERS = [x for x in NUMBERS if not ((type(x), x) in _seen or _seen.add((type(x), x)))]
NUM_RED = [0, -1.27, 0.000123]
INTS = [x for x in NUMBERS if isinstance(x, int)]
INT_RED = [0, 1, -1]
UUIDS = ['9d1fd4a5-fd7e-4b1f-8d8f-0fd6f0d3a2b1', '00000000-0000-0000-0000-00005e4b1a2c', '5E1F2A3B', '12e45678', '1e500000', '12345678', 'abc', '61E05432']


class Gen:
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


class Dom:
    optional = False

    def min(self, g):
        raise NotImplementedError

    def full(self, g):
        return self.min(g)

    def alphabet(self):
        raise NotImplementedError

    def reduced(self):
        return self.alphabet()[:4]


class Num(Dom):
    def __init__(self, values=None, red=None):
        self.values = values if values is not None else NUMBERS
        self.red = red if red is not None else (NUM_RED if values is None else values[:3])

    def min(self, g):
        return g.next() + 0.25

    def alphabet(self):
        return self.values

    def reduced(self):
        return self.red


class Int(Num):
    def __init__(self, values=None):
        super().__init__(values if values is not None else INTS, INT_RED if values is None else values[:3])
        self.own = values

    def min(self, g):
        n = g.next()
        return self.own[n % len(self.own)] if self.own else 10 + n


class Dec(Num):
    """numbers with at most `digits` decimals (the format writes a fixed number)"""
    def __init__(self, digits):
        super().__init__([x for x in NUMBERS if round(x, digits) == x and abs(x) < 1e15], [0, -1.27, 0.000125])
        self.digits = digits


class Str(Dom):
    def __init__(self, exclude=(), extra=()):
        self.exclude = set(exclude)
        self.values = [s for s in STRINGS if str(s) not in self.exclude] + [Q(e) for e in extra]

    def min(self, g):
        return Q(f's{g.next()}')

    full = min

    def alphabet(self):
        return self.values

    def reduced(self):
        return [s for s in STR_RED if str(s) not in self.exclude]


class Word(Dom):
    """bare word out of a fixed vocabulary"""
    def __init__(self, words):
        self.words = list(words)

    def min(self, g):
        return self.words[g.next() % len(self.words)]

    def alphabet(self):
        return self.words

    def reduced(self):
        return self.words[:3]


class Uuid(Dom):
    def min(self, g):
        return 'abcdef00-0000-4000-8000-%012x' % g.next()

    def alphabet(self):
        return UUIDS

    def reduced(self):
        return UUIDS[:3]


class Flag(Dom):
    def min(self, g):
        return False

    def full(self, g):
        return True

    def alphabet(self):
        return [False, True]

    reduced = alphabet


class TFlag(Dom):
    """a boolean that is always written"""
    def min(self, g):
        return bool(g.next() % 2)

    def alphabet(self):
        return [False, True]

    reduced = alphabet


class Const(Dom):
    def __init__(self, v):
        self.v = v

    def min(self, g):
        return self.v

    def alphabet(self):
        return []


class Opt(Dom):
    optional = True

    def __init__(self, inner):
        self.inner = inner

    def min(self, g):
        return None

    def full(self, g):
        return self.inner.full(g)

    def alphabet(self):
        return [None] + self.inner.alphabet()

    def reduced(self):
        return [None] + self.inner.reduced()


class Sub(Dom):
    def __init__(self, cls):
        self.cls = cls

    def min(self, g):
        return base(self.cls, 'min', g)

    def full(self, g):
        return base(self.cls, 'min', g)

    def alphabet(self):
        return sub_devs(self.cls)

    def reduced(self):
        return [base(self.cls, 'min', Gen2(500)), base(self.cls, 'full', Gen2(700))]

    def holds(self, x):
        """may this part stand here?"""
        return True


class Pos(Dom):
    """Position as used in one place: which of its attributes carry meaning there"""
    def __init__(self, angle=False, unlocked=False):
        self.angle, self.unlocked = angle, unlocked

    def mk(self, x, y, a=None, u=False):
        return V('Position', {'X': x, 'Y': y, 'angle': a, 'unlocked': u})

    def min(self, g):
        return self.mk(g.next() + 0.5, -(g.next() + 0.75))

    def full(self, g):
        return self.mk(g.next() + 0.5, -(g.next() + 0.75), g.next() if self.angle else None, self.unlocked)

    def alphabet(self):
        out = [self.mk(n, 8.5) for n in NUMBERS] + [self.mk(8.25, n) for n in NUMBERS]
        if self.angle:
            out += [self.mk(1.5, -2.5, n) for n in NUMBERS]
        if self.unlocked:
            out += [self.mk(3, 4, None, True), self.mk(3, 4, 0, True), self.mk(3, 4, 90, True), self.mk(0, 0, 0.0, True), self.mk(0, 0, 180, False)]
        return out

    def reduced(self):
        out = [self.mk(0, 0), self.mk(-1.27, 0.000123)]
        if self.angle:
            out.append(self.mk(0, 2, 0))
            out.append(self.mk(5, 2, 90))
        if self.unlocked:
            out.append(self.mk(0, 2, 90, True))
            out.append(self.mk(1, 2, None, True))
        return out


class ListOf(Dom):
    """list of values of a domain; lengths 0..maxlen explored"""
    def __init__(self, inner, minlen=0, maxlen=9, lens=None):
        self.inner, self.minlen, self.maxlen = inner, minlen, maxlen

    def items(self, n, start=300):
        g = Gen2(start)
        return [self.inner.min(g) if i % 2 == 0 else self.inner.full(g) for i in range(n)]

    def min(self, g):
        return [self.inner.min(g) for _ in range(self.minlen)]

    def full(self, g):
        return [self.inner.min(g) for _ in range(max(2, self.minlen))]

    def alphabet(self):
        out = []
        for n in range(self.minlen, self.maxlen + 1):
            out.append(self.items(n))
        base_n = max(self.minlen, 1)
        for x in self.inner.alphabet():
            out.append([x] + self.items(base_n - 1))
            rest = self.items(max(base_n, 2), 400)
            out.append(rest[:1] + [x] + rest[1:])
            out.append(rest[:1] + [x] + rest[:1])
        one = self.items(1)[0]
        two = self.items(2, 450)[1]
        for pat in ([one, one], [one, two, one], [two, one, two, one], [one, one, two, two]):
            if len(pat) >= self.minlen:
                out.append(list(pat))
        out.append(self.items(5)[::-1])
        out.append(self.mixed())
        out.append(self.mixed()[::-1])
        for n in (17, 40, 70 if isinstance(self.inner, Sub) else 300):
            out.append(self.items(n))
        return [x for x in out if len(x) >= self.minlen]

    def reduced(self):
        out = [self.items(n) for n in (0, 1, 3) if n >= self.minlen]
        return out + [self.mixed()]

    def mixed(self):
        """members of different kind and size in no particular order, one of them twice"""
        i, r = self.items(4), self.inner.reduced()
        return [i[2], r[-1], i[0], r[0], i[3], i[0], i[1]]


class FixedList(Dom):
    def __init__(self, inner, sizes):
        self.inner, self.sizes = inner, sizes

    def items(self, n, start=300):
        g = Gen2(start)
        return [self.inner.min(g) for _ in range(n)]

    def min(self, g):
        return [self.inner.min(g) for _ in range(self.sizes[0])]

    def full(self, g):
        return [self.inner.min(g) for _ in range(self.sizes[-1])]

    def alphabet(self):
        out = [self.items(n) for n in self.sizes]
        n = self.sizes[-1]
        for x in self.inner.alphabet():
            for k in range(n):
                l = self.items(n)
                l[k] = x
                out.append(l)
        return out

    def reduced(self):
        return [self.items(n) for n in self.sizes]


class Poly(Dom):
    """heterogeneous list: elements drawn from several domains"""
    def __init__(self, *classes):
        self.classes = classes

    def min(self, g):
        return []

    def full(self, g):
        return [base(c, 'min', g) for c in self.classes]

    def alphabet(self):
        out = [[]]
        for c in self.classes:
            for x in sub_devs(c):
                out.append([x])
                # between two equal members, of its own and of another kind
                for a in dict.fromkeys((c, self.classes[self.classes.index(c) - 1])):
                    one = base(a, 'min', Gen2(300))
                    out.append([one, x, one])
        # every ordered pair of element kinds, every kind doubled, whole palette both ways
        for a in self.classes:
            for b in self.classes:
                g = Gen2(300)
                out.append([base(a, 'min', g), base(b, 'min', g)])
                out.append([base(a, 'min', g), base(b, 'full', g), base(a, 'full', g)])
        g = Gen2(300)
        out.append([base(c, 'full', g) for c in self.classes])
        out.append([base(c, 'min', g) for c in reversed(self.classes)])
        out += [self.items(n) for n in (24, 70)] + [self.items(40, (c,)) for c in self.classes]
        return out

    def items(self, n, classes=None):
        """n members: of the given kinds, or of all kinds in turn"""
        g, cs = Gen2(300), classes or self.classes
        return [base(cs[i % len(cs)], 'full' if i % 5 == 3 else 'min', g) for i in range(n)]

    def reduced(self):
        g = Gen2(600)
        out = [[], [base(self.classes[0], 'min', g)], [base(c, 'min', g) for c in reversed(self.classes)]]
        one = base(self.classes[-1], 'min', g)
        return out + [[one, base(self.classes[0], 'full', g), one, base(self.classes[0], 'min', g)]]


class DictOf(Dom):
    def __init__(self, key, val):
        self.key, self.val = key, val

    def min(self, g):
        return {}

    def full(self, g):
        return {self.key.min(g): self.val.min(g), self.key.min(g): self.val.min(g)}

    def items(self, n):
        g = Gen2(300)
        out = {}
        while len(out) < n:
            out[self.key.min(g)] = self.val.min(g)
        return out

    def alphabet(self):
        out = [self.items(n) for n in range(0, min(10, len(self.key.alphabet())))]
        g = Gen2(350)
        for k in self.key.alphabet():
            out.append({k: self.val.min(g)})
            d = self.items(2)
            if k not in d:
                d[k] = self.val.min(g)
            out.append(d)
            if k not in self.items(2):
                a, b = self.items(2).items()
                out.append(dict([(k, self.val.min(g)), a, b]))
                out.append(dict([a, (k, self.val.min(g)), b]))
        for v in self.val.alphabet():
            d = self.items(1)
            d[list(d)[0]] = v
            out.append(d)
        d = self.items(5)
        out.append({k: d[k] for k in reversed(list(d))})
        if self.endless():
            out += [self.items(n) for n in (17, 40, 300)]
        return out

    def endless(self):
        return isinstance(self.key, Str)

    def reduced(self):
        d = self.items(5)
        return [self.items(0), self.items(1), self.items(3), {k: d[k] for k in (list(d)[i] for i in (3, 0, 4, 2, 1))}]


class Gen2(Gen):
    def __init__(self, n):
        self.n = n


class Same(Gen):
    """all numbers and texts of the baseline are equal"""
    def next(self):
        return 3


def sames(cls):
    m = MODELS[cls]
    for kind in ('min', 'full'):
        v = base(cls, kind, Same())
        if m.valid(v):
            yield v
            if kind == 'full':      # two equal members in every list
                d = {k: [dom.inner.min(Same()), dom.inner.min(Same())] for k, dom in m.fields.items() if type(dom) is ListOf}
                w = v.with_(**d)
                if d and m.valid(w):
                    yield w


# --------------------------------------------------------------------------
_base_cache = {}


def base(cls, kind, g=None):
    """baseline value of a model class: 'min' (optional parts absent, flags off,
    lists shortest) or 'full' (everything present, children minimal).  All
    numbers and texts are pairwise different."""
    m = MODELS[cls]
    g = g or Gen()
    d = {}
    for k, dom in m.fields.items():
        d[k] = dom.min(g) if kind == 'min' else dom.full(g)
    v = V(cls, d)
    if not m.valid(v):
        fix = getattr(m, 'repair', None)
        if fix:
            v = fix(v)
    return v


def bases(cls):
    return [base(cls, 'min'), base(cls, 'full')]


_sub_cache = {}


def sub_devs(cls):
    """values of `cls` used when it appears inside something else: both
    baselines and every single attribute deviation with the reduced alphabets"""
    if cls not in _sub_cache:
        m = MODELS[cls]
        out = []
        for kind in ('min', 'full'):
            b = base(cls, kind, Gen2(500 if kind == 'min' else 800))
            if m.valid(b):
                out.append(b)
            for k, dom in m.fields.items():
                for x in dom.reduced():
                    v = b.with_(**{k: x})
                    if m.valid(v) and m.loadable(v):
                        out.append(v)
        _sub_cache[cls] = out
    return _sub_cache[cls]


def devs1(cls, deep=False):
    """baselines and every single-attribute deviation, full alphabets"""
    m = MODELS[cls]
    for kind in ('min', 'full'):
        b = base(cls, kind)
        if m.valid(b):
            yield b
        for k, dom in m.fields.items():
            for x in dom.alphabet():
                v = b.with_(**{k: x})
                if m.valid(v):
                    yield v
    yield from sames(cls)
    if m.extra:
        yield from m.extra()


def paired(dom):
    """values of an attribute used in combinations: every word of a vocabulary, otherwise the reduced alphabet"""
    if isinstance(dom, Word):
        return dom.words
    if isinstance(dom, Opt) and isinstance(dom.inner, Word):
        return [None] + dom.inner.words
    return dom.reduced()


def devs2(cls):
    """every pair of attribute deviations, reduced alphabets (all words of vocabularies)"""
    m = MODELS[cls]
    ks = list(m.fields)
    red = {k: paired(m.fields[k]) for k in ks}
    for kind in ('min', 'full'):
        b = base(cls, kind)
        for i, k1 in enumerate(ks):
            for k2 in ks[i + 1:]:
                for x in red[k1]:
                    for y in red[k2]:
                        v = b.with_(**{k1: x, k2: y})
                        if m.valid(v):
                            yield v


def devs3(cls):
    m = MODELS[cls]
    ks = list(m.fields)
    red = {k: m.fields[k].reduced()[:3] for k in ks}
    for kind in ('min', 'full'):
        b = base(cls, kind)
        for i, k1 in enumerate(ks):
            for j in range(i + 1, len(ks)):
                k2 = ks[j]
                for k3 in ks[j + 1:]:
                    for x in red[k1]:
                        for y in red[k2]:
                            for z in red[k3]:
                                v = b.with_(**{k1: x, k2: y, k3: z})
                                if m.valid(v):
                                    yield v


# --------------------------------------------------------------------------
# structure of the model: which classes occur inside which
def dom_classes(dom):
    if isinstance(dom, Poly):
        return list(dom.classes)
    if isinstance(dom, Sub):
        return [dom.cls]
    if isinstance(dom, (Opt, ListOf, FixedList)):
        return dom_classes(dom.inner)
    if isinstance(dom, DictOf):
        return dom_classes(dom.key) + dom_classes(dom.val)
    return []


def wrap(dom, x):
    """a value of `dom` holding x"""
    if isinstance(dom, (Poly, ListOf)):
        return [x]
    if isinstance(dom, Opt):
        return wrap(dom.inner, x)
    return x


def closure(root):
    """{class: path} for every class reachable from root; path = [(container, field), ...]"""
    out = {root: []}
    todo = [root]
    while todo:
        c = todo.pop(0)
        for k, dom in MODELS[c].fields.items():
            for d in dom_classes(dom):
                if d not in out:
                    out[d] = out[c] + [(c, k)]
                    todo.append(d)
    return out


def embed(path, x, kind='min', start=2000):
    """put x into a chain of baseline containers up to the root; None when a
    container on the way does not allow it"""
    for c, k in reversed(path):
        g = Gen2(start)
        start += 100
        x = base(c, kind, g).with_(**{k: wrap(MODELS[c].fields[k], x)})
        if not MODELS[c].valid(x):
            return None
    return x


def presence(cls, limit=10):
    """every combination of present/absent optional parts and flags (all of
    them when there are at most `limit`, otherwise up to three present or up to
    three absent)"""
    from itertools import combinations
    m = MODELS[cls]
    lo, hi = base(cls, 'min', Gen2(500)), base(cls, 'full', Gen2(800))
    ks = [k for k, dom in m.fields.items() if isinstance(dom, (Flag, TFlag, Opt, ListOf, Poly, DictOf, FixedList))]
    n = len(ks)
    if n <= limit:
        sizes = range(n + 1)
    else:
        sizes = sorted({0, 1, 2, 3, n - 3, n - 2, n - 1, n})
    for r in sizes:
        for on in combinations(ks, r):
            d = dict(lo.d)
            for k in ks:
                dom = m.fields[k]
                if isinstance(dom, TFlag):
                    d[k] = k in on
                elif isinstance(dom, Flag):
                    d[k] = k in on
                else:
                    d[k] = hi.d[k] if k in on else lo.d[k]
            v = V(cls, d)
            if m.valid(v):
                yield v

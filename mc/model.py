"""Core of the reference model.

A *model value* is a `V`: the name of a kiutils dataclass plus a dict of its
attributes, whose values are plain Python data or further `V`s.  A *token tree*
is a `Node` (list) whose elements are further Nodes, `Q` (quoted text), plain
`str` (bare word) or numbers.  Both are independent of kiutils: the library is
only touched by `build` (V -> real object) and `lift` (real object -> V).
"""
import importlib
import re
import sys

MODELS = {}          # name -> ModelClass


class Q(str):
    """A quoted text atom of a token tree."""
    __slots__ = ()


class Node(list):
    """A parenthesised token.  nfixed: number of leading elements whose
    position is significant; open: unknown child tokens may be inserted;
    rigid: children must keep their order; groups: heads that share one list
    attribute and therefore keep their relative order."""
    def __init__(self, items=(), nfixed=None, open=False, rigid=False, groups=()):
        super().__init__(items)
        self.nfixed = nfixed
        self.open = open
        self.rigid = rigid
        self.groups = groups

    def fixed(self):
        if self.nfixed is not None:
            return self.nfixed
        n = 0
        for e in self:
            if isinstance(e, Node):
                break
            n += 1
        return n


class V:
    __slots__ = ('c', 'd')

    def __init__(self, c, d):
        object.__setattr__(self, 'c', c)
        object.__setattr__(self, 'd', d)

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(f'{self.c}.{k}')

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return V(self.c, d)

    def __repr__(self):
        return f'{self.c}({", ".join(f"{k}={v!r}" for k, v in self.d.items())})'


# --------------------------------------------------------------------------
# token tree construction helpers
def T(head, *children, nfixed=None, open=True, rigid=False, groups=()):
    out = [head]
    for c in children:
        if c is None or c is False:
            continue
        if type(c) is tuple:            # splice
            out.extend(x for x in c if x is not None)
        else:
            out.append(c)
    return Node(out, nfixed, open, rigid, groups)


def A(head, *atoms):
    """A closed leaf token: every element positional."""
    return Node([head] + [a for a in atoms if a is not None], nfixed=1 + sum(a is not None for a in atoms))


def opt(head, value, quoted=False):
    if value is None:
        return None
    return A(head, Q(value) if quoted else value)


def q(head, value):
    return A(head, Q(value))


def oq(head, value):
    return opt(head, value, True)


def flag(cond, word):
    return word if cond else None


def xy(head, p, angle=False, unlocked=False):
    if p is None:
        return None
    return A(head, p.X, p.Y, p.angle if angle else None,
             'unlocked' if unlocked and p.unlocked else None)


def pts(points, head='pts'):
    return Node([head] + [A('xy', p.X, p.Y) for p in points], nfixed=1, rigid=True)


# --------------------------------------------------------------------------
# printing token trees (reference writer, several layouts)
def num_text(x):
    if isinstance(x, bool):
        return 'yes' if x else 'no'
    return repr(x) if isinstance(x, float) else str(x)


def atom_text(a):
    if isinstance(a, Q):
        return '"' + str(a).replace('"', '\\"') + '"'
    if isinstance(a, str):
        return a
    return num_text(a)


def to_text(t, layout=0):
    """layout 0: one line, single blanks.  1: every child token on its own,
    two-blank indented line (KiCad style).  2: doubled blanks everywhere,
    surrounded by line breaks and tabs."""
    if layout == 0:
        def f(n):
            return '(' + ' '.join(f(e) if isinstance(e, Node) else atom_text(e) for e in n) + ')'
        return f(t)
    if layout == 1:
        def g(n, ind):
            s = '('
            first = True
            for e in n:
                if isinstance(e, Node):
                    # a bare number directly before a line break is written with a blank after it
                    s += ('' if s[-1] == '(' else ' ') + '\n' + ' ' * (ind + 2) + g(e, ind + 2)
                else:
                    s += ('' if s[-1] == '(' else ' ') + atom_text(e)
                first = False
            return s + ')'
        return g(t, 0) + '\n'
    if layout == 2:
        def h(n):
            return '( ' + '  '.join(h(e) if isinstance(e, Node) else atom_text(e) for e in n) + '  )'
        return '\n\t' + h(t) + ' \n\n'
    raise ValueError(layout)


def forest_text(trees, layout=0):
    return '\n'.join(to_text(t, layout) for t in trees) + '\n'


# --------------------------------------------------------------------------
# reference reader: text -> forest of token trees.  Hand written scanner, no
# code shared with the library.
class BadText(Exception):
    pass


def ref_tokens(s):
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\r\n\f\v':
            i += 1
        elif c == '(' or c == ')':
            yield (c, c)
            i += 1
        elif c == '"':
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise BadText('unterminated quoted text')
                d = s[j]
                if d == '\\':
                    if j + 1 >= n:
                        raise BadText('unterminated quoted text')
                    # only \" is an escape of the data model, every other
                    # backslash pair is content and stays as it is
                    if s[j + 1] == '"':
                        buf.append('"')
                    else:
                        buf.append(d + s[j + 1])
                    j += 2
                elif d == '"':
                    break
                else:
                    buf.append(d)
                    j += 1
            if j + 1 < n and s[j + 1] not in ' \t\r\n\f\v()':
                raise BadText('text directly after a quoted text')
            yield ('q', ''.join(buf))
            i = j + 1
        else:
            j = i
            while j < n and s[j] not in ' \t\r\n\f\v()"':
                j += 1
            if j < n and s[j] == '"':
                raise BadText('quote inside a bare word')
            yield ('b', s[i:j])
            i = j


def ref_read(s):
    """-> list of top level token trees; bare words stay text."""
    out = Node()
    stack = []
    for k, x in ref_tokens(s):
        if k == '(':
            stack.append(out)
            out = Node()
        elif k == ')':
            if not stack:
                raise BadText('unbalanced )')
            t = out
            out = stack.pop()
            out.append(t)
        elif k == 'q':
            out.append(Q(x))
        else:
            out.append(x)
    if stack:
        raise BadText('unbalanced (')
    return out


NUMRE = re.compile(r'[+-]?\d+(\.\d+)?([eE][+-]\d+)?\Z')


def atom_eq(expected, got):
    """expected: model atom, got: atom read back by ref_read."""
    if isinstance(expected, Q) or isinstance(got, Q):
        return isinstance(expected, Q) and isinstance(got, Q) and str(expected) == str(got)
    if isinstance(expected, str):
        return expected == got
    # a number: same value, printed as a plain number
    if not NUMRE.match(got):
        return False
    if isinstance(expected, int):
        try:
            return int(got) == expected
        except ValueError:
            return float(got) == expected
    return float(got) == float(expected)


def tree_diff(exp, got, path=''):
    """None when equal, otherwise a readable description of the first difference."""
    if isinstance(exp, Node) != isinstance(got, Node):
        return f'{path}: expected {short(exp)}, got {short(got)}'
    if not isinstance(exp, Node):
        return None if atom_eq(exp, got) else f'{path}: expected {exp!r}, got {got!r}'
    head = str(exp[0]) if exp and not isinstance(exp[0], Node) else ''
    for i in range(max(len(exp), len(got))):
        if i >= len(exp):
            return f'{path}/{head}: unexpected {short(got[i])}'
        if i >= len(got):
            return f'{path}/{head}: missing {short(exp[i])}'
        d = tree_diff(exp[i], got[i], f'{path}/{head}[{i}]')
        if d:
            return d
    return None


def short(t, n=120):
    try:
        s = to_text(t) if isinstance(t, Node) else repr(t)
    except Exception:
        s = repr(t)
    return s if len(s) <= n else s[:n] + '...'


# --------------------------------------------------------------------------
# model classes
class ModelClass:
    def __init__(self, name, module, fields, tree, valid, loadable, norm, root):
        self.name, self.module, self.fields = name, module, fields
        self.tree = tree
        self.valid = valid
        self.loadable = loadable
        self.norm = norm
        self.root = root

    def real(self):
        return getattr(importlib.import_module(self.module), self.real_name)


def model(name, module, fields, valid=None, loadable=None, norm=None, root=True, repair=None, real=None, extra=None):
    """norm(v): the value expected after loading what was saved (identity unless
    the format itself cannot express the difference)."""
    def deco(fn):
        MODELS[name] = ModelClass(name, 'kiutils.' + module, fields, fn,
                                  valid or (lambda v: True),
                                  loadable or (lambda v: True), norm, root)
        MODELS[name].repair = repair
        MODELS[name].real_name = real or name
        MODELS[name].extra = extra
        return fn
    return deco


def tree(v):
    return MODELS[v.c].tree(v)


def build(v):
    """model value -> real kiutils object (plain construction + attribute assignment)"""
    if isinstance(v, V):
        cls = MODELS[v.c].real()
        o = cls()
        for k, x in v.d.items():
            setattr(o, k, build(x))
        return o
    if isinstance(v, list):
        return [build(x) for x in v]
    if isinstance(v, dict):
        return {build(k): build(x) for k, x in v.items()}
    if isinstance(v, Q):
        return str(v)
    return v


def value_diff(exp, got, path='', strict=True):
    """Compare a model value with a real object."""
    if isinstance(exp, V):
        if type(got).__name__ != MODELS[exp.c].real_name:
            return f'{path}: expected {exp.c}, got {type(got).__name__} {got!r:.80}'
        for k, x in exp.d.items():
            if not hasattr(got, k):
                return f'{path}.{k}: attribute missing'
            d = value_diff(x, getattr(got, k), f'{path}.{k}', strict)
            if d:
                return d
        return None
    if isinstance(exp, list):
        if not isinstance(got, list):
            return f'{path}: expected a list, got {got!r:.80}'
        if len(exp) != len(got):
            return f'{path}: expected {len(exp)} items, got {len(got)}'
        for i, (a, b) in enumerate(zip(exp, got)):
            d = value_diff(a, b, f'{path}[{i}]', strict)
            if d:
                return d
        return None
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return f'{path}: expected a dict, got {got!r:.80}'
        if list(exp) != list(got):
            return f'{path}: expected keys {list(exp)!r:.120}, got {list(got)!r:.120}'
        for k in exp:
            d = value_diff(exp[k], got[k], f'{path}[{k!r}]', strict)
            if d:
                return d
        return None
    if exp is None or isinstance(exp, bool):
        return None if got is exp else f'{path}: expected {exp!r}, got {got!r:.80}'
    if isinstance(exp, (int, float)):
        if isinstance(got, bool) or not isinstance(got, (int, float)):
            return f'{path}: expected number {exp!r}, got {got!r:.80}'
        return None if got == exp else f'{path}: expected {exp!r}, got {got!r}'
    # text.  Bare words made of digits load as numbers: compare their text
    if isinstance(exp, Q):
        return None if isinstance(got, str) and got == str(exp) else f'{path}: expected text {str(exp)!r:.120}, got {got!r:.120}'
    if isinstance(got, bool) or not isinstance(got, (str, int)):
        return f'{path}: expected {exp!r:.120}, got {got!r:.120}'
    return None if str(got) == exp else f'{path}: expected {exp!r:.120}, got {got!r:.120}'

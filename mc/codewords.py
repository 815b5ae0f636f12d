"""Constants of the code under test, as additional values of the alphabets.

Every literal a piece of code compares with, splits at or measures against is a
value at which its behaviour may change.  All text and number literals of the
library's current source (docstrings excluded) are collected and, with close
variants of each, used as values of the text and number places and as lengths
of texts and lists.  They only widen the enumeration; what is expected of a
value does not depend on them."""
import ast
import glob
import os
import re
from functools import lru_cache
from engine import REPO


@lru_cache(None)
def literals():
    texts, parts, nums = set(), set(), set()
    for p in sorted(glob.glob(os.path.join(REPO, 'src', 'kiutils', '**', '*.py'), recursive=True)):
        with open(p, encoding='utf-8') as f:
            t = ast.parse(f.read())
        doc = set()
        for n in ast.walk(t):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                doc.add(id(n.value))
            if isinstance(n, ast.JoinedStr):
                for c in n.values:
                    if isinstance(c, ast.Constant):
                        parts.add(c.value)
                        doc.add(id(c))
        for n in ast.walk(t):
            if isinstance(n, ast.Constant) and id(n) not in doc:
                v = n.value
                if isinstance(v, str):
                    texts.add(v)
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    nums.add(v)
    return tuple(sorted(texts)), tuple(sorted(parts)), tuple(sorted(nums, key=lambda x: (x, str(type(x)))))


def complete(s):
    """backslashes only as complete escape pairs"""
    return not s.replace('\\\\', '').replace('\\n', '').replace('\\t', '').replace('\\r', '').count('\\')


def usable(s):
    """a text of the text places' domain: complete escapes, no carriage return, encodable"""
    return complete(s) and '\r' not in s and '\0' not in s and not any('\ud800' <= c <= '\udfff' for c in s)


@lru_cache(None)
def words():
    """the literals themselves (the words inside format templates separately) and near misses of each"""
    plain, inner = set(), set()
    for s in literals()[0]:
        if len(s) <= 60 and complete(s):
            plain.add(s)
    for s in literals()[0] + literals()[1]:
        for w in s.replace('(', ' ').replace(')', ' ').replace('"', ' ').split():
            if complete(w) and len(w) <= 30:
                inner.add(w)
    out = plain | inner
    for w in plain:
        for x in (w.lower(), w.upper(), w.capitalize(), w + 'x', 'x' + w, w + ' x', 'x ' + w, w[:-1], w.strip()):
            out.add(x)
    return tuple(sorted(filter(usable, plain))), tuple(sorted(filter(usable, out)))


@lru_cache(None)
def lengths(limit):
    """lengths at which the code may change its behaviour"""
    out = set()
    for n in literals()[2]:
        if abs(n) > 1e9 or n != n:
            continue
        n = int(n)
        for k in (n - 1, n, n + 1):
            if 0 <= k <= limit:
                out.add(k)
    return tuple(sorted(out))


@lru_cache(None)
def numbers():
    out = []
    for n in literals()[2]:
        if abs(n) > 1e15 or n != n:
            continue
        for x in (n, -n, n + 1, n - 1, n + 0.5, n - 0.5, n + 0.0001, n - 0.0001, float(n), n * 10, n / 10):
            x = x if x != 0 else abs(x)
            if not any(type(y) is type(x) and y == x for y in out):
                out.append(x)
    return tuple(out)


TEXT_METHODS = {x for t in (str, list, dict, re) for x in dir(t) if not x.startswith('_')} - {'append', 'extend', 'insert', 'update', 'join', 'format'}


def decides(n):
    """operands of an expression that tells values apart: comparisons and text methods, but not looking up token names"""
    if isinstance(n, ast.Compare):
        ops = [n.left] + n.comparators
        if any(isinstance(o, ast.Subscript) and isinstance(o.slice, ast.Constant) and o.slice.value == 0 for o in ops):
            return []
        return ops
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in TEXT_METHODS:
        return [a for a in n.args if not isinstance(a, (ast.Call, ast.JoinedStr))]
    if isinstance(n, ast.MatchValue):
        return [n.value]
    return []


@lru_cache(None)
def compared():
    """(texts, numbers) the code compares attribute values with"""
    texts, nums = set(), set()
    for p in sorted(glob.glob(os.path.join(REPO, 'src', 'kiutils', '**', '*.py'), recursive=True)):
        with open(p, encoding='utf-8') as f:
            t = ast.parse(f.read())
        for n in ast.walk(t):
            for o in decides(n):
                todo = [o]
                while todo:
                    c = todo.pop()
                    if isinstance(c, ast.Constant):
                        v = c.value
                        if isinstance(v, str) and usable(v) and len(v) <= 60:
                            texts.add(v)
                        elif isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) < 1e15:
                            nums.add(v)
                    elif isinstance(c, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.UnaryOp, ast.BinOp)):
                        todo.extend(ast.iter_child_nodes(c))
    return tuple(sorted(texts)), tuple(sorted(nums, key=lambda x: (x, str(type(x)))))


def _names(n):
    """names of the attributes (or loop variables) an operand looks at"""
    out, length = [], False
    for c in ast.walk(n):
        if isinstance(c, ast.Attribute):
            out.append(c.attr)
        elif isinstance(c, ast.Name):
            out.append(c.id)
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'len':
            length = True
    return out, length


def _constants(n):
    return [c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, (str, int, float)) and not isinstance(c.value, bool)]


@lru_cache(None)
def of_attributes():
    """{name: (texts, numbers, lengths)} the code compares an attribute of that name with"""
    out = {}

    def add(names, consts, length):
        for a in names:
            t, n, l = out.setdefault(a, (set(), set(), set()))
            for v in consts:
                if isinstance(v, str):
                    if usable(v) and len(v) <= 60:
                        t.add(v)
                elif abs(v) < 1e9:
                    (l if length else n).add(v)
    for p in sorted(glob.glob(os.path.join(REPO, 'src', 'kiutils', '**', '*.py'), recursive=True)):
        with open(p, encoding='utf-8') as f:
            t = ast.parse(f.read())
        for n in ast.walk(t):
            ops = decides(n)
            if isinstance(n, ast.Call) and ops:
                ops = ops + [n.func.value]
            names, consts, length = [], [], False
            for o in ops:
                a, l = _names(o)
                names += a
                length = length or l
                consts += _constants(o)
            if consts:
                add(names, consts, length)
    return out


@lru_cache(None)
def pieces():
    """texts made of what the code looks for inside texts (two such literals at a time), each with and without neighbours"""
    found = set()
    for p in sorted(glob.glob(os.path.join(REPO, 'src', 'kiutils', '**', '*.py'), recursive=True)):
        with open(p, encoding='utf-8') as f:
            t = ast.parse(f.read())
        for n in ast.walk(t):
            ops = []
            if isinstance(n, ast.Call):
                ops = decides(n)
            elif isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                ops = [n.left]
            elif isinstance(n, ast.Compare) and any(isinstance(c, ast.Subscript) and not isinstance(c.slice, ast.Constant) for c in [n.left] + n.comparators):
                ops = [c for c in decides(n) if isinstance(c, ast.Constant)]
            for o in ops:
                found |= {c for c in _constants(o) if isinstance(c, str) and c and usable(c) and len(c) <= 30}
    out = set()
    for a in found:
        out |= {a, 'x' + a, a + 'x', 'x' + a + 'x', a + a, 'x' + a + 'y' + a + 'x'}
        for b in found:
            out |= {a + b, 'x' + a + b, a + 'x' + b, 'x' + a + 'y' + b, 'x' + a + 'y' + b + 'z'}
    return tuple(sorted(filter(usable, out)))

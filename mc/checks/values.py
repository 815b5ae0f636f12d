"""C02 quoted text, C03 numbers: every place of every class that holds a free
text or a number, crossed with an exhaustively enumerated set of values; each
state is saved, read by the reference reader, and loaded again."""
import re
import codewords
from itertools import product
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.fidelity import parse, wrap_text, saved_tree, check_save, check_load
from checks.shapes import all_classes
from domains import (ASCII_CHARS, NUMBERS, STRINGS, Dec, DictOf, FixedList, Gen2, Int, ListOf, Num, Opt, Poly, Pos, Str, Sub, base, closure, embed)
from engine import oracle
from lift import FILETYPES
from model import MODELS, Q, V, build, ref_read, to_text, tree, tree_diff, value_diff


def sites(dom, kind):
    """functions putting a value into a field of domain `dom`: [(name, leaf domain, fn)]"""
    if isinstance(dom, Str) and kind == 'text':
        return [('', dom, lambda x: x)]
    if isinstance(dom, Num) and kind == 'number':
        return [('', dom, lambda x: x)]
    if isinstance(dom, Pos) and kind == 'number':
        out = [('.X', Num(), lambda x: dom.mk(x, 8.5)), ('.Y', Num(), lambda x: dom.mk(-8.25, x))]
        if dom.angle:
            out.append(('.angle', Num(), lambda x: dom.mk(1.5, 2.5, x)))
        return out
    if isinstance(dom, Opt):
        return sites(dom.inner, kind)
    if isinstance(dom, Sub) and not MODELS[dom.cls].root:       # written by its owner
        return [(f'.{k}{n}', d, lambda x, k=k, f=f, b=b: base(dom.cls, b, Gen2(7500)).with_(**{k: f(x)}))
                for b in ('full', 'min') for k, inner in MODELS[dom.cls].fields.items() for n, d, f in sites(inner, kind)]
    if isinstance(dom, ListOf):
        def lst(f, pos):
            def g(x):
                items = dom.items(max(2, dom.minlen), 7000)
                items.insert(pos, f(x))
                return items
            return g
        return [(f'[{p}]{n}', d, lst(f, p)) for n, d, f in sites(dom.inner, kind) for p in (0, 1, max(2, dom.minlen))]
    if isinstance(dom, FixedList):
        def fix(f, size, pos):
            def g(x):
                items = dom.items(size, 7000)
                items[pos] = f(x)
                return items
            return g
        return [(f'[{p}/{s}]{n}', d, fix(f, s, p)) for n, d, f in sites(dom.inner, kind) for s in dom.sizes for p in range(s)]
    if isinstance(dom, DictOf):
        out = []
        for n, d, f in sites(dom.key, kind):
            out.append((f'key{n}', d, lambda x, f=f: {f(x): dom.val.min(Gen2(7000))}))
        for n, d, f in sites(dom.val, kind):
            def g(x, f=f):
                m = dom.items(2)
                m[list(m)[0]] = f(x)
                return m
            out.append((f'value{n}', d, g))
        return out
    return []


def all_sites(kind):
    out = []
    for c in all_classes():
        for k, dom in MODELS[c].fields.items():
            for i, (n, d, f) in enumerate(sites(dom, kind)):
                out.append((c, k, i, n, d, f))
    return out


def allowed(c, k, d, x):
    """is x a value of this site?  (same rule the fixed alphabets of the domains follow)"""
    if (c, k) == ('Pad', 'layers') and ('*.' in x or '&' in x) and re.search(r'[\s()"]', x):
        return False        # layer masks (*.Cu, F&B.Cu) are bare words
    if isinstance(d, Str):
        if 'a:b' in d.exclude:          # name part of an identifier
            if not x or ':' in x or '\n' in x:
                return False
            if c in ('Symbol', 'SymbolUnit') and re.search(r'_[0-9]+_[0-9]+\Z', x):
                return False
        elif x in d.exclude:
            return False
        return True
    if isinstance(d, Dec):
        return round(x, d.digits) == x and abs(x) < 1e15
    if isinstance(d, Int):
        return isinstance(x, int) and (d.own is None or x in d.own)
    return d.values is NUMBERS


@oracle
def value_at(c, k, i, kind, bkind, x):
    name, d, f = sites(MODELS[c].fields[k], kind)[i]
    v = base(c, bkind).with_(**{k: f(Q(x) if kind == 'text' else x)})
    if not MODELS[c].valid(v):
        return None
    s, e = check_save(v)
    if e:
        return f'{c}.{k}{name} = {x!r:.100}: {e}'
    if not MODELS[c].loadable(v):
        return None
    e = check_load(v, wrap_text(v, s), 'reload') or check_load(v, to_text(tree(v)), 'load')
    return f'{c}.{k}{name} = {x!r:.100}: {e}' if e else None


@oracle
def value_in(root, c, k, i, kind, x):
    """the same place inside a whole file"""
    name, d, f = sites(MODELS[c].fields[k], kind)[i]
    v = base(c, 'min').with_(**{k: f(Q(x) if kind == 'text' else x)})
    if not MODELS[c].valid(v) or not MODELS[c].loadable(v):
        return None
    v = embed(closure(root)[c], v)
    if v is None:
        return None
    s, e = check_save(v)
    e = e or check_load(v, wrap_text(v, s), 'reload')
    return f'{root}: {c}.{k}{name} = {x!r:.100}: {e}' if e else None


def file_sweep(t, kind, root, c, level):
    vals = [str(s) for s in STRINGS] if kind == 'text' else list(NUMBERS)
    if level > 1:
        vals = texts(0) if kind == 'text' else numbers(0)
    for k, dom in MODELS[c].fields.items():
        for i, (n, d, f) in enumerate(sites(dom, kind)):
            if '[' in n and not n.startswith('[0'):
                continue
            for x in vals:
                if allowed(c, k, d, x):
                    t.ev('value_in', root, c, k, i, kind, x, transitions=2, sample=f'{root} {c}.{k}{n} = {x!r:.60}')
            if t.full:
                return


# ------------------------------------------------------------------ alphabets
NASTY = ['a', ' ', '"', '(', ')', '\n', '\\\\', '\\n', '1', '\u00b5', '.']
NASTY_DEEP = NASTY + ['-', '\t', ':', '{', '\'', '%', '/', '_']


def vocabulary():
    """every head and bare word of the formats: the words a text could be confused with"""
    words = set()
    for c in all_classes():
        for b in ('min', 'full'):
            def walk(t):
                for e in t:
                    if isinstance(e, list):
                        walk(e)
                    elif isinstance(e, str) and not isinstance(e, Q):
                        words.add(str(e))
            walk(tree(base(c, b)))
    from domains import Word
    for c in all_classes():
        for dom in MODELS[c].fields.values():
            while isinstance(dom, (Opt, ListOf)):
                dom = dom.inner
            if isinstance(dom, Word):
                words.update(str(w) for w in dom.alphabet())
    return sorted(words)


def unicode_texts():
    """every character up to U+024F, one character of every category of every block, white space and case specials, combining pairs"""
    import unicodedata
    chars = [chr(c) for c in range(1, 0x250) if c not in (10, 13, 34, 92)]
    seen = set()
    for c in range(0x250, 0x20000, 7):
        k = (unicodedata.category(chr(c)), c >> 12)
        if k[0] not in ('Cs', 'Cn', 'Co') and k not in seen:
            seen.add(k)
            chars.append(chr(c))
    out = chars + [f'x{c}y' for c in ' \t\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u200a\u200b\u2028\u2029\u202f\u205f\u3000\ufeff\u00ad\u200d\u202e']
    out += ['\u1e9b\u0323', 'a\u0308', '\u00e4', '\ufb01', '\u212a', '\u2126', '\u00df', '\u0130', '\u0131', '\uff21', '\u00bd', '\u0660', '\uff11', '\u00b2', '\u2460', '\u4e09', '\U0001d7d8',
            '\U0001f468\u200d\U0001f469', '\U0010fffd', '\ufffd', '\u201cq\u201d', '\u2018q\u2019', '\uff02', '\u2032', '\uff08x\uff09']
    return out


def texts(level):
    out = [str(s) for s in STRINGS]
    if level:
        out += unicode_texts()
    for a in ASCII_CHARS:
        out += [a, a + a, f'x{a}y', f'{a} ', f' {a}', f'{a}x', f'x{a}']
    alpha = NASTY_DEEP if level >= 1 else NASTY
    for n in range(1, 3 if level == 0 else 4):
        out += [''.join(p) for p in product(alpha, repeat=n)]
    if level >= 2:
        out += [''.join(p) for p in product(['a', ' ', '"', '(', ')', '\\\\', '\n'], repeat=4)]
    vocab = vocabulary()
    out += vocab + [f'{w} x' for w in vocab] + [f'({w} 1)' for w in vocab]
    out += [f'"{w}"' for w in vocab[::5]]
    for n in (31, 32, 33, 127, 128, 255, 256, 257, 1000, 5000):
        out += ['z' * n, ('ab ' * n)[:n] + '.']
    out += ['z' * 20000, 'z ' * 35000] if level else []
    out += codewords.words()[1 if level else 0] + codewords.pieces()
    for n in codewords.lengths(400):
        out += ['z' * n, ('ab ' * n)[:n]]
    return list(dict.fromkeys(out))


def numbers(level):
    out = list(NUMBERS)
    top = {0: 60, 1: 130, 2: 1500}[level]
    for m in range(0, top):
        for e in range(0, 6 if level == 0 else 8):
            x = m / 10 ** e if e else m
            out += [x, -x] if x else [x]
    for m in (1, 12, 123, 1234, 12345, 123456, 1234567, 12345678, 123456789, 1234567891, 12345678912, 987654321987, 999, 99999, 9999999, 10 ** 9, 10 ** 12):
        for e in range(0, 13):
            x = m / 10 ** e
            out += [x, -x, m * 10 ** e]
    if level:
        for p in range(-60, 60):
            out += [2.0 ** p, -2.0 ** p, 2.0 ** p + 1, 3 ** (abs(p) % 30)]
        out += [k / 7 for k in range(-50, 50)] + [k * 0.1 for k in range(-300, 300)] + [k * 1.27 for k in range(-100, 100)] + [k * 0.0254 for k in range(-100, 100)]
    out += codewords.numbers()
    seen, res = set(), []
    for x in out:
        x = x if x != 0 else abs(x)
        if (type(x), x) not in seen:
            seen.add((type(x), x))
            res.append(x)
    return res


def value_sweep(t, kind, c, k, level):
    vals = texts(level) if kind == 'text' else numbers(level)
    short = {str(x) if kind == 'text' else x for x in (STRINGS if kind == 'text' else NUMBERS)}
    if True:
        for i, (n, d, f) in enumerate(sites(MODELS[c].fields[k], kind)):
            # places inside a list behave alike: the long alphabets go to the first one
            t.count('places')
            vs = vals if '[' not in n or n.startswith('[0') else [x for x in (STRINGS if kind == 'text' else NUMBERS)]
            for j, x in enumerate(vs):
                x = str(x) if kind == 'text' else x
                if not allowed(c, k, d, x):
                    continue
                for b in ('min', 'full') if x in short or level > 1 else ('min',):
                    t.ev('value_at', c, k, i, kind, b, x, transitions=3, sample=f'{c}.{k}{n} = {x!r:.60}')
                if t.full:
                    return


def start(run, kind):
    level = 2 if run.tier == 'thorough' else 1
    cl = [c for c in all_classes() if any(sites(d, kind) for d in MODELS[c].fields.values())]
    cl.sort(key=lambda c: -sum(len(sites(d, kind)) for d in MODELS[c].fields.values()))
    vals = texts(level) if kind == 'text' else numbers(level)
    run.bounds = {'classes': len(cl), 'places': len(all_sites(kind)), 'values_per_place': len(vals)}
    run.assumptions = ['one place is varied at a time, the rest of the object holds simple values',
                       'texts hold backslashes only as complete escape pairs' if kind == 'text' else 'numbers are finite; integers up to 10^24, decimals up to 17 significant digits',
                       'a place that writes a fixed number of decimals gets values with at most that many decimals' if kind == 'number' else 'name parts of identifiers hold no colon or line break']
    C = 'checks.values'
    jobs = [((C, 'value_sweep'), (kind, c, k, level)) for c in cl for k, d in MODELS[c].fields.items() if sites(d, kind)]
    jobs += [((C, 'file_sweep'), (kind, r, c, level)) for r in FILETYPES for c in closure(r) if c in cl and c != r]
    run.run(jobs)

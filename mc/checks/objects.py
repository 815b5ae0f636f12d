"""C12 determinism and purity, C13 identifiers, C14 isolation, C19 fresh
objects."""
import copy
import dataclasses
import hashlib
import json
import os
import subprocess
import sys
from itertools import product
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.fidelity import parse, saved_tree, wrap_text
from checks.shapes import all_classes
from domains import NUMBERS, STRINGS, sames, base, closure, devs1, devs2, presence, sub_devs, Gen2, Num, Opt
from engine import HERE, REPO, oracle
from lift import FILETYPES, lift, corpus, path_of
from model import MODELS, NUMRE, Node, Q, V, build, ref_read, to_text, tree, tree_diff, value_diff


def snap(o):
    """complete observable content of an object: every instance attribute, recursively"""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        d = {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}
        d.update(vars(o))
        return (type(o).__name__, tuple((k, snap(v)) for k, v in sorted(d.items())))
    if isinstance(o, (list, tuple)):
        return [snap(x) for x in o]
    if isinstance(o, dict):
        return ('dict', [(snap(k), snap(v)) for k, v in o.items()])
    if isinstance(o, type):
        return ('class', o.__name__)
    return (type(o).__name__, repr(o))


def mutables(o, path='', out=None, top=True):
    """every mutable thing reachable from o: [(id, path, thing)]"""
    if out is None:
        out = []
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        out.append((id(o), path, o))
        for k, v in sorted(vars(o).items()):
            mutables(v, f'{path}.{k}', out)
    elif isinstance(o, list):
        out.append((id(o), path, o))
        for i, v in enumerate(o):
            mutables(v, f'{path}[{i}]', out)
    elif isinstance(o, dict):
        out.append((id(o), path, o))
        for k, v in o.items():
            mutables(v, f'{path}[{k!r}]', out)
    elif isinstance(o, type):
        out.append((id(o), path + ' (a class instead of an object)', o))
    return out


# ----------------------------------------------------------------------- C12
@oracle
def stable(v):
    """saving is a pure, repeatable function of the content; so is loading"""
    real = MODELS[v.c].real()
    o = build(v)
    before = snap(o)
    s1 = o.to_sexpr()
    if snap(o) != before:
        return f'{v.c}: saving changed the object'
    if o.to_sexpr() != s1:
        return f'{v.c}: saving twice gives different texts'
    if build(v).to_sexpr() != s1:
        return f'{v.c}: an equal object saves as a different text'
    if copy.deepcopy(o).to_sexpr() != s1:
        return f'{v.c}: a deep copy saves as a different text'
    if not MODELS[v.c].loadable(v):
        return None
    txt = wrap_text(v, s1)
    p = parse(txt)
    pc = copy.deepcopy(p)
    a = real.from_sexpr(p)
    if snap(p) != snap(pc):
        return f'{v.c}: loading changed its input'
    b = real.from_sexpr(p)
    if snap(a) != snap(b):
        return f'{v.c}: loading the same input twice gives different objects'
    if snap(real.from_sexpr(parse(txt))) != snap(a):
        return f'{v.c}: reading the same text twice gives different objects'
    s2 = a.to_sexpr()
    c = real.from_sexpr(parse(wrap_text(v, s2)))
    s3 = c.to_sexpr()
    if s3 != s2:
        return f'{v.c}: text is not stable under load and save: {first_diff(s2, s3)}'
    if snap(c) != snap(a):
        return f'{v.c}: objects are not stable under save and load'
    if a != b or c != a:
        return f'{v.c}: equal content does not compare equal'
    return None


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f'{a[max(0, i - 30):i + 30]!r} / {b[max(0, i - 30):i + 30]!r}'
    return f'length {len(a)} / {len(b)}: {a[len(b):][:40]!r} {b[len(a):][:40]!r}'


@oracle
def history(x, y, ops):
    """a sequence of saves and loads of two objects: every result is the one the operation gives alone"""
    real = MODELS[x.c].real()
    ox, oy = build(x), build(y)
    alone = {'sx': build(x).to_sexpr(), 'sy': build(y).to_sexpr()}
    tx, ty = wrap_text(x, alone['sx']), wrap_text(y, alone['sy'])
    for i, op in enumerate(ops):
        if op == 'sx':
            r, e = ox.to_sexpr(), alone['sx']
        elif op == 'sy':
            r, e = oy.to_sexpr(), alone['sy']
        elif op == 'lx':
            d = value_diff(x, real.from_sexpr(parse(tx)))
            r, e = d, None
        elif op == 'ly':
            d = value_diff(y, real.from_sexpr(parse(ty)))
            r, e = d, None
        elif op == 'rx':        # replace the object by its reloaded self
            ox = real.from_sexpr(parse(tx))
            d = value_diff(x, ox)
            r, e = d, None
            alone['sx'] = real.from_sexpr(parse(tx)).to_sexpr()
        if r != e:
            return f'{x.c}: after {ops[:i]}, operation {op} gives {str(r)[:200]!r} instead of {str(e)[:200]!r}'
    return None


_alone = {}


def alone(c):
    """what saving and loading the full object of class c gives in a process that has done nothing else"""
    v = base(c, 'full')
    if not (MODELS[c].valid(v) and MODELS[c].loadable(v)):
        v = base(c, 'min')
        if not (MODELS[c].valid(v) and MODELS[c].loadable(v)):
            return None
    s = build(v).to_sexpr()
    o = MODELS[c].real().from_sexpr(parse(wrap_text(v, s)))
    return s, snap(o), o.to_sexpr()


@oracle
def after_others(cls, other, n):
    """saving and loading one class gives the same after any number of saves and loads of another"""
    if cls not in _alone:
        _alone[cls] = alone(cls)
    for i in range(n):
        alone(other)
    r = alone(cls)
    if r != _alone[cls]:
        return f'{cls}: saved or loaded differently after {n} times saving and loading {other}'
    return None


def others_sweep(t, cls):
    if alone(cls) is None:
        return
    for other in all_classes():
        t.ev('after_others', cls, other, 1, transitions=4, sample=f'{cls} after {other}')
        if t.full:
            return
    t.ev('after_others', cls, cls, 70, transitions=140, sample=f'{cls} after itself 70 times')


@oracle
def stable_file(rel, kind):
    real = MODELS[kind].real()
    with open(path_of(rel), encoding='utf-8') as f:
        txt = f.read()
    if kind == 'DesignRules':
        txt = f'({txt})'
    p = parse(txt)
    pc = copy.deepcopy(p)
    a = real.from_sexpr(p)
    if snap(p) != snap(pc):
        return f'{rel}: loading changed its input'
    b = real.from_sexpr(p)
    if snap(a) != snap(b) or a != b:
        return f'{rel}: loading twice gives different objects'
    bf = snap(a)
    s = a.to_sexpr()
    if snap(a) != bf:
        return f'{rel}: saving changed the object'
    if a.to_sexpr() != s or b.to_sexpr() != s:
        return f'{rel}: saving twice gives different texts'
    c = real.from_sexpr(parse(f'({s})' if kind == 'DesignRules' else s))
    s2 = c.to_sexpr()
    if s2 != s:
        return f'{rel}: not stable under load and save: {first_diff(s, s2)}'
    return None


def digest():
    """digest of everything saved and loaded for all classes (run in differently configured processes)"""
    h = hashlib.sha256()
    for c in all_classes():
        for k in ('min', 'full'):
            v = base(c, k)
            if not MODELS[c].valid(v):
                continue
            s = build(v).to_sexpr()
            h.update(s.encode())
            if MODELS[c].loadable(v):
                o = MODELS[c].real().from_sexpr(parse(wrap_text(v, s)))
                h.update(repr(snap(o)).encode())
    for rel, kind in corpus():
        with open(path_of(rel), encoding='utf-8') as f:
            t = f.read()
        o = MODELS[kind].real().from_sexpr(parse(f'({t})' if kind == 'DesignRules' else t))
        h.update(o.to_sexpr().encode())
    return h.hexdigest()


CONFIGS = [dict(PYTHONHASHSEED=h, TZ=z, LC_ALL=l, cwd=d) for h, z, l, d in
           [('0', 'UTC', 'C.UTF-8', '/'), ('1', 'UTC', 'C.UTF-8', '/'), ('2', 'Asia/Tokyo', 'C', '/tmp'), ('3', 'America/New_York', 'C.UTF-8', '/tmp'),
            ('4', 'UTC', 'POSIX', '/'), ('5', 'UTC', 'C.UTF-8', '/'), ('6', 'UTC', 'C.UTF-8', '/'), ('7', 'UTC', 'C.UTF-8', '/')]]


@oracle
def configured(i):
    r = []
    for c in (CONFIGS[0], CONFIGS[i]):
        env = dict(os.environ, **{k: v for k, v in c.items() if k != 'cwd'})
        code = f"import sys; sys.dont_write_bytecode=True; sys.path[:0]=[{HERE!r}]; import engine; from checks.objects import digest; print(digest())"
        p = subprocess.run([sys.executable, '-c', code], env=env, cwd=c['cwd'], capture_output=True, text=True, timeout=50)
        if p.returncode:
            return f'{c}: {p.stderr[-400:]}'
        r.append(p.stdout.strip())
    return None if r[0] == r[1] else f'saved or loaded content depends on the configuration: {CONFIGS[0]} / {CONFIGS[i]}'


TWINS = [3, 3.0, 0, 0.0, -0.0, 1, 1.0, -2.0, -2]      # equal numbers of different spelling


def twin(v, n):
    """v with every free number being n"""
    d = {}
    for k, x in v.d.items():
        dom = MODELS[v.c].fields[k]
        dom = dom.inner if isinstance(dom, Opt) else dom
        if isinstance(x, V):
            d[k] = twin(x, n) if x.c != 'Position' else x.with_(X=n, Y=n)
        elif isinstance(x, list):
            d[k] = [twin(y, n) if isinstance(y, V) and y.c != 'Position' else y.with_(X=n, Y=n) if isinstance(y, V) else y for y in x]
        elif type(dom) is Num and dom.values is NUMBERS and x is not None:
            d[k] = n
    return v.with_(**d)


def spelled(order):
    """{state: digest of its text and of what the text loads as}, the states taken in the given order"""
    states = []
    for c in all_classes():
        for k in ('min', 'full'):
            for i, n in enumerate(TWINS):
                v = twin(base(c, k), n)
                if MODELS[c].valid(v):
                    states.append((f'{c} {k} with {n!r}', v))
    if order == 'reversed':
        states.reverse()
    elif order == 'byvalue':
        states.sort(key=lambda e: e[0].rsplit(' ', 1)[1])
    out = {}
    for name, v in states:
        s = build(v).to_sexpr()
        if MODELS[v.c].loadable(v):
            s += repr(snap(MODELS[v.c].real().from_sexpr(parse(wrap_text(v, s)))))
        out[name] = hashlib.sha256(s.encode()).hexdigest()[:20]
    return out


@oracle
def ordered(order):
    """what a process saved and loaded before makes no difference to what it saves and loads now"""
    r = []
    for o in ('forward', order):
        code = f"import sys; sys.dont_write_bytecode=True; sys.path[:0]=[{HERE!r}]; import engine, json; from checks.objects import spelled; print(json.dumps(spelled({o!r})))"
        p = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED='0'), cwd='/', capture_output=True, text=True, timeout=50)
        if p.returncode:
            return f'{o}: {p.stderr[-400:]}'
        r.append(json.loads(p.stdout))
    bad = [k for k in r[0] if r[0][k] != r[1].get(k)]
    return f'{len(bad)} objects are saved or loaded differently when others are saved before them, e.g. {bad[0]}' if bad else None


def order_sweep(t, order):
    t.ev('ordered', order, sample=order)


def stable_sweep(t, cls, deep, shard, n):
    def states():
        yield base(cls, 'min')
        yield base(cls, 'full')
        yield from sames(cls)
        yield from sub_devs(cls)
        yield from presence(cls, 8 if not deep else 11)
        yield from devs1(cls)
        if deep:
            yield from devs2(cls)
    for i, v in enumerate(states()):
        if i % n != shard or not MODELS[cls].valid(v):
            continue
        t.ev('stable', v, transitions=10, sample=f'{v!r}'[:200])
        if t.full:
            return


def history_sweep(t, cls, depth):
    x, y = base(cls, 'full'), base(cls, 'min', Gen2(70))
    if not (MODELS[cls].valid(x) and MODELS[cls].loadable(x) and MODELS[cls].valid(y) and MODELS[cls].loadable(y)):
        y = x
        if not (MODELS[cls].valid(x) and MODELS[cls].loadable(x)):
            return
    for n in range(1, depth + 1):
        for ops in product(['sx', 'sy', 'lx', 'ly', 'rx'], repeat=n):
            t.ev('history', x, y, list(ops), transitions=n, sample=f'{cls} {ops}')
            if t.full:
                return


def files_sweep(t, rel, kind):
    t.ev('stable_file', rel, kind, transitions=6, sample=rel)


def config_sweep(t, i):
    t.ev('configured', i, sample=str(CONFIGS[i]))


# ----------------------------------------------------------------------- C14
def poke(o, depth=0):
    """change everything reachable from o in place"""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        for k, v in list(vars(o).items()):
            if isinstance(v, (list, dict)) or (dataclasses.is_dataclass(v) and not isinstance(v, type)):
                poke(v, depth + 1)
            else:
                setattr(o, k, ('poked', k))
    elif isinstance(o, list):
        for x in o:
            if isinstance(x, (list, dict)) or dataclasses.is_dataclass(x):
                poke(x, depth + 1)
        o.append('poked')
        o.insert(0, 'poked')
    elif isinstance(o, dict):
        for x in o.values():
            poke(x, depth + 1)
        o['poked'] = 'poked'


def mark(o):
    """add to every list and dict, and overwrite one scalar of every object, without breaking the structure"""
    poke(o)


def default(cls):
    return MODELS[cls].real()()


@oracle
def fresh(cls):
    """changing one default constructed object in place never shows in another"""
    a, b = default(cls), default(cls)
    sb = snap(b)
    if snap(a) != sb:
        return f'{cls}: two new objects differ'
    ids = {i: p for i, p, _ in mutables(a)}
    for i, p, x in mutables(b):
        if i in ids:
            return f'{cls}: {p} of one new object is {ids[i]} of another'
        if isinstance(x, type):
            return f'{cls}: default value of {p}'
    poke(a)
    if snap(b) != sb:
        return f'{cls}: changing one object changed another'
    if snap(default(cls)) != sb:
        return f'{cls}: changing one object changed what new objects look like'
    return None


@oracle
def isolated(v):
    """objects loaded from the same input share nothing, with each other, with the input, or internally"""
    real = MODELS[v.c].real()
    p = parse(to_text(tree(v)))
    pc = snap(p)
    a, b = real.from_sexpr(p), real.from_sexpr(p)
    sb = snap(b)
    sd = snap(default(v.c))
    seen = {i: q for i, q, _ in mutables(p, 'input')}
    for tag, o in (('first', a), ('second', b)):
        for i, q, x in mutables(o, tag):
            if i in seen:
                return f'{v.c}: {q} and {seen[i]} are one object'
            seen[i] = q
    poke(a)
    if snap(b) != sb:
        return f'{v.c}: changing one loaded object changed the other'
    if snap(p) != pc:
        return f'{v.c}: changing a loaded object changed the parsed input'
    if snap(default(v.c)) != sd:
        return f'{v.c}: changing a loaded object changed what new objects look like'
    if snap(real.from_sexpr(p)) != sb:
        return f'{v.c}: changing a loaded object changed the next load'
    return None


@oracle
def isolated_save(v):
    """a saved text is independent of later changes, and saving gives nothing away"""
    o, o2 = build(v), build(v)
    s = o.to_sexpr()
    poke(o)
    if o2.to_sexpr() != s:
        return f'{v.c}: changing a saved object changed another object'
    return None


def iso_sweep(t, cls, deep, shard, n):
    def states():
        yield base(cls, 'min')
        yield base(cls, 'full')
        yield from sames(cls)
        yield from sub_devs(cls)
        yield from presence(cls, 8 if not deep else 11)
        yield from devs1(cls)
        if deep:
            yield from devs2(cls)
    for i, v in enumerate(states()):
        if i % n != shard or not MODELS[cls].valid(v) or not MODELS[cls].loadable(v):
            continue
        t.ev('isolated', v, transitions=4, sample=f'{v!r}'[:200])
        t.ev('isolated_save', v, transitions=2, sample='')
        if t.full:
            return


@oracle
def fresh_class(mod, name):
    """the same for every dataclass of the package"""
    import importlib
    cls = getattr(importlib.import_module(mod), name)
    a, b = cls(), cls()
    sb = snap(b)
    if snap(a) != sb:
        return f'{name}: two new objects differ'
    ids = {i: p for i, p, _ in mutables(a)}
    for i, p, x in mutables(b):
        if i in ids:
            return f'{name}: {p} of one new object is {ids[i]} of another'
    poke(a)
    if snap(b) != sb or snap(cls()) != sb:
        return f'{name}: changing one object changed another'
    return None


def fresh_classes(t):
    import importlib
    for mod, name in dataclasses_of_package():
        try:
            getattr(importlib.import_module(mod), name)()
        except TypeError:
            continue
        t.ev('fresh_class', mod, name, transitions=4, sample=f'fresh {name}')


@oracle
def untouched(cls, how):
    """whatever is done to an object of one class, new and loaded objects of every other class stay what they were"""
    def everything():
        out = {}
        for c in all_classes():
            out[c] = snap(default(c))
            out[c, 'loaded'] = alone(c)
        return out
    before = everything()
    if how == 'default':
        poke(default(cls))
    elif how == 'new':
        real = MODELS[cls].real()
        if not hasattr(real, 'create_new'):
            return None
        poke(real.create_new('a', 'b', 'c') if real.__name__ == 'Symbol' else real.create_new('a', 'b') if real.__name__ == 'Footprint' else real.create_new())
    else:
        v = base(cls, how)
        if not (MODELS[cls].valid(v) and MODELS[cls].loadable(v)):
            return None
        p = parse(to_text(tree(v)))
        poke(MODELS[cls].real().from_sexpr(p))
        poke(p)
    after = everything()
    for k in before:
        if before[k] != after[k]:
            return f'changing an object of {cls} ({how}) changed {k}'
    return None


def fresh_sweep(t, cls):
    """in a process that has not constructed anything yet, then across classes"""
    t.ev('fresh', cls, transitions=4, sample=f'fresh {cls}')
    for how in ('default', 'new', 'min', 'full'):
        t.ev('untouched', cls, how, transitions=2 * len(all_classes()), sample=f'{cls} {how} changed')


@oracle
def iso_file(rel, kind):
    real = MODELS[kind].real()
    a, b = (real.from_file(path_of(rel), encoding='utf-8') for _ in range(2))
    sb = snap(b)
    seen = {}
    for tag, o in (('first', a), ('second', b)):
        for i, q, x in mutables(o, tag):
            if i in seen:
                return f'{rel}: {q} and {seen[i]} are one object'
            seen[i] = q
    poke(a)
    if snap(b) != sb:
        return f'{rel}: changing one loaded file changed the other'
    return None


def iso_files(t, rel, kind):
    t.ev('iso_file', rel, kind, transitions=2, sample=rel)


# ----------------------------------------------------------------------- C13
IDS = ['R', 'Device:R', 'Lib:Part_1_1', 'Part_1_1', 'Part_0_1', 'Part_12_34', 'A_B_2_3', 'Part_01_1', 'Part_1_02', 'Part_1', 'Part_1_', '_1_1', 'X_1_1_2', 'a-b.c', 'Con "q"', 'Lib:A:B', 'my lib:my part', '74HC00', '\u00b5C:\u03a9_1_1', 'P_1_1x', 'P_-1_1', 'L:1', '1_2_3',
       'my lib :x', ' lead:x', 'l: x', 'l:x ', ' x ', 'x 1_1', 'LIB:x', 'lib:X']


def split_id(s):
    """reference decomposition: (nickname, entry, unit, style)"""
    i = s.find(':')
    if 0 < i < len(s) - 1:
        return s[:i], s[i + 1:], None, None
    parts = s.rsplit('_', 2)
    if len(parts) == 3 and parts[0] and all(p.isdigit() and p.isascii() and (p == '0' or p[0] != '0') for p in parts[1:]):
        return None, parts[0], int(parts[1]), int(parts[2])
    return None, s, None, None


def join_id(n, e, u, s):
    if n:
        return f'{n}:{e}'
    if u is not None and s is not None:
        return f'{e}_{u}_{s}'
    return f'{e}'


SYM_OPS = [('id', x) for x in IDS] + [('nick', None), ('nick', 'Lib2'), ('entry', 'Renamed'), ('entry', 'N_3_4'), ('ids', (2, 1)), ('ids', (None, None)), ('unit', 'U_1_2'), ('reload', None)]
FP_OPS = [('id', x) for x in IDS] + [('nick', None), ('nick', 'Lib2'), ('entry', 'Renamed'), ('entry', 'N_3_4'), ('reload', None)]


def tuples(x):
    return tuple(x) if isinstance(x, list) else x


@oracle
def naming(cls, nunits, ops):
    """a history of identifier changes on a real object against the reference decomposition"""
    real = MODELS[cls].real()
    o = real()
    st = [None, None, None, None]
    units = []
    if cls == 'Symbol':
        for i in range(nunits):
            u = real()
            u.libId = f'Old_{i}_1'
            o.units.append(u)
            units.append(['Old', i, 1])
    has_units = cls == 'Symbol'
    for n, (op, x) in enumerate(ops):
        x = tuples(x)
        if op == 'id':
            o.libId = x
            st = list(split_id(x)) if has_units else list(split_id(x)[:2] if ':' in x and split_id(x)[0] else (None, x)) + [None, None]
            for u in units:
                u[0] = st[1]
        elif op == 'nick':
            o.libraryNickname = x
            st[0] = x
        elif op == 'entry':
            o.entryName = x
            st[1] = x
        elif op == 'ids':
            o.unitId, o.styleId = x
            st[2], st[3] = x
        elif op == 'unit':
            u = real()
            u.libId = x
            o.units.append(u)
            units.append(list(split_id(x)[1:]))
        elif op == 'reload':
            if st[1] is None:
                continue
            if cls == 'Symbol' and any(u[0] is None or ':' in u[0] for u in units):
                continue        # a unit has no nickname: a colon in its name cannot be told from one
            o = real.from_sexpr(parse(o.to_sexpr()))
            i = join_id(*st)
            st = list(split_id(i)) if has_units else list(split_id(i)[:2] if split_id(i)[0] else (None, i)) + [None, None]
        where = f'{cls} after {ops[:n + 1]!r}'
        if (o.libraryNickname, o.entryName) != (st[0], st[1]):
            return f'{where}: nickname/entry {(o.libraryNickname, o.entryName)!r}, expected {(st[0], st[1])!r}'
        if has_units and (o.unitId, o.styleId) != (st[2], st[3]):
            return f'{where}: unit/style {(o.unitId, o.styleId)!r}, expected {(st[2], st[3])!r}'
        if st[1] is not None:
            e = join_id(*st)
            if o.libId != e:
                return f'{where}: libId {o.libId!r}, expected {e!r}'
            if op == 'id' and o.libId != x:
                return f'{where}: libId reads back as {o.libId!r}'
            t = ref_read(o.to_sexpr())[0]
            got = t[1] if cls != 'SchematicSymbol' else [c for c in t if isinstance(c, Node) and c[0] == 'lib_id'][0][1]
            if not isinstance(got, Q) or str(got) != e:
                return f'{where}: saved identifier {got!r}, expected {e!r}'
        for i, u in enumerate(units):
            r = o.units[i]
            if (r.entryName, r.unitId, r.styleId) != tuple(u):
                return f'{where}: unit {i} is {(r.entryName, r.unitId, r.styleId)!r}, expected {tuple(u)!r}'
            if u[0] is not None and r.libId != join_id(None, *u):
                return f'{where}: unit {i} libId {r.libId!r}'
    return None


@oracle
def one_id(cls, s):
    """reading an identifier returns exactly what was set, and its parts follow the documented convention"""
    o = MODELS[cls].real()()
    o.libId = s
    if o.libId != s:
        return f'{cls}.libId = {s!r} reads back as {o.libId!r}'
    n, e, u, st = split_id(s)
    if cls != 'Symbol' and not n:
        n, e = None, s
    if (o.libraryNickname, o.entryName) != (n, e):
        return f'{cls}.libId = {s!r}: parts {(o.libraryNickname, o.entryName)!r}, expected {(n, e)!r}'
    if cls == 'Symbol' and (o.unitId, o.styleId) != (u, st):
        return f'{cls}.libId = {s!r}: unit/style {(o.unitId, o.styleId)!r}, expected {(u, st)!r}'
    if cls == 'Symbol' and u is not None and (type(o.unitId), type(o.styleId)) != (int, int):
        return f'{cls}.libId = {s!r}: unit/style are not numbers'
    return None


def naming_sweep(t, cls, nunits, first, depth):
    ops = SYM_OPS if cls == 'Symbol' else FP_OPS
    for n in range(0, depth):
        for rest in product(ops, repeat=n):
            seq = [ops[first]] + list(rest)
            t.ev('naming', cls, nunits, seq, transitions=len(seq), sample=f'{cls} {seq}')
            if t.full:
                return


def ids_sweep(t, cls, alphabet, n, shard, nsh):
    i = 0
    for k in range(1, n + 1):
        for tup in product(alphabet, repeat=k):
            s = ''.join(tup)
            # a colon separates nickname and name: not first, not last
            if s.startswith(':') or s.endswith(':'):
                continue
            i += 1
            if i % nsh != shard:
                continue
            t.ev('one_id', cls, s, sample=f'{cls} {s!r}')
            if t.full:
                return


def special_ids(t, cls):
    import codewords
    from checks.values import texts
    ds = ['\uff11', '1\uff12', '\uff12', '\u0661', '1\u0663', '\u00b2', '1\u00b2', '\u00bd', '\u4e09', '+1', '-1', ' 1', '1 ', '1.0', '1e1', '0x1', '00', '01', '1a', '', '0', '1', '9', '10', '99', '255', '256', '1000', '65536', '4294967296', '9' * 40]
    out = [f'P_{a}_{b}' for a in ds for b in ds] + [f'P_{a}_{b}_{c}' for a in ('1', '0', '\uff11', '') for b in ('1', '0', '\uff11') for c in ('1', '2', '\uff11', '')] + [f'L:P_{a}_{b}' for a in ds for b in ds]
    out += [x for x in texts(0) if '\n' not in x] + [x + '_1_2' for x in texts(0) if '\n' not in x]
    out += [f'{a}{x}{b}' for x in codewords.pieces() if '\n' not in x for a, b in (('L:', ''), ('', ':P'), ('', '_1_1'))]
    for w in ('R', 'my part', '\u00b5', 'a"b', '(x)', 'x' * 300, '0', '_', '-'):
        out += [f'{w}:{x}' for x in ('R', 'a b', '"', '\u03a9', '1', '_', 'P_1_1', 'y' * 300, 'a:b', ':x')]
    for x in dict.fromkeys(out):
        if x and not x.startswith(':') and not x.endswith(':'):
            t.ev('one_id', cls, x, sample=f'{cls} {x!r:.60}')
        if t.full:
            return


# ----------------------------------------------------------------------- C19
def font(th=None, h=1.0, w=1.0):
    return V('Font', dict(face=None, height=h, width=w, thickness=th, bold=False, italic=False, lineSpacing=None, color=None))


def effects(f, hide=False):
    return V('Effects', dict(font=f, justify=V('Justify', dict(horizontally=None, vertically=None, mirror=False)), hide=hide, href=None))


def pos(x, y, a=None, u=False):
    return V('Position', dict(X=x, Y=y, angle=a, unlocked=u))


def again(real, v, o, args):
    """what is done to one new object shows neither in one made before nor in one made after"""
    other = real.create_new(**args)
    ids = {i: p for i, p, _ in mutables(o)}
    for i, p, _ in mutables(other):
        if i in ids:
            return f'{v.c}.create_new({args!r}): {p} of one new object is {ids[i]} of another'
    seen = {}
    for i, p, _ in mutables(o):
        if i in seen:
            return f'{v.c}.create_new({args!r}): {p} and {seen[i]} are one object'
        seen[i] = p
    poke(o)
    d = value_diff(v, other) or value_diff(v, real.create_new(**args))
    return f'{v.c}.create_new({args!r}) next to a changed one: {d}' if d else None


@oracle
def new_symbol(args):
    from kiutils.symbol import Symbol
    o = Symbol.create_new(**args)
    n, e, u, st = split_id(args['id'])
    want = dict(libraryNickname=n, entryName=e, unitId=u, styleId=st, extends=None, hidePinNumbers=False, pinNames=False, pinNamesHide=False, pinNamesOffset=None, inBom=True, onBoard=True,
                isPower=False, graphicItems=[], pins=[], units=[])
    p0 = pos(0, 0, 0)
    want['properties'] = [V('Property', dict(key=Q(k), value=Q(args.get(a, '')), id=i, effects=effects(font(None, 1.27, 1.27), hide=i > 1), showName=False))
                          for i, (k, a) in enumerate([('Reference', 'reference'), ('Value', 'value'), ('Footprint', 'footprint'), ('Datasheet', 'datasheet')])]
    v = V('Symbol', want)
    d = value_diff(v, o)
    if d:
        return f'Symbol.create_new({args!r}): {d}'
    r = Symbol.from_sexpr(parse(o.to_sexpr()))
    d = value_diff(v, r)
    if d:
        return f'Symbol.create_new({args!r}) saved and reloaded: {d}'
    return again(Symbol, v, o, args)


@oracle
def new_footprint(args):
    from kiutils.footprint import Footprint
    ok = args.get('type', 'other') in ('smd', 'through_hole', 'other')
    try:
        o = Footprint.create_new(**args)
    except Exception as e:
        return None if not ok else f'Footprint.create_new({args!r}): {e}'
    if not ok:
        return f'Footprint.create_new({args!r}): unsupported type accepted'
    n, e = split_id(args['library_id'])[:2]
    if not n:
        n, e = None, args['library_id']
    ty = args.get('type', 'other')
    want = dict(libraryNickname=n, entryName=Q(e), locked=False, placed=False, layer=Q('F.Cu'), position=None, description=None, tags=None, properties={}, path=None,
                attributes=V('Attributes', dict(type=None if ty == 'other' else ty, boardOnly=False, excludeFromPosFiles=False, excludeFromBom=False, allowMissingCourtyard=False)),
                graphicItems=[V('FpText', dict(type=t, text=Q(x), position=pos(0, y, None, True), layer=Q(l), knockout=False, hide=False, effects=effects(font(0.15)), tstamp=None, renderCache=None))
                              for t, x, y, l in (('reference', args.get('reference', 'REF**'), -0.5, 'F.SilkS'), ('value', args['value'], 1, 'F.Fab'), ('user', '${REFERENCE}', 2.5, 'F.Fab'))],
                pads=[], zones=[], groups=[], models=[])
    v = V('Footprint', want)
    d = value_diff(v, o)
    if d:
        return f'Footprint.create_new({args!r}): {d}'
    r = Footprint.from_sexpr(parse(o.to_sexpr()))
    d = value_diff(v, r)
    if d:
        return f'Footprint.create_new({args!r}) saved and reloaded: {d}'
    if str(o.version) != str(r.version) or o.generator != r.generator or str(o.tedit) != str(r.tedit):
        return f'Footprint.create_new({args!r}): header changes when reloaded'
    return again(Footprint, v, o, args)


LAYERS = [(0, 'F.Cu', 'signal', None), (31, 'B.Cu', 'signal', None), (32, 'B.Adhes', 'user', 'B.Adhesive'), (33, 'F.Adhes', 'user', 'F.Adhesive'), (34, 'B.Paste', 'user', None), (35, 'F.Paste', 'user', None),
          (36, 'B.SilkS', 'user', 'B.Silkscreen'), (37, 'F.SilkS', 'user', 'F.Silkscreen'), (38, 'B.Mask', 'user', None), (39, 'F.Mask', 'user', None), (40, 'Dwgs.User', 'user', 'User.Drawings'),
          (41, 'Cmts.User', 'user', 'User.Comments'), (42, 'Eco1.User', 'user', 'User.Eco1'), (43, 'Eco2.User', 'user', 'User.Eco2'), (44, 'Edge.Cuts', 'user', None), (45, 'Margin', 'user', None),
          (46, 'B.CrtYd', 'user', 'B.Courtyard'), (47, 'F.CrtYd', 'user', 'F.Courtyard'), (48, 'B.Fab', 'user', None), (49, 'F.Fab', 'user', None)] + [(49 + i, f'User.{i}', 'user', None) for i in range(1, 10)]


def make_new(kind, arg):
    real = MODELS[kind].real()
    return real.create_new(arg) if arg is not None else real.create_new()


NEW = [('Board', None), ('Schematic', None), ('WorkSheet', None), ('DesignRules', None), ('LibTable', None), ('LibTable', 'sym_lib_table'), ('LibTable', 'fp_lib_table')]


@oracle
def new_file(kind, arg, ops):
    """a history of creating, filling, saving and reloading new documents"""
    real = MODELS[kind].real()
    objs = []
    ref = make_new(kind, arg)
    text = ref.to_sexpr()
    t = ref_read(text)
    head = {'Board': 'kicad_pcb', 'Schematic': 'kicad_sch', 'WorkSheet': 'kicad_wks', 'DesignRules': None, 'LibTable': arg or 'sym_lib_table'}[kind]
    if head and (len(t) != 1 or t[0][0] != head):
        return f'{kind}.create_new({arg!r}) does not save as ({head} ..)'
    sref = snap(ref)
    lists = [f for f in MODELS[kind].fields if isinstance(getattr(ref, f), list)]
    for i, op in enumerate(ops):
        if op == 'new':
            o = make_new(kind, arg)
            if snap(o) != sref:
                return f'{kind}.create_new({arg!r}) after {ops[:i]}: differs from the first one'
            if o.to_sexpr() != text:
                return f'{kind}.create_new({arg!r}) after {ops[:i]}: saves differently'
            objs.append(o)
        elif op == 'default':
            objs.append(real())
        elif op == 'fill' and objs:
            for f in lists:
                getattr(objs[-1], f).append('junk')
            poke(objs[-1])
        elif op == 'reload':
            r = real.from_sexpr(parse(f'({text})' if kind == 'DesignRules' else text))
            if by_value(ref_read(r.to_sexpr())) != by_value(t):
                return f'{kind}.create_new({arg!r}): content changes when reloaded: {first_diff(text, r.to_sexpr())}'
            objs.append(r)
    if kind == 'Board':
        got = [(l.ordinal, l.name, l.type, l.userName) for l in ref.layers]
        if got != LAYERS:
            return f'new board has the layers {got}'
        if [(n.number, n.name) for n in ref.nets] != [(0, '')]:
            return 'new board: nets'
        empty = ['footprints', 'graphicItems', 'traceItems', 'zones', 'dimensions', 'targets', 'groups']
    elif kind == 'Schematic':
        if [(s.instancePath, s.page) for s in ref.sheetInstances] != [('/', '1')]:
            return 'new schematic: sheet instances'
        empty = [f for f in lists if f != 'sheetInstances']
    elif kind == 'WorkSheet':
        empty = ['drawingObjects']
    elif kind == 'DesignRules':
        empty = ['rules']
        if str(ref.version) != '1':
            return 'new design rules: version'
    else:
        empty = ['libs']
    for f in empty:
        if getattr(ref, f):
            return f'{kind}.create_new({arg!r}).{f} is not empty'
    if kind in ('Board', 'Schematic', 'WorkSheet') and (not str(ref.version).isdigit() or not ref.generator):
        return f'{kind}.create_new: no version or generator'
    if getattr(ref, 'filePath') is not None:
        return f'{kind}.create_new: file path set'
    return None


def by_value(t):
    """token tree with bare numbers replaced by their value"""
    if isinstance(t, Node):
        return [by_value(e) for e in t]
    if isinstance(t, Q):
        return ('q', str(t))
    return float(t) if NUMRE.match(t) else t


@oracle
def default_trip(cls):
    """a default constructed object saves as something that loads as the same object"""
    o = MODELS[cls].real()()
    try:
        s = o.to_sexpr()
    except Exception as e:
        return None if type(e) is Exception else f'{cls}() cannot be saved: {type(e).__name__} {e}'
    if not s.strip():
        return None
    r = MODELS[cls].real().from_sexpr(parse(s))
    if by_value(ref_read(r.to_sexpr())) != by_value(ref_read(s)):
        return f'{cls}(): saves as {s!r:.200}, reloaded as {r.to_sexpr()!r:.200}'
    return None


NO_DEFAULT = {'Board', 'DesignRules', 'Justify', 'Attributes', 'WksFont'}     # nothing to save / need create_new


def new_sweep(t, kind, arg, depth):
    for n in range(0, depth + 1):
        for ops in product(['new', 'default', 'fill', 'reload'], repeat=n):
            t.ev('new_file', kind, arg, list(ops), transitions=n + 1, sample=f'{kind} {arg} {ops}')
            if t.full:
                return


def field_order():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fields.json')) as f:
        return json.load(f)


@oracle
def constructed(mod, name, names, how):
    """arguments of a constructor, by position or by name, end up in their attributes and nowhere else"""
    import importlib
    cls = getattr(importlib.import_module(mod), name)
    if how == 'position':
        vals = [f'argument {i}' for i in range(len(names))]
        o, want = cls(*vals), dict(zip(names, vals))
    else:
        want = {n: f'argument {n}' for n in names}
        o = cls(**want)
    for n, x in want.items():
        if getattr(o, n) != x:
            return f'{name}: argument {n} given by {how} is {getattr(o, n)!r:.80}'
    new = cls()
    for n in vars(new):
        if n not in want and snap(getattr(o, n)) != snap(getattr(new, n)):
            return f'{name}: giving {names} by {how} changed {n}'
    return None


def constructor_sweep(t):
    for key, names in field_order().items():
        mod, name = key.rsplit('.', 1)
        for n in range(1, len(names) + 1):
            t.ev('constructed', mod, name, names[:n], 'position', sample=f'{name} with {n} arguments by position')
            t.ev('constructed', mod, name, [names[n - 1]], 'name', sample=f'{name}({names[n - 1]}=..)')
        t.ev('constructed', mod, name, names[::-1], 'name')
        if t.full:
            return


@oracle
def by_position(kind, args):
    """create_new with its arguments by position is create_new with them by name"""
    import inspect
    f = MODELS[kind].real().create_new
    names = {'Symbol': ['id', 'reference', 'value', 'footprint', 'datasheet'], 'Footprint': ['library_id', 'value', 'type', 'reference']}[kind]
    a, b = f(*args), f(**dict(zip(names, args)))
    return None if snap(a) == snap(b) else f'{kind}.create_new({args}): arguments by position mean something else than by name'


def position_sweep(t):
    for n in (3, 4, 5):
        t.ev('by_position', 'Symbol', ['L:a', 'R', 'v', 'f', 'd'][:n], sample=f'Symbol {n} arguments')
    for n in (2, 3, 4):
        for ty in ('smd', 'other', 'through_hole'):
            t.ev('by_position', 'Footprint', ['L:a', 'v', ty, 'R'][:n], sample=f'Footprint {n} arguments')


def new_states():
    import codewords
    words = [x for x in codewords.words()[1] + codewords.pieces() if x]
    ids = IDS + [str(s) for s in STRINGS if s and ':' not in s and '\n' not in s]
    ids += [x for x in words if ':' not in x and '\n' not in x] + [f'Lib:{x}' for x in words if ':' not in x and '\n' not in x]
    texts = [str(s) for s in STRINGS] + words
    red = ['', 'U', 'a "b" (c)', 'locked', '\u00b5']
    for a in ids:
        yield 'new_symbol', dict(id=a, reference='U', value='v')
        yield 'new_footprint', dict(library_id=a, value='v')
    for a in texts:
        for k in ('reference', 'value', 'footprint', 'datasheet'):
            yield 'new_symbol', dict(dict(id='Lib:X', reference='r1', value='v1', footprint='f1', datasheet='d1'), **{k: a})
        for k in ('value', 'reference'):
            for ty in ('smd', 'through_hole', 'other'):
                yield 'new_footprint', dict(dict(library_id='Lib:X', reference='r1', value='v1', type=ty), **{k: a})
    for a, b, c, d in product(red, repeat=4):
        yield 'new_symbol', dict(id='X', reference=a, value=b, footprint=c, datasheet=d)
    for a, b, ty, i in product(red, red, ['smd', 'through_hole', 'other', 'SMD', '', 'virtual', None], ['X', 'L:X', '0402']):
        yield 'new_footprint', dict(library_id=i, reference=a, value=b, type=ty)


def new_items(t, shard, n):
    for i, (orc, args) in enumerate(new_states()):
        if i % n == shard:
            t.ev(orc, args, sample=f'{orc} {args!r:.80}')
        if t.full:
            return


def default_sweep(t):
    for c in all_classes():
        if c not in NO_DEFAULT and c != 'SymbolUnit':
            t.ev('default_trip', c, transitions=3, sample=f'{c}()')


# ----------------------------------------------------------------------- C22
def veq(a, b):
    if isinstance(a, V) and isinstance(b, V):
        return a.c == b.c and all(veq(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return {str(k) for k in a} == {str(k) for k in b} and all(veq(a[k], b[k]) for k in a)
    if isinstance(a, (V, list, dict)) or isinstance(b, (V, list, dict)):
        return False
    if isinstance(a, str) and isinstance(b, str):
        return str(a) == str(b)
    return a == b


@oracle
def equality(a, b):
    """equal exactly when the content is the same, in both directions, also for copies"""
    x, y = build(a), build(b)
    e = veq(a, b)
    for p, q in ((x, y), (y, x)):
        if (p == q) is not e or (p != q) is e:
            return f'{a.c}: comparing gives {p == q!r} for {"equal" if e else "different"} content: {a!r:.300} / {b!r:.300}'
    c = copy.deepcopy(x)
    if not c == x or c != x or (c == y) is not e:
        return f'{a.c}: a deep copy compares differently'
    if x == None or x == 'text' or x == 5:          # noqa: E711
        return f'{a.c}: equal to something else entirely'
    return None


OTHER = [True, 7, 'other', ['other'], {'other': 'x'}]


def element(c):
    return isinstance(c, type) and dataclasses.is_dataclass(c) and hasattr(c, 'from_sexpr') and hasattr(c, 'to_sexpr') and not c.__name__.startswith('_')


def dataclasses_of_package():
    """every element class the package defines: [(module, name)]"""
    import importlib
    root = os.path.join(REPO, 'src', 'kiutils')
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if not f.endswith('.py') or f == '__init__.py':
                continue
            name = 'kiutils.' + os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
            try:
                mod = importlib.import_module(name)
            except ImportError:
                continue
            out += [(name, n) for n, c in sorted(vars(mod).items()) if element(c) and c.__module__ == name]
    return out


@oracle
def attribute_counts(mod, name, field):
    """two objects that differ in one attribute only are not equal; made equal again they are"""
    import importlib
    cls = getattr(importlib.import_module(mod), name)
    a, b = cls(), cls()
    if a != b or not a == b:
        return f'{name}: two new objects differ'
    old = getattr(a, field)
    for x in OTHER + [None]:
        if x == old:
            continue
        setattr(b, field, x)
        if a == b or b == a or not a != b:
            return f'{name}: objects that differ in {field} ({old!r:.60} / {x!r}) are equal'
        setattr(b, field, copy.deepcopy(old))
        if a != b or b != a:
            return f'{name}: objects that agree in {field} again are not equal'
    return None


def attribute_sweep(t):
    import importlib
    for mod, name in dataclasses_of_package():
        cls = getattr(importlib.import_module(mod), name)
        try:
            cls()
        except TypeError:
            continue
        for f in dataclasses.fields(cls):
            if f.name != 'filePath' and f.init and not f.name.startswith('_'):
                t.ev('attribute_counts', mod, name, f.name, transitions=2 * len(OTHER), sample=f'{name}.{f.name}')
        if t.full:
            return


@oracle
def edited_copy(v):
    """a deep copy shares nothing with its original"""
    o = build(v)
    s = snap(o)
    c = copy.deepcopy(o)
    if snap(c) != s:
        return f'{v.c}: a deep copy differs from its original'
    ids = {i: p for i, p, _ in mutables(o)}
    for i, p, x in mutables(c):
        if i in ids:
            return f'{v.c}: {p} of a deep copy is {ids[i]} of the original'
    poke(c)
    return f'{v.c}: changing a deep copy changed the original' if snap(o) != s else None


def near(x):
    """values close to x that are not x"""
    if isinstance(x, bool):
        return [not x, None]
    if isinstance(x, Q):
        return [Q(y) for y in (x.upper(), x.lower(), x.title(), x + ' ', ' ' + x, x + '\n', x[:-1], x + x, '', x + '\u200b', x.replace('s', '\u017f'))] + [None]
    if isinstance(x, str):
        return [x.upper(), x + ' ', x[:-1], '', None]
    if isinstance(x, (int, float)):
        return [x + 1e-9, x + 1e-6, x + 0.001, x + 1, -x, x * 10, x / 10, 0, None, str(x), int(x)]
    if x is None:
        return [Q(''), 0, False, []]
    if isinstance(x, list) and x:
        return [x[:-1], x[1:], x[::-1], x + x[-1:], [], None]
    if isinstance(x, list):
        return [None]
    return []


def near_all(v):
    """v with one place anywhere inside replaced by a near miss"""
    if isinstance(v, V):
        for k, x in v.d.items():
            for y in near(x):
                yield v.with_(**{k: y})
            if isinstance(x, V):
                for y in near_all(x):
                    yield v.with_(**{k: y})
            elif isinstance(x, list) and any(isinstance(e, V) for e in x):
                for i in sorted({0, len(x) - 1}):
                    for y in near_all(x[i]):
                        yield v.with_(**{k: x[:i] + [y] + x[i + 1:]})


def eq_sweep(t, cls, deep):
    for kind in ('min', 'full'):
        b = base(cls, kind)
        if not MODELS[cls].valid(b):
            continue
        t.ev('equality', b, b, sample=f'{cls} itself')
        t.ev('edited_copy', b, transitions=2, sample=f'{cls} copy')
        for v in near_all(b):
            t.ev('equality', b, v, transitions=6, sample='')
            if t.full:
                return
        for k, dom in MODELS[cls].fields.items():
            prev = b
            for x in dom.alphabet() if deep else dom.reduced() + dom.alphabet()[:40]:
                v = b.with_(**{k: x})
                t.ev('equality', b, v, transitions=6, sample=f'{cls}.{k} = {x!r:.60}')
                t.ev('equality', prev, v, transitions=6, sample='')
                prev = v
                if t.full:
                    return


@oracle
def file_equality(rel, kind):
    real = MODELS[kind].real()
    a, b = (real.from_file(path_of(rel), encoding='utf-8') for _ in range(2))
    if a != b or not a == b:
        return f'{rel}: loaded twice, the objects are not equal'
    if copy.deepcopy(a) != a:
        return f'{rel}: a deep copy is not equal'
    return None


def file_eq_sweep(t, rel, kind):
    t.ev('file_equality', rel, kind, sample=rel)


# ---------------------------------------------------------------------- start
def start(run, which):
    deep = run.tier == 'thorough'
    cl = all_classes()
    cl.sort(key=lambda c: -len(MODELS[c].fields))
    sh = {c: (8 if len(MODELS[c].fields) > 14 else 1) for c in cl}
    if which == 'stable':
        run.bounds = {'classes': len(cl), 'history_depth': 4 if deep else 3, 'configurations': len(CONFIGS)}
        run.assumptions = ['histories longer than the bound behave like shorter ones']
        jobs = [(('checks.objects', 'config_sweep'), (i,)) for i in range(1, len(CONFIGS))]
        jobs += [(('checks.objects', 'order_sweep'), (o,)) for o in ('reversed', 'byvalue')]
        jobs += [(('checks.objects', 'stable_sweep'), (c, deep, i, sh[c])) for c in cl for i in range(sh[c])]
        jobs += [(('checks.objects', 'history_sweep'), (c, 4 if deep else 3)) for c in cl]
        jobs += [(('checks.objects', 'others_sweep'), (c,)) for c in cl]
        jobs += [(('checks.objects', 'files_sweep'), x) for x in corpus()]
        run.run(jobs)
    elif which == 'isolation':
        run.bounds = {'classes': len(cl)}
        run.assumptions = ['sharing shows through in-place changes of attributes, lists and dictionaries']
        jobs = [(('checks.objects', 'fresh_sweep'), (c,)) for c in cl] + [(('checks.objects', 'fresh_classes'), ())]
        jobs += [(('checks.objects', 'iso_sweep'), (c, deep, i, sh[c])) for c in cl for i in range(sh[c])]
        jobs += [(('checks.objects', 'iso_files'), x) for x in corpus()]
        run.run(jobs)
    elif which == 'naming':
        run.bounds = {'operations': len(SYM_OPS), 'depth': 4 if deep else 3, 'identifier_length': 7 if deep else 6}
        run.assumptions = ['identifiers contain no line break and no leading or trailing colon']
        jobs = []
        for c in ('Symbol', 'Footprint', 'SchematicSymbol'):
            ops = SYM_OPS if c == 'Symbol' else FP_OPS
            for u in ((0, 1, 2) if c == 'Symbol' else (0,)):
                jobs += [(('checks.objects', 'naming_sweep'), (c, u, i, (4 if deep else 3) if u != 1 or deep else 2)) for i in range(len(ops))]
            jobs += [(('checks.objects', 'ids_sweep'), (c, ['A', '_', ':', '0', '1', '2'], 7 if deep else 6, i, 8)) for i in range(8)]
            jobs += [(('checks.objects', 'ids_sweep'), (c, ['A', 'a', ' ', '_', ':', '1', '.', '-'], 6 if deep else 5, i, 4)) for i in range(4)]
            jobs += [(('checks.objects', 'ids_sweep'), (c, [chr(k) for k in range(32, 127)] + ['\u00b5'], 2, 0, 1))]
            jobs += [(('checks.objects', 'special_ids'), (c,))]
        run.run(jobs)
    elif which == 'new':
        run.bounds = {'history_depth': 6 if deep else 4, 'constructors': 'every dataclass, every number of positional arguments, every single keyword, all keywords'}
        run.assumptions = []
        jobs = [(('checks.objects', 'new_sweep'), (k, a, 6 if deep else 4)) for k, a in NEW]
        jobs += [(('checks.objects', 'default_sweep'), ()), (('checks.objects', 'constructor_sweep'), ()), (('checks.objects', 'position_sweep'), ())]
        jobs += [(('checks.objects', 'new_items'), (i, 8)) for i in range(8)]
        run.run(jobs)
    elif which == 'equality':
        run.bounds = {'classes': len(cl), 'pairs': 'every baseline with every single attribute deviation, and consecutive deviations with each other'}
        run.assumptions = ['objects that differ in more than one attribute compare like objects that differ in one']
        cl = sorted(MODELS, key=lambda c: (-len(MODELS[c].fields), c))
        run.run([(('checks.objects', 'eq_sweep'), (c, deep)) for c in cl] + [(('checks.objects', 'attribute_sweep'), ())] + [(('checks.objects', 'file_eq_sweep'), x) for x in corpus()])

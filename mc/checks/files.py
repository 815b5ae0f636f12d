"""C15 file histories, C16 failed saves, C17 rejected input.

C15 explores every sequence of load/save/edit operations up to a depth on a
scratch directory and compares the real object and the real directory with a
small state model.  C16 enumerates fault points of a save (a failing part at
every place of the object, an unencodable character at every text, a write that
stops at every byte).  C17 enumerates every cut and every lost or surplus
parenthesis of a file, and every pair of a token and a class it does not fit."""
import builtins
import dataclasses
import locale
import os
import pathlib
import resource
import shutil
import tempfile
from itertools import product
import spec_board  # noqa: F401
import spec_sch    # noqa: F401
from checks.fidelity import parse, saved_tree
from checks.objects import snap
from checks.shapes import all_classes
from domains import base, closure, embed, sub_devs, Gen2
from engine import oracle
from lift import FILETYPES, corpus, path_of
from model import MODELS, BadText, Node, Q, V, build, ref_read, to_text, tree, tree_diff, value_diff


class Scratch:
    """a private directory, removed afterwards; the working directory is put there as well"""
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='kiutils-mc-')
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def listing(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + '/'] = None
    return out


def doc(v):
    """reference text of a file with content v"""
    t = tree(v)
    return '\n'.join(to_text(x, 1) for x in t) if v.c == 'DesignRules' else to_text(t, 1)


# ------------------------------------------------------------------------ C15
NONASCII = {'utf-8': '\u00b5\u03a9\u65e5', 'utf-16': '\u00b5\u03a9\u65e5', 'utf-8-sig': '\u00b5\u03a9\u65e5', 'latin-1': '\u00b5\u00e9\u00ff', 'cp1252': '\u00b5\u20ac\u00fc', 'cp1251': '\u0416\u044f', 'shift_jis': '\u65e5\u672c', 'gb18030': '\u00b5\u65e5\U0001f600', 'ascii': 'plain'}
PREFERRED = locale.getpreferredencoding(False)         # what open() uses when no encoding is given
NONASCII[None] = NONASCII['utf-8'] if PREFERRED.lower().replace('-', '') == 'utf8' else 'plain'
TEXTAT = {'Board': None, 'Schematic': None, 'Footprint': 'description', 'SymbolLib': None, 'WorkSheet': None, 'DesignRules': None, 'LibTable': None}


def with_text(kind, text):
    """a minimal file of this type holding `text`"""
    def put(cls, field, val, **more):
        return base(cls, 'min', Gen2(40)).with_(**{field: Q(val)}, **more)
    if kind == 'Board':
        return base('Board', 'min').with_(nets=[V('Net', dict(number=3, name=Q(text)))])
    if kind == 'Schematic':
        return base('Schematic', 'min').with_(texts=[put('Text', 'text', text)])
    if kind == 'Footprint':
        return base('Footprint', 'min').with_(description=Q(text))
    if kind == 'SymbolLib':
        return base('SymbolLib', 'min').with_(symbols=[base('Symbol', 'min', Gen2(40)).with_(properties=[put('Property', 'value', text)])])
    if kind == 'WorkSheet':
        return base('WorkSheet', 'min').with_(drawingObjects=[put('TbText', 'text', text)])
    if kind == 'DesignRules':
        return base('DesignRules', 'min').with_(rules=[put('Rule', 'name', text)])
    return base('LibTable', 'min').with_(libs=[put('Library', 'description', text)])


_variants = {}


def variants(kind, enc):
    if (kind, enc) not in _variants:
        x = with_text(kind, NONASCII[enc])
        y = with_text(kind, 'other text, somewhat longer than the first one: (b) "c" ')
        _variants[kind, enc] = [x, y]
    return _variants[kind, enc]


def ref_bytes(v, enc):
    return doc(v).encode(enc or PREFERRED)


OPS = ['load1', 'load2', 'loadmissing', 'loaddir', 'save', 'save1', 'save2', 'savebad', 'edit', 'unset', 'set2']


EXT = {'Board': '.kicad_pcb', 'Schematic': '.kicad_sch', 'Footprint': '.kicad_mod', 'SymbolLib': '.kicad_sym', 'WorkSheet': '.kicad_wks', 'DesignRules': '.kicad_dru', 'LibTable': '-lib-table'}
STYLES = ['abs', 'rel', 'path', 'relpath', 'dot', 'up', 'sub', 'ext', 'foreign', 'odd', 'tilde', 'env', 'blank']


def named(p, style, kind):
    """file name of the file called p in this style"""
    if p not in ('one', 'two', 'none'):
        return p
    return {'ext': p + EXT[kind], 'foreign': p + '.TXT.bak', 'odd': f'\u00b5 {p} (copy) "x" [1].', 'tilde': '~' + p, 'env': f'$HOME%20{p}*?', 'blank': f' {p} '}.get(style, p)


def as_arg(p, d, style, kind):
    p = named(p, style, kind)
    full = os.path.join(d, p)
    return {'rel': p, 'path': pathlib.Path(full), 'relpath': pathlib.Path(p), 'dot': './' + p, 'up': 'dir/../' + p, 'sub': f'dir/sub/../../{p}', 'tilde': p, 'env': p, 'blank': p}.get(style, full)


@oracle
def file_history(kind, enc, style, ops):
    real = MODELS[kind].real()
    vs = variants(kind, enc)
    with Scratch() as d:
        os.mkdir('dir')
        os.mkdir('dir/sub')
        # start: one file with content 0 at one, an unrelated file next to it, nothing at two
        with open(named('one', style, kind), 'wb') as f:
            f.write(ref_bytes(vs[0], enc))
        with open('bystander', 'wb') as f:
            f.write(b'bystander')
        disk = {'one': 0}
        obj, content, fp = build(vs[1]), 1, None
        for n, op in enumerate(ops):
            last = n == len(ops) - 1
            before = listing(d) if last else None
            err = None
            wrote = None
            new = None
            try:
                if op.startswith('load'):
                    p = {'load1': 'one', 'load2': 'two', 'loadmissing': 'none', 'loaddir': 'dir'}[op]
                    new = real.from_file(as_arg(p, d, style, kind), encoding=enc) if enc else real.from_file(as_arg(p, d, style, kind))
                elif op == 'save':
                    r = obj.to_file(encoding=enc) if enc else obj.to_file()
                elif op.startswith('save'):
                    p = {'save1': 'one', 'save2': 'two', 'savebad': 'dir/none/x'}[op]
                    r = obj.to_file(as_arg(p, d, style, kind), encoding=enc) if enc else obj.to_file(as_arg(p, d, style, kind))
                elif op == 'edit':
                    content = 1 - content
                    o2 = build(vs[content])
                    for k in MODELS[kind].fields:
                        setattr(obj, k, getattr(o2, k))
                elif op == 'unset':
                    obj.filePath, fp = None, None
                elif op == 'set2':
                    obj.filePath, fp = as_arg('two', d, style, kind), 'two'
            except Exception as e:
                err = e
            # model step
            fail = False
            if op in ('load1', 'load2'):
                p = {'load1': 'one', 'load2': 'two'}[op]
                if p in disk:
                    if err is None:
                        obj = new
                    content, fp = disk[p], p
                else:
                    fail = True
            elif op in ('loadmissing', 'loaddir', 'savebad'):
                fail = True
            elif op == 'save':
                if fp is None:
                    fail = True
                else:
                    wrote = fp
            elif op in ('save1', 'save2'):
                wrote = p
            if wrote:
                disk[wrote] = content
            w = f'{kind} ({enc}, {style}) after {ops[:n + 1]}'
            if fail and err is None:
                return f'{w}: succeeded, an error was due'
            if not fail and err is not None:
                return f'{w}: {type(err).__name__}: {err}'
            if not last:
                continue
            # compare the object
            want = None if fp is None else os.fspath(as_arg(fp, d, style, kind))
            got = None if obj.filePath is None else os.fspath(obj.filePath)
            if want != got:
                return f'{w}: file path is {got!r}, expected {want!r}'
            df = value_diff(vs[content], obj)
            if df:
                return f'{w}: object: {df}'
            # compare the directory
            after = listing(d)
            real_name = {k: named(k, style, kind) for k in disk}
            if set(after) != {'bystander', 'dir/', 'dir/sub/'} | set(real_name.values()):
                return f'{w}: directory holds {sorted(after)}'
            for name in after:
                if name != real_name.get(wrote) and before.get(name) != after[name]:
                    return f'{w}: {name} changed'
            for name, c in disk.items():
                name = real_name[name]
                try:
                    text = after[name].decode(enc or PREFERRED)
                except UnicodeError as e:
                    return f'{w}: {name} is not {enc}: {e}'
                try:
                    df = tree_diff(saved_tree(vs[c]), ref_read(text))
                except BadText as e:
                    df = f'unreadable: {e}'
                if df:
                    return f'{w}: {name}: {df}'
    return None


def history_sweep(t, kind, enc, style, first, depth, ops):
    for n in range(0, depth - len(first) + 1):
        for rest in product(ops, repeat=n):
            seq = list(first) + list(rest)
            t.ev('file_history', kind, enc, style, seq, transitions=len(seq), sample=f'{kind} {enc} {style} {seq}')
            if t.full:
                return


@oracle
def file_trip(rel, kind, enc):
    """a real file, loaded, saved elsewhere in another encoding, loaded again"""
    real = MODELS[kind].real()
    a = real.from_file(path_of(rel), encoding='utf-8')
    with Scratch() as d:
        with open(path_of(rel), 'rb') as f:
            orig = f.read()
        p = os.path.join(d, 'copy')
        a.to_file(p, encoding=enc)
        if a.filePath != path_of(rel):
            return f'{rel}: saving elsewhere changed the file path to {a.filePath!r}'
        b = real.from_file(p, encoding=enc)
        if b.filePath != p:
            return f'{rel}: file path after loading is {b.filePath!r}'
        b.filePath = a.filePath
        if snap(a) != snap(b):
            return f'{rel}: content changes over save and load in {enc}'
        with open(path_of(rel), 'rb') as f:
            if f.read() != orig:
                return f'{rel}: the original file changed'
    return None


def trip_sweep(t, rel, kind):
    for e in ('utf-8', 'utf-16', 'utf-8-sig', 'gb18030'):
        t.ev('file_trip', rel, kind, e, transitions=3, sample=f'{rel} {e}')


@oracle
def linked(kind, style, mode, ops):
    """the path is a link, or passes through a linked directory: it is remembered as given, and what it points to is written, in place"""
    real = MODELS[kind].real()
    vs = variants(kind, 'utf-8')
    with Scratch() as d:
        os.makedirs('store/sub')
        with open('store/sub/file', 'wb') as f:
            f.write(ref_bytes(vs[0], 'utf-8'))
        os.chmod('store/sub/file', mode)
        os.symlink('store/sub/file', 'link')
        os.symlink('link', 'link2')
        os.symlink('store/sub', 'place')
        name = {'link': 'link', 'link2': './link2', 'place': 'place/file', 'abs': os.path.join(d, 'link'), 'up': 'place/../sub/file'}[style]
        before = {p: (os.readlink(p) if os.path.islink(p) else None) for p in ('link', 'link2', 'place')}
        o, c = real.from_file(name, encoding='utf-8'), 0
        for op in ops:
            if op == 'edit':
                c = 1 - c
                o2 = build(vs[c])
                for k in MODELS[kind].fields:
                    setattr(o, k, getattr(o2, k))
            elif op == 'save':
                o.to_file(encoding='utf-8')
            elif op == 'saveas':
                o.to_file(name, encoding='utf-8')
            else:
                o = real.from_file(name, encoding='utf-8')
        w = f'{kind} at {style} after {ops}'
        if o.filePath != name:
            return f'{w}: remembered path is {o.filePath!r}, given was {name!r}'
        if {p: (os.readlink(p) if os.path.islink(p) else None) for p in before} != before:
            return f'{w}: a link was replaced'
        if sorted(os.listdir('.')) != ['link', 'link2', 'place', 'store'] or os.listdir('store/sub') != ['file'] or os.listdir('store') != ['sub']:
            return f'{w}: other files appeared'
        if os.stat('store/sub/file').st_mode & 0o777 != mode:
            return f'{w}: the permissions of the file changed'
        with open('store/sub/file', encoding='utf-8') as f:
            m = tree_diff(saved_tree(vs[c]), ref_read(f.read()))
        return f'{w}: {m}' if m else None


NO_FILES = ['', '.', './', '..', 'dir', 'dir/', 'dir/none/x', 'one/', 'one/x', 'one/.', 'a\0b', pathlib.Path('.'), pathlib.Path('dir')]


@oracle
def no_file(kind, i, op, enc):
    """a path that is no file: an error, and the remembered file, the object and everything else stay as they are"""
    real = MODELS[kind].real()
    vs = variants(kind, enc)
    arg = NO_FILES[i]
    with Scratch() as d:
        os.makedirs('in/dir')
        os.chdir('in')
        for n in ('one', '../bystander', 'dir/one'):
            with open(n, 'wb') as f:
                f.write(ref_bytes(vs[0], enc))
        try:
            before = listing(d)
            w = f'{kind}: {op} {arg!r}'
            if op == 'load':
                try:
                    real.from_file(arg, encoding=enc)
                except Exception:
                    return None if listing(d) == before else f'{w}: files changed'
                return f'{w}: succeeded, an error was due'
            obj = build(vs[1])
            if op == 'save':                    # with a remembered path
                obj.filePath = os.path.join(d, 'in', 'one')
            elif op == 'saveset':               # as remembered path
                obj.filePath = arg
            held = obj.filePath
            try:
                if op == 'saveset':
                    obj.to_file(encoding=enc)
                else:
                    obj.to_file(arg, encoding=enc)
            except Exception:
                if listing(d) != before:
                    return f'{w}: files changed'
                if obj.filePath != held:
                    return f'{w}: the remembered path changed to {obj.filePath!r}'
                df = value_diff(vs[1], obj)
                return df and f'{w}: object: {df}'
            return f'{w}: succeeded, an error was due'
        finally:
            os.chdir(d)


def no_file_sweep(t, kind):
    for i, a in enumerate(NO_FILES):
        for op in ('load', 'save', 'savenew', 'saveset'):
            for e in ('utf-8', 'utf-16', None):
                t.ev('no_file', kind, i, op, e, sample=f'{kind} {op} {a!r} {e}')


def linked_sweep(t, kind):
    for style in ('link', 'link2', 'place', 'abs', 'up'):
        for mode in (0o644, 0o600, 0o755, 0o664):
            for ops in ([], ['save'], ['edit', 'save'], ['edit', 'saveas'], ['edit', 'save', 'load'], ['edit', 'saveas', 'load', 'edit', 'save']):
                t.ev('linked', kind, style, mode, ops, transitions=len(ops) + 1, sample=f'{kind} {style} {mode:o} {ops}')


LISTOF = {'Board': 'nets', 'Schematic': 'texts', 'SymbolLib': 'symbols', 'WorkSheet': 'drawingObjects', 'DesignRules': 'rules', 'LibTable': 'libs'}


def long_value(kind, n, odd=None):
    """a file with n items of the same length; item `odd` reads differently"""
    def text(i):
        return f'item {i:06d} {"left" if i != odd else "Left"}'
    if kind == 'Footprint':
        return base(kind, 'min').with_(properties={f'key {i:06d}': Q(text(i)) for i in range(n)})
    v, f = base(kind, 'min'), LISTOF[kind]
    return v.with_(**{f: [with_text(kind, text(i)).d[f][0] for i in range(n)]})


@oracle
def rewritten(kind, n, odd):
    """the file changes in one place, keeping its name, size and time stamp: the next load sees it, and so does the next save"""
    real = MODELS[kind].real()
    a, b = long_value(kind, n), long_value(kind, n, odd)
    with Scratch() as d:
        p = os.path.join(d, 'one')
        for step, v in enumerate((a, b, a)):
            with open(p, 'r+b' if step else 'wb') as f:
                f.write(ref_bytes(v, 'utf-8'))
            os.utime(p, (1e9, 1e9))
            o = real.from_file(p, encoding='utf-8')
            m = value_diff(v, o)
            if m:
                return f'{kind} of {n} items, item {odd} rewritten in the file: load {step + 1} gives {m}'
        x, y = build(a), build(b)
        for o in (x, y, x):
            o.to_file(p, encoding='utf-8')
            os.utime(p, (1e9, 1e9))
            with open(p, encoding='utf-8') as f:
                if f.read() != o.to_sexpr():
                    return f'{kind} of {n} items: saved again with item {odd} changed, the file holds something else'
    return None


def rewritten_sweep(t, kind, n, shard, nsh):
    for i in range(shard, n, nsh):
        t.ev('rewritten', kind, n, i, transitions=9, sample=f'{kind} of {n} items, item {i}')
        if t.full:
            return


# ------------------------------------------------------------------------ C16
class Bomb:
    """a part that cannot be written"""
    def _boom(self, *a, **k):
        raise RuntimeError('boom')
    to_sexpr = __str__ = __repr__ = __format__ = __iter__ = __len__ = __bool__ = __eq__ = __float__ = __int__ = __getitem__ = _boom
    __hash__ = object.__hash__

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise RuntimeError('boom')


def places(o, path=()):
    """every attribute and list slot of a real object tree, as a path"""
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        for f in dataclasses.fields(o):
            if f.name in ('filePath',) or f.name.startswith('_'):
                continue
            yield path + (f.name,)
            yield from places(getattr(o, f.name), path + (f.name,))
    elif isinstance(o, list):
        for i, x in enumerate(o):
            yield path + (i,)
            yield from places(x, path + (i,))
        yield path + ('append',)
    elif isinstance(o, dict):
        for k, x in o.items():
            yield path + (('key', k),)


def plant(o, path, what):
    for p in path[:-1]:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    p = path[-1]
    if p == 'append' and isinstance(o, list):
        o.append(what)
    elif isinstance(p, int):
        o[p] = what
    elif isinstance(p, (tuple, list)):
        o[p[1]] = what
    else:
        setattr(o, p, what)


def deep_value(kind):
    return base(kind, 'full')


def failing_save(o, d, enc, arg, w, must_fail):
    """save over an existing file / to a fresh path; on failure nothing in the directory may change"""
    before = listing(d)
    try:
        if arg is None:
            o.to_file(encoding=enc)
        else:
            o.to_file(arg, encoding=enc)
    except (Exception, KeyboardInterrupt) as e:
        after = listing(d)
        if after != before:
            ch = sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0))
            return f'{w}: the failed save ({type(e).__name__}) changed {ch}'
        return None
    if must_fail:
        return f'{w}: succeeded, an error was due'
    return None


@oracle
def bomb_save(kind, path, mode):
    with Scratch() as d:
        with open('target', 'wb') as f:
            f.write(ref_bytes(with_text(kind, 'precious'), 'utf-8'))
        o = build(deep_value(kind))
        path = tuple(tuple(p) if isinstance(p, list) else p for p in path)
        plant(o, path, Bomb())
        w = f'{kind} with an unwritable part at {path}'
        o.filePath = fp = os.path.join(d, 'target')
        if mode == 'default':
            m = failing_save(o, d, 'utf-8', None, w, False)
        else:
            m = failing_save(o, d, 'utf-8', os.path.join(d, mode), w, False)
        return m or (None if o.filePath == fp else f'{w}: the failed save changed the remembered path to {o.filePath!r}')


def part_at(o, path):
    for p in path:
        o = o[p] if isinstance(p, int) else getattr(o, p)
    return o


ERRORS = ['RuntimeError', 'AttributeError', 'TypeError', 'ValueError', 'KeyError', 'IndexError', 'NotImplementedError', 'UnicodeError', 'AssertionError',
          'OSError', 'StopIteration', 'ZeroDivisionError', 'RecursionError', 'MemoryError', 'Exception', 'KeyboardInterrupt']


def failing(x, error):
    """the same part, but its conversion to text fails"""
    exc = getattr(builtins, error)

    def boom(self, *a, **k):
        raise exc('boom')
    c = type(type(x).__name__, (type(x),), {'to_sexpr': boom})
    n = c.__new__(c)
    n.__dict__.update(x.__dict__)
    return n


PLAIN = {MODELS[c].real_name for c in MODELS if not MODELS[c].root}      # written by their container


@oracle
def part_save(kind, cls, path, mode, error):
    """one part, somewhere in the document, cannot be converted"""
    with Scratch() as d:
        with open('target', 'wb') as f:
            f.write(ref_bytes(with_text(kind, 'precious'), 'utf-8'))
        o = build(embed(closure(kind)[cls], base(cls, 'full')))
        path = tuple(path)
        plant(o, path, failing(part_at(o, path), error))
        o.filePath = fp = os.path.join(d, 'target')
        w = f'{kind} with a part that cannot be converted ({error}) at {path}'
        m = failing_save(o, d, 'utf-8', None if mode == 'default' else os.path.join(d, mode), w, True)
        return m or (None if o.filePath == fp else f'{w}: the failed save changed the remembered path to {o.filePath!r}')


def count_head(t, h):
    return sum((e[0] == h if e and not isinstance(e[0], list) else 0) + count_head(e, h) for e in t if isinstance(e, list))


@oracle
def lost_part(kind, cls, path):
    """a part that is required is missing (None): either the save fails, or at least what it belongs to is written"""
    with Scratch() as d:
        with open('target', 'wb') as f:
            f.write(ref_bytes(with_text(kind, 'precious'), 'utf-8'))
        o = build(embed(closure(kind)[cls], base(cls, 'full')))
        path = tuple(path)
        part, owner = part_at(o, path), part_at(o, path[:-1])
        if isinstance(owner, list) or type(owner).__name__ in PLAIN:
            return None
        full = ref_read(o.to_sexpr())
        try:
            head = ref_read(owner.to_sexpr())[0][0]
            gone = count_head(ref_read(part.to_sexpr()), head)
        except NotImplementedError:
            gone = 0
        plant(o, path, None)
        w = f'{kind} whose {path} is None'
        m = failing_save(o, d, 'utf-8', os.path.join(d, 'target'), w, False)
        if m:
            return m
        with open('target', encoding='utf-8') as f:
            text = f.read()
        if text == ref_bytes(with_text(kind, 'precious'), 'utf-8').decode('utf-8'):
            return None
        if count_head(ref_read(text), head) < count_head(full, head) - gone:
            return f'{w}: the save succeeded but left out a ({head} ..) token'
    return None


def part_sweep(t, kind, shard, n):
    seen = set()
    for i, (cls, path) in enumerate(closure(kind).items()):
        if i % n != shard or not MODELS[cls].root:
            continue
        v = embed(path, base(cls, 'full'))
        if v is None or not MODELS[cls].valid(base(cls, 'full')):
            continue
        o = build(v)
        for p in places(o):
            if p[-1] == 'append' or isinstance(p[-1], tuple):
                continue
            x = part_at(o, p)
            if dataclasses.is_dataclass(x) and type(x).__name__ not in PLAIN:
                for mode in ('target', 'fresh', 'default'):
                    t.ev('part_save', kind, cls, list(p), mode, 'RuntimeError', sample=f'{kind} {cls} {p} {mode}')
                owner = part_at(o, p[:-2] if isinstance(p[-1], int) else p[:-1])
                key = (type(owner).__name__, [q for q in p if isinstance(q, str)][-1], type(x).__name__)
                if key not in seen:
                    seen.add(key)
                    for error in ERRORS[1:]:
                        t.ev('part_save', kind, cls, list(p), 'target', error, sample=f'{kind} {cls} {p} {error}')
                    t.ev('lost_part', kind, cls, list(p), sample=f'{kind} {cls} {p} None')
                if t.full:
                    return


# states the library documents as not writable
UNWRITABLE = {}
UNWRITABLE['Zone'] = [dict(layers=[])]
for _c in ('GrTextBox', 'FpTextBox'):
    UNWRITABLE[_c] = [dict(angle=a, **m) for a in (None, 0, 0.0, 90, 90.0, 180, 180.0, 270, 270.0) for m in (dict(start=None), dict(end=None), dict(start=None, end=None))]
    UNWRITABLE[_c] += [dict(angle=a, pts=n) for a in (45, 45.0, 0.5, -0.1, 89.9, 90.1, 1, 359.9, 22.5) for n in (0, 1, 2, 3, 5, 6, 8)]
UNWRITABLE['PageSettings'] = [dict(paperSize='User', width=w, height=h) for w, h in ((None, None), (None, 100.0), (100.0, None), (0, None), (None, 0))]
UNWRITABLE['Dimension'] = [dict(pts=0)]
UNWRITABLE['WorkSheet'] = [dict(polygon=i) for i in ('first', 'last', 'alone')]


def find_real(o, name):
    if type(o).__name__ == name:
        return o
    for x in (o if isinstance(o, list) else [getattr(o, f.name) for f in dataclasses.fields(o)] if dataclasses.is_dataclass(o) else []):
        r = find_real(x, name)
        if r is not None:
            return r
    return None


@oracle
def unwritable_state(kind, cls, case, mode):
    """a part in a state that has no text form: refused, nothing destroyed"""
    with Scratch() as d:
        with open('target', 'wb') as f:
            f.write(ref_bytes(with_text(kind, 'precious'), 'utf-8'))
        o = build(embed(closure(kind)[cls], base(cls, 'full')) if cls != kind else base(kind, 'full'))
        x = find_real(o, MODELS[cls].real_name)
        how = UNWRITABLE[cls][case]
        for k, v in how.items():
            if k == 'pts':
                from kiutils.items.common import Position
                v = [Position(X=i, Y=i + 1) for i in range(v)]
            if k == 'polygon':
                from kiutils.wks import Polygon
                k, v = 'drawingObjects', ([Polygon()] + x.drawingObjects if v == 'first' else x.drawingObjects + [Polygon()] if v == 'last' else [Polygon()])
            setattr(x, k, v)
        o.filePath = fp = os.path.join(d, 'target')
        sn = snap(o)
        w = f'{kind} with a {cls} where {how}'
        m = failing_save(o, d, 'utf-8', None if mode == 'default' else os.path.join(d, mode), w, True)
        if m:
            return m
        return None if snap(o) == sn and o.filePath == fp else f'{w}: the failed save changed the object'


def state_sweep(t, kind):
    for cls, cases in UNWRITABLE.items():
        if cls != kind and (cls not in closure(kind) or embed(closure(kind)[cls], base(cls, 'full')) is None):
            continue
        for i in range(len(cases)):
            for mode in ('target', 'fresh', 'default'):
                t.ev('unwritable_state', kind, cls, i, mode, sample=f'{kind} {cls} {cases[i]} {mode}')


def text_paths(v, path=()):
    """every free text of a model value"""
    if isinstance(v, V):
        for k, x in v.d.items():
            yield from text_paths(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from text_paths(x, path + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            if isinstance(x, Q):
                yield path + (('key', str(k)),)
    elif isinstance(v, Q):
        yield path


UNENCODABLE = {'ascii': '\u00e9', 'latin-1': '\u20ac', 'cp1252': '\u0416', 'cp437': '\u65e5', 'utf-8': '\ud800', 'utf-16': '\udfff', None: '\ud800', 'shift_jis': '\u00e9'}


@oracle
def encoding_save(kind, path, enc, mode):
    with Scratch() as d:
        with open('target', 'wb') as f:
            f.write(ref_bytes(with_text(kind, 'precious'), 'utf-8'))
        o = build(deep_value(kind))
        path = tuple(tuple(p) if isinstance(p, list) else p for p in path)
        plant(o, path, 'x' + UNENCODABLE[enc] + 'y')
        sn = snap(o)
        m = failing_save(o, d, enc, os.path.join(d, mode), f'{kind} with a character outside of {enc} at {path}', True)
        if m:
            return m
        if snap(o) != sn:
            return f'{kind}: the failed save changed the object'
        # the same object saves once the encoding fits
        if enc in ('ascii', 'latin-1', 'cp1252', 'cp437', 'shift_jis'):
            o.to_file(os.path.join(d, mode), encoding='utf-8')
            with open(mode, encoding='utf-8') as f:
                if f.read() != o.to_sexpr():
                    return f'{kind}: the save after the failed one is incomplete'
    return None


@oracle
def bad_target(kind, enc, target):
    """unknown encodings, targets that cannot be written"""
    with Scratch() as d:
        with open('target', 'wb') as f:
            f.write(ref_bytes(with_text(kind, 'precious'), 'utf-8'))
        os.mkdir('dir')
        o = build(deep_value(kind))
        df = failing_save(o, d, enc, target, f'{kind}.to_file({target!r}, encoding={enc!r})', True)
        if df or target is None:
            return df
        o.filePath = os.path.join(d, 'target')
        return failing_save(o, d, enc, target, f'{kind}.to_file({target!r}, encoding={enc!r}) with a remembered path', True)


@oracle
def short_write(kind, limit, enc):
    """the disk takes only `limit` bytes: the caller must be told"""
    with Scratch() as d:
        o = build(with_text(kind, 'some text \u00b5'))
        size = len(o.to_sexpr().encode(enc))
        with open('bystander', 'wb') as f:
            f.write(b'b')
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        err = None
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            o.to_file('target', encoding=enc)
        except Exception as e:
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        if limit < size and err is None:
            return f'{kind}: only {limit} of {size} bytes could be written and no error was raised'
        if limit >= size and err is not None:
            return f'{kind}: {type(err).__name__}: {err}'
        with open('bystander', 'rb') as f:
            if f.read() != b'b':
                return f'{kind}: another file changed'
        if limit >= size and os.path.getsize('target') != size:
            return f'{kind}: {os.path.getsize("target")} of {size} bytes written'
        o.to_file('target', encoding=enc)
        with open('target', encoding=enc) as f:
            if f.read() != o.to_sexpr():
                return f'{kind}: the save after the failed one is incomplete'
    return None


def bomb_sweep(t, kind, shard, n):
    for i, p in enumerate(places(build(deep_value(kind)))):
        if i % n != shard:
            continue
        for mode in ('target', 'fresh', 'default'):
            t.ev('bomb_save', kind, p, mode, sample=f'{kind} {p} {mode}')
        if t.full:
            return


def enc_sweep(t, kind, shard, n):
    for i, p in enumerate(text_paths(deep_value(kind))):
        if i % n != shard:
            continue
        for e in UNENCODABLE:
            for mode in ('target', 'fresh'):
                t.ev('encoding_save', kind, p, e, mode, transitions=2, sample=f'{kind} {p} {e} {mode}')
        if t.full:
            return


def target_sweep(t, kind):
    for e in ('no-such-encoding', 'utf-99', 'hex', ''):
        for x in ('target', 'fresh'):
            t.ev('bad_target', kind, e, x, sample=f'{kind} {e!r} {x}')
    for e in ('utf-8', None):
        for x in ('dir', 'none/x', 'target/x', 'dir/', '', 'a\0b', None):
            t.ev('bad_target', kind, e, x, sample=f'{kind} {e!r} {x!r}')


def short_sweep(t, kind, step):
    for e in ('utf-8', 'utf-16'):
        size = len(build(with_text(kind, 'some text \u00b5')).to_sexpr().encode(e))
        for n in sorted(set(list(range(0, size, step)) + list(range(max(0, size - 12), size + 3)))):
            t.ev('short_write', kind, n, e, transitions=2, sample=f'{kind} {n}/{size} {e}')
            if t.full:
                return


# ------------------------------------------------------------------------ C17
def depth_map(text):
    """for every position: nesting depth before it and whether it lies in a quoted text"""
    out, depth, inq, i = [], 0, False, 0
    while i < len(text):
        out.append((depth, inq))
        c = text[i]
        if inq:
            if c == '\\':
                i += 1
                out.append((depth, True))
            elif c == '"':
                inq = False
        elif c == '"':
            inq = True
        elif c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
        i += 1
    out.append((depth, inq))
    return out


def source(kind, src):
    if src == 'min' or src == 'full':
        return doc(base(kind, src))
    if src == 'saved':
        return build(base(kind, 'full')).to_sexpr()
    if src == 'texts':
        return doc(with_text(kind, 'a "b" (c) d'))
    with open(path_of(src), encoding='utf-8') as f:
        return f.read()


@oracle
def broken(kind, src, how, pos, via):
    """text `src` with one thing lost or added at `pos` must not load"""
    s = source(kind, src)
    if how == 'cut':
        b = s[:pos]
    elif how == 'drop':
        b = s[:pos] + s[pos + 1:]
    elif how == 'add(':
        b = s[:pos] + ' ( ' + s[pos:]
    elif how == 'add)':
        b = s[:pos] + ' ) ' + s[pos:]
    real = MODELS[kind].real()
    w = f'{kind}: {src} with {how} at {pos} ({s[max(0, pos - 20):pos]!r} | {s[pos:pos + 20]!r})'
    if via == 'file':
        with Scratch() as d:
            with open('x', 'w', encoding='utf-8') as f:
                f.write(b)
            try:
                real.from_file(os.path.join(d, 'x'), encoding='utf-8')
            except Exception:
                with open('x', encoding='utf-8') as f:
                    return None if f.read() == b else f'{w}: the refused file was changed'
        return f'{w}: loads without an error'
    try:
        real.from_sexpr(parse(f'({b})' if kind == 'DesignRules' else b))
    except Exception:
        return None
    return f'{w}: loads without an error'


def broken_sweep(t, kind, src, via, shard, n):
    s = source(kind, src)
    dm = depth_map(s)
    end = s.rstrip().rfind(')')
    for pos in range(shard, len(s) + 1, n):
        d, q = dm[pos]
        if pos <= end and (d > 0 or q or kind != 'DesignRules'):
            t.ev('broken', kind, src, 'cut', pos, via, sample=f'{kind} {src} cut {pos}')
        if pos < len(s) and not q and s[pos] in '()':
            t.ev('broken', kind, src, 'drop', pos, via, sample=f'{kind} {src} drop {pos}')
            t.ev('broken', kind, src, 'add(', pos, via)
            t.ev('broken', kind, src, 'add)', pos + 1, via)
        if t.full:
            return


_heads = {}


def heads(c):
    if c not in _heads:
        hs = set()
        for v in sub_devs(c):
            x = tree(v)
            hs.add(str(x[0]) if x and not isinstance(x[0], Node) else None)
        _heads[c] = hs
    return _heads[c]


def fits(a, b):
    if heads(a) & heads(b):
        return True
    return False


@oracle
def wrong_kind(a, b, bk):
    """a token of class b given to class a"""
    if b is None:
        x = NOT_TOKENS[bk]
    elif bk in UNLISTED:        # its own content, but not as a list
        x = UNLISTED[bk](base(b, 'full'))
    else:
        x = parse(to_text(tree(base(b, bk))))
    try:
        MODELS[a].real().from_sexpr(x)
    except Exception:
        return None
    return f'{a}.from_sexpr accepts {b or NOT_TOKENS[bk]!r} ({bk})'


NOT_TOKENS = [None, 'text', '', 0, 5, 1.5, True, [], [[]], {}, (), ['zz'], [['zz']], ['zz', 1, 2], [None], [0], object]


UNLISTED = {'tuple': lambda v: tuple(parse(to_text(tree(v)))), 'text': lambda v: to_text(tree(v)), 'iterator': lambda v: iter(parse(to_text(tree(v)))),
            'dict': lambda v: dict.fromkeys(map(str, parse(to_text(tree(v))))), 'object': build, 'mixed': lambda v: (parse(to_text(tree(v))),)}


# tokens the library documents as refused
MALFORMED = [
    ('PageSettings', '(paper "User")'), ('PageSettings', '(paper "User" 100)'), ('PageSettings', '(paper "User" portrait)'), ('PageSettings', '(paper User 1.5)'),
    ('BusAlias', '(bus_alias "a")'), ('BusAlias', '(bus_alias)'), ('BusAlias', '(bus_alias "a" "b")'), ('BusAlias', '(bus_alias "a" (zz "b"))'), ('BusAlias', '(bus_alias "a" (members "b") (members "c"))'), ('BusAlias', '(bus_alias "a" (members "b") "c")'), ('BusAlias', '(bus_alias "a" members "b")'),
    ('Footprint', '(footprint "a" (layer "F.Cu") (dimension (type aligned) (layer "F.Fab")))'), ('Footprint', '(module "a" (dimension))'), ('Footprint', '(footprint "a" (layer "F.Cu") (fp_line (start 0 0) (end 1 1) (layer "F.Fab") (width 1)) (dimension x) (pad "1" smd rect (at 0 0) (size 1 1) (layers "F.Cu")))'),
    ('Pad', '(pad "1" smd custom (at 0 0) (size 1 1) (layers "F.Cu") (primitives (dimension (type aligned))))'), ('Pad', '(pad "1" smd custom (at 0 0) (size 1 1) (layers "F.Cu") (primitives (gr_line (start 0 0) (end 1 1) (width 1)) (dimension)))'),
    ('Coordinate', '(xyz)'), ('Coordinate', '(xyz 1)'), ('Coordinate', '(xyz 1 2)'), ('Coordinate', '(xyz 1 2 3 4)'),
    ('ColorRGBA', '(color)'), ('ColorRGBA', '(color 1 2)'), ('ColorRGBA', '(color 1 2 3)'), ('ColorRGBA', '(color 1 2 3 4 5)'),
    ('LayerToken', '(0)'), ('LayerToken', '(0 "F.Cu")'), ('LayerToken', '(0 "F.Cu" signal "x" "y")'),
    ('Model', '(model "a")'), ('Model', '(model "a" (offset (xyz 0 0 0)))'), ('Model', '(model "a" (offset (xyz 0 0 0)) (scale (xyz 1 1 1)))'), ('Model', '(model)'),
    ('WksFontSize', '(size 1)'), ('WksFontSize', '(size 1 2 3)'), ('WksFontSize', '(size)'), ('TextSize', '(textsize 1)'), ('TextSize', '(textsize 1 2 3)'), ('TextSize', '(textsize)'),
    ('Position', '(at)'), ('Position', '(at 1)'), ('WksPosition', '(pos)'), ('WksPosition', '(pos 1)'),
    ('WorkSheet', '(kicad_wks (version 20210606) (generator pl_editor) (polygon (name "a") (pos 1 2)))'), ('WorkSheet', '(kicad_wks (version 20210606) (generator pl_editor) (line (name "a") (start 1 2) (end 3 4)) (polygon))'),
]


@oracle
def malformed(i):
    cls, text = MALFORMED[i]
    try:
        MODELS[cls].real().from_sexpr(parse(text))
    except Exception:
        return None
    return f'{cls}.from_sexpr accepts {text!r}'


NEAR = [lambda h: h + 'x', lambda h: h + '_v9', lambda h: h + ' ', lambda h: h[:-1], lambda h: h[1:], lambda h: 'x' + h, lambda h: h.upper(), lambda h: h.capitalize(),
        lambda h: h.replace('_', ''), lambda h: h.replace('_', '-'), lambda h: h + '1', lambda h: h + h, lambda h: h[::-1], lambda h: '']


@oracle
def near_head(a, b, i):
    """the token's own content under a name that is almost its own"""
    x = parse(to_text(tree(base(a, b))))
    h = str(x[0])
    x[0] = NEAR[i](h)
    try:
        MODELS[a].real().from_sexpr(x)
    except Exception:
        return None
    return f'{a}.from_sexpr accepts its own content named {x[0]!r} instead of {h!r}'


def near_sweep(t, a):
    own = {str(tree(v)[0]) for v in sub_devs(a) if tree(v) and not isinstance(tree(v)[0], Node)}
    for b in ('min', 'full'):
        x = tree(base(a, b))
        if headless(a) or not x or isinstance(x[0], Node):
            continue
        for i, f in enumerate(NEAR):
            if f(str(x[0])) not in own:
                t.ev('near_head', a, b, i, sample=f'{a} {b} as {f(str(x[0]))!r}')


def malformed_sweep(t):
    for i, (c, s) in enumerate(MALFORMED):
        t.ev('malformed', i, sample=s)


@oracle
def wrong_file(a, src, kind):
    """a file of type `kind` opened as type a"""
    with Scratch() as d:
        s = source(kind, src)
        with open('x', 'w', encoding='utf-8') as f:
            f.write(s)
        try:
            MODELS[a].real().from_file(os.path.join(d, 'x'), encoding='utf-8')
        except Exception:
            return None
    return f'{a}.from_file accepts a {kind} file ({src})'


GARBAGE = ['', ' ', '\n', 'hello', '()', '(', ')', '(())', '"x"', '5', '{"json": 1}', '<xml/>', '(zz)', '(zz 1)', '(kicad_zzz (version 1))', 'EESchema Schematic File Version 4\n', 'PCBNEW-LibModule-V1\n', '(kicad_pcb', 'kicad_pcb)', '"kicad_pcb"', '((kicad_pcb))', '(version 1']


@oracle
def garbage(a, i):
    with Scratch() as d:
        with open('x', 'w', encoding='utf-8') as f:
            f.write(GARBAGE[i])
        try:
            MODELS[a].real().from_file(os.path.join(d, 'x'), encoding='utf-8')
        except Exception:
            return None
    return f'{a}.from_file accepts {GARBAGE[i]!r}'


@oracle
def undecodable(kind, enc):
    """bytes that are no text in the given encoding"""
    with Scratch() as d:
        s = doc(with_text(kind, 'x\u00b5y'))
        with open('x', 'wb') as f:
            f.write(s.encode({'utf-8': 'latin-1', 'ascii': 'utf-8', 'utf-16': 'latin-1', 'no-such-encoding': 'utf-8'}[enc]))
        try:
            MODELS[kind].real().from_file(os.path.join(d, 'x'), encoding=enc)
        except Exception:
            return None
    return f'{kind}.from_file accepts bytes that are not {enc}'


def headless(c):
    return c == 'LayerToken'        # starts with its number, not with a word


def wrong_sweep(t, a):
    if headless(a):
        return
    for i in range(len(NOT_TOKENS)):
        t.ev('wrong_kind', a, None, i, sample=f'{a} <- {NOT_TOKENS[i]!r}')
    for u in UNLISTED:
        t.ev('wrong_kind', a, a, u, sample=f'{a} <- its own content as {u}')
    for b in all_classes():
        if not fits(a, b):
            for bk in ('min', 'full'):
                t.ev('wrong_kind', a, b, bk, sample=f'{a} <- {b}')
        if t.full:
            return


def wrong_files(t, a):
    for kind in FILETYPES:
        if kind != a:
            for src in ('min', 'full', 'saved', 'texts'):
                if kind == 'DesignRules' and not source(kind, src).strip():
                    continue
                t.ev('wrong_file', a, src, kind, sample=f'{a} <- {kind} {src}')
    for rel, kind in corpus():
        if kind != a:
            t.ev('wrong_file', a, rel, kind, sample=f'{a} <- {rel}')
        if t.full:
            return
    for i in range(len(GARBAGE)):
        if a == 'DesignRules' and not depth_ok(GARBAGE[i]):
            continue
        t.ev('garbage', a, i, sample=f'{a} <- {GARBAGE[i]!r}')
    for e in ('utf-8', 'ascii', 'utf-16', 'no-such-encoding'):
        t.ev('undecodable', a, e, sample=f'{a} {e}')


def depth_ok(s):
    """texts that cannot be a rules file however it is read (an empty or word-only rules file is not refused)"""
    return '(' in s or ')' in s


# ---------------------------------------------------------------------- start
def start(run, which):
    deep = run.tier == 'thorough'
    C = 'checks.files'
    if which == 'history':
        depth = 5 if deep else 4
        run.bounds = {'file_types': 7, 'operations': OPS, 'depth': depth, 'encodings': [e for e in NONASCII], 'path_styles': STYLES}
        run.assumptions = ['the working directory does not change between operations', 'Linux line ends', f'the default encoding here is {PREFERRED}']
        jobs = []
        for k in FILETYPES:
            for a in OPS:
                jobs.append(((C, 'history_sweep'), (k, 'utf-8', 'abs', [a], depth, OPS)))
            red = ['load1', 'load2', 'save', 'save2', 'edit', 'unset', 'set2']
            for e in NONASCII:
                jobs.append(((C, 'history_sweep'), (k, e, 'abs', [], 3, red)))
            for s in STYLES[1:]:
                jobs.append(((C, 'history_sweep'), (k, 'utf-8', s, [], 4 if deep else (3 if s in ('rel', 'path') else 2), OPS)))
            jobs += [((C, 'linked_sweep'), (k,)), ((C, 'no_file_sweep'), (k,))]
            jobs += [((C, 'rewritten_sweep'), (k, 1000 if deep else 150, i, 4)) for i in range(4)]
        jobs += [((C, 'trip_sweep'), x) for x in corpus() if not x[0].startswith('misc') and 'legacy' not in x[0]]
        run.run(jobs)
    elif which == 'faults':
        run.bounds = {'fault_points': 'an unwritable value at every attribute and list slot of a full object of each file type; every part of every class, inside its containers, failing to convert, and in every state documented as not writable; an unencodable character at every text, 8 encodings; unknown encodings; '
                      + 'write stopping at every byte; unwritable targets', 'targets': 'existing file, fresh file, remembered path'}
        run.assumptions = ['a process or machine crash in the middle of the final write is out of scope: the library promises no atomic replacement']
        jobs = []
        for k in FILETYPES:
            jobs += [((C, 'bomb_sweep'), (k, i, 4)) for i in range(4)] + [((C, 'enc_sweep'), (k, i, 4)) for i in range(4)]
            jobs += [((C, 'target_sweep'), (k,)), ((C, 'state_sweep'), (k,)), ((C, 'short_sweep'), (k, 1))] + [((C, 'part_sweep'), (k, i, 4)) for i in range(4)]
        run.run(jobs)
    elif which == 'reject':
        cl = all_classes()
        for c in cl:
            heads(c)
        small = [(r, k) for r, k in corpus() if not r.startswith('misc') and os.path.getsize(path_of(r)) < (30000 if deep else 1500)]
        run.bounds = {'cuts': 'every position of every source text up to its last parenthesis', 'parentheses': 'each one dropped, one added next to each', 'class_pairs': len(cl) * len(cl), 'real_files': len(small)}
        run.assumptions = ['a rules file is a sequence of tokens: cut between two tokens it is a shorter rules file']
        jobs = []
        for k in FILETYPES:
            n = 8 if k in ('Board', 'Schematic', 'Footprint') else 2
            jobs += [((C, 'broken_sweep'), (k, s, 'text', i, n)) for s in ('full', 'saved') for i in range(n)]
            jobs += [((C, 'broken_sweep'), (k, s, 'file', i, 2)) for s in ('min', 'texts') for i in range(2)]
            jobs += [((C, 'wrong_files'), (k,))]
        jobs += [((C, 'broken_sweep'), (k, r, 'text', i, 4)) for r, k in small for i in range(4)]
        jobs += [((C, 'wrong_sweep'), (c,)) for c in cl] + [((C, 'near_sweep'), (c,)) for c in cl] + [((C, 'malformed_sweep'), ())]
        run.run(jobs)

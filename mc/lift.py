"""real kiutils object -> model value, and the corpus of real files"""
import os
from engine import REPO
from model import MODELS, V
import spec_board, spec_sch  # noqa: F401

FILETYPES = ['Board', 'Schematic', 'Footprint', 'SymbolLib', 'WorkSheet', 'DesignRules', 'LibTable']
HEADS = {'kicad_pcb': 'Board', 'kicad_sch': 'Schematic', 'footprint': 'Footprint', 'module': 'Footprint', 'kicad_symbol_lib': 'SymbolLib',
         'kicad_wks': 'WorkSheet', 'sym_lib_table': 'LibTable', 'fp_lib_table': 'LibTable', 'version': 'DesignRules', 'rule': 'DesignRules'}

_by_real = {}


def model_of(o, ctx=None):
    if not _by_real:
        for n, m in MODELS.items():
            _by_real.setdefault((m.module, m.real_name), []).append(n)
    names = _by_real.get((type(o).__module__, type(o).__name__))
    if not names:
        return None
    if len(names) == 1:
        return names[0]
    return 'SymbolUnit' if ctx == 'units' else 'Symbol'


def lift(o, ctx=None):
    n = model_of(o, ctx)
    if n is not None:
        d = {}
        for k, dom in MODELS[n].fields.items():
            x = getattr(o, k)
            d[k] = lift(x, k)
        return V(n, d)
    if isinstance(o, list):
        return [lift(x, ctx) for x in o]
    if isinstance(o, dict):
        return {k: lift(x) for k, x in o.items()}
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    raise TypeError(f'unknown object {type(o)}')


def kind_of(text):
    i = 0
    while i < len(text) and text[i] in ' \t\r\n(':
        i += 1
    j = i
    while j < len(text) and text[j] not in ' \t\r\n()':
        j += 1
    return HEADS.get(text[i:j])


def corpus(kind=None):
    base = os.path.join(REPO, 'tests', 'testdata')
    out = []
    for d, ds, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            try:
                with open(p, encoding='utf-8') as h:
                    t = h.read()
            except UnicodeDecodeError:
                continue
            k = kind_of(t)
            if k and (kind is None or k == kind):
                out.append((os.path.relpath(p, base), k))
    return sorted(out)


def path_of(rel):
    return os.path.join(REPO, 'tests', 'testdata', rel)

"""C01: the reader.  Texts are enumerated exhaustively over small alphabets and
read by the library and by the reference reader (model.ref_read, a hand written
scanner); the nested lists must agree in structure, order, kind and value."""
import re
from itertools import product
from engine import oracle
from model import BadText, Node, Q, ref_read, ref_tokens

INT = re.compile(r'-?[0-9]+\Z')
DECI = re.compile(r'[+-]?[0-9]+\.[0-9]+\Z')
EXPO = re.compile(r'[+-]?[0-9]+(\.[0-9]+)?[eE][+-][0-9]+\Z')
OPEN_NUM = re.compile(r'(\+[0-9]+|[+-]?[0-9]+(\.[0-9]*)?[eE][0-9]+|[+-]?[0-9]+\.|[+-]?\.[0-9]+)([eE][+-]?[0-9]+)?\Z')   # spellings no file contains


def lib(text):
    from kiutils.utils.sexpr import parse_sexp
    return parse_sexp(text)


def same(exp, got, path='root'):
    """exp: reference token (Node/Q/str)"""
    if isinstance(exp, Node):
        if not isinstance(got, list):
            return f'{path}: expected a list, got {got!r:.80}'
        if len(exp) != len(got):
            return f'{path}: expected {len(exp)} elements, got {len(got)}: {got!r:.120}'
        for i, (a, b) in enumerate(zip(exp, got)):
            d = same(a, b, f'{path}[{i}]')
            if d:
                return d
        return None
    if isinstance(exp, Q):
        return None if isinstance(got, str) and got == str(exp) else f'{path}: expected text {str(exp)!r:.120}, got {got!r:.120}'
    w = str(exp)
    isnum = isinstance(got, (int, float)) and not isinstance(got, bool)
    if INT.match(w):
        return None if isinstance(got, int) and isnum and got == int(w) else f'{path}: expected integer {w}, got {got!r:.80}'
    if DECI.match(w) or EXPO.match(w):
        return None if isnum and float(got) == float(w) else f'{path}: expected number {w}, got {got!r:.80}'
    if OPEN_NUM.match(w):
        return None
    return None if isinstance(got, str) and got == w else f'{path}: expected word {w!r:.80}, got {got!r:.80}'


@oracle
def reads(text):
    """text with exactly one top level token"""
    exp = ref_read(text)
    d = same(exp[0], lib(text))
    return f'{text!r:.300}: {d}' if d else None


@oracle
def reads_big(kind, n):
    """texts that are generated rather than enumerated: deep nesting, many elements, long words"""
    text = big(kind, n)
    # nested lists are compared without recursion
    got, exp = lib(text), ref_read(text)[0]
    todo = [(exp, got)]
    while todo:
        e, g = todo.pop()
        if isinstance(e, Node):
            if not isinstance(g, list) or len(e) != len(g):
                return f'{kind} {n}: structure differs'
            todo.extend(zip(e, g))
        else:
            d = same(e, g)
            if d:
                return f'{kind} {n}: {d}'
    return None


def big(kind, n):
    if kind == 'deep':
        return '(a ' * n + '1' + ')' * n
    if kind == 'wide':
        return '(a ' + ' '.join(f'(b {i} "t{i}")' for i in range(n)) + ')'
    if kind == 'words':
        return '(a ' + ' '.join(f'w{i}' for i in range(n)) + ')'
    if kind == 'numbers':
        return '(a ' + ' '.join(f'{i}.5' for i in range(n)) + ')'
    if kind == 'text':
        return '(a "' + 'lorem (ipsum) ' * n + '")'
    if kind == 'quotes':
        return '(a "' + 'q \\" ' * n + '")'
    if kind == 'letters':
        return '(a "' + 'x' * n + '" b)'
    if kind == 'uni':
        return '(a "' + '\u00b5' * n + '" "y")'
    if kind == 'inner':
        return '(a (b "' + '\n' * n + '" 1) 2.5)'
    if kind == 'digits':
        return '(a 1.' + '5' * n + ' b)'
    if kind == 'word':
        return '(a ' + 'w' * n + ')'
    if kind == 'blanks':
        return '(a' + ' ' * n + 'b)'
    if kind == 'lines':
        return '(a\n' + '\n' * n + 'b)\n'
    raise ValueError(kind)


@oracle
def rejects(text):
    """text with missing or surplus parentheses"""
    try:
        r = lib(text)
    except Exception:
        return None
    return f'{text!r:.300}: unbalanced text is read as {r!r:.120}'


def relay(text, style):
    """the same tokens with other white space between them"""
    toks = [(k, '"' + x.replace('"', '\\"') + '"' if k == 'q' else x) for k, x in ref_tokens(text)]
    if style == 'line':
        return ' '.join(x for k, x in toks)
    if style == 'rows':
        return '\n'.join(x for k, x in toks) + '\n'
    if style == 'crlf':
        return '\r\n'.join(x for k, x in toks) + '\r\n'
    if style == 'tabs':
        return '\t' + '\t'.join(x for k, x in toks) + '\t'
    if style == 'loose':
        return '\n\n  ' + ' \n \t \n'.join(x for k, x in toks) + '\n\n\n'
    out, depth, last = [], 0, ''
    for k, x in toks:
        if style == 'tight':
            if out and k in 'qb' and last not in '()':
                out.append(' ')
        elif k == '(':          # one token per line, like the newest KiCad versions
            out.append('\n' + '\t' * depth if out else '')
            depth += 1
        elif k == ')':
            depth -= 1
            out.append('\n' + '\t' * depth if last == ')' else '')
        elif last != '(':
            out.append(' ')
        out.append(x)
        last = x if k in '()' else 'w'
    return ''.join(out)


STYLES = ['line', 'rows', 'crlf', 'tabs', 'loose', 'tight', 'indented']


@oracle
def relaid(rel, kind, style):
    """a file whose white space is another one loads as the same content"""
    import os
    from checks.files import Scratch
    from checks.objects import snap
    from lift import path_of
    from model import MODELS, tree, to_text
    from domains import base
    real = MODELS[kind].real()
    if rel in ('min', 'full'):
        t = tree(base(kind, rel))
        text = ' '.join(to_text(x) for x in t) if kind == 'DesignRules' else to_text(t)
    else:
        with open(path_of(rel), encoding='utf-8') as f:
            text = f.read()
    new = relay(text, style)
    with Scratch() as d:
        p = os.path.join(d, 'x')
        o = []
        for s in (text, new):
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(s)
            o.append(snap(real.from_file(p, encoding='utf-8')))
    return None if o[0] == o[1] else f'{kind} {rel}: with the white space {style!r} it loads as something else'


def relaid_sweep(t, rel, kind):
    for s in STYLES:
        t.ev('relaid', rel, kind, s, transitions=2, sample=f'{rel} {s}')


# ------------------------------------------------------------- enumerations
ATOMS = ['a', '1', '"x y"']


def join(toks, style):
    """0: single blanks; 1: as little space as the format allows; 2: line breaks and tabs"""
    if style == 0:
        return ' '.join(toks)
    s = ''
    for i, t in enumerate(toks):
        if style == 1:
            if s and t not in '()' and s[-1] not in '()':
                s += ' '
        elif s:
            s += '\n\t'
        s += t
    return s


def seqs(t, first, n, styles):
    """all token sequences that start with `first` and have up to n tokens"""
    alpha = ['(', ')'] + ATOMS
    for k in range(0, n - len(first) + 1):
        for rest in product(alpha, repeat=k):
            toks = list(first) + list(rest)
            depth, lo, roots = 0, 0, 0
            for x in toks:
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    lo = min(lo, depth)
                    if depth == 0:
                        roots += 1
                elif depth == 0:
                    roots += 10         # an atom outside of all tokens
            for st in styles:
                s = join(toks, st)
                if depth or lo < 0:
                    t.ev('rejects', s, sample=s)
                elif roots == 1:
                    t.ev('reads', s, sample=s)
            if t.full:
                return


def quoted(t, alpha, n, prefix):
    for k in range(0, n - len(prefix) + 1):
        for tup in product(alpha, repeat=k):
            raw = ''.join(prefix) + ''.join(tup)
            for text in (f'(t "{raw}" z)', f'(t (u "{raw}") 5)'):
                try:
                    r = ref_read(text)
                except BadText:
                    t.count('texts_outside_the_format')
                    continue
                if len(r) != 1:
                    continue
                t.ev('reads', text, sample=repr(text))
            if t.full:
                return


WORDCH = list('a01.-+eE_*&^~/:,#%$@{}\'`|\\;!?<>=[]\u00b5')


def words(t, first, n):
    for k in range(0, n):
        for tup in product(WORDCH, repeat=k):
            w = first + ''.join(tup)
            t.ev('reads', f'({w})', sample=w)
            t.ev('reads', f'(t {w} (u {w} x) {w})', sample=w)
            if t.full:
                return


def special_words(t):
    """words other readers take for numbers or constants, and every word of the formats and of the source"""
    import codewords
    from checks.values import vocabulary
    ws = ['nan', 'NaN', 'NAN', '-nan', '+nan', 'inf', 'Inf', 'INF', '-inf', '+inf', 'infinity', '-Infinity', '1_000', '1_0.5', '0x1F', '0b101', '0o17', '1j', '2.5j', '1e', '1e+', '1E-', '1.5e', 'e5', '-e5', '.', '..', '-.', '-', '--', '--5', '-5-', '5-', '1-2', '1.2.3', '1,5', '1/2',
          '\uff11', '\uff11\uff12.\uff15', '\u0661', '\u00b2', '\u00bd', '\u2460', '\u4e09', '1\u00b2', '\u22125', '1\u066b5', '5V', '3V3', '10k', '1.5mm', '0.2mm', '5%', '1st', '007x', '0_1', 'True', 'False', 'None', 'true', 'null', 'yes', 'no', '~', '~5', '#1', '$5', '%d', '{}', '*', '*.Cu', 'F&B.Cu',
          '9d1fd4a5-fd7e-4b1f-8d8f-0fd6f0d3a2b1', '00000000-0000-0000-0000-00005e4b1a2c', '5E1F2A3B', '1-2-3', '2021-10-14', '12:30', '20211014-abc', '0x0000030_ffffffff', '0x00010fc_80000001']
    ws += vocabulary() + [w for w in codewords.words()[1] if not re.search(r'[\s()"\\]', w) and w]
    for w in dict.fromkeys(ws):
        for text in (f'({w})', f'(a {w})', f'(a {w} b)', f'(a ({w} 1) "{w}" {w})', f'(a (b {w}) {w} )'):
            t.ev('reads', text, sample=text)
        if t.full:
            return


def numbers(t, deep):
    ints = ['0', '1', '9', '10', '12', '007', '99', '100', '123', '255', '65536', '1000000', '2147483648', '9007199254740993', '12345678901234567890', '00', '0000']
    fr = ['', '.0', '.00', '.1', '.5', '.25', '.10', '.125', '.000001', '.123456', '.3333333333333333', '.999999999', '.50000']
    ex = ['', 'e-05', 'e-5', 'E-10', 'e+00', 'e+3', 'E+16', 'e-07', 'e-300']
    for s in ('', '-', '+'):
        for i, f, e in product(ints, fr, ex):
            w = s + i + f + e
            for text in (f'({w})', f'(a {w})', f'(a {w} b)', f'(a {w} {w})', f'(a {w} \n  (b {w} ))', f'(a "{w}" {w})', f'(a {w}\n  b {w}\n)', f'(a {w}(b {w}\t(c)))'):
                t.ev('reads', text, sample=text)
        if t.full:
            return
    for m in range(0, 20000 if deep else 3000):
        for d in range(0, 7 if deep else 5):
            w = f'{m / 10 ** d:.{d}f}' if d else str(m)
            t.ev('reads', f'(a {w} -{w})', sample=w)
        if t.full:
            return


def separators(t, n):
    ws = [' ', '\n', '\t', '\r']
    for k in range(1, n + 1):
        for tup in product(ws, repeat=k):
            s = ''.join(tup)
            for text in (f'(a{s}b{s}c)', f'({s}a "x"{s}(b){s}"y"{s})', f'{s}(a)', f'(a){s}', f'{s}(a (b{s}){s}(c)){s}', f'(a "q"{s}"r"{s}b)', f'(a "{s}" "x{s}y")', f'(a 1 {s}2){s}', f'(a 1.5 {s}(b -2){s})', f'(a 1{s}2{s})', f'(a -1.5{s}(b 1e-05{s})7{s})', f'(1{s}"x"{s}2.5{s}c)'):
                t.ev('reads', text, sample=repr(text))
            if t.full:
                return


def odd_blanks(t):
    """the remaining ASCII white space, between tokens and inside quoted texts"""
    for s in ['\f', '\v', '\r\n', '\f\n', '\x1c', '\x1f', '\x85', '\u2003', '\u3000']:
        texts = [f'(a "{s}" "x{s}y" "{s}{s}")', f'(a "{s}x" 5)', f'(a (b "x{s}"))']
        if s[0] in '\f\v\r':
            texts += [f'(a{s}b{s}c)', f'(a{s}(b){s})', f'{s}(a){s}', f'(a{s}"x"{s}b)', f'(a 5 {s}b)', f'(a 5{s}b)', f'(a 1.5{s})']
        for text in texts:
            t.ev('reads', text, sample=repr(text))


def bigs(t, deep):
    kinds = ['deep', 'wide', 'words', 'numbers', 'text', 'quotes', 'letters', 'uni', 'inner', 'digits', 'word', 'blanks', 'lines']
    sizes = list(range(1, 80)) + [100, 127, 128, 255, 256, 257, 500, 999, 1000, 1001, 1024, 2000, 4096] + ([5000, 10000, 20000, 65536] if deep else [5000])
    long = [8191, 8192, 8193, 10000, 16384, 32766, 32767, 32768, 32769, 50000, 65534, 65535, 65536, 65537, 100000, 131072] + ([10 ** 6] if deep else [])
    for k in kinds:
        for n in sizes + (long if k in ('letters', 'word', 'blanks', 'lines', 'uni', 'digits', 'inner') else [10000, 20000] if k != 'deep' else []):
            if k == 'digits' and n > 4000:
                continue
            t.ev('reads_big', k, n, sample=f'{k} {n}')
        if t.full:
            return


def ascii_texts(t):
    """every printable character at every place of a quoted text"""
    cs = [chr(c) for c in range(32, 127) if chr(c) not in '\\"'] + ['\\"', '\\\\', '\\n', '\t', '\n', '\u00e9', '\u00b5', '\u65e5', '\U0001f600', '\u00a0', '\u2028']
    for a in cs:
        for text in (f'(t "{a}")', f'(t "{a}{a}" b)', f'(t "x{a}y")', f'(t "{a}x" "y{a}")', f'("{a}")', f'(t "" "{a}" "")'):
            t.ev('reads', text, sample=repr(text))
        for b in cs:
            t.ev('reads', f'(t "{a}{b}" 1)', sample='')
            t.ev('reads', f'(t "{a} {b}")', sample='')
        if t.full:
            return


def start(run, _):
    deep = run.tier == 'thorough'
    n = 9 if deep else 8
    run.bounds = {'token_sequences': f'all sequences of up to {n} tokens over ( ) word number quoted text, 3 spacings', 'quoted_texts': f'all raw texts of up to {8 if deep else 7} characters over 7 characters',
                  'words': f'all words of up to {4 if deep else 3} characters over {len(WORDCH)} characters', 'separators': 'all separators of up to 4 blanks, tabs, line feeds, carriage returns',
                  'files': 'every test file and baseline document with 7 other spacings', 'sizes': 'nesting up to 5000, element counts up to 20000 (thorough 65536), lengths up to 131072 (thorough 10^6)'}
    run.assumptions = ['spellings +5, 1e5, 1., .5 do not occur']
    alpha = ['(', ')'] + ATOMS
    C = 'checks.reader'
    jobs = [((C, 'seqs'), ([], 1, [0, 1, 2]))]
    jobs += [((C, 'seqs'), ([a, b], n, [0, 1, 2])) for a in alpha for b in alpha]
    qa = ['a', ' ', '\\', '"', '(', ')', '\n']
    jobs += [((C, 'quoted'), (qa, 0, []))] + [((C, 'quoted'), (qa, 8 if deep else 7, [a])) for a in qa]
    jobs += [((C, 'words'), (c, 4 if deep else 3)) for c in WORDCH]
    jobs += [((C, 'numbers'), (deep,)), ((C, 'separators'), (4,)), ((C, 'odd_blanks'), ()), ((C, 'special_words'), ()), ((C, 'bigs'), (deep,)), ((C, 'ascii_texts'), ())]
    import os
    from lift import FILETYPES, corpus, path_of
    jobs += [((C, 'relaid_sweep'), (b, k)) for k in FILETYPES for b in ('min', 'full')]
    jobs += [((C, 'relaid_sweep'), (r, k)) for r, k in sorted(corpus(), key=lambda f: -os.path.getsize(path_of(f[0]))) if not r.startswith('misc') and os.path.getsize(path_of(r)) < (10 ** 7 if deep else 300000)]
    run.run(jobs)

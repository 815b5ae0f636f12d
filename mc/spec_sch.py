"""Reference model of schematics, symbol libraries and worksheets."""
import re
from model import model, tree, T, A, Node, Q, V, opt, oq, q, flag, xy, pts
from domains import (NOT_A_NAME, Num, Int, Dec, Str, Word, Uuid, Flag, TFlag, Const, Opt, Sub, Pos, ListOf, FixedList, Poly, DictOf, Gen, Gen2, base, STRINGS)
from spec_board import sub, just, JustDom, ON, OI, lib_id, NICK, B64, _justs

OU = Opt(Uuid())
STROKE, FILL, EFF = Sub('Stroke'), Sub('Fill'), Sub('Effects')


def yn(head, b):
    return None if b is None else A(head, 'yes' if b else 'no')


# ---------------------------------------------------------------- syitems
@model('SyArc', 'items.syitems', dict(private=Flag(), start=Pos(angle=True), mid=Pos(angle=True), end=Pos(angle=True), stroke=STROKE, fill=FILL))
def _(v):
    return T('arc', flag(v.private, 'private'), xy('start', v.start, True), xy('mid', v.mid, True), xy('end', v.end, True), tree(v.stroke), tree(v.fill), nfixed=1)


@model('SyCircle', 'items.syitems', dict(private=Flag(), center=Pos(), radius=Num(), stroke=STROKE, fill=FILL))
def _(v):
    return T('circle', flag(v.private, 'private'), xy('center', v.center), A('radius', v.radius), tree(v.stroke), tree(v.fill), nfixed=1)


@model('SyCurve', 'items.syitems', dict(points=ListOf(Pos()), stroke=STROKE, fill=FILL))
def _(v):
    return T('curve', pts(v.points), tree(v.stroke), tree(v.fill))


@model('SyPolyLine', 'items.syitems', dict(points=ListOf(Pos()), stroke=STROKE, fill=FILL))
def _(v):
    return T('polyline', pts(v.points), tree(v.stroke), tree(v.fill))


@model('SyRect', 'items.syitems', dict(private=Flag(), start=Pos(), end=Pos(), stroke=STROKE, fill=FILL))
def _(v):
    return T('rectangle', flag(v.private, 'private'), xy('start', v.start), xy('end', v.end), tree(v.stroke), tree(v.fill), nfixed=1)


@model('SyText', 'items.syitems', dict(text=Str(), position=Pos(angle=True), effects=EFF))
def _(v):
    return T('text', Q(v.text), xy('at', v.position, True), tree(v.effects))


@model('SyTextBox', 'items.syitems', dict(text=Str(), private=Flag(), position=Pos(angle=True), size=Pos(), stroke=STROKE, fill=FILL, effects=EFF, uuid=OU))
def _(v):
    return T('text_box', flag(v.private, 'private'), Q(v.text), xy('at', v.position, True), xy('size', v.size), tree(v.stroke), tree(v.fill), tree(v.effects), opt('uuid', v.uuid))


SYS = ['SyArc', 'SyCircle', 'SyCurve', 'SyPolyLine', 'SyRect', 'SyText', 'SyTextBox']
SY_HEADS = ['arc', 'circle', 'curve', 'polyline', 'rectangle', 'text', 'text_box']

# ----------------------------------------------------------------- symbol
ETYPE = Word(['input', 'output', 'bidirectional', 'tri_state', 'passive', 'free', 'unspecified', 'power_in', 'power_out', 'open_collector', 'open_emitter', 'no_connect'])
GSTYLE = Word(['line', 'inverted', 'clock', 'inverted_clock', 'input_low', 'clock_low', 'output_low', 'edge_clock_high', 'non_logic'])


@model('SymbolAlternativePin', 'symbol', dict(pinName=Str(), electricalType=ETYPE, graphicalStyle=GSTYLE))
def _(v):
    return A('alternate', Q(v.pinName), v.electricalType, v.graphicalStyle)


@model('SymbolPin', 'symbol', dict(electricalType=ETYPE, graphicalStyle=GSTYLE, position=Pos(angle=True), length=Num(), name=Str(), nameEffects=Opt(EFF), number=Str(),
                                   numberEffects=Opt(EFF), hide=Flag(), alternatePins=ListOf(Sub('SymbolAlternativePin'))))
def _(v):
    return T('pin', v.electricalType, v.graphicalStyle, xy('at', v.position, True), A('length', v.length), flag(v.hide, 'hide'),
             T('name', Q(v.name), sub(v.nameEffects), open=False), T('number', Q(v.number), sub(v.numberEffects), open=False),
             tuple(tree(a) for a in v.alternatePins), nfixed=3)


def sym_lib_id(v):
    if v.libraryNickname:
        return f'{v.libraryNickname}:{v.entryName}'
    if v.unitId is not None and v.styleId is not None:
        return f'{v.entryName}_{v.unitId}_{v.styleId}'
    return str(v.entryName)


SYM_NAME = Str(exclude=NOT_A_NAME, extra=['R_0402_1005Metric', 'A_1', 'A_1_', '_1_1x', '74HC00_1_a', 'a_b_c'])
_SYM = dict(extends=Opt(Str()), hidePinNumbers=Flag(), pinNames=Flag(), pinNamesHide=Flag(), pinNamesOffset=ON, inBom=Opt(TFlag()), onBoard=Opt(TFlag()), isPower=Flag(),
            properties=ListOf(Sub('Property'), maxlen=5), graphicItems=Poly(*SYS), pins=ListOf(Sub('SymbolPin'), maxlen=5))


def _sym_valid(v):
    if (v.unitId is None) != (v.styleId is None):
        return False
    if v.libraryNickname is not None and v.unitId is not None:
        return False
    if not v.pinNames and (v.pinNamesHide or v.pinNamesOffset is not None):
        return False
    return True


def _sym_loadable(v):
    # without nickname and unit, a name that ends like a unit suffix reads as one
    return v.libraryNickname is not None or v.unitId is not None or not re.search(r'_[0-9]+_[0-9]+\Z', str(v.entryName))


def _sym_tree(v):
    return T('symbol', Q(sym_lib_id(v)), oq('extends', v.extends), A('power') if v.isPower else None, A('pin_numbers', 'hide') if v.hidePinNumbers else None,
             T('pin_names', opt('offset', v.pinNamesOffset), flag(v.pinNamesHide, 'hide'), nfixed=1, open=True) if v.pinNames else None,
             yn('in_bom', v.inBom), yn('on_board', v.onBoard), tuple(tree(x) for x in v.properties), tuple(tree(x) for x in v.graphicItems),
             tuple(tree(x) for x in v.pins), tuple(tree(x) for x in v.units), nfixed=2, groups=(SY_HEADS,))


class UnitsDom(ListOf):
    """units of a symbol: they carry the parent's entry name and a unit/style id"""
    def __init__(self):
        super().__init__(Sub('SymbolUnit'), maxlen=4)

    def items(self, n, start=300):
        g = Gen2(start)
        return [base('SymbolUnit', 'min' if i % 2 == 0 else 'full', g).with_(unitId=i, styleId=1 + i % 2) for i in range(n)]


class Zero(Int):
    def min(self, g):
        return g.next() % 4


model('SymbolUnit', 'symbol', dict(libraryNickname=Const(None), entryName=SYM_NAME, unitId=Zero([0, 1, 2, 3, 9, 10, 11, 99, 100]), styleId=Zero([0, 1, 2, 3, 9, 10, 11, 99, 100]),
                                   **_SYM, units=Const([])), real='Symbol', valid=_sym_valid, loadable=_sym_loadable)(_sym_tree)


def _sym_repair(v):
    return v.with_(libraryNickname=v.libraryNickname)


model('Symbol', 'symbol', dict(libraryNickname=NICK, entryName=SYM_NAME, unitId=Const(None), styleId=Const(None), **_SYM, units=UnitsDom()), valid=_sym_valid, loadable=_sym_loadable)(_sym_tree)


@model('SymbolLib', 'symbol', dict(version=Int(), generator=Opt(Word(['kicad_symbol_editor', 'kiutils', 'gen_v2'])), symbols=ListOf(Sub('Symbol'), maxlen=5)))
def _(v):
    return T('kicad_symbol_lib', A('version', v.version), opt('generator', v.generator), tuple(tree(s) for s in v.symbols))


# --------------------------------------------------------------- schitems
@model('Junction', 'items.schitems', dict(position=Pos(), diameter=Num(), color=Sub('ColorRGBA'), uuid=OU))
def _(v):
    return T('junction', xy('at', v.position), A('diameter', v.diameter), tree(v.color), opt('uuid', v.uuid))


@model('NoConnect', 'items.schitems', dict(position=Pos(), uuid=OU))
def _(v):
    return T('no_connect', xy('at', v.position), opt('uuid', v.uuid))


@model('BusEntry', 'items.schitems', dict(position=Pos(), uuid=OU, size=Pos(), stroke=STROKE))
def _(v):
    return T('bus_entry', xy('at', v.position), xy('size', v.size), tree(v.stroke), opt('uuid', v.uuid))


@model('BusAlias', 'items.schitems', dict(name=Str(), members=ListOf(Str())))
def _(v):
    return T('bus_alias', Q(v.name), A('members', *[Q(m) for m in v.members]), open=False)


@model('Connection', 'items.schitems', dict(type=Word(['wire', 'bus']), points=ListOf(Pos()), stroke=STROKE, uuid=OU))
def _(v):
    return T(v.type, pts(v.points), tree(v.stroke), opt('uuid', v.uuid))


@model('PolyLine', 'items.schitems', dict(points=ListOf(Pos()), stroke=STROKE, uuid=OU))
def _(v):
    return T('polyline', pts(v.points), tree(v.stroke), opt('uuid', v.uuid))


@model('Text', 'items.schitems', dict(text=Str(extra=['y' * n for n in (48, 49, 50, 51, 255, 256)]), position=Pos(angle=True), effects=EFF, uuid=OU))
def _(v):
    return T('text', Q(v.text), xy('at', v.position, True), tree(v.effects), opt('uuid', v.uuid))


@model('TextBox', 'items.schitems', dict(text=Str(), position=Pos(angle=True), size=Pos(), stroke=STROKE, fill=FILL, effects=EFF, uuid=OU))
def _(v):
    return T('text_box', Q(v.text), xy('at', v.position, True), xy('size', v.size), tree(v.stroke), tree(v.fill), tree(v.effects), opt('uuid', v.uuid))


SHAPE = Word(['input', 'output', 'bidirectional', 'tri_state', 'passive'])
AUTO = 'fields_autoplaced'


def fa(v):
    return A(AUTO) if v.fieldsAutoplaced else None


@model('LocalLabel', 'items.schitems', dict(text=Str(), position=Pos(angle=True), effects=EFF, uuid=OU, fieldsAutoplaced=Flag()))
def _(v):
    return T('label', Q(v.text), xy('at', v.position, True), fa(v), tree(v.effects), opt('uuid', v.uuid))


@model('GlobalLabel', 'items.schitems', dict(text=Str(), shape=SHAPE, fieldsAutoplaced=Flag(), position=Pos(angle=True), effects=EFF, uuid=OU, properties=ListOf(Sub('Property'), maxlen=4)))
def _(v):
    return T('global_label', Q(v.text), A('shape', v.shape), xy('at', v.position, True), fa(v), tree(v.effects), opt('uuid', v.uuid), tuple(tree(p) for p in v.properties))


@model('HierarchicalLabel', 'items.schitems', dict(text=Str(), shape=SHAPE, position=Pos(angle=True), effects=EFF, uuid=OU, fieldsAutoplaced=Flag()))
def _(v):
    return T('hierarchical_label', Q(v.text), A('shape', v.shape), xy('at', v.position, True), fa(v), tree(v.effects), opt('uuid', v.uuid))


@model('SymbolProjectPath', 'items.schitems', dict(sheetInstancePath=Str(), reference=Str(), unit=Int()))
def _(v):
    return T('path', Q(v.sheetInstancePath), q('reference', v.reference), A('unit', v.unit))


@model('SymbolProjectInstance', 'items.schitems', dict(name=Str(), paths=ListOf(Sub('SymbolProjectPath'), maxlen=5)))
def _(v):
    return T('project', Q(v.name), tuple(tree(p) for p in v.paths))


SCH_ENTRY = Str(exclude=NOT_A_NAME)


@model('SchematicSymbol', 'items.schitems', dict(libraryNickname=NICK, entryName=SCH_ENTRY, libName=Opt(Str()), position=Pos(angle=True), unit=OI, inBom=TFlag(), onBoard=TFlag(), dnp=Opt(TFlag()),
       fieldsAutoplaced=Flag(), uuid=Uuid(), properties=ListOf(Sub('Property'), maxlen=4), pins=DictOf(Str(), Uuid()), mirror=Opt(Word(['x', 'y'])), instances=ListOf(Sub('SymbolProjectInstance'), maxlen=4)))
def _(v):
    return T('symbol', oq('lib_name', v.libName), q('lib_id', lib_id(v)), xy('at', v.position, True), opt('mirror', v.mirror), opt('unit', v.unit), yn('in_bom', v.inBom),
             yn('on_board', v.onBoard), yn('dnp', v.dnp), fa(v), A('uuid', v.uuid) if v.uuid else None, tuple(tree(p) for p in v.properties),
             tuple(T('pin', Q(n), A('uuid', u), open=False) for n, u in v.pins.items()),
             Node(['instances'] + [tree(i) for i in v.instances], nfixed=1, rigid=True) if v.instances else None)


@model('HierarchicalPin', 'items.schitems', dict(name=Str(), connectionType=SHAPE, position=Pos(angle=True), effects=EFF, uuid=OU))
def _(v):
    return T('pin', Q(v.name), v.connectionType, xy('at', v.position, True), tree(v.effects), opt('uuid', v.uuid))


@model('HierarchicalSheetProjectPath', 'items.schitems', dict(sheetInstancePath=Str(), page=Str()))
def _(v):
    return T('path', Q(v.sheetInstancePath), q('page', v.page))


@model('HierarchicalSheetProjectInstance', 'items.schitems', dict(name=Str(), paths=ListOf(Sub('HierarchicalSheetProjectPath'), maxlen=5)))
def _(v):
    return T('project', Q(v.name), tuple(tree(p) for p in v.paths))


class SheetFill(Sub):
    """sheet background: the format writes alpha with four decimals"""
    def __init__(self):
        super().__init__('ColorRGBA')

    def mk(self, r, g, b, a):
        return V('ColorRGBA', dict(R=r, G=g, B=b, A=a, precision=4))

    def min(self, g):
        return self.mk(g.next(), g.next(), g.next(), 0.25 + g.next())

    full = min

    def alphabet(self):
        d = Dec(4).alphabet()
        return [self.mk(n, 2, 3, 0.5) for n in d] + [self.mk(1, n, 3, 0.5) for n in d] + [self.mk(1, 2, n, 0.5) for n in d] + [self.mk(1, 2, 3, n) for n in d]

    def reduced(self):
        return [self.mk(0, 0, 0, 0), self.mk(255, 128, 7, 0.1234)]

    def holds(self, x):
        return x.d['precision'] == 4 and round(x.d['A'], 4) == x.d['A'] and abs(x.d['A']) < 1e15


class NamedProp(Sub):
    def __init__(self, keys):
        super().__init__('Property')
        self.keys = [Q(k) for k in keys]

    def min(self, g):
        return super().min(g).with_(key=self.keys[0])

    full = min

    def alphabet(self):
        out = []
        for k in self.keys:
            out += [p.with_(key=k) for p in super().alphabet()]
        return out

    def reduced(self):
        return [p.with_(key=k) for k in self.keys for p in super(NamedProp, self).reduced()]

    def holds(self, x):
        return x.d['key'] in self.keys


@model('HierarchicalSheet', 'items.schitems', dict(position=Pos(), width=Num(), height=Num(), fieldsAutoplaced=Flag(), stroke=STROKE, fill=SheetFill(), uuid=OU,
       sheetName=NamedProp(['Sheet name', 'Sheetname']), fileName=NamedProp(['Sheet file', 'Sheetfile']), properties=ListOf(Sub('Property'), maxlen=4),
       pins=ListOf(Sub('HierarchicalPin'), maxlen=4), instances=ListOf(Sub('HierarchicalSheetProjectInstance'), maxlen=4)),
       valid=lambda v: not any(str(p.key) in ('Sheet name', 'Sheetname', 'Sheet file', 'Sheetfile') for p in v.properties))
def _(v):
    return T('sheet', xy('at', v.position), A('size', v.width, v.height), fa(v), tree(v.stroke), T('fill', tree(v.fill), open=False), opt('uuid', v.uuid), tree(v.sheetName), tree(v.fileName),
             tuple(tree(p) for p in v.properties), tuple(tree(p) for p in v.pins),
             Node(['instances'] + [tree(i) for i in v.instances], nfixed=1, rigid=True) if v.instances else None)


@model('HierarchicalSheetInstance', 'items.schitems', dict(instancePath=Str(), page=Str()))
def _(v):
    return T('path', Q(v.instancePath), q('page', v.page))


@model('SymbolInstance', 'items.schitems', dict(path=Str(), reference=Str(), unit=Int(), value=Str(), footprint=Str()))
def _(v):
    return T('path', Q(v.path), q('reference', v.reference), A('unit', v.unit), q('value', v.value), q('footprint', v.footprint))


@model('Rectangle', 'items.schitems', dict(start=Pos(), end=Pos(), stroke=STROKE, fill=FILL, uuid=OU))
def _(v):
    return T('rectangle', xy('start', v.start), xy('end', v.end), tree(v.stroke), tree(v.fill), opt('uuid', v.uuid))


@model('SchArc', 'items.schitems', dict(start=Pos(), mid=Pos(), end=Pos(), stroke=STROKE, fill=FILL, uuid=OU), real='Arc')
def _(v):
    return T('arc', xy('start', v.start), xy('mid', v.mid), xy('end', v.end), tree(v.stroke), tree(v.fill), opt('uuid', v.uuid))


@model('Circle', 'items.schitems', dict(center=Pos(), radius=Num(), stroke=STROKE, fill=FILL, uuid=OU))
def _(v):
    return T('circle', xy('center', v.center), A('radius', v.radius), tree(v.stroke), tree(v.fill), opt('uuid', v.uuid))


@model('NetclassFlag', 'items.schitems', dict(text=Str(), length=Num(), shape=Word(['rectangle', 'round', 'diamond', 'dot']), position=Pos(angle=True), effects=EFF,
                                              properties=ListOf(Sub('Property'), maxlen=4), uuid=OU, fieldsAutoplaced=Flag()))
def _(v):
    return T('netclass_flag', Q(v.text), A('length', v.length), A('shape', v.shape), xy('at', v.position, True), fa(v), tree(v.effects), opt('uuid', v.uuid), tuple(tree(p) for p in v.properties))


L4 = lambda c: ListOf(Sub(c), maxlen=4)


@model('Schematic', 'schematic', dict(version=Int(), generator=Word(['eeschema', 'kiutils', 'gen_v2']), uuid=OU, paper=Sub('PageSettings'), titleBlock=Opt(Sub('TitleBlock')), libSymbols=L4('Symbol'),
       schematicSymbols=L4('SchematicSymbol'), junctions=L4('Junction'), noConnects=L4('NoConnect'), busEntries=L4('BusEntry'), busAliases=L4('BusAlias'),
       graphicalItems=Poly('Connection', 'PolyLine'), shapes=Poly('SchArc', 'Circle', 'Rectangle'), images=L4('Image'), texts=L4('Text'), textBoxes=L4('TextBox'), labels=L4('LocalLabel'),
       globalLabels=L4('GlobalLabel'), hierarchicalLabels=L4('HierarchicalLabel'), netclassFlags=L4('NetclassFlag'), sheets=L4('HierarchicalSheet'),
       sheetInstances=L4('HierarchicalSheetInstance'), symbolInstances=L4('SymbolInstance')))
def _(v):
    def all(*names):
        return tuple(tree(x) for n in names for x in v.d[n])
    return T('kicad_sch', A('version', v.version), A('generator', v.generator), opt('uuid', v.uuid), tree(v.paper), sub(v.titleBlock),
             Node(['lib_symbols'] + [tree(s) for s in v.libSymbols], nfixed=1, rigid=True),
             all('junctions', 'noConnects', 'busEntries', 'busAliases', 'graphicalItems', 'shapes', 'images', 'textBoxes', 'texts', 'labels', 'globalLabels', 'hierarchicalLabels',
                 'netclassFlags', 'schematicSymbols', 'sheets'),
             Node(['sheet_instances'] + [tree(s) for s in v.sheetInstances], nfixed=1, rigid=True) if v.sheetInstances else None,
             Node(['symbol_instances'] + [tree(s) for s in v.symbolInstances], nfixed=1, rigid=True) if v.symbolInstances else None,
             groups=(['wire', 'bus', 'polyline'], ['arc', 'circle', 'rectangle']))


# -------------------------------------------------------------------- wks
@model('WksFontSize', 'wks', dict(width=Num(), height=Num()))
def _(v):
    return A('size', v.width, v.height)


@model('WksFont', 'wks', dict(linewidth=ON, size=Opt(Sub('WksFontSize')), bold=Flag(), italic=Flag()),
       valid=lambda v: v.linewidth is not None or v.size is not None or v.bold or v.italic, repair=lambda v: v.with_(bold=True))
def _(v):
    return T('font', opt('linewidth', v.linewidth), sub(v.size), flag(v.bold, 'bold'), flag(v.italic, 'italic'), nfixed=1)


class WksFontDom(Sub):
    def __init__(self):
        super().__init__('WksFont')

    def empty(self):
        return V('WksFont', dict(linewidth=None, size=None, bold=False, italic=False))

    def min(self, g):
        return self.empty()

    def full(self, g):
        return base('WksFont', 'full', g)

    def alphabet(self):
        return [self.empty()] + super().alphabet()

    def reduced(self):
        return [self.empty()] + super().reduced()


def wfont(f):
    if f.linewidth is None and f.size is None and not f.bold and not f.italic:
        return None
    return tree(f)


CORNER = Opt(Word(['ltcorner', 'lbcorner', 'rbcorner', 'rtcorner']))


@model('WksPosition', 'wks', dict(X=Num(), Y=Num(), corner=CORNER), root=False)
def _(v):
    raise NotImplementedError


WPOS = Sub('WksPosition')
OPTION = Opt(Word(['page1only', 'notonpage1']))
_REP = dict(repeat=OI, incrx=ON, incry=ON)


def wpos(head, p):
    return A(head, p.X, p.Y, p.corner)


def _wline(head):
    def f(v):
        return T(head, q('name', v.name), wpos('start', v.start), wpos('end', v.end), opt('option', v.option), opt('linewidth', v.lineWidth), opt('repeat', v.repeat),
                 opt('incrx', v.incrx), opt('incry', v.incry), oq('comment', v.comment))
    return f


_WL = dict(name=Str(), start=WPOS, end=WPOS, option=OPTION, lineWidth=ON, **_REP, comment=Opt(Str()))
model('Line', 'wks', dict(_WL))(_wline('line'))
model('Rect', 'wks', dict(_WL))(_wline('rect'))


@model('Bitmap', 'wks', dict(name=Str(), position=WPOS, option=OPTION, scale=Num(), **_REP, comment=Opt(Str()),
                             pngdata=ListOf(Word([Q('89 50 4E 47 0D 0A 1A 0A'), Q('00 00 00 0D '), Q('FF'), Q(''), Q('4E 47 ' * 32)]))))
def _(v):
    return T('bitmap', q('name', v.name), wpos('pos', v.position), opt('option', v.option), A('scale', v.scale), opt('repeat', v.repeat), opt('incrx', v.incrx), opt('incry', v.incry),
             oq('comment', v.comment), Node(['pngdata'] + [A('data', Q(d)) for d in v.pngdata], nfixed=1, rigid=True, open=True))


class TbJust(Opt):
    def __init__(self):
        super().__init__(Sub('Justify'))

    def full(self, g):
        return _justs()[-1]

    def alphabet(self):
        return [None] + _justs()[1:]

    def reduced(self):
        return [None, _justs()[1], _justs()[-1]]


@model('TbText', 'wks', dict(text=Str(), name=Str(), position=WPOS, option=OPTION, rotate=ON, font=WksFontDom(), justify=TbJust(), maxlen=ON, maxheight=ON, **_REP, incrlabel=OI, comment=Opt(Str())))
def _(v):
    return T('tbtext', Q(v.text), q('name', v.name), wpos('pos', v.position), opt('option', v.option), opt('rotate', v.rotate), wfont(v.font), just(v.justify), opt('maxlen', v.maxlen),
             opt('maxheight', v.maxheight), opt('repeat', v.repeat), opt('incrx', v.incrx), opt('incry', v.incry), opt('incrlabel', v.incrlabel), oq('comment', v.comment))


@model('TextSize', 'wks', dict(width=Num(), height=Num()))
def _(v):
    return A('textsize', v.width, v.height)


@model('Setup', 'wks', dict(textSize=Sub('TextSize'), lineWidth=Num(), textLineWidth=Num(), leftMargin=Num(), rightMargin=Num(), topMargin=Num(), bottomMargin=Num()))
def _(v):
    return T('setup', tree(v.textSize), A('linewidth', v.lineWidth), A('textlinewidth', v.textLineWidth), A('left_margin', v.leftMargin), A('right_margin', v.rightMargin),
             A('top_margin', v.topMargin), A('bottom_margin', v.bottomMargin))


@model('WorkSheet', 'wks', dict(version=Int(), generator=Word(['pl_editor', 'kiutils', 'gen_v2']), setup=Sub('Setup'), drawingObjects=Poly('Line', 'Rect', 'TbText', 'Bitmap')))
def _(v):
    return T('kicad_wks', A('version', v.version), A('generator', v.generator), tree(v.setup), tuple(tree(x) for x in v.drawingObjects), groups=(['line', 'rect', 'tbtext', 'bitmap'],))

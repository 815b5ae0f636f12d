"""Reference model of boards, footprints, design rules and library tables:
for every dataclass its attributes and the token tree KiCad's format gives it."""
from model import model, tree, T, A, Node, Q, V, opt, oq, q, flag, xy, pts
from domains import (NOT_A_NAME, Num, Int, Dec, Str, Word, Uuid, Flag, TFlag, Const, Opt, Sub, Pos, ListOf, FixedList, Poly, DictOf, Gen)

LAYER = Str()
YN = ['yes', 'no']


def sub(v):
    return None if v is None else tree(v)


class Uuid0(Uuid):
    """identifier that may be the empty text: then nothing is written"""
    def alphabet(self):
        return [''] + super().alphabet()

    def reduced(self):
        return [''] + super().reduced()


# ------------------------------------------------------------------ common
@model('Position', 'items.common', dict(X=Num(), Y=Num(), angle=Opt(Num()), unlocked=Flag()), root=False)
def _(v):
    return A('at', v.X, v.Y, v.angle, flag(v.unlocked, 'unlocked'))


@model('Coordinate', 'items.common', dict(X=Num(), Y=Num(), Z=Num()))
def _(v):
    return A('xyz', v.X, v.Y, v.Z)


@model('ColorRGBA', 'items.common', dict(R=Num(), G=Num(), B=Num(), A=Num(), precision=Const(None)))
def _(v):
    return A('color', v.R, v.G, v.B, v.A)


@model('Stroke', 'items.common', dict(width=Num(), type=Opt(Word(['solid', 'default', 'dash', 'dot', 'dash_dot', 'dash_dot_dot'])), color=Opt(Sub('ColorRGBA'))))
def _(v):
    return T('stroke', A('width', v.width), opt('type', v.type), sub(v.color))


@model('Font', 'items.common', dict(face=Opt(Str()), height=Num(), width=Num(), thickness=Opt(Num()), bold=Flag(), italic=Flag(), lineSpacing=Opt(Num()), color=Opt(Sub('ColorRGBA'))))
def _(v):
    return T('font', oq('face', v.face), A('size', v.height, v.width), sub(v.color), opt('thickness', v.thickness),
             flag(v.bold, 'bold'), flag(v.italic, 'italic'), opt('line_spacing', v.lineSpacing), nfixed=1)


@model('Justify', 'items.common', dict(horizontally=Opt(Word(['left', 'right', 'center'])), vertically=Opt(Word(['top', 'bottom'])), mirror=Flag()),
       valid=lambda v: v.horizontally is not None or v.vertically is not None or v.mirror,
       repair=lambda v: v.with_(horizontally='left'))
def _(v):
    return T('justify', v.horizontally, v.vertically, flag(v.mirror, 'mirror'), nfixed=1, open=False)


def _justs():
    out = []
    for h in (None, 'left', 'right', 'center'):
        for vv in (None, 'top', 'bottom'):
            for m in (False, True):
                out.append(V('Justify', dict(horizontally=h, vertically=vv, mirror=m)))
    return out


class JustDom(Sub):
    """inside effects the all-default justification is simply not written"""
    def __init__(self):
        super().__init__('Justify')

    def min(self, g):
        return _justs()[0]

    def full(self, g):
        return _justs()[-1]

    def alphabet(self):
        return _justs()

    def reduced(self):
        return [_justs()[0], _justs()[-1], _justs()[6]]


def just(j):
    if j is None or (j.horizontally is None and j.vertically is None and not j.mirror):
        return None
    return tree(j)


@model('Effects', 'items.common', dict(font=Sub('Font'), justify=JustDom(), hide=Flag(), href=Opt(Str())))
def _(v):
    return T('effects', tree(v.font), just(v.justify), oq('href', v.href), flag(v.hide, 'hide'), nfixed=1)


@model('Net', 'items.common', dict(number=Int(), name=Str()))
def _(v):
    return A('net', v.number, Q(v.name))


@model('Group', 'items.common', dict(name=Str(), locked=Flag(), id=Uuid0(), members=ListOf(Uuid())))
def _(v):
    return T('group', Q(v.name), flag(v.locked, 'locked'), A('id', v.id) if v.id else None, Node(['members'] + list(v.members), nfixed=1, rigid=True), nfixed=2)


PAPERS = ['A4', 'A0', 'A1', 'A2', 'A3', 'A5', 'A', 'B', 'C', 'D', 'E', 'USLetter', 'USLegal', 'USLedger', 'User']


class PaperDom(Word):
    def __init__(self):
        super().__init__([Q(p) for p in PAPERS])


def _page_repair(v):
    if v.paperSize == 'User':
        return v.with_(width=v.width if v.width is not None else 111.5, height=v.height if v.height is not None else 222.25)
    return v.with_(width=None, height=None)


def _user_pages():
    from domains import NUMBERS
    for p in (False, True):
        for n in NUMBERS:
            yield V('PageSettings', dict(paperSize=Q('User'), width=n, height=77.5, portrait=p))
            yield V('PageSettings', dict(paperSize=Q('User'), width=88.5, height=n, portrait=p))
        for s in PAPERS[:-1]:
            yield V('PageSettings', dict(paperSize=Q(s), width=None, height=None, portrait=p))


def _page_raises(v):
    return v.paperSize == 'User' and (v.width is None or v.height is None)


@model('PageSettings', 'items.common', dict(paperSize=PaperDom(), width=Opt(Num()), height=Opt(Num()), portrait=Flag()),
       valid=lambda v: (v.paperSize == 'User') == (v.width is not None) and (v.paperSize == 'User') == (v.height is not None),
       repair=_page_repair, extra=lambda: _user_pages())
def _(v):
    return A('paper', Q(v.paperSize), v.width, v.height, flag(v.portrait, 'portrait'))




@model('TitleBlock', 'items.common', dict(title=Opt(Str()), date=Opt(Str()), revision=Opt(Str()), company=Opt(Str()),
                                          comments=DictOf(Int(list(range(1, 10))), Str())))
def _(v):
    return T('title_block', oq('title', v.title), oq('date', v.date), oq('rev', v.revision), oq('company', v.company),
             tuple(A('comment', n, Q(c)) for n, c in v.comments.items()))


@model('Property', 'items.common', dict(key=Str(), value=Str(), id=Opt(Int()), position=Pos(angle=True), effects=Opt(Sub('Effects')), showName=Flag()))
def _(v):
    return T('property', Q(v.key), Q(v.value), opt('id', v.id), xy('at', v.position, True), A('show_name') if v.showName else None, sub(v.effects))


@model('RenderCachePolygon', 'items.common', dict(pts=ListOf(Pos())))
def _(v):
    return T('polygon', pts(v.pts))


@model('RenderCache', 'items.common', dict(text=Str(), id=Int(), polygons=ListOf(Sub('RenderCachePolygon'))))
def _(v):
    return T('render_cache', Q(v.text), v.id, tuple(tree(p) for p in v.polygons))


@model('Fill', 'items.common', dict(type=Word(['none', 'outline', 'background', 'color']), color=Opt(Sub('ColorRGBA'))))
def _(v):
    return T('fill', A('type', v.type), sub(v.color))


B64 = ['iVBORw0KGgoAAAANSUhEUgAAA', 'AAAA+/aB9=', 'Zz==', 'q/Q', '/+A', 'None', 'x' * 76]


@model('Image', 'items.common', dict(position=Pos(), scale=Opt(Num()), data=ListOf(Word(B64)), uuid=Opt(Uuid()), layer=Opt(Str())))
def _(v):
    return T('image', xy('at', v.position), oq('layer', v.layer), opt('scale', v.scale), opt('uuid', v.uuid),
             Node(['data'] + list(v.data), nfixed=1, rigid=True))


# ---------------------------------------------------------------- gritems
@model('GrText', 'items.gritems', dict(text=Str(), knockout=Flag(), position=Pos(angle=True), layer=Opt(LAYER), effects=Sub('Effects'),
                                       tstamp=Opt(Uuid()), locked=Flag(), renderCache=Opt(Sub('RenderCache'))),
       valid=lambda v: v.layer is not None or not v.knockout)
def _(v):
    return T('gr_text', flag(v.locked, 'locked'), Q(v.text), xy('at', v.position, True),
             A('layer', Q(v.layer), flag(v.knockout, 'knockout')) if v.layer is not None else None,
             opt('tstamp', v.tstamp), tree(v.effects), sub(v.renderCache))


def _box_valid(v):
    card = v.angle is None or v.angle in (0, 90, 180, 270)
    if card:
        return v.start is not None and v.end is not None and len(v.pts) in (0, 4)
    return len(v.pts) == 4


def _box_repair(v):
    P = Pos()
    g = Gen()
    g.n = 40
    kw = {}
    if v.start is None:
        kw['start'] = P.min(g)
    if v.end is None:
        kw['end'] = P.min(g)
    if len(v.pts) not in (0, 4):
        kw['pts'] = [P.min(g) for _ in range(4)]
    return v.with_(**kw)


def _boxes(cls):
    def f():
        from domains import base, Gen2
        P = Pos()
        for s in (None, P.mk(1, 2)):
            for e in (None, P.mk(3, 4.5)):
                for a in (45, 0.5, -90, 359.9, 1e-05, 89.999999):
                    for lk in (False, True):
                        g = Gen2(60)
                        yield base(cls, 'min', g).with_(start=s, end=e, angle=a, locked=lk, pts=[P.min(g) for _ in range(4)])
    return f


_BOX = dict(locked=Flag(), text=Str(), start=Opt(Pos()), end=Opt(Pos()), pts=FixedList(Pos(), [0, 4]), angle=Opt(Num()), layer=LAYER,
            tstamp=Opt(Uuid()), effects=Opt(Sub('Effects')), stroke=Opt(Sub('Stroke')), renderCache=Opt(Sub('RenderCache')))


def _box(head):
    def f(v):
        return T(head, flag(v.locked, 'locked'), Q(v.text), pts(v.pts) if v.pts else None, xy('start', v.start), xy('end', v.end),
                 opt('angle', v.angle), q('layer', v.layer), opt('tstamp', v.tstamp), sub(v.effects), sub(v.stroke), sub(v.renderCache))
    return f


model('GrTextBox', 'items.gritems', dict(_BOX), valid=_box_valid, repair=_box_repair, extra=_boxes('GrTextBox'))(_box('gr_text_box'))
model('FpTextBox', 'items.fpitems', dict(_BOX), valid=_box_valid, repair=_box_repair, extra=_boxes('FpTextBox'))(_box('fp_text_box'))

GRFILL = Opt(Word(['none', 'solid', 'yes', 'no']))


class WDom(Opt):
    def min(self, g):
        return self.inner.min(g)


# gr_* items carry an optional width; without it nothing is written (and a
# missing width token loads as the default width, so that case is save-only)
W = WDom(Num())
_gw = dict(loadable=lambda v: v.width is not None)


@model('GrLine', 'items.gritems', dict(start=Pos(), end=Pos(), angle=Opt(Num()), layer=Opt(LAYER), width=W, tstamp=Opt(Uuid()), locked=Flag()), **_gw)
def _(v):
    return T('gr_line', flag(v.locked, 'locked'), xy('start', v.start), xy('end', v.end), opt('angle', v.angle), oq('layer', v.layer),
             opt('width', v.width), opt('tstamp', v.tstamp), nfixed=1)


@model('GrRect', 'items.gritems', dict(start=Pos(), end=Pos(), layer=Opt(LAYER), width=W, fill=GRFILL, tstamp=Opt(Uuid()), locked=Flag()), **_gw)
def _(v):
    return T('gr_rect', flag(v.locked, 'locked'), xy('start', v.start), xy('end', v.end), oq('layer', v.layer),
             opt('width', v.width), opt('fill', v.fill), opt('tstamp', v.tstamp), nfixed=1)


@model('GrCircle', 'items.gritems', dict(center=Pos(), end=Pos(), layer=Opt(LAYER), width=W, fill=GRFILL, tstamp=Opt(Uuid()), locked=Flag()), **_gw)
def _(v):
    return T('gr_circle', flag(v.locked, 'locked'), xy('center', v.center), xy('end', v.end), oq('layer', v.layer),
             opt('width', v.width), opt('fill', v.fill), opt('tstamp', v.tstamp), nfixed=1)


@model('GrArc', 'items.gritems', dict(start=Pos(), mid=Pos(), end=Pos(), layer=Opt(LAYER), width=W, tstamp=Opt(Uuid()), locked=Flag()), **_gw)
def _(v):
    return T('gr_arc', flag(v.locked, 'locked'), xy('start', v.start), xy('mid', v.mid), xy('end', v.end), oq('layer', v.layer),
             opt('width', v.width), opt('tstamp', v.tstamp), nfixed=1)


@model('GrPoly', 'items.gritems', dict(layer=Opt(LAYER), coordinates=ListOf(Pos(), 1), width=W, fill=GRFILL, tstamp=Opt(Uuid()), locked=Flag()), **_gw)
def _(v):
    return T('gr_poly', flag(v.locked, 'locked'), pts(v.coordinates), oq('layer', v.layer), opt('width', v.width), opt('fill', v.fill),
             opt('tstamp', v.tstamp), nfixed=1)


@model('GrCurve', 'items.gritems', dict(coordinates=ListOf(Pos(), 1), layer=Opt(LAYER), width=W, tstamp=Opt(Uuid()), locked=Flag()), **_gw)
def _(v):
    return T('gr_curve', flag(v.locked, 'locked'), pts(v.coordinates), oq('layer', v.layer), opt('width', v.width), opt('tstamp', v.tstamp), nfixed=1)


GRS = ['GrText', 'GrTextBox', 'GrLine', 'GrRect', 'GrCircle', 'GrArc', 'GrPoly', 'GrCurve']
GR_HEADS = ['gr_text', 'gr_text_box', 'gr_line', 'gr_rect', 'gr_circle', 'gr_arc', 'gr_poly', 'gr_curve']


# ---------------------------------------------------------------- fpitems
@model('FpText', 'items.fpitems', dict(type=Word(['reference', 'value', 'user']), text=Str(), position=Pos(angle=True, unlocked=True), layer=LAYER,
                                       knockout=Flag(), hide=Flag(), effects=Sub('Effects'), tstamp=Opt(Uuid()), renderCache=Opt(Sub('RenderCache'))))
def _(v):
    return T('fp_text', v.type, Q(v.text), xy('at', v.position, True, True), A('layer', Q(v.layer), flag(v.knockout, 'knockout')),
             flag(v.hide, 'hide'), tree(v.effects), opt('tstamp', v.tstamp), sub(v.renderCache), nfixed=3)


# exactly one of width / stroke (formats v6 / v7)
def _ws_valid(v):
    return (v.width is None) != (v.stroke is None)


def _ws_repair(v):
    if v.width is not None:
        return v.with_(width=None)
    return v.with_(width=0.77)


def _ws(v):
    return opt('width', v.width) if v.width is not None else sub(v.stroke)


_WS = dict(width=WDom(Num()), stroke=Opt(Sub('Stroke')))
_kw = dict(valid=_ws_valid, repair=_ws_repair)


@model('FpLine', 'items.fpitems', dict(start=Pos(), end=Pos(), layer=LAYER, **_WS, locked=Flag(), tstamp=Opt(Uuid())), **_kw)
def _(v):
    return T('fp_line', xy('start', v.start), xy('end', v.end), q('layer', v.layer), _ws(v), flag(v.locked, 'locked'), opt('tstamp', v.tstamp), nfixed=1)


@model('FpRect', 'items.fpitems', dict(start=Pos(), end=Pos(), layer=LAYER, **_WS, fill=GRFILL, locked=Flag(), tstamp=Opt(Uuid())), **_kw)
def _(v):
    return T('fp_rect', xy('start', v.start), xy('end', v.end), q('layer', v.layer), _ws(v), opt('fill', v.fill), flag(v.locked, 'locked'), opt('tstamp', v.tstamp), nfixed=1)


@model('FpCircle', 'items.fpitems', dict(center=Pos(), end=Pos(), layer=LAYER, **_WS, fill=GRFILL, locked=Flag(), tstamp=Opt(Uuid())), **_kw)
def _(v):
    return T('fp_circle', xy('center', v.center), xy('end', v.end), q('layer', v.layer), _ws(v), opt('fill', v.fill), flag(v.locked, 'locked'), opt('tstamp', v.tstamp), nfixed=1)


@model('FpArc', 'items.fpitems', dict(start=Pos(), mid=Pos(), end=Pos(), layer=LAYER, **_WS, locked=Flag(), tstamp=Opt(Uuid())), **_kw)
def _(v):
    return T('fp_arc', xy('start', v.start), xy('mid', v.mid), xy('end', v.end), q('layer', v.layer), _ws(v), flag(v.locked, 'locked'), opt('tstamp', v.tstamp), nfixed=1)


@model('FpPoly', 'items.fpitems', dict(layer=LAYER, coordinates=ListOf(Pos(), 1), **_WS, fill=GRFILL, locked=Flag(), tstamp=Opt(Uuid())), **_kw)
def _(v):
    return T('fp_poly', pts(v.coordinates), q('layer', v.layer), _ws(v), opt('fill', v.fill), flag(v.locked, 'locked'), opt('tstamp', v.tstamp), nfixed=1)


@model('FpCurve', 'items.fpitems', dict(coordinates=ListOf(Pos(), 1), layer=LAYER, **_WS, locked=Flag(), tstamp=Opt(Uuid())), **_kw)
def _(v):
    return T('fp_curve', pts(v.coordinates), q('layer', v.layer), _ws(v), flag(v.locked, 'locked'), opt('tstamp', v.tstamp), nfixed=1)


FPS = ['FpText', 'FpTextBox', 'FpLine', 'FpRect', 'FpCircle', 'FpArc', 'FpPoly', 'FpCurve', 'Image']
FP_HEADS = ['fp_text', 'fp_text_box', 'fp_line', 'fp_rect', 'fp_circle', 'fp_arc', 'fp_poly', 'fp_curve', 'image']

# ------------------------------------------------------------------ zones
ALLOW = Word(['allowed', 'not_allowed'])


@model('KeepoutSettings', 'items.zones', dict(tracks=ALLOW, vias=ALLOW, pads=ALLOW, copperpour=ALLOW, footprints=ALLOW))
def _(v):
    return T('keepout', A('tracks', v.tracks), A('vias', v.vias), A('pads', v.pads), A('copperpour', v.copperpour), A('footprints', v.footprints))


ON = Opt(Num())
OI = Opt(Int())


@model('FillSettings', 'items.zones', dict(yes=Flag(), mode=Opt(Word(['hatch', 'segment'])), thermalGap=ON, thermalBridgeWidth=ON,
       smoothingStyle=Opt(Word(['fillet', 'chamfer', 'none'])), smoothingRadius=ON, islandRemovalMode=OI, islandAreaMin=ON, hatchThickness=ON, hatchGap=ON,
       hatchOrientation=ON, hatchSmoothingLevel=OI, hatchSmoothingValue=ON, hatchBorderAlgorithm=Opt(Word(['hatch_thickness', 'min_thickness'])), hatchMinHoleArea=ON))
def _(v):
    return T('fill', flag(v.yes, 'yes'), opt('mode', v.mode), opt('thermal_gap', v.thermalGap), opt('thermal_bridge_width', v.thermalBridgeWidth),
             opt('smoothing', v.smoothingStyle), opt('radius', v.smoothingRadius), opt('island_removal_mode', v.islandRemovalMode),
             opt('island_area_min', v.islandAreaMin), opt('hatch_thickness', v.hatchThickness), opt('hatch_gap', v.hatchGap),
             opt('hatch_orientation', v.hatchOrientation), opt('hatch_smoothing_level', v.hatchSmoothingLevel), opt('hatch_smoothing_value', v.hatchSmoothingValue),
             opt('hatch_border_algorithm', v.hatchBorderAlgorithm), opt('hatch_min_hole_area', v.hatchMinHoleArea), nfixed=1)


@model('ZonePolygon', 'items.zones', dict(coordinates=ListOf(Pos(), 1)))
def _(v):
    return T('polygon', pts(v.coordinates))


@model('FilledPolygon', 'items.zones', dict(layer=LAYER, island=Flag(), coordinates=ListOf(Pos(), 1)))
def _(v):
    return T('filled_polygon', q('layer', v.layer), A('island') if v.island else None, pts(v.coordinates))


@model('FillSegments', 'items.zones', dict(layer=LAYER, coordinates=ListOf(Pos(), 1)))
def _(v):
    return T('fill_segments', q('layer', v.layer), pts(v.coordinates))


class HatchDom(Sub):
    def __init__(self):
        super().__init__('Hatch')


@model('Hatch', 'items.zones', dict(style=Word(['none', 'edge', 'full']), pitch=Num()), root=False)
def _(v):
    return A('hatch', v.style, v.pitch)


@model('Zone', 'items.zones', dict(locked=Flag(), net=Int(), netName=Str(), layers=ListOf(LAYER, 1), tstamp=Opt(Uuid()), name=Opt(Str()), hatch=Sub('Hatch'), priority=OI,
       connectPads=Opt(Word(['thru_hole_only', 'full', 'no', 'yes'])), clearance=Num(), minThickness=Num(), filledAreasThickness=Opt(Word(YN)),
       keepoutSettings=Opt(Sub('KeepoutSettings')), fillSettings=Opt(Sub('FillSettings')), polygons=ListOf(Sub('ZonePolygon')),
       filledPolygons=ListOf(Sub('FilledPolygon')), fillSegments=Opt(Sub('FillSegments'))))
def _(v):
    one = len(v.layers) == 1 and v.layers[0] not in ('F&B.Cu', '*.Cu')
    return T('zone', flag(v.locked, 'locked'), A('net', v.net), q('net_name', v.netName), A('layer' if one else 'layers', *[Q(l) for l in v.layers]),
             opt('tstamp', v.tstamp), oq('name', v.name), tree(v.hatch), opt('priority', v.priority),
             T('connect_pads', v.connectPads, A('clearance', v.clearance), open=False), A('min_thickness', v.minThickness),
             opt('filled_areas_thickness', v.filledAreasThickness), sub(v.keepoutSettings), sub(v.fillSettings),
             tuple(tree(p) for p in v.polygons), tuple(tree(p) for p in v.filledPolygons), sub(v.fillSegments), nfixed=1)


# ------------------------------------------------------------- dimensions
@model('DimensionFormat', 'items.dimensions', dict(prefix=Opt(Str()), suffix=Opt(Str()), units=Int(), unitsFormat=Int(), precision=Int(),
                                                   overrideValue=Opt(Str()), suppressZeroes=Flag()))
def _(v):
    return T('format', oq('prefix', v.prefix), oq('suffix', v.suffix), A('units', v.units), A('units_format', v.unitsFormat), A('precision', v.precision),
             oq('override_value', v.overrideValue), flag(v.suppressZeroes, 'suppress_zeroes'), nfixed=1)


@model('DimensionStyle', 'items.dimensions', dict(thickness=Num(), arrowLength=Num(), textPositionMode=Int(), extensionHeight=ON, textFrame=OI, extensionOffset=ON, keepTextAligned=Flag()))
def _(v):
    return T('style', A('thickness', v.thickness), A('arrow_length', v.arrowLength), A('text_position_mode', v.textPositionMode),
             opt('extension_height', v.extensionHeight), opt('text_frame', v.textFrame), opt('extension_offset', v.extensionOffset),
             flag(v.keepTextAligned, 'keep_text_aligned'), nfixed=1)


@model('Dimension', 'items.dimensions', dict(locked=Flag(), type=Word(['aligned', 'leader', 'center', 'orthogonal', 'radial']), layer=LAYER, tstamp=Opt(Uuid()),
       pts=ListOf(Pos(), 1), height=ON, orientation=ON, leaderLength=ON, grText=Opt(Sub('GrText')), format=Opt(Sub('DimensionFormat')), style=Sub('DimensionStyle')))
def _(v):
    return T('dimension', flag(v.locked, 'locked'), A('type', v.type), q('layer', v.layer), opt('tstamp', v.tstamp), pts(v.pts), opt('height', v.height),
             opt('orientation', v.orientation), opt('leader_length', v.leaderLength), sub(v.grText), sub(v.format), tree(v.style), nfixed=1)


# --------------------------------------------------------------- brditems
@model('GeneralSettings', 'items.brditems', dict(thickness=Num()))
def _(v):
    return T('general', A('thickness', v.thickness))


@model('LayerToken', 'items.brditems', dict(ordinal=Int([x for x in range(0, 60)] + [63, 127]), name=Str(), type=Word(['signal', 'power', 'mixed', 'jumper', 'user']), userName=Opt(Str())))
def _(v):
    return A(v.ordinal, Q(v.name), v.type, Q(v.userName) if v.userName is not None else None)


_MAT = dict(material=Opt(Str()), epsilonR=ON, lossTangent=ON)


@model('StackupSubLayer', 'items.brditems', dict(thickness=Num(), **_MAT), root=False)
def _(v):
    raise NotImplementedError


@model('StackupLayer', 'items.brditems', dict(name=Str(), type=Str(), color=Opt(Str()), thickness=ON, **_MAT, subLayers=ListOf(Sub('StackupSubLayer'), maxlen=5)))
def _(v):
    subs = []
    for s in v.subLayers:
        subs += ['addsublayer', A('thickness', s.thickness), oq('material', s.material), opt('epsilon_r', s.epsilonR), opt('loss_tangent', s.lossTangent)]
    return T('layer', Q(v.name), q('type', v.type), oq('color', v.color), opt('thickness', v.thickness), oq('material', v.material),
             opt('epsilon_r', v.epsilonR), opt('loss_tangent', v.lossTangent), tuple(subs), rigid=bool(v.subLayers))


@model('Stackup', 'items.brditems', dict(layers=ListOf(Sub('StackupLayer')), copperFinish=Opt(Str()), dielectricContraints=Opt(Word(YN)),
                                         edgeConnector=Opt(Word(['yes', 'bevelled'])), castellatedPads=Flag(), edgePlating=Flag()))
def _(v):
    return T('stackup', tuple(tree(l) for l in v.layers), oq('copper_finish', v.copperFinish), opt('dielectric_constraints', v.dielectricContraints),
             opt('edge_connector', v.edgeConnector), A('castellated_pads', 'yes') if v.castellatedPads else None, A('edge_plating', 'yes') if v.edgePlating else None)


B = TFlag
SEL = Word(['0x00010fc_ffffffff', '0x00010f0_ffffffff', '0x0001000_7ffffffe'])


def tf(head, b):
    return None if b is None else A(head, 'true' if b else 'false')


@model('PlotSettings', 'items.brditems', dict(layerSelection=SEL, plotOnAllLayersSelection=Opt(SEL), disableApertMacros=B(), useGerberExtensions=B(), useGerberAttributes=B(),
       useGerberAdvancedAttributes=B(), createGerberJobFile=B(), dashedLineDashRatio=Opt(Dec(6)), dashedLineGapRatio=Opt(Dec(6)), svgUseInch=Opt(B()), svgPrecision=Num(),
       excludeEdgeLayer=Opt(B()), plotFameRef=B(), viasOnMask=B(), mode=Int(), useAuxOrigin=B(), hpglPenNumber=Int(), hpglPenSpeed=Int(), hpglPenDiameter=Dec(6),
       dxfPolygonMode=B(), dxfImperialUnits=B(), dxfUsePcbnewFont=B(), psNegative=B(), psA4Output=B(), plotReference=B(), plotValue=B(), plotInvisibleText=B(),
       sketchPadsOnFab=B(), subtractMaskFromSilk=B(), outputFormat=Int(), mirror=B(), drillShape=Int(), scaleSelection=Int(), outputDirectory=Str()))
def _(v):
    return T('pcbplotparams', A('layerselection', v.layerSelection) if v.layerSelection else None, opt('plot_on_all_layers_selection', v.plotOnAllLayersSelection),
             tf('disableapertmacros', v.disableApertMacros), tf('usegerberextensions', v.useGerberExtensions), tf('usegerberattributes', v.useGerberAttributes),
             tf('usegerberadvancedattributes', v.useGerberAdvancedAttributes), tf('creategerberjobfile', v.createGerberJobFile),
             opt('dashed_line_dash_ratio', v.dashedLineDashRatio), opt('dashed_line_gap_ratio', v.dashedLineGapRatio), tf('svguseinch', v.svgUseInch),
             A('svgprecision', v.svgPrecision), tf('excludeedgelayer', v.excludeEdgeLayer), tf('plotframeref', v.plotFameRef), tf('viasonmask', v.viasOnMask),
             A('mode', v.mode), tf('useauxorigin', v.useAuxOrigin), A('hpglpennumber', v.hpglPenNumber), A('hpglpenspeed', v.hpglPenSpeed),
             A('hpglpendiameter', v.hpglPenDiameter), tf('dxfpolygonmode', v.dxfPolygonMode), tf('dxfimperialunits', v.dxfImperialUnits),
             tf('dxfusepcbnewfont', v.dxfUsePcbnewFont), tf('psnegative', v.psNegative), tf('psa4output', v.psA4Output), tf('plotreference', v.plotReference),
             tf('plotvalue', v.plotValue), tf('plotinvisibletext', v.plotInvisibleText), tf('sketchpadsonfab', v.sketchPadsOnFab),
             tf('subtractmaskfromsilk', v.subtractMaskFromSilk), A('outputformat', v.outputFormat), tf('mirror', v.mirror), A('drillshape', v.drillShape),
             A('scaleselection', v.scaleSelection), q('outputdirectory', v.outputDirectory))


@model('SetupData', 'items.brditems', dict(stackup=Opt(Sub('Stackup')), packToMaskClearance=Num(), solderMaskMinWidth=ON, padToPasteClearance=ON, padToPasteClearanceRatio=ON,
                                           auxAxisOrigin=Opt(Pos()), gridOrigin=Opt(Pos()), plotSettings=Opt(Sub('PlotSettings'))))
def _(v):
    return T('setup', sub(v.stackup), A('pad_to_mask_clearance', v.packToMaskClearance), opt('solder_mask_min_width', v.solderMaskMinWidth),
             opt('pad_to_paste_clearance', v.padToPasteClearance), opt('pad_to_paste_clearance_ratio', v.padToPasteClearanceRatio),
             xy('aux_axis_origin', v.auxAxisOrigin), xy('grid_origin', v.gridOrigin), sub(v.plotSettings))


@model('Segment', 'items.brditems', dict(start=Pos(), end=Pos(), width=Num(), layer=LAYER, locked=Flag(), net=Int(), tstamp=Uuid0()))
def _(v):
    return T('segment', flag(v.locked, 'locked'), xy('start', v.start), xy('end', v.end), A('width', v.width), q('layer', v.layer), A('net', v.net), A('tstamp', v.tstamp) if v.tstamp else None, nfixed=1)


@model('Via', 'items.brditems', dict(type=Opt(Word(['blind', 'micro'])), locked=Flag(), position=Pos(), size=Num(), drill=Num(), layers=ListOf(LAYER), removeUnusedLayers=Flag(),
                                     keepEndLayers=Flag(), free=Flag(), net=Int(), tstamp=Opt(Uuid())))
def _(v):
    return T('via', v.type, flag(v.locked, 'locked'), xy('at', v.position), A('size', v.size), A('drill', v.drill), A('layers', *[Q(l) for l in v.layers]),
             A('remove_unused_layers') if v.removeUnusedLayers else None, A('keep_end_layers') if v.keepEndLayers else None, A('free') if v.free else None,
             A('net', v.net), opt('tstamp', v.tstamp), nfixed=1)


@model('Arc', 'items.brditems', dict(start=Pos(), mid=Pos(), end=Pos(), width=Num(), layer=LAYER, locked=Flag(), net=Int(), tstamp=Opt(Uuid())))
def _(v):
    return T('arc', flag(v.locked, 'locked'), xy('start', v.start), xy('mid', v.mid), xy('end', v.end), A('width', v.width), q('layer', v.layer), A('net', v.net), opt('tstamp', v.tstamp), nfixed=1)


@model('Target', 'items.brditems', dict(type=Word(['plus', 'x']), position=Pos(), size=Num(), width=Num(), layer=LAYER, tstamp=Opt(Uuid())))
def _(v):
    return T('target', v.type, xy('at', v.position), A('size', v.size), A('width', v.width), q('layer', v.layer), opt('tstamp', v.tstamp))


# -------------------------------------------------------------- footprint
@model('Attributes', 'footprint', dict(type=Opt(Word(['smd', 'through_hole'])), boardOnly=Flag(), excludeFromPosFiles=Flag(), excludeFromBom=Flag(), allowMissingCourtyard=Flag()),
       valid=lambda v: v.type is not None or v.boardOnly or v.excludeFromPosFiles or v.excludeFromBom or v.allowMissingCourtyard,
       repair=lambda v: v.with_(type='smd'))
def _(v):
    return T('attr', v.type, flag(v.boardOnly, 'board_only'), flag(v.excludeFromPosFiles, 'exclude_from_pos_files'), flag(v.excludeFromBom, 'exclude_from_bom'),
             flag(v.allowMissingCourtyard, 'allow_missing_courtyard'), nfixed=2 if v.type else 1, open=False)


class AttrDom(Sub):
    def __init__(self):
        super().__init__('Attributes')

    def all(self):
        return [V('Attributes', dict(type=t, boardOnly=a, excludeFromPosFiles=b, excludeFromBom=c, allowMissingCourtyard=d))
                for t in (None, 'smd', 'through_hole') for a in (False, True) for b in (False, True) for c in (False, True) for d in (False, True)]

    def min(self, g):
        return self.all()[0]

    def full(self, g):
        return self.all()[-1]

    def alphabet(self):
        return self.all()

    def reduced(self):
        a = self.all()
        return [a[0], a[1], a[-1]]


def attr(a):
    if a.type is None and not (a.boardOnly or a.excludeFromPosFiles or a.excludeFromBom or a.allowMissingCourtyard):
        return None
    return tree(a)


@model('Model', 'footprint', dict(path=Str(), pos=Sub('Coordinate'), scale=Sub('Coordinate'), rotate=Sub('Coordinate'), hide=Flag(), opacity=ON))
def _(v):
    return T('model', Q(v.path), flag(v.hide, 'hide'), opt('opacity', v.opacity), T('offset', tree(v.pos), open=False), T('scale', tree(v.scale), open=False), T('rotate', tree(v.rotate), open=False))


@model('DrillDefinition', 'footprint', dict(oval=Flag(), diameter=Num(), width=ON, offset=Opt(Pos())),
       valid=lambda v: v.oval or v.width is None)
def _(v):
    return T('drill', flag(v.oval, 'oval'), v.diameter, v.width, xy('offset', v.offset), rigid=True, open=False)


@model('PadOptions', 'footprint', dict(clearance=Word(['outline', 'convexhull']), anchor=Word(['rect', 'circle'])))
def _(v):
    return T('options', A('clearance', v.clearance), A('anchor', v.anchor))


class PadLayer(Str):
    """pad layer names: wildcard names are bare words, all others quoted texts"""
    WILD = ['*.Cu', '*.Mask', '*.Paste', 'F&B.Cu', 'F&B.Mask', '*.SilkS']

    def __init__(self):
        super().__init__()
        self.values = [s for s in self.values if '*.' not in s and '&' not in s] + [Q(w) for w in self.WILD]

    def reduced(self):
        return [Q('*.Cu'), Q('F&B.Mask'), Q('F.Cu'), Q('a b')]


def padlayers(ls):
    return A('layers', *[str(l) if ('*.' in l or '&' in l) else Q(l) for l in ls])


@model('Pad', 'footprint', dict(number=Str(), type=Word(['thru_hole', 'smd', 'connect', 'np_thru_hole']), shape=Word(['circle', 'rect', 'oval', 'trapezoid', 'roundrect', 'custom']),
       position=Pos(angle=True), locked=Flag(), size=Pos(), drill=Opt(Sub('DrillDefinition')), layers=ListOf(PadLayer()),
       property=Opt(Word(['pad_prop_bga', 'pad_prop_fiducial_glob', 'pad_prop_testpoint', 'pad_prop_heatsink', 'pad_prop_castellated'])), removeUnusedLayers=Flag(), keepEndLayers=Flag(),
       roundrectRatio=ON, chamferRatio=ON, chamfer=ListOf(Word(['top_left', 'top_right', 'bottom_left', 'bottom_right']), maxlen=4), net=Opt(Sub('Net')), tstamp=Opt(Uuid()),
       pinFunction=Opt(Str()), pinType=Opt(Str()), dieLength=ON, solderMaskMargin=ON, solderPasteMargin=ON, solderPasteMarginRatio=ON, clearance=ON, zoneConnect=OI,
       thermalWidth=ON, thermalGap=ON, customPadOptions=Opt(Sub('PadOptions')), customPadPrimitives=Poly(*GRS)))
def _(v):
    return T('pad', Q(v.number), v.type, v.shape, flag(v.locked, 'locked'), xy('at', v.position, True), xy('size', v.size), sub(v.drill), opt('property', v.property),
             padlayers(v.layers), A('remove_unused_layers') if v.removeUnusedLayers else None, A('keep_end_layers') if v.keepEndLayers else None,
             opt('roundrect_rratio', v.roundrectRatio), opt('chamfer_ratio', v.chamferRatio), A('chamfer', *v.chamfer) if v.chamfer else None, opt('die_length', v.dieLength),
             sub(v.net), oq('pinfunction', v.pinFunction), oq('pintype', v.pinType), opt('solder_mask_margin', v.solderMaskMargin), opt('solder_paste_margin', v.solderPasteMargin),
             opt('solder_paste_margin_ratio', v.solderPasteMarginRatio), opt('clearance', v.clearance), opt('zone_connect', v.zoneConnect), opt('thermal_width', v.thermalWidth),
             opt('thermal_gap', v.thermalGap), sub(v.customPadOptions),
             T('primitives', tuple(tree(p) for p in v.customPadPrimitives), groups=(GR_HEADS,)) if v.customPadPrimitives else None, opt('tstamp', v.tstamp), nfixed=4)


def lib_id(v):
    return f'{v.libraryNickname}:{v.entryName}' if v.libraryNickname else str(v.entryName)


# library nicknames never contain a colon and are not empty; entry names are not empty
NICK = Opt(Str(exclude=NOT_A_NAME))
ENTRY = Str(exclude=NOT_A_NAME)


@model('Footprint', 'footprint', dict(libraryNickname=NICK, entryName=ENTRY, version=OI, generator=Opt(Word(['pcbnew', 'kiutils', 'gen_v2'])), locked=Flag(), placed=Flag(), layer=LAYER,
       tedit=Opt(Word(['5E1F2A3B', '61b8c2d7', '12e45678'])), tstamp=Opt(Uuid()), position=Opt(Pos(angle=True)), description=Opt(Str()), tags=Opt(Str()), properties=DictOf(Str(), Str()), path=Opt(Str()),
       autoplaceCost90=OI, autoplaceCost180=OI, solderMaskMargin=ON, solderPasteMargin=ON, solderPasteRatio=ON, clearance=ON, zoneConnect=OI, thermalWidth=ON, thermalGap=ON,
       attributes=AttrDom(), privateLayers=ListOf(LAYER), netTiePadGroups=ListOf(Str()), graphicItems=Poly(*FPS), pads=ListOf(Sub('Pad')), zones=ListOf(Sub('Zone')),
       groups=ListOf(Sub('Group')), models=ListOf(Sub('Model'))))
def _(v):
    return T('footprint', Q(lib_id(v)), flag(v.locked, 'locked'), flag(v.placed, 'placed'), opt('version', v.version), opt('generator', v.generator), q('layer', v.layer),
             opt('tedit', v.tedit), opt('tstamp', v.tstamp), xy('at', v.position, True), oq('descr', v.description), oq('tags', v.tags),
             tuple(A('property', Q(k), Q(x)) for k, x in v.properties.items()), oq('path', v.path), opt('autoplace_cost90', v.autoplaceCost90), opt('autoplace_cost180', v.autoplaceCost180),
             opt('solder_mask_margin', v.solderMaskMargin), opt('solder_paste_margin', v.solderPasteMargin), opt('solder_paste_ratio', v.solderPasteRatio), opt('clearance', v.clearance),
             opt('zone_connect', v.zoneConnect), opt('thermal_width', v.thermalWidth), opt('thermal_gap', v.thermalGap), attr(v.attributes),
             A('private_layers', *[Q(x) for x in v.privateLayers]) if v.privateLayers else None,
             A('net_tie_pad_groups', *[Q(x) for x in v.netTiePadGroups]) if v.netTiePadGroups else None,
             tuple(tree(x) for x in v.graphicItems), tuple(tree(x) for x in v.pads), tuple(tree(x) for x in v.zones), tuple(tree(x) for x in v.models),
             tuple(tree(x) for x in v.groups), nfixed=2, groups=(FP_HEADS,))


# ------------------------------------------------------------------ board
@model('Board', 'board', dict(version=Int(), generator=Word(['pcbnew', 'kiutils', 'gen_v2']), general=Sub('GeneralSettings'), paper=Sub('PageSettings'), titleBlock=Opt(Sub('TitleBlock')),
       layers=ListOf(Sub('LayerToken')), setup=Sub('SetupData'), properties=DictOf(Str(), Str()), nets=ListOf(Sub('Net')), footprints=ListOf(Sub('Footprint'), maxlen=4),
       graphicItems=Poly(*GRS, 'Image'), traceItems=Poly('Segment', 'Via', 'Arc'), zones=ListOf(Sub('Zone'), maxlen=4), dimensions=ListOf(Sub('Dimension'), maxlen=4), targets=ListOf(Sub('Target'), maxlen=4),
       groups=ListOf(Sub('Group'), maxlen=4)))
def _(v):
    return T('kicad_pcb', A('version', v.version), A('generator', v.generator), tree(v.general), tree(v.paper), sub(v.titleBlock),
             Node(['layers'] + [tree(l) for l in v.layers], nfixed=1, rigid=True), tree(v.setup), tuple(A('property', Q(k), Q(x)) for k, x in v.properties.items()),
             tuple(tree(x) for x in v.nets), tuple(tree(x) for x in v.footprints), tuple(tree(x) for x in v.graphicItems), tuple(tree(x) for x in v.dimensions),
             tuple(tree(x) for x in v.targets), tuple(tree(x) for x in v.traceItems), tuple(tree(x) for x in v.zones), tuple(tree(x) for x in v.groups),
             groups=(GR_HEADS + ['image'], ['segment', 'via', 'arc']))


# -------------------------------------------------------------- libraries
@model('Library', 'libraries', dict(name=Str(), type=Str(), uri=Str(), options=Str(), description=Str(), active=Flag()))
def _(v):
    return T('lib', q('name', v.name), q('type', v.type), q('uri', v.uri), q('options', v.options), q('descr', v.description), None if v.active else A('disabled'))


@model('LibTable', 'libraries', dict(type=Word(['sym_lib_table', 'fp_lib_table']), libs=ListOf(Sub('Library'))))
def _(v):
    return T(v.type, tuple(tree(l) for l in v.libs))


# -------------------------------------------------------------------- dru
@model('Constraint', 'dru', dict(type=Word(['clearance', 'disallow', 'hole_size', 'track_width', 'annular_width', 'diff_pair_gap']), min=Opt(Str()), opt=Opt(Str()), max=Opt(Str()),
                                 elements=ListOf(Word(['track', 'via', 'micro_via', 'buried_via', 'pad', 'zone', 'min', 'text']))))
def _(v):
    return T('constraint', v.type, oq('min', v.min), oq('opt', v.opt), oq('max', v.max), tuple(v.elements), nfixed=2, open=False, groups=(('*words*',),))


@model('Rule', 'dru', dict(name=Str(), constraints=ListOf(Sub('Constraint')), condition=Str(), layer=Opt(Str()), severity=Opt(Word(['error', 'warning', 'ignore', 'exclusion']))))
def _(v):
    return T('rule', Q(v.name), oq('layer', v.layer), tuple(tree(c) for c in v.constraints), q('condition', v.condition), opt('severity', v.severity))


@model('DesignRules', 'dru', dict(version=Int(), rules=ListOf(Sub('Rule'))))
def _(v):
    # a design rule file is a forest; the reader sees it as one list
    return Node([A('version', v.version)] + [tree(r) for r in v.rules], nfixed=1, open=True)

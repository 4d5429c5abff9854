"""Families of histories.  Each generator takes (rng, tier) and yields cases; tier scales the amount."""

import itertools

from vals import *
from rich import Rich, UNITS, FLOATS, INTS
import enums_table
import schema

FAMILIES = {}


def family(fn):
    FAMILIES[fn.__name__] = fn
    return fn


def scale(tier, q, t):
    return q if tier == 'quick' else t


OFFS = [0, 0, 3600, -5 * 3600, 19800]


# ----------------------------------------------------------------------------------------------- physical layout

@family
def layout_small(rng, tier):
    """Every small maximum record length with records of every small body length (no-format payloads, frame rows)."""
    for mrl in range(20, scale(tier, 72, 200), 2):
        c = Case(f'mrl{mrl}', 'layout_small', raise_=['C15', 'C16'])
        c.file(mrl=mrl, id='S' * rng.randint(1, 60), seq=rng.choice([0, 1, 2, 9, 10, 99, 100, 999, 1000, 9999]))
        lf = c.lf(id='H' * rng.randint(1, 65))
        c.origin(lf, 'O' * rng.randint(1, 12))
        nf = c.add(lf, 'NO-FORMAT', 'N' * rng.randint(1, 3))
        a = c.arr(array1('uint8', [1, 2]))
        ch = c.channel(lf, 'C', arr=a)
        c.frame(lf, 'F', [ch])
        sizes = list(range(0, 2 * mrl + 6)) if mrl <= 40 else \
            sorted({k * (mrl - 8) + d for k in (0, 1, 2) for d in range(-20, 14)} | set(range(0, 20)))
        for n in [x for x in sizes if x >= 0]:
            c.nf(lf, nf, txt(bytes((i * 7 + n) % 256 for i in range(n)), pt='str'))
        c.write(och=rng.choice([mrl, mrl + 1, 3 * mrl, 65536]))
        yield c.end()


@family
def layout_rows(rng, tier):
    """Frame rows of every small width."""
    for mrl in scale(tier, [20, 22, 24, 26, 30, 34, 38, 46, 64, 100], list(range(20, 100, 2))):
        c = Case(f'rows{mrl}', 'layout_rows', raise_=['C15', 'C03'])
        c.file(mrl=mrl)
        lf = c.lf()
        c.origin(lf)
        for w in range(1, 25):
            a = c.arr(Rich(rng, c).data('uint8', 2, w))
            ch = c.channel(lf, f'C{w}', arr=a)
            c.frame(lf, f'F{w}', [ch])
        c.write(och=rng.choice([mrl, 10 * mrl]))
        yield c.end()


@family
def layout_big(rng, tier):
    """Large maximum record lengths; bodies around multiples of the capacity; many rows (long frame numbers)."""
    for k, mrl in enumerate(scale(tier, [16384, 8192, 4096, 512], [16384, 16382, 8192, 8190, 4096, 1024, 512, 300, 256, 128])):
        for d0 in scale(tier, [-14], [-14, -6, 2]):
            c = Case(f'big{mrl}{d0}', 'layout_big', raise_=['C15', 'C16'])
            c.file(mrl=mrl, id='BIG')
            c.basic(1, n=1)
            nf = c.add(c.lf() if False else 1, 'NO-FORMAT', 'NF') if False else None
            c.d['ev'] = c.d['ev'][:1]
            c.nob = 0
            c.nlf = 0
            lf = c.lf()
            c.basic(lf, n=1)
            nf = c.add(lf, 'NO-FORMAT', 'NF')
            cap = mrl - 8
            mult = [1] if mrl > 9000 else [1, 2]
            for m in mult:
                for d in range(d0, d0 + 8, scale(tier, 3, 1)):
                    n = max(0, m * cap + d - 4)
                    c.nf(lf, nf, txt(bytes((i * 5 + n) % 256 for i in range(n)), pt='str'))
            c.add(lf, 'COMMENT', 'CMT', attr('TEXT', lst(*[txt('t' * (cap - 40 + j)) for j in range(0, 12, 4)])))
            c.write()
            yield c.end()
    for n in scale(tier, [130, 300], [127, 128, 129, 1000, 16384, 16390]):
        c = Case(f'many{n}', 'layout_big', raise_=['C15', 'C03'])
        c.basic(n=n, mrl=rng.choice([100, 8192]))
        c.write(ich=rng.choice([0, 1, 7, n]))
        yield c.end()


@family
def layout_random(rng, tier):
    """Random complete files with random maximum record lengths."""
    for k in range(scale(tier, 60, 400)):
        off = rng.choice(OFFS)
        c = Case(f'lr{k}', 'layout_random', off=off, raise_=['C15', 'C05'])
        R = Rich(rng, c, off=off)
        c.file(mrl=rng.choice([20, 22, 24, 26, 28, 30, 32, 36, 48, 64, 96, 128, 256, 1000, 8192, 16384]),
               id=''.join(rng.choice('ABCxyz 019-_/.') for _ in range(rng.randint(1, 60))), seq=rng.choice([0, 1, 57, 9999]),
               via=rng.choice(['kw', 'sul']))
        for j in range(rng.choice([1, 1, 2])):
            lf = c.lf(id='H' * rng.randint(1, 65), name=rng.choice('01AZaz '), seq=rng.choice([1, 9, 10, 2 ** 31, 9999999999]),
                      via=rng.choice(['kw', 'fh']))
            R.logical_file(lf, nobj=rng.randint(0, 8), nframes=rng.randint(1, 2), nrows=[1, 2, 5], tag=f'S{j}' if j else '')
        c.write(och=rng.choice([16384, 20000, 65536]))
        yield c.end()


# ------------------------------------------------------------------------------------------------------- no-format

@family
def noformat(rng, tier):
    for k in range(scale(tier, 25, 150)):
        c = Case(f'nf{k}', 'noformat', raise_=['C16', 'C15'])
        R = Rich(rng, c)
        c.file(mrl=rng.choice([20, 32, 64, 128, 8192]))
        nlf = rng.choice([1, 1, 2])
        for j in range(nlf):
            lf = c.lf(id=f'LF{j}')
            tag = f'T{j}' if j else ''
            R.logical_file(lf, nobj=rng.randint(0, 2), types=['NO-FORMAT', 'ZONE'], tag=tag, nframes=1, nch=1)
            kw = {'set': tag} if tag else {}
            nfs = []
            for i in range(rng.randint(1, 4)):
                nm = rng.choice(['NF', 'NF', 'IMAGE', 'x'])
                nfs.append(c.add(lf, 'NO-FORMAT', nm, *R.attrs_for(lf, 'NO-FORMAT', 0.5),
                                 **({'set': rng.choice([tag, tag + 'B'])} if tag or rng.random() < 0.3 else {})))
                for _ in range(rng.randint(0, 3)):
                    c.nf(lf, rng.choice(nfs), R.payload())
            for _ in range(rng.randint(1, 12)):
                n = rng.choice([None, None, None, 0, 1, 2, 119, 120, 121, 200, 600])
                c.nf(lf, rng.choice(nfs), R.payload(n))
            for s in ('', ' ', '\0', '\n', 'END ', ' x ', 'x\0', '\0\0', 'é'.encode('latin1'), b'\xff' * 5, b'\x01'):
                if rng.random() < 0.5:
                    c.nf(lf, rng.choice(nfs), txt(s, pt='str'))
        if rng.random() < 0.3:
            c.rename(rng.choice(nfs), 'RENAMED')
        if rng.random() < 0.3:
            c.write()
        c.write()
        yield c.end()


# -------------------------------------------------------------------------------------------------------- metadata

@family
def meta_random(rng, tier):
    for k in range(scale(tier, 150, 1200)):
        off = rng.choice(OFFS)
        c = Case(f'mr{k}', 'meta_random', off=off, raise_=['C05'])
        R = Rich(rng, c, off=off)
        c.file(mrl=rng.choice([8192, 8192, 60]))
        for j in range(rng.choice([1, 1, 1, 2])):
            lf = c.lf(id=f'LF {j}', seq=j + 1)
            R.logical_file(lf, nobj=rng.randint(3, 9), nframes=rng.choice([1, 1, 2]), nch=rng.randint(1, 3), nrows=[1, 2, 3],
                           tag=f'S{j}' if j else rng.choice(['', '', 'NAMED SET']), density=rng.choice([0.2, 0.5, 0.9]),
                           later=rng.choice([0, 0.3, 0.8]))
        c.write()
        yield c.end()


def value_pool(kind, off):
    """Distinctive values of a kind, all acceptable."""
    T = [txt('plain text'), txt(' lead and trail '), txt('a' * 127), txt('b' * 128), txt('\x00\x01\x7f~'), txt('"\'\\|<>'), txt('')]
    F = [flt(x) for x in FLOATS] + [num(i) for i in INTS] + [npflt(0.1, 'float64'), npflt(0.5, 'float32'), npnum(100, 'int8'),
                                                           npnum(2 ** 31 - 1, 'int32'), npnum(2 ** 40, 'int64')]
    D = [dt(2000, 2, 29, 23, 59, 59, 999000, 0, 'utc'), dt(1901, 1, 1, 0, 0, 0, 0, 3600, 'fixed'),
         dt(2024, 12, 31, 23, 30, 0, 1000, -3600 * 3, 'fixed'), dt(1999, 12, 31, 23, 59, 59, 999999, off, 'naive'),
         dt(2010, 6, 15, 12, 0, 0, 500, off, 'naive'), dt(2054, 3, 1, 0, 0, 0, 499, 19800, 'fixed'),
         txt('2021/03/04 05:06:07', off=off), txt('1980.11.12 13:14:15', off=off), dt(2000, 1, 1, 0, 30, 0, 0, 3600, 'fixed')]
    if kind == 'text':
        return T + [txt('L' * 300), txt('tail\n'), txt('12'), txt('1.50')]
    if kind in ('ident', 'identv'):
        return T[:-1] + [txt('I' * 255), txt('12'), txt('')]
    if kind in ('num', 'fdoubl'):
        return F
    if kind == 'unorm':
        return [num(x) for x in (0, 1, 127, 128, 255, 256, 32768, 65535)]
    if kind == 'uvari':
        return [num(x) for x in (0, 1, 127, 128, 129, 16383, 16384, 16385, 2 ** 30 - 1)]
    if kind == 'int':
        return [num(x) for x in (0, 1, -1, 127, -128, 32768, 2 ** 31 - 1, -2 ** 31)]
    if kind in ('enc', 'status'):
        return [num(0), num(1), boolean(True), boolean(False)]
    if kind == 'dim':
        return [num(x) for x in (1, 2, 127, 128, 16383, 16384, 2 ** 30 - 1)]
    if kind == 'dtime':
        return D
    if kind == 'dtimef':
        return D + [flt(1.5), num(7), flt(-1e-3), flt(1e9)]
    if kind == 'any':
        return [txt('abc'), txt('N/A'), txt('x1'), num(5), num(0), num(-1), num(2 ** 31 - 1), flt(0.5), flt(-0.0), flt(1e300),
                flt(3.0)]
    return []


@family
def meta_each(rng, tier):
    """Every attribute of every type with every class of value, assigned in every way."""
    off = 19800
    for ty, (_, _, attrs) in schema.TYPES.items():
        for a in attrs:
            label, _, kw, kind, multi = a
            if kind == 'reprc' or (ty, label) in (('ORIGIN', 'FILE-ID'), ('ORIGIN', 'FILE-SET-NUMBER')):
                continue
            if ty == 'FRAME' and label in ('CHANNELS', 'INDEX-TYPE'):
                continue
            c = Case(f'each {ty} {label}', 'meta_each', off=off, raise_=['C05'])
            c.file()
            lf = c.lf()
            o = c.origin(lf)
            R = Rich(rng, c, off=off)
            base = {}

            def pre(t, n=2):
                if t not in base:
                    base[t] = []
                    for i in range(n):
                        if t == 'CHANNEL':
                            base[t].append(c.channel(lf, f'PRE{i}', arr=c.arr(array1('uint8', [i, i]))))
                        elif t == 'FRAME':
                            base[t].append(c.frame(lf, f'PREF{i}', [c.channel(lf, f'PC{i}', arr=c.arr(array1('uint8', [i])))]))
                        elif t == 'ORIGIN':
                            base[t].append(o)
                        else:
                            base[t].append(c.add(lf, t, f'PRE{i}'))
                return base[t]

            if kind.startswith('ref:'):
                pool = [ref(x) for x in pre(kind[4:])]
            elif kind == 'oref':
                pool = [ref(pre(t, 1)[0]) for t in schema.TYPES if t != 'FRAME'] + [ref(o)]
            elif kind.startswith('enum:'):
                _, e, soft = kind.split(':')
                pool = [f(v) for v in enums_table.ENUMS[e] for f in ((txt,) if tier == 'quick' and len(enums_table.ENUMS[e]) > 12
                                                                    else (txt, lambda x: enum(e, x)))]
                if len(pool) > 14 and tier == 'quick':
                    pool = rng.sample(pool, 8) + [enum(e, v) for v in rng.sample(enums_table.ENUMS[e], 6)]
                if soft == 'soft':
                    pool.append(txt('Not standard'))
            elif kind == 'lntext':
                pool = [ref(x) for x in pre('LONG-NAME')] + value_pool('text', off)
            else:
                pool = value_pool(kind, off)
            units_ok = kind in schema.UNITS_OK
            us = [txt('m'), enum('Unit', 'degC'), txt('1/s'), txt('u' * 255), enum('Unit', 's'), txt('kg')]

            def new(name, *ats, **kws):
                if ty == 'FRAME':
                    ch = c.channel(lf, f'CH{c.nob}', arr=c.arr(array1('uint8', [1, 2])))
                    return c.frame(lf, name, [ch], *ats, **kws)
                if ty == 'CHANNEL' and label in ('DIMENSION', 'ELEMENT-LIMIT'):
                    return c.channel(lf, name, *ats, **kws)
                if ty == 'ORIGIN':
                    return c.origin(lf, name, *[x for x in ats], created=label != 'CREATION-TIME', **kws)
                return c.add(lf, ty, name, *ats, **kws)

            def wrap(v):
                if ty in ('PARAMETER', 'COMPUTATION') and label in ('AXIS', 'DIMENSION'):
                    return None
                if multi and rng.random() < 0.7:
                    return lst(v, kind=rng.choice(['list', 'tuple']))
                return v
            for n, v in enumerate(pool):
                w = wrap(v)
                if w is None:
                    break
                u = rng.choice(us) if units_ok and rng.random() < 0.5 and v['t'] not in ('dt',) else NONE
                if u is not NONE and kind in ('dtime', 'dtimef'):
                    u = NONE if v['t'] == 'txt' else u
                way = rng.choice(['plain', 'setup', 'dict', 'later', 'over', 'set_attributes'])
                if not kw and way not in ('later', 'over'):
                    way = 'later'
                if ty == 'SPLICE' or (ty in ('PARAMETER', 'COMPUTATION') and label == 'ZONES'):
                    pass
                if way in ('plain', 'setup', 'dict'):
                    if u is not NONE and way == 'plain':
                        way = 'setup'
                    new(f'OB{n}', attr(label, w, u, way))
                elif way == 'over' and kw:
                    i = new(f'OB{n}', attr(label, rng.choice(pool) if not multi else lst(rng.choice(pool)), NONE, 'plain'))
                    c.set(i, label, w)
                    if u is not NONE:
                        c.set(i, label, rng.choice(us), 'units')
                        c.set(i, label, u, 'units')
                else:
                    i = new(f'OB{n}')
                    if u is not NONE and rng.random() < 0.5:
                        c.set(i, label, u, 'units')
                        u = NONE
                    c.set(i, label, w)
                    if way == 'set_attributes':
                        c.d['ev'][-1]['via'] = way
                    if u is not NONE:
                        c.set(i, label, u, 'units')
            if multi and not (ty in ('PARAMETER', 'COMPUTATION') and label in ('AXIS', 'DIMENSION', 'VALUES', 'ZONES')) \
                    and not (ty == 'SPLICE') and not (ty == 'CHANNEL' and label == 'AXIS') and pool \
                    and not (ty, label) == ('CALIBRATION-MEASUREMENT', 'AXIS'):
                sizes = [127, 128, 129, 200, 255, 256, 257, 300]
                for m in (2, 3, 7, rng.choice(sizes)) + scale(tier, (), tuple(sizes)):
                    if kind == 'any':
                        k = rng.choice([['txt'], ['int'], ['flt'], ['int', 'flt']])
                        p = [v for v in pool if v['t'] in k]
                        new(f'MANY{m}', attr(label, lst(*[rng.choice(p) for _ in range(m)])))
                    else:
                        new(f'MANY{m}', attr(label, lst(*[rng.choice(pool) for _ in range(m)])))
            if 'CHANNEL' not in base:
                pre('CHANNEL')
            c.frame(lf, 'MAIN', base['CHANNEL'])
            c.write()
            yield c.end()


@family
def meta_nested(rng, tier):
    """Values with dimensions: parameters, computations, calibration measurements; with zones and axes."""
    for k in range(scale(tier, 20, 120)):
        c = Case(f'nest{k}', 'meta_nested', raise_=['C05'])
        c.file()
        lf = c.lf()
        c.basic(lf)
        R = Rich(rng, c)
        zones = [c.add(lf, 'ZONE', f'Z{i}') for i in range(4)]
        for ty in ('PARAMETER', 'COMPUTATION'):
            for j in range(4):
                nz = rng.randint(1, 4)
                dims = rng.choice([[], [2], [3], [2, 2], [1, 3], [4, 1], [2, 1, 2]])
                sel = [rng.choice(zones) for _ in range(nz)]

                def build(sh, leaf):
                    if not sh:
                        return leaf()
                    return lst(*[build(sh[1:], leaf) for _ in range(sh[0])], kind=rng.choice(['list', 'tuple']))
                if ty == 'PARAMETER':
                    t = rng.choice(['txt', 'int', 'flt'])
                    leaf = {'txt': lambda: txt(rng.choice(['ab', 'c d', 'zz'])), 'int': lambda: num(rng.choice(INTS[:10])),
                            'flt': lambda: flt(rng.choice(FLOATS))}[t]
                else:
                    leaf = R.number
                at = [attr('VALUES', build([nz] + dims, leaf), txt('m') if rng.random() < 0.5 else NONE)]
                if rng.random() < 0.8 or (ty == 'PARAMETER' and nz > 1):
                    at.append(attr('ZONES', lst(*[ref(z) for z in sel])))
                if dims and rng.random() < 0.5:
                    at.append(attr('DIMENSION', lst(*[num(d) for d in dims])))
                if dims and rng.random() < 0.5:
                    axes = []
                    for d in dims:
                        ax = [attr('SPACING', R.number())]
                        if rng.random() < 0.6:
                            ax.append(attr('COORDINATES', lst(*R.anyvals(d))))
                        axes.append(c.add(lf, 'AXIS', f'AX{c.nob}', *ax))
                    at.append(attr('AXIS', lst(*[ref(x) for x in axes])))
                rng.shuffle(at)
                c.add(lf, ty, f'{ty[:3]}{j}', *at)
        for j in range(3):
            n = rng.randint(1, 3)
            at = [attr(l, lst(*[R.number() for _ in range(n)])) for l in ('MAXIMUM-DEVIATION', 'STANDARD-DEVIATION', 'STANDARD',
                                                                         'PLUS-TOLERANCE', 'MINUS-TOLERANCE')
                  if rng.random() < 0.5]
            at.append(attr('MEASUREMENT', lst(*[R.number() for _ in range(rng.randint(1, 4))]), txt('s')))
            c.add(lf, 'CALIBRATION-MEASUREMENT', f'CM{j}', *at)
        # channels with dimension and axes
        for j, d in enumerate((1, 2, 3)):
            ax = c.add(lf, 'AXIS', f'CAX{j}', attr('COORDINATES', lst(*R.anyvals(d))))
            a = c.arr(R.data('float32', 2, d))
            at = [attr('AXIS', ref(ax) if rng.random() < 0.5 else lst(ref(ax)))]
            if rng.random() < 0.5:
                at.append(attr('DIMENSION', lst(num(d)) if rng.random() < 0.5 else num(d)))
            if rng.random() < 0.5:
                at.append(attr('ELEMENT-LIMIT', lst(num(d + rng.randint(0, 3)))))
            c.frame(lf, f'FA{j}', [c.channel(lf, f'CA{j}', *at, arr=a)])
        c.write()
        yield c.end()


# ------------------------------------------------------------------------------------------ identities, structure

@family
def idents(rng, tier):
    """Equal names, several origins and sets, chosen origin references, renaming, references of all kinds."""
    for k in range(scale(tier, 80, 600)):
        c = Case(f'id{k}', 'idents', raise_=['C07', 'C18'])
        c.file()
        nlf = rng.choice([1, 1, 2, 3])
        R = Rich(rng, c)
        R.name = lambda short=False: rng.choice(['A', 'A', 'A', 'B', 'B', 'C'])
        for j in range(nlf):
            lf = c.lf(id=f'LF{j}', seq=j + 1)
            sets = [f'L{j}'] if j else rng.choice([[''], ['', 'X'], ['X', 'Y']])
            kws = lambda: ({'set': s} if (s := rng.choice(sets)) else {})
            used = set()
            refs = []
            norg = rng.choice([1, 1, 2, 3])
            early = rng.random() < 0.3    # objects added before the origin
            plan = [rng.choice([None, None, 0, 1, 2, 5, 127, 128, 16384, 2 ** 30 - 1]) for _ in range(norg)]
            if early and rng.random() < 0.6:
                plan = rng.sample([0, 0, 1, 2, 5, 300], norg + 1)
            if early:
                for _ in range(rng.randint(1, 3)):
                    ahead = [x for x in plan if x is not None]
                    R.obj(lf, rng.choice(['ZONE', 'AXIS', 'PARAMETER', 'NO-FORMAT', 'COMMENT']), 0.1,
                          **kws(), **({'org': rng.choice(ahead)} if len(ahead) == len(plan) and rng.random() < 0.7 else {}))
            for o in plan:
                kw = kws()
                if o is not None and o not in used:
                    kw['org'] = o
                    used.add(o)
                    refs.append(o)
                elif o is None and used:
                    kw['org'] = max(used) + 1 if max(used) < 2 ** 30 - 1 else 77
                    used.add(kw['org'])
                    refs.append(kw['org'])
                elif o is None:
                    used.add(0)
                    refs.append(0)
                else:
                    continue
                x = c.origin(lf, R.name(), fsn=rng.randint(0, 300), **kw)
                R.byty.setdefault((lf, 'ORIGIN'), []).append(x)
            okw = lambda: ({**kws(), 'org': rng.choice(refs)} if rng.random() < 0.4 and refs else kws())
            for _ in range(rng.randint(2, 6)):
                R.obj(lf, rng.choice(['ZONE', 'AXIS', 'LONG-NAME', 'EQUIPMENT', 'CALIBRATION-COEFFICIENT', 'COMMENT', 'NO-FORMAT',
                                      'CALIBRATION-MEASUREMENT']), 0.15, **okw())
            chs = []
            n = 2
            for _ in range(rng.randint(2, 4)):
                i, _ = R.channel(lf, n, density=0.4, **okw())
                chs.append(i)
            for _ in range(rng.randint(1, 2)):
                take = []
                for x in rng.sample(chs, min(len(chs), rng.randint(1, 3))):
                    if name_of(c, x) not in [name_of(c, y) for y in take]:
                        take.append(x)
                R.frame(lf, take, density=0.1, **okw())
            for _ in range(rng.randint(2, 7)):
                R.obj(lf, rng.choice(['PARAMETER', 'COMPUTATION', 'TOOL', 'PROCESS', 'SPLICE', 'PATH', 'GROUP', 'CALIBRATION',
                                      'CALIBRATION-MEASUREMENT', 'GROUP', 'MESSAGE', 'WELL-REFERENCE', 'NO-FORMAT']),
                      rng.choice([0.3, 0.8]), later=0.3, **okw())
            for nf in R.byty.get((lf, 'NO-FORMAT'), []):
                if rng.random() < 0.5:
                    c.nf(lf, nf, R.payload(rng.randint(0, 9)))
            if rng.random() < 0.3:
                pool = [x for (l, t), xs in R.byty.items() if l == lf and t not in ('CHANNEL',) for x in xs]
                c.rename(rng.choice(pool), f'RENAMED{rng.randint(0, 9)}')
            if rng.random() < 0.2 and len(refs) > 1:
                pool = [x for (l, t), xs in R.byty.items() if l == lf and t in ('ZONE', 'AXIS', 'PARAMETER') for x in xs]
                if pool:
                    c.org(rng.choice(pool), rng.choice(refs))
        if rng.random() < 0.2:
            c.ev('read')
        c.write(strict=True)
        yield c.end()


def name_of(c, i):
    for e in c.d['ev']:
        if e['op'] == 'add' and e['ob'] == i:
            return bytes(e['name']['c'])
    return None


@family
def order(rng, tier):
    """Sets of several names and orders of creation; headers; several logical files."""
    for k in range(scale(tier, 40, 250)):
        c = Case(f'or{k}', 'order', raise_=['C09', 'C18'])
        R = Rich(rng, c)
        c.file()
        for j in range(rng.choice([1, 2, 3])):
            lf = c.lf(id=''.join(rng.choice('ABC def-1') for _ in range(rng.choice([1, 10, 64, 65]))),
                      name=rng.choice('0A~ '), seq=rng.choice([1, 2, 10, 999, 2 ** 31, 2 ** 33, 9999999999]),
                      via=rng.choice(['kw', 'fh']))
            names = ['', 'X', 'Y', 'Z Z'] if j == 0 else [f'{j}A', f'{j}B']
            kws = lambda: ({'set': s} if (s := rng.choice(names)) else {})
            when = rng.randint(0, 4)
            made = False
            stage = []
            R2 = R
            plan = ['ch', 'ch', 'fr', 'ob', 'ob', 'ob', 'ob', 'og', 'og']
            rng.shuffle(plan)
            plan = sorted(plan, key=lambda x: (x == 'fr') * 1)
            if rng.random() < 0.5:
                plan = ['og'] + plan
            chs = []
            nog = 0
            for p in plan:
                if p == 'og':
                    kw = kws()
                    c.origin(lf, f'OG{nog}', fsn=nog + 5, **kw)
                    nog += 1
                elif p == 'ch':
                    i, _ = R.channel(lf, 2, f'CH{len(chs)}', **kws())
                    chs.append(i)
                elif p == 'fr':
                    R.frame(lf, chs, name='FR', **kws())
                else:
                    R.obj(lf, rng.choice(['ZONE', 'AXIS', 'PARAMETER', 'NO-FORMAT', 'COMMENT', 'LONG-NAME', 'TOOL', 'MESSAGE']),
                          0.2, **kws())
            for nf in R.byty.get((lf, 'NO-FORMAT'), []):
                c.nf(lf, nf, R.payload(5))
        c.write()
        yield c.end()


# ------------------------------------------------------------------------------------------------------------ data

NPDTS = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64']


def source(rng, c, R, pairs, kind=None, extra=True):
    """Arguments of write() giving the channels' arrays through a source; pairs: (dataset name, array id)."""
    kind = kind or rng.choice(['dict', 'struct', 'hdf5'])
    m = list(pairs)
    if extra:
        n = c.d['arrays'][m[0][1] - 1]['n']
        for i in range(rng.randint(0, 2)):
            m.append((f'UNUSED{i}', c.arr(R.data('int16', n))))
    rng.shuffle(m)
    kw = {'src': kind, 'map': m}
    if kind == 'struct':
        kw['align'] = rng.random() < 0.3
        kw['lay'] = rng.choice(['C', 'C', 'strided', 'ro', 'rec'])
    if kind == 'hdf5':
        kw['h5chunks'] = rng.random() < 0.3
    return kw


@family
def data(rng, tier):
    """Frames of random channels: dtypes, shapes, byte order, memory layout, casts, sources, windows."""
    for k in range(scale(tier, 120, 900)):
        c = Case(f'data{k}', 'data', raise_=['C03'])
        R = Rich(rng, c)
        c.file(mrl=rng.choice([8192, 8192, 64, 20]))
        lf = c.lf()
        c.origin(lf)
        nfr = rng.choice([1, 1, 2, 3])
        kind = rng.choice(['none', 'none', 'dict', 'struct', 'hdf5'])
        n0 = rng.choice([1, 2, 3, 5, 9])
        pairs = []
        for f in range(nfr):
            n = n0 if kind == 'struct' else rng.choice([n0, 1, 4])
            fset = {'set': rng.choice(['S1', 'S2'])} if rng.random() < 0.3 else {}
            chs = []
            for j in range(rng.choice([1, 2, 3, 5])):
                dtn = rng.choice(NPDTS)
                kdim = rng.choice([None, None, 1, 2, 3, 4])
                bo = rng.choice('=<>')
                cast = ''
                special = True
                if rng.random() < 0.3:
                    cast = rng.choice(NPDTS)
                if cast or rng.random() < 0.3:
                    vals = safe_values(rng, dtn, cast or dtn, n * (kdim or 1))
                    rows = [sum((packed(dtn, vals[i * (kdim or 1) + q]) for q in range(kdim or 1)), []) for i in range(n)]
                    ar = array(dtn, [kdim] if kdim else [], rows)
                else:
                    ar = R.data(dtn, n, kdim)
                ar['lay'], ar['bo'] = rng.choice(R.LAYS), bo
                a = c.arr(ar)
                nm = f'F{f}C{j}'
                ds = NONE
                if rng.random() < 0.4:
                    ds = f'ds {f} {j}' if kind != 'hdf5' else f'grp{f}/ds{j}'
                inl = kind == 'none'
                late = rng.random() < 0.3
                said = ds
                if not inl and rng.random() < 0.2:       # told later where its data are
                    said = rng.choice([NONE, f'FIRST {f} {j}'])
                    ds = f'then {f} {j}' if kind != 'hdf5' else f'then{f}/{j}'
                i = c.channel(lf, nm, arr=a if inl else 0, ds=said, cast='' if late else cast,
                              castvia=rng.choice(['np', 'np', 'dtype']), **(fset if rng.random() < 0.5 else {}))
                if said is not ds:
                    c.ds(i, ds)
                if late and cast:
                    c.cast(i, cast)
                pairs.append((nm if ds is NONE else ds, a))
                chs.append(i)
            if rng.random() < 0.5:
                rng.shuffle(chs)
            c.frame(lf, f'FRAME{f}', chs, **fset)
        kw = {} if kind == 'none' else source(rng, c, R, pairs, kind)
        nmin = min(c.d['arrays'][a - 1]['n'] for _, a in pairs)
        if rng.random() < 0.3 and nmin > 1:
            kw['fr'] = rng.randint(0, nmin - 1)
            if rng.random() < 0.6:
                kw['to'] = rng.randint(kw['fr'] + 1, nmin)
        c.write(ich=rng.choice([0, 0, 1, 2, 3, 100]), **kw)
        yield c.end()


def safe_values(rng, src, dst, n):
    """Values of dtype src which dst can hold after truncation."""
    out = []
    lo, hi = -2 ** 62, 2 ** 62
    for d in (src, dst):
        if d.startswith('u'):
            lo, hi = max(lo, 0), min(hi, 2 ** (8 * DTSIZE[d]) - 1)
        elif d.startswith('i'):
            b = 8 * DTSIZE[d]
            lo, hi = max(lo, -2 ** (b - 1)), min(hi, 2 ** (b - 1) - 1)
    for _ in range(n):
        if src.startswith('f'):
            if dst.startswith('f'):
                out.append(rng.choice([0.1, -2.5, 1 / 3, 1e30, -1e-30, 16777217.0, 1.0, 3.0000001]))
            else:
                m = min(hi, 2 ** 24)
                x = rng.choice([0.0, 1.0, 2.5, 0.99, 100.0, float(rng.randint(max(lo, -100), min(m, 120)))])
                out.append(x if lo < 0 or x >= 0 else -x)
        else:
            out.append(rng.choice([lo, hi, 0, 1, rng.randint(lo, hi)]))
    return [x if src.startswith('f') else int(x) for x in out]


@family
def data_each(rng, tier):
    """Every dtype x byte order x memory layout x shape x source, special values."""
    for dtn in NPDTS:
        for kind in ('none', 'dict', 'struct', 'hdf5'):
            c = Case(f'de {dtn} {kind}', 'data_each', raise_=['C03', 'C11'])
            R = Rich(rng, c)
            c.file()
            lf = c.lf()
            c.origin(lf)
            chs, pairs = [], []
            n = 12
            for lay in ['C', 'F', 'strided', 'rev', 'ro', 'unaligned', 'cols', 'sub'] if kind in ('none', 'dict') else ['C']:
                for bo in '<>':
                    for kdim in (None, 1, 3):
                        a = c.arr(R.data(dtn, n, kdim, lay=lay, bo=bo))
                        nm = f'{lay}{bo}{kdim}'
                        chs.append(c.channel(lf, nm, arr=a if kind == 'none' else 0))
                        pairs.append((nm, a))
            c.frame(lf, 'FR', chs)
            kw = {} if kind == 'none' else source(rng, c, R, pairs, kind)
            c.write(**kw)
            yield c.end()
    # every pair of cast
    for dst in NPDTS:
        c = Case(f'cast {dst}', 'data_each', raise_=['C03'])
        c.file()
        lf = c.lf()
        c.origin(lf)
        chs = []
        for s in NPDTS + ['int64', 'uint64', 'bool']:
            if s == 'bool':
                ar = array('bool', [], [[1], [0], [1], [1], [0], [0]])
            elif s in ('int64', 'uint64'):
                ar = array1(s, safe_values(rng, s, dst, 6), bo=rng.choice('=<>'))
            else:
                ar = array1(s, safe_values(rng, s, dst, 6), lay=rng.choice(['C', 'strided', 'ro']), bo=rng.choice('=<>'))
            chs.append(c.channel(lf, s, arr=c.arr(ar), cast=dst))
        c.frame(lf, 'FR', chs)
        c.write(ich=rng.choice([0, 2]))
        yield c.end()


@family
def data_failed(rng, tier):
    """Failing writes: the caller's data stays as it is, and so does the specification."""
    for k in range(scale(tier, 25, 150)):
        c = Case(f'df{k}', 'data_failed', raise_=['C20'], det=['C20', 'C14'])
        R = Rich(rng, c)
        c.file()
        lf = c.lf()
        c.origin(lf)
        chs, pairs = [], []
        n = 4
        for j in range(3):
            a = c.arr(R.data(rng.choice(NPDTS), n, rng.choice([None, 2]), lay=rng.choice(R.LAYS), bo=rng.choice('=<>')))
            chs.append(c.channel(lf, f'C{j}', arr=0))
            pairs.append((f'C{j}', a))
        f = c.frame(lf, 'FR', chs)
        fail = rng.choice(['missing', 'rows', 'dtype', 'dims', 'window', 'chunk', 'target', 'och', 'kind'])
        kw = dict(src='dict', map=list(pairs))
        if fail == 'missing':
            kw['map'] = pairs[:-1]
        elif fail == 'rows':
            kw['map'] = pairs[:-1] + [('C2', c.arr(R.data('uint8', n + 1)))]
        elif fail == 'dtype':
            kw['map'] = pairs[:-1] + [('C2', c.arr(array('str', [], [[]] * n)))]
        elif fail == 'dims':
            kw['map'] = pairs[:-1] + [('C2', c.arr(array('uint8', [2, 2], [[1, 2, 3, 4]] * n)))]
        elif fail == 'window':
            kw.update(fr=rng.choice([-1, 2]), to=rng.choice([n + 3, n + 1]))
        elif fail == 'chunk':
            kw.update(ich=-1)
        elif fail == 'target':
            kw.update(target='nodir', strict=False)
        elif fail == 'och':
            kw.update(och=10)
        elif fail == 'kind':
            kw = dict(src='bad')
        if fail == 'kind':
            c.write(**kw)
            c.d['ev'][-1]['src']['what'] = rng.choice(['list', 'int', 'object'])
        else:
            c.write(**kw)
        good = dict(src='dict', map=list(pairs))
        c.write(**good)
        c.proc()
        c.file()
        lf = c.lf()
        c.origin(lf)
        chs = [c.channel(lf, f'C{j}', arr=0) for j in range(3)]
        c.frame(lf, 'FR', chs)
        c.write(**good)
        yield c.end()


# --------------------------------------------------------------------------------------------------------- sources

@family
def sources(rng, tier):
    """The same specification and data through all sources, in one process and in fresh ones; windows."""
    for k in range(scale(tier, 45, 300)):
        c = Case(f'src{k}', 'sources', raise_=['C11'], det=['C11'])
        R = Rich(rng, c)
        nfr = rng.choice([1, 1, 2])
        n = rng.choice([1, 2, 3, 6, 11])
        spec = []
        for f in range(nfr):
            for j in range(rng.choice([1, 2, 3])):
                dtn = rng.choice(NPDTS)
                kdim = rng.choice([None, None, 1, 3])
                cast = rng.choice(['', '', rng.choice(NPDTS)])
                if cast:
                    vals = safe_values(rng, dtn, cast, n * (kdim or 1))
                    rows = [sum((packed(dtn, vals[i * (kdim or 1) + q]) for q in range(kdim or 1)), []) for i in range(n)]
                    ar = array(dtn, [kdim] if kdim else [], rows)
                else:
                    ar = R.data(dtn, n, kdim)
                spec.append((f, rng.choice(['CH', 'CH', 'X']) + str(j), rng.random() < 0.4, ar, cast, rng.randint(0, 99)))
        index = rng.random() < 0.4
        fr = rng.choice([0, 0, rng.randint(0, n - 1)])
        to = rng.choice([-1, -1, rng.randint(fr + 1, n)])
        mrl = rng.choice([8192, 100])
        order_ = None

        def build(kind, window, pre=False, och=65536, ich=0):
            c.file(mrl=mrl)
            lf = c.lf()
            c.origin(lf)
            chs, pairs = {}, []
            for (f, nm, named, ar, cast, salt) in spec:
                b = dict(ar)
                if pre:
                    b['rows'] = ar['rows'][fr:(to if to >= 0 else n)]
                    b['n'] = len(b['rows'])
                b['lay'] = rng.choice(R.LAYS) if kind in ('none', 'dict') else 'C'
                b['bo'] = rng.choice('=<>')
                a = c.arr(b)
                dsn = f'data {f} {nm} {salt}' if kind != 'hdf5' else rng.choice([f'd{f}{nm}{salt}', f'g/{f}/{nm}{salt}'])
                usename = named and kind != 'none'
                # two channels of one name need data set names of their own
                others = [x for x in spec if x[1] == nm]
                if len(others) > 1 and kind != 'none':
                    usename = True
                i = c.channel(lf, nm, arr=a if kind == 'none' else 0, ds=dsn if usename else NONE, cast=cast)
                chs.setdefault(f, []).append(i)
                pairs.append((dsn if usename else nm, a))
            for f, xs in chs.items():
                at = []
                if index and not spec[[s[0] for s in spec].index(f)][3]['dims']:
                    at = [attr('INDEX-TYPE', txt('BOREHOLE-DEPTH'))]
                c.frame(lf, f'FR{f}', xs, *at)
            kw = {} if kind == 'none' else source(rng, c, R, pairs, kind)
            if not pre and window:
                kw.update(fr=fr, to=to)
                if rng.random() < 0.3:
                    kw['passfrom'] = True
            return kw
        kinds = ['none', 'dict', 'struct', 'hdf5']
        rng.shuffle(kinds)
        first = True
        for kind in kinds:
            if not first and rng.random() < 0.3:
                c.proc()
            first = False
            kw = build(kind, True)
            c.write(ich=rng.choice([0, 1, 2, 3, n, 50]), och=rng.choice([mrl, 3 * mrl + 7, 65536]), **kw)
        kw = build('none' if rng.random() < 0.5 else 'dict', False, pre=True)
        c.write(ich=rng.choice([0, 1, 4]), **kw)
        yield c.end()


@family
def mapping(rng, tier):
    """Every assignment of data-set names to channels (also each other's names), against every order of the fields."""
    layouts = [['A', 'B'], ['A', 'B', 'C']]
    for names in layouts:
        k = len(names)
        perms = list(itertools.permutations(names))
        for pi, perm in enumerate(perms):
            frames = [list(range(k)), list(range(k))[::-1]] + ([[1, 2, 0]] if k == 3 else [])
            forders = list(itertools.permutations(range(k)))
            if k == 3 and tier == 'quick':
                frames = rng.sample(frames, 1)
                forders = rng.sample(forders, 3)
            for fo in frames:
                c = Case(f"map {''.join(perm)} {''.join(map(str, fo))}", 'mapping', raise_=['C11', 'C03'], det=['C11'])
                R = Rich(rng, c)
                n = 4
                dts = rng.choice([['float64'] * 3, ['int16'] * 3, ['uint8'] * 3, ['float32', 'float32', 'int32']])
                ks = rng.choice([[None] * 3, [2] * 3, [None, None, 2]])
                casts = rng.choice([[''] * 3, [''] * 3, ['', 'float64', '']])
                data = [R.data(dts[j], n, ks[j]) for j in range(k)]
                for j in range(k):
                    if casts[j] and dts[j] != casts[j]:
                        vals = safe_values(rng, dts[j], casts[j], n * (ks[j] or 1))
                        data[j] = array(dts[j], [ks[j]] if ks[j] else [],
                                        [sum((packed(dts[j], vals[i * (ks[j] or 1) + q]) for q in range(ks[j] or 1)), [])
                                         for i in range(n)])
                split = rng.random() < 0.25

                def build(kind, order):
                    c.file(mrl=256)
                    lf = c.lf()
                    c.origin(lf)
                    bo = rng.choice('=<>')
                    ids = [c.arr(dict(d, bo=bo, lay='C')) for d in data]
                    chs = {}
                    for j in order:
                        chs[j] = c.channel(lf, names[j], arr=ids[j] if kind == 'none' else 0, cast=casts[j],
                                           ds=perm[j] if (perm[j] != names[j] or rng.random() < 0.3) else NONE)
                    if split:
                        c.frame(lf, 'F1', [chs[j] for j in fo[:1]])
                        c.frame(lf, 'F2', [chs[j] for j in fo[1:]])
                    else:
                        c.frame(lf, 'F', [chs[j] for j in fo])
                    return [(perm[j], ids[j]) for j in range(k)]

                build('none', range(k))
                c.write(ich=rng.choice([0, 1, 3]))
                for f in forders:
                    for kind in ('dict', 'struct', 'hdf5') if tier != 'quick' else ('struct', rng.choice(['dict', 'hdf5'])):
                        pairs = build(kind, rng.sample(range(k), k) if False else range(k))
                        pairs = [pairs[j] for j in f]
                        if rng.random() < 0.3:
                            x = c.arr(R.data(dts[0], n, ks[0]))
                            pairs.insert(rng.randint(0, len(pairs)), ('EXTRA', x))
                        c.write(kind, pairs, ich=rng.choice([0, 1, 2, 5]), och=rng.choice([256, 65536]))
                yield c.end()


@family
def windows(rng, tier):
    """All windows and chunk sizes of a small frame, for each source."""
    n = scale(tier, 5, 7)
    for kind in ('none', 'dict', 'struct', 'hdf5'):
        c = Case(f'win {kind}', 'windows', raise_=['C11'], det=['C11', 'C10'])
        R = Rich(rng, c)
        c.file()
        lf = c.lf()
        c.origin(lf)
        pairs, chs = [], []
        for j, (dtn, kd) in enumerate((('uint8', None), ('int16', 2), ('float64', None))):
            a = c.arr(R.data(dtn, n, kd))
            chs.append(c.channel(lf, f'C{j}', arr=a if kind == 'none' else 0, cast='float32' if j == 2 else ''))
            pairs.append((f'C{j}', a))
        c.d['arrays'][pairs[2][1] - 1]['rows'] = [packed('float64', float(i) / 3) for i in range(n)]
        c.frame(lf, 'FR', chs)
        for fr in range(n):
            for to in list(range(fr + 1, n + 1)) + [-1]:
                for ich in ([0] + sorted(rng.sample(range(1, n + 2), 2)) if tier == 'quick' else range(0, n + 2)):
                    kw = {} if kind == 'none' else source(rng, c, R, pairs, kind, extra=False)
                    c.write(fr=fr, to=to, ich=ich, taps=False, **kw)
        yield c.end()


@family
def many(rng, tier):
    """Frame numbers of every encoded length."""
    for n in scale(tier, [16390], [127, 128, 129, 16383, 16384, 16385, 33000]):
        c = Case(f'rows{n}', 'many', raise_=['C03', 'C10', 'C15', 'C18'], det=['C10'])
        c.file(mrl=rng.choice([64, 8192]))
        lf = c.lf()
        c.origin(lf)
        a = c.arr(array1('uint16', [(i * 7919) % 65536 for i in range(n)]))
        b = c.arr(array1('uint8', [i % 251 for i in range(260)]))
        x = c.channel(lf, 'A', arr=a)
        c.frame(lf, 'LONG', [x])
        y = c.channel(lf, 'B', arr=b)
        c.frame(lf, 'SHORT', [y])
        c.write(taps=False, och=2 ** 20)
        c.write(taps=False, ich=rng.choice([129, 4096, 5000, n - 1]), och=2 ** 16)
        yield c.end()


# ---------------------------------------------------------------------------------------------------------- chunks

@family
def chunks(rng, tier):
    """Every input chunk size and output chunk sizes around the sizes of the records; earlier content of the target."""
    for k in range(scale(tier, 24, 120)):
        c = Case(f'chunk{k}', 'chunks', raise_=['C10'], det=['C10'])
        R = Rich(rng, c)
        mrl = rng.choice([20, 24, 32, 50, 64, 100, 256, 1000, 8192])
        c.file(mrl=mrl)
        for j in range(rng.choice([1, 1, 2])):
            lf = c.lf(id=f'L{j}')
            R.logical_file(lf, nobj=rng.randint(0, 2), nframes=rng.choice([1, 2]), nrows=[1, 3, 7], tag=f'S{j}' if j else '',
                           later=0, density=0.3)
        ochs = {mrl, mrl + 1, mrl + 2, mrl + 79, mrl + 80, mrl + 81, 2 * mrl - 1, 2 * mrl, 2 * mrl + 1, 3 * mrl, 10 * mrl, 65536,
                rng.randint(mrl, 20 * mrl), rng.randint(mrl, 3 * mrl)}
        ochs = sorted(x for x in ochs if x <= 300000)
        reuse = rng.random() < 0.5
        for och in rng.sample(ochs, min(len(ochs), scale(tier, 7, 14))):
            c.write(ich=rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 1000]), och=och, reuse=reuse, pre=rng.choice([0, 0, 1, 5, 300, 3000]),
                    ochfloat=rng.random() < 0.2 and False, target=rng.choice(['', 'path']))
        yield c.end()
    # exhaustive output chunk sizes for one tiny file
    for mrl in scale(tier, [20, 64], [20, 30, 64, 128]):
        c = Case(f'chunkall{mrl}', 'chunks', raise_=['C10'], det=['C10'])
        c.basic(n=3, mrl=mrl)
        for och in range(mrl, mrl + scale(tier, 90, 400)):
            c.write(ich=1 + och % 4, och=och, taps=False)
        yield c.end()
    # large visible records
    for mrl in scale(tier, [16384, 5000], [16384, 16382, 8192, 5000, 4098]):
        c = Case(f'chunkbig{mrl}', 'chunks', raise_=['C10'], det=['C10'])
        R = Rich(rng, c)
        c.file(mrl=mrl)
        lf = c.lf()
        c.origin(lf)
        n = 5
        for j, (dtn, d) in enumerate((('float64', 1100), ('uint8', 300), ('uint16', 2500))):
            c.frame(lf, f'F{j}', [c.channel(lf, f'C{j}', arr=c.arr(R.data(dtn, n, d)))])
        for och in (mrl, mrl + 1, mrl + 1000, 20000, 2 * mrl - 2, 2 * mrl + 4096, 9001 + mrl, 65536):
            c.write(ich=rng.choice([0, 1, 2, 3]), och=max(och, mrl), taps=False)
        yield c.end()
    # aligned ends: output chunk equal to the total size and around it
    c = Case('chunktotal', 'chunks', raise_=['C10'], det=['C10'])
    c.basic(n=3, mrl=100)
    for och in list(range(700, 1300, scale(tier, 6, 1))):
        c.write(ich=0, och=och, taps=False)
    yield c.end()


# ----------------------------------------------------------------------------------------------------------- index

@family
def index(rng, tier):
    """Index metadata: monotonic, uniform, irregular, constant, single-row, unsigned, large and cast index channels."""
    k = 0
    types = enums_table.ENUMS['FrameIndexType']
    for rep in range(scale(tier, 8, 60)):
        for shape in ('inc', 'dec', 'uni', 'unidec', 'irr', 'const', 'single', 'two', 'near', 'off', 'plateau', 'zigzag', 'neg',
                      'nostep', 'desc_unsigned', 'noindex', 'explicit', 'near_edge', 'halfs'):
            k += 1
            c = Case(f'ix{k} {shape}', 'index', raise_=['C13'])
            R = Rich(rng, c)
            c.file()
            lf = c.lf()
            c.origin(lf)
            n = rng.choice([3, 4, 5, 8])
            dtn = rng.choice(NPDTS)
            start = rng.randint(0, 20)
            if shape == 'inc':
                xs = [start]
                for _ in range(n - 1):
                    xs.append(xs[-1] + rng.randint(1, 9))
            elif shape == 'dec':
                xs = [100]
                for _ in range(n - 1):
                    xs.append(xs[-1] - rng.randint(1, 9))
            elif shape == 'uni':
                s = rng.randint(1, 9)
                xs = [start + s * i for i in range(n)]
            elif shape in ('unidec', 'desc_unsigned'):
                s = rng.randint(1, 9)
                xs = [100 - s * i for i in range(n)]
                if shape == 'desc_unsigned':
                    dtn = rng.choice(['uint8', 'uint16', 'uint32'])
            elif shape == 'irr':
                xs = [rng.randint(0, 100) for _ in range(n)]
            elif shape == 'const':
                xs = [start] * n
            elif shape == 'single':
                xs = [start]
                n = 1
            elif shape == 'two':
                xs = [start, start + rng.choice([1, 5, 17])]
                if rng.random() < 0.5:
                    xs.reverse()
                n = 2
            elif shape in ('near', 'near_edge', 'off'):
                dtn = rng.choice(['float64', 'float32'])
                tol = {'near': 0.01, 'near_edge': 0.014, 'off': 0.2}[shape]
                s = rng.choice([1.0, 8.0, 4.0, 100.0]) * (-1 if rep % 2 else 1)
                xs = [10.0]
                for i in range(n - 1):
                    d = s * (1 + rng.choice([0, tol, -tol]))
                    xs.append(round((xs[-1] + d) * 1024) / 1024)
            elif shape == 'plateau':
                xs = sorted(rng.randint(0, 5) for _ in range(n))
                if rng.random() < 0.5:
                    xs.reverse()
            elif shape == 'zigzag':
                xs = [10 + (3 if i % 2 else 0) for i in range(n)]
            elif shape == 'neg':
                dtn = rng.choice(['int8', 'int16', 'int32', 'float32', 'float64'])
                xs = [-50 + 7 * i for i in range(n)]
            elif shape == 'nostep':
                dtn = rng.choice(['int16', 'int32', 'float64'])
                xs = [0, 1, 0, -1, 0][:n] + [0] * max(0, n - 5)
            elif shape == 'halfs':
                dtn = rng.choice(['float32', 'float64'])
                xs = [0.5 * i - 3.25 for i in range(n)]
                if rng.random() < 0.5:
                    xs.reverse()
            else:
                xs = [5 + 2 * i for i in range(n)]
            if not dtn.startswith('f'):
                xs = [int(x) for x in xs]
            if dtn == 'uint8' or dtn == 'int8':
                xs = [min(x, 127) for x in xs]
            cast = rng.choice(['', '', '', rng.choice(['float32', 'float64', 'int32', 'uint16', 'int16'])])
            if cast and ('i' in cast) and (dtn.startswith('f') or min(xs) < 0):
                cast = ''
            a = c.arr(array1(dtn, xs, lay=rng.choice(R.LAYS), bo=rng.choice('=<>')))
            ch = c.channel(lf, 'DEPTH', *([attr('UNITS', txt(rng.choice(UNITS)))] if rng.random() < 0.5 else []), arr=a, cast=cast)
            a2 = c.arr(R.data('uint8', n))
            ch2 = c.channel(lf, 'OTHER', arr=a2)
            at = []
            if shape != 'noindex':
                t = rng.choice(types)
                at.append(attr('INDEX-TYPE', rng.choice([txt(t), enum('FrameIndexType', t)])))
            if shape == 'explicit' or rng.random() < 0.15:
                zero = [num(0), flt(0.0), num(1)]
                for l, v in (('INDEX-MIN', rng.choice([flt(-7.5), flt(1e9)] + zero)), ('INDEX-MAX', rng.choice([num(12345), num(-3)] + zero)),
                             ('SPACING', rng.choice([flt(0.125), num(-2)] + zero)),
                             ('DIRECTION', txt(rng.choice(['INCREASING', 'DECREASING', 'ODD'])))):
                    if rng.random() < 0.5:
                        u = txt('m') if rng.random() < 0.4 and l != 'DIRECTION' else NONE
                        at.append(attr(l, v, u))
            fr = c.frame(lf, 'FR', [ch, ch2], *at)
            if rng.random() < 0.15:
                c.set(fr, 'SPACING', flt(3.5))
            kw = {}
            if n > 2 and rng.random() < (0.4 if 'near' not in shape else 0.15):
                kw['fr'] = rng.randint(0, n - 1)
                if rng.random() < 0.6:
                    kw['to'] = rng.randint(kw['fr'] + 1, n)
            c.write(ich=rng.choice([0, 1, 2]), **kw)
            # the statistics of another window must not be left over from the first write
            if rng.random() < 0.5:
                c.write(fr=rng.randint(0, n - 1))
            if rng.random() < 0.2:
                c.write()
            yield c.end()


@family
def index_wide(rng, tier):
    """Index channels with the whole range of their dtype (sums and differences which wrap)."""
    for dtn in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32'):
        b = 8 * DTSIZE[dtn]
        lo, hi = (0, 2 ** b - 1) if dtn[0] == 'u' else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        for j, xs in enumerate(([lo, hi], [hi, lo], [lo, (lo + hi) // 2, hi], [hi, lo, hi], [lo, lo + 1, hi - 1, hi], [hi, hi - 1, lo],
                                [hi - 2, hi - 1, hi], [lo + 2, lo + 1, lo])):
            c = Case(f'iw {dtn} {j}', 'index_wide', raise_=['C13'])
            c.file()
            lf = c.lf()
            c.origin(lf)
            ch = c.channel(lf, 'IX', arr=c.arr(array1(dtn, xs)))
            c.frame(lf, 'FR', [ch], attr('INDEX-TYPE', txt('NON-STANDARD')))
            c.write()
            yield c.end()


# --------------------------------------------------------------------------------------------------------- history

def replayable(seed):
    import random

    def build(c, off, hc=False, tag=True):
        rng = random.Random(seed)
        R = Rich(rng, c, off=off, hc=hc)
        R.names = {}
        c.file(mrl=rng.choice([8192, 64]), id='HIST' if hc else 'hist')
        pairs = []
        for j in range(rng.choice([1, 1, 2])):
            lf = c.lf(id=f'L{j}')
            R.logical_file(lf, nobj=rng.randint(0, 5), nframes=rng.choice([1, 1, 2]), nch=2, nrows=[1, 3], tag=f'S{j}' if j else '',
                           density=0.4, later=0.3, unsigned=hc)
        return R
    return build


@family
def history(rng, tier):
    """A specification written in a fresh process, and again after (and between) other builds and writes."""
    for k in range(scale(tier, 40, 300)):
        off = rng.choice(OFFS)
        c = Case(f'hist{k}', 'history', off=off, det=['C14'], raise_=['C14'])
        build = replayable(rng.randint(0, 10 ** 9))
        build(c, off)
        c.write()
        for p in range(2):
            c.proc()
            for _ in range(rng.randint(1, 4)):
                what = rng.choice(['other', 'other', 'same', 'hc', 'failed', 'rejected', 'window', 'lookalike'])
                if what == 'other':
                    replayable(rng.randint(0, 10 ** 9))(c, off)
                    c.write()
                elif what == 'same':
                    build(c, off)
                    c.write(ich=1, och=20000)
                elif what == 'hc':
                    c.hcin(rng.choice(['with', 'deco']))
                    replayable(rng.randint(0, 10 ** 9))(c, off, hc=True)
                    c.write()
                    c.hcout(rng.random() < 0.5)
                elif what == 'failed':
                    c.file()
                    lf = c.lf()
                    c.origin(lf)
                    ch = c.channel(lf, 'NODATA')
                    c.frame(lf, 'FR', [ch])
                    c.write()
                elif what == 'rejected':
                    c.file()
                    lf = c.lf()
                    c.add(lf, 'ZONE', 'A', attr('DOMAIN', txt('NO')), strict=False)
                    c.add(lf, 'CHANNEL', 'A', attr('LONG-NAME', bad('int')), strict=False)
                elif what == 'window':
                    build(c, off)
                    c.write(fr=0, to=1)
                    c.write()
                elif what == 'lookalike':
                    # the same names with other origins, copies, types and values
                    c.file()
                    lf = c.lf(id='L0')
                    c.origin(lf, 'A', org=rng.choice([3, 127, 128, 300]))
                    R = Rich(rng, c)
                    for t in rng.sample(['ZONE', 'AXIS', 'LONG-NAME', 'EQUIPMENT', 'PARAMETER', 'TOOL', 'COMMENT'], 4):
                        for nm in ('A', 'A', 'B', 'X-1'):
                            R.obj(lf, t, 0.2, name=nm)
                    ch, _ = R.channel(lf, 2, 'A')
                    R.frame(lf, [ch], name='B')
                    c.write()
            build(c, off)
            if rng.random() < 0.3:
                c.ev('read')
            c.write(ich=rng.choice([0, 1, 2]))
            c.write()
            if rng.random() < 0.5:
                c.write(fr=0, to=1)
                c.write()
        yield c.end()


@family
def rewrite(rng, tier):
    """The same file object written repeatedly, with changes of the specification in between and undone."""
    for k in range(scale(tier, 40, 250)):
        c = Case(f'rw{k}', 'rewrite', det=['C14', 'C20'], raise_=['C14'])
        R = Rich(rng, c)
        c.file()
        lf = c.lf()
        o = c.origin(lf, 'ORIGIN', attr('WELL-NAME', txt('W1')))
        n = 4
        a1 = c.arr(array1('float64', [1.0, 2.0, 3.0, 4.0]))
        a2 = c.arr(array1('int16', [5, 6, 7, 8]))
        a3 = c.arr(array1('float64', [10.0, 8.0, 6.0, 4.0, 2.0]))
        a4 = c.arr(array2('int32', [[1, 2, 3]] * 5))
        inline = rng.random() < 0.5
        c1 = c.channel(lf, 'IX', attr('UNITS', txt('m')), arr=a1 if inline else 0)
        c2 = c.channel(lf, 'DATA', arr=a2 if inline else 0)
        f = c.frame(lf, 'FR', [c1, c2], attr('INDEX-TYPE', txt('BOREHOLE-DEPTH')))
        z = c.add(lf, 'ZONE', 'Z', attr('MAXIMUM', flt(5.5)))
        p = c.add(lf, 'PARAMETER', 'P', attr('VALUES', lst(num(3))), attr('ZONES', lst(ref(z))))
        first = [('IX', a1), ('DATA', a2)]
        second = [('IX', a3), ('DATA', a4)]

        def w(second_=False, **kw):
            if second_:
                c.write(src='dict', map=second, **kw)
            elif inline and rng.random() < 0.5:
                c.write(**kw)
            else:
                c.write(src='dict', map=first, **kw)
        w()
        for _ in range(rng.randint(2, 5)):
            x = rng.choice(['second', 'window', 'cast', 'rename', 'attr', 'units', 'fail', 'hc', 'add', 'index', 'og', 'chorder',
                            'read', 'none', 'clear'])
            if x == 'second':
                w(True)
            elif x == 'window':
                w(fr=1, to=3)
            elif x == 'cast':
                c.cast(c2, rng.choice(['float32', 'uint8', 'int32']))
                w(rng.random() < 0.3)
                c.cast(c2, '')
            elif x == 'rename':
                i, nm = rng.choice([(z, 'Z'), (p, 'P'), (f, 'FR'), (o, 'ORIGIN')])
                c.rename(i, 'OTHER')
                w()
                c.rename(i, nm)
            elif x == 'attr':
                c.set(z, 'MAXIMUM', flt(99.0))
                w()
                c.set(z, 'MAXIMUM', flt(5.5))
            elif x == 'units':
                c.set(z, 'MAXIMUM', txt('ft'), 'units')
                w()
            elif x == 'fail':
                c.write(src='dict', map=[('IX', a1), ('DATA', a4)])
            elif x == 'hc':
                c.hcin()
                c.write()
                c.hcout()
            elif x == 'add':
                c.add(lf, 'ZONE', 'Z')
                w()
            elif x == 'index':
                c.set(f, 'INDEX-TYPE', txt('NON-STANDARD'))
                w(True)
                c.set(f, 'INDEX-TYPE', txt('BOREHOLE-DEPTH'))
            elif x == 'og':
                c.set(o, 'WELL-NAME', txt('W2'))
                w()
                c.set(o, 'WELL-NAME', txt('W1'))
            elif x == 'chorder':
                c.set(f, 'CHANNELS', lst(ref(c2), ref(c1)))
                w()
                c.set(f, 'CHANNELS', lst(ref(c1), ref(c2)))
            elif x == 'read':
                c.ev('read')
            w()
        yield c.end()


# ------------------------------------------------------------------------------------------- several logical files

@family
def multi(rng, tier):
    """Several logical files and frames: same names everywhere, interleaved construction."""
    for k in range(scale(tier, 50, 350)):
        c = Case(f'multi{k}', 'multi', raise_=['C18'])
        c.file(mrl=rng.choice([8192, 100]))
        nlf = rng.randint(2, 4)
        lfs = [c.lf(id=f'ID{j}', seq=rng.randint(1, 99)) for j in range(nlf)] if rng.random() < 0.7 else []
        R = Rich(rng, c)
        plans = []
        for j in range(nlf):
            plan = []
            for f in range(rng.choice([1, 2, 3])):
                plan.append(('frame', f))
            plan += [('obj', rng.choice(['ZONE', 'AXIS', 'PARAMETER', 'NO-FORMAT', 'COMMENT', 'LONG-NAME', 'EQUIPMENT', 'TOOL',
                                         'GROUP'])) for _ in range(rng.randint(1, 4))]
            rng.shuffle(plan)
            plans.append([('origin', 0)] + plan + [('nf', 0)])
        if not lfs:
            seq = []
            for j in range(nlf):
                seq.append(('lf', j))
                seq += [(j, x) for x in plans[j]]
        else:
            idx = [0] * nlf
            seq = []
            while any(idx[j] < len(plans[j]) for j in range(nlf)):
                j = rng.choice([j for j in range(nlf) if idx[j] < len(plans[j])])
                seq.append((j, plans[j][idx[j]]))
                idx[j] += 1
        for it in seq:
            if it[0] == 'lf':
                lfs.append(c.lf(id=f'ID{it[1]}', seq=rng.randint(1, 99)))
                continue
            j, (what, x) = it
            lf = lfs[j]
            kw = {'set': f'SET{j}'} if j or rng.random() < 0.0 else {}
            if what == 'origin':
                c.origin(lf, 'ORIGIN', fsn=j + 1, org=rng.choice([NONE, NONE, 1, j]), **kw)
            elif what == 'frame':
                n = rng.choice([1, 2, 3, 6])
                chs = [R.channel(lf, n, f'C{x}{q}' if rng.random() < 0.5 else f'C{x}', density=0.1, **kw)[0]
                       for q in range(1 if rng.random() < 0.5 else 2)]
                names = [name_of(c, i) for i in chs]
                if len(set(names)) < len(names):
                    chs = chs[:1]
                R.frame(lf, chs, name='FRAME' if rng.random() < 0.7 else f'FR{x}', density=0.1, **kw)
            elif what == 'obj':
                R.obj(lf, x, 0.4, name=rng.choice(['A', 'A', 'B']), **kw)
            else:
                for nf in R.byty.get((lf, 'NO-FORMAT'), []):
                    c.nf(lf, nf, txt(f'payload of {lf}'))
        c.write(ich=rng.choice([0, 1, 2]))
        if rng.random() < 0.3:
            c.write(ich=1)
        yield c.end()


@family
def shared_sets(rng, tier):
    """Objects of two logical files going to one set: rejected, or written without mixing them."""
    for k, ty in enumerate(schema.TYPES):
        for name in ('', 'NAMED'):
            c = Case(f'shared {ty} {name}', 'shared_sets', raise_=['C18', 'C20'])
            c.file()
            a, b = c.lf(id='LA'), c.lf(id='LB')
            kw = {'set': name} if name else {}

            def fill(lf, tag, **k2):
                c.origin(lf, 'OG', **({'set': tag} if tag else {}), **k2)
                ch = c.channel(lf, 'CH', arr=c.arr(array1('uint8', [lf, lf])), **({'set': tag} if tag else {}))
                c.frame(lf, 'FR', [ch], **({'set': tag} if tag else {}))

            def one(lf):
                if ty == 'ORIGIN':
                    return c.origin(lf, 'X', strict=True, **kw)
                if ty == 'CHANNEL':
                    return c.channel(lf, 'X', arr=c.arr(array1('uint8', [1, 2])), **kw)
                if ty == 'FRAME':
                    return c.frame(lf, 'X', [c.channel(lf, 'XC', arr=c.arr(array1('uint8', [1])), set=f'XC{lf}')], **kw)
                return c.add(lf, ty, 'X', **kw)
            fill(a, 'TA')
            fill(b, 'TB')
            for lf in rng.choice([[a, b], [b, a], [a, b, a], [b, b, a, a]]):
                one(lf)
            c.write()
            yield c.end()


# ---------------------------------------------------------------------------------------------------- rejected calls

BADKINDS = {
    'text': ['int', 'float', 'object', 'bytes', 'list', 'intlist', 'strlist', 'true', 'dict'],
    'ident': ['int', 'float', 'object', 'bytes', 'strlist', 'dict'], 'identv': ['int', 'object', 'bytes', 'strlist'],
    'num': ['str', 'object', 'complex', 'bytes', 'dict', 'strlist'], 'fdoubl': ['str', 'object', 'complex', 'bytes'],
    'unorm': ['str', 'object', 'float', 'neg', 'big'], 'uvari': ['str', 'object', 'float', 'neg', 'big'],
    'int': ['str', 'object', 'float', 'big'], 'enc': ['object', 'float', 'big'], 'status': ['object', 'float', 'str', 'big'],
    'dim': ['str', 'object', 'float', 'mixed'], 'dtime': ['int', 'float', 'object', 'str', 'list'],
    'dtimef': ['object', 'str', 'complex'], 'any': ['object', 'complex', 'dict'], 'lntext': ['int', 'object', 'float', 'list'],
    'reprc': ['str', 'object'],
}


def bad_value(rng, c, kind, ob):
    """A value which has to be refused, by kind; ob: pool of object ids by type."""
    if kind.startswith('enum:'):
        _, e, soft = kind.split(':')
        if soft == 'hard' and rng.random() < 0.6:
            return txt('NOT IN THE ENUMERATION')
        return bad(rng.choice(['int', 'object', 'float']))
    if kind.startswith('ref:'):
        t = kind[4:]
        wrong = [x for ty, xs in ob.items() if ty != t for x in xs]
        if wrong and rng.random() < 0.6:
            return ref(rng.choice(wrong))
        return bad(rng.choice(['str', 'int', 'object', 'strlist']))
    if kind == 'oref':
        return bad(rng.choice(['str', 'int', 'object']))
    return bad(rng.choice(BADKINDS[kind]))


def bad_call(rng, c, lf, ob, tag):
    """One call which has to raise (or, if accepted, changes the specification)."""
    kw = {'set': tag} if tag else {}
    x = rng.random()
    ty = rng.choice([t for t in schema.TYPES])
    chans = [attr('CHANNELS', lst(ref(rng.choice(ob['CHANNEL']))))] if ob.get('CHANNEL') else []
    base = chans if ty == 'FRAME' else []
    nm = rng.choice(['A', 'A', 'B', 'CH0', 'NEW'])
    if x < 0.45:
        cand = [a for a in schema.TYPES[ty][2] if a[2] and a[3] != 'reprc' and not (ty == 'FRAME' and a[0] == 'CHANNELS')
                and a[0] != 'FILE-ID']
        a = rng.choice(cand)
        good = Rich(rng, c)
        v = bad_value(rng, c, a[3], ob)
        if a[4] and rng.random() < 0.3:
            v = lst(v)
        extra = [attr('DESCRIPTION', txt('left over'))] if any(z[0] == 'DESCRIPTION' for z in cand) and a[0] != 'DESCRIPTION' else []
        at = extra + base + [attr(a[0], v, via=rng.choice(['plain', 'setup', 'dict']))]
        c.add(lf, ty, nm, *at, strict=False, **kw)
    elif x < 0.55:
        at = [z for z in schema.TYPES[ty][2] if z[3] in ('num', 'fdoubl', 'uvari') and z[2]]
        if not at:
            return
        a = rng.choice(at)
        c.add(lf, ty, nm, *base, attr(a[0], num(1), bad(rng.choice(['int', 'object', 'bytes', 'intlist'])), 'setup'),
              strict=False, **kw)
    elif x < 0.65:
        c.add(lf, ty, rng.choice([txt(''), bad('unicode'), bad('long')]), *base, strict=False, **kw)
    elif x < 0.72:
        c.add(lf, ty, nm, *base, strict=False, org=bad(rng.choice(['str', 'float', 'object', 'neg', 'big'])), **kw)
    elif x < 0.78:
        c.add(lf, ty, nm, *base, strict=False, set=bad(rng.choice(['int', 'object', 'bytes', 'list'])))
    elif x < 0.83:
        e = c.add(lf, ty, nm, *base, strict=False, **kw)
        c.d['ev'][-1]['badkw'] = {'no_such_keyword': 'int'}
    elif x < 0.9:
        c.channel(lf, rng.choice(['CH0', 'CH1', 'NEW']), strict=False, cast=rng.choice(['bad:str', 'bad:unsupported', 'bad:object',
                                                                                      'bad:type']), **kw)
        c.d['ev'][-1]['baddata'] = 'array' if rng.random() < 0.5 else ''
    elif x < 0.94:
        c.channel(lf, rng.choice(['CH0', 'NEW']), strict=False, **kw)
        c.d['ev'][-1]['baddata'] = rng.choice(['list', 'intlist', 'str', 'object'])
    elif x < 0.97:
        c.channel(lf, 'NEW', strict=False, ds=rng.choice([bad('int'), bad('object'), txt('CH0')]), **kw)
    else:
        chs = rng.choice([bad('str'), bad('object'), lst(bad('int')), lst(), NONE]) if rng.random() < 0.7 else bad('int')
        c.add(lf, 'FRAME', nm, attr('CHANNELS', chs), strict=False, **kw)


@family
def reject(rng, tier):
    """A specification built with rejected calls in between, compared with the one built without them."""
    import random
    for k in range(scale(tier, 60, 400)):
        c = Case(f'rej{k}', 'reject', det=['C20'], raise_=['C20'])
        seed = rng.randint(0, 10 ** 9)

        def build(dirty):
            r = random.Random(seed)
            d = random.Random(seed + 1)
            R = Rich(r, c)
            c.file()
            for j in range(r.choice([1, 1, 2])):
                lf = c.lf(id=f'L{j}')
                tag = f'S{j}' if j else ''
                kw = {'set': tag} if tag else {}
                ob = {}

                def mess():
                    if dirty:
                        for _ in range(d.choice([0, 1, 1, 2, 3])):
                            bad_call(d, c, lf, ob, tag)
                            # the object numbers of rejected calls stay unused
                mess()
                c.origin(lf, 'A', fsn=5, **kw)
                mess()
                if r.random() < 0.4:
                    c.origin(lf, 'B', fsn=6, **kw)
                ob['ORIGIN'] = [c.nob]
                for t in ('ZONE', 'AXIS', 'LONG-NAME', 'EQUIPMENT', 'NO-FORMAT', 'PARAMETER', 'COMMENT'):
                    if r.random() < 0.6:
                        for _ in range(r.choice([1, 1, 2])):
                            mess()
                            ob.setdefault(t, []).append(R.obj(lf, t, 0.2, name=r.choice(['A', 'A', 'B']), **kw))
                n = 2
                chs = []
                for q in range(r.choice([1, 2, 3])):
                    mess()
                    i, _ = R.channel(lf, n, f'CH{q}' if r.random() < 0.8 else 'A', density=0.1, **kw)
                    chs.append(i)
                    ob.setdefault('CHANNEL', []).append(i)
                names, take = set(), []
                for i in chs:
                    if name_of(c, i) not in names:
                        names.add(name_of(c, i))
                        take.append(i)
                mess()
                f = R.frame(lf, take, name='A', density=0.1, **kw)
                ob['FRAME'] = [f]
                mess()
                for t in ('TOOL', 'PROCESS', 'GROUP', 'CALIBRATION', 'MESSAGE'):
                    if r.random() < 0.4:
                        R.obj(lf, t, 0.4, name='A', **kw)
                        mess()
                for nf in ob.get('NO-FORMAT', []):
                    if dirty and d.random() < 0.5:
                        c.nf(lf, nf, bad(d.choice(['int', 'object', 'list', 'none'])))
                        c.nf(lf, f, txt('to a frame'))
                    c.nf(lf, nf, txt('payload'))
                if dirty and d.random() < 0.5:
                    z = d.choice([x for xs in ob.values() for x in xs])
                    
                    c.org(z, bad(d.choice(['str', 'float', 'object'])))
                if dirty and d.random() < 0.5:
                    z = d.choice(ob['CHANNEL'])
                    c.cast(z, 'bad:unsupported')
                    c.set(z, 'LONG-NAME', bad('int'))
                    c.set(z, 'PROPERTIES', txt('NO SUCH PROPERTY'))
                    c.set(z, 'UNITS', bad('int'))
                    pass
            c.write()
        first = rng.random() < 0.5
        build(first)
        c.proc()
        build(not first)
        yield c.end()


@family
def reject_each(rng, tier):
    """For every attribute: a rejected creation of an object as the first of its type, then a valid one."""
    for ty, (_, _, attrs) in schema.TYPES.items():
        c = Case(f'rje {ty}', 'reject_each', det=['C20'], raise_=['C20'])

        def build(dirty):
            c.file()
            lf = c.lf()
            ob = {}
            if ty != 'ORIGIN':
                c.origin(lf, 'OG')
            if ty != 'CHANNEL':
                ob['CHANNEL'] = [c.channel(lf, 'CH', arr=c.arr(array1('uint8', [1, 2])))]
            if ty not in ('ZONE', 'CHANNEL'):
                ob['ZONE'] = [c.add(lf, 'ZONE', 'Z')]
            if dirty:
                for a in attrs:
                    if not a[2] or a[3] == 'reprc' or (ty == 'FRAME' and a[0] == 'CHANNELS'):
                        continue
                    base = [attr('CHANNELS', lst(ref(ob['CHANNEL'][0])))] if ty == 'FRAME' else []
                    for _ in range(scale(tier, 1, 3)):
                        c.add(lf, ty, 'X', *base, attr(a[0], bad_value(rng, c, a[3], ob)), strict=False)
            if ty == 'ORIGIN':
                c.origin(lf, 'X')
            elif ty == 'CHANNEL':
                ob['CHANNEL'] = [c.channel(lf, 'X', arr=c.arr(array1('uint8', [1, 2])))]
            elif ty == 'FRAME':
                c.frame(lf, 'X', ob['CHANNEL'])
            else:
                c.add(lf, ty, 'X')
            if ty != 'FRAME':
                c.frame(lf, 'FR', ob['CHANNEL'])
            c.write()
        build(True)
        c.proc()
        build(False)
        yield c.end()


# ----------------------------------------------------------------------------------------------------- fail-closed

@family
def failclosed(rng, tier):
    """Inputs which cannot be represented, one at a time, at every place where they fit."""
    k = [0]

    def fresh(**kw):
        k[0] += 1
        c = Case(f'fc{k[0]}', 'failclosed', raise_=[])
        c.file(**kw)
        return c
    longs = ['x' * 256, 'x' * 300, 'x' * 1000]
    nona = ['\u00e9', 'm\u00b2', '\u0416', 'abc\u2028', '\x80', '\U0001f600']
    # names, set names, identifiers
    for s in longs + nona:
        for where in ('set', 'header', 'ZONE', 'CHANNEL', 'FRAME', 'ORIGIN', 'NO-FORMAT', 'setname', 'rename', 'hname', 'nfpay'):
            if where == 'hname' and len(s) > 1:
                s1 = s[0]
            c = fresh(id=txt(s) if where == 'set' else 'S')
            lf = c.lf(id=txt(s) if where == 'header' else 'H', name=txt(s[:1]) if where == 'hname' else '0')
            c.origin(lf, s if where == 'ORIGIN' else 'O')
            ch = c.channel(lf, s if where == 'CHANNEL' else 'C', arr=c.arr(array1('uint8', [1, 2])))
            f = c.frame(lf, s if where == 'FRAME' else 'F', [ch])
            z = c.add(lf, 'ZONE', s if where == 'ZONE' else 'Z', **({'set': s} if where == 'setname' else {}))
            nf = c.add(lf, 'NO-FORMAT', s if where == 'NO-FORMAT' else 'N')
            if where == 'rename':
                c.rename(rng.choice([z, f, ch, nf]), s)
            c.nf(lf, nf, txt(s if where == 'nfpay' else 'p'))
            c.write()
            yield c.end()
    # attribute values
    for ty, (_, _, attrs) in schema.TYPES.items():
        for a in attrs:
            label, _, kw, kind, multi = a
            if kind.startswith('ref') or kind in ('oref', 'reprc'):
                continue
            vs = []
            if kind in ('text', 'lntext', 'any'):
                vs = [txt(rng.choice(nona)), txt('x' * 20000)] if tier != 'quick' else [txt(rng.choice(nona))]
            elif kind in ('ident', 'identv'):
                vs = [txt(rng.choice(nona)), txt(rng.choice(longs))]
            elif kind.startswith('enum'):
                vs = [txt(rng.choice(nona)), txt(rng.choice(longs)), txt('')]
            elif kind == 'unorm':
                vs = [num(-1), num(65536), num(2 ** 32), flt(1.5), num(2 ** 70)]
            elif kind in ('uvari', 'dim'):
                vs = [num(-1), num(2 ** 30), num(2 ** 32), num(2 ** 70), flt(1.5), num(0)]
            elif kind == 'int':
                vs = [num(2 ** 31), num(-2 ** 31 - 1), num(2 ** 70), flt(0.5)]
            elif kind in ('num', 'fdoubl'):
                vs = [num(2 ** 1100), flt(float('inf')), flt(float('nan')), num(2 ** 53 + 1), txt('1.5')]
            elif kind in ('dtime', 'dtimef'):
                vs = [dt(1899, 5, 1, 0, 0, 0, 0, 0, 'utc'), dt(2156, 1, 2, 0, 0, 0, 0, 0, 'utc'), txt('yesterday'),
                      dt(1900, 1, 1, 0, 0, 0, 0, 50400, 'fixed'), dt(2155, 12, 31, 23, 59, 59, 999999, 0, 'utc'),
                      dt(2155, 12, 31, 23, 59, 59, 0, -3600, 'fixed')]
            elif kind in ('enc', 'status'):
                vs = [num(2), num(-1), flt(0.5), num(256)]
            if kind == 'any':
                vs += [num(2 ** 31), num(-2 ** 31 - 1), flt(float('inf')), lst(num(1), txt('a'))]
            vs += [lst()]
            if multi:
                vs += [lst(lst()), lst(lst(), lst())]
            if not multi:
                vs += [lst(txt('a'), txt('b')) if kind in ('text', 'ident') else lst(num(1), num(2))]
            for v in rng.sample(vs, min(len(vs), scale(tier, 3, 9))):
                c = fresh()
                lf = c.lf()
                og = c.origin(lf, 'O')
                ch = c.channel(lf, 'C', arr=c.arr(array1('uint8', [1, 2])))
                at = [attr(label, v)] if kw and rng.random() < 0.6 else []
                if ty == 'FRAME':
                    if label == 'CHANNELS':
                        continue
                    i = c.frame(lf, 'F', [ch], *at)
                elif ty == 'ORIGIN':
                    i = c.add(lf, 'ORIGIN', 'X', *at) if at else og
                elif ty == 'CHANNEL':
                    i = c.channel(lf, 'X', *at, arr=c.arr(array1('uint8', [1, 2])))
                else:
                    i = c.add(lf, ty, 'X', *at)
                if not at:
                    c.set(i, label, v)
                if ty != 'FRAME':
                    c.frame(lf, 'F', [ch])
                c.write()
                yield c.end()
    # units
    for u in [txt('u' * 256), txt('u' * 400), txt('m\u00b2'), txt(''), bad('int'), bad('bytes'), txt('u' * 255)]:
        for where in range(3):
            c = fresh()
            lf = c.lf()
            o, ch, f = c.basic(lf)
            if where == 0:
                c.add(lf, 'ZONE', 'Z', attr('MAXIMUM', flt(1.0), u, 'setup'))
            elif where == 1:
                z = c.add(lf, 'ZONE', 'Z', attr('MAXIMUM', flt(1.0)))
                c.set(z, 'MAXIMUM', u, 'units')
            else:
                c.set(ch, 'UNITS', u)
            c.write()
            yield c.end()
    # data
    for i in range(scale(tier, 60, 300)):
        c = fresh()
        lf = c.lf()
        c.origin(lf)
        n = rng.choice([0, 1, 3])
        what = rng.choice(['rows', 'dtype', 'dtype', 'dims', 'missing', 'empty', 'zerodim', 'castbad', 'dup', 'none', 'zerowidth'])
        kind = rng.choice(['none', 'dict', 'struct', 'hdf5'])
        n = max(n, 1) if what != 'empty' else 0
        ars = [array1('uint8', [1] * n), array1('float32', [1.5] * n)]
        if what == 'rows':
            ars = [array1(rng.choice(['uint8', 'int16', 'float32']), [j] * n) for j in range(rng.choice([2, 3, 4]))]
            ars[rng.randrange(len(ars))] = array1('float32', [1.5] * rng.choice([n + 1, n + 2, max(n - 1, 1) + (n == 1), 2 * n]))
            kind = rng.choice(['none', 'dict', 'hdf5'])
        elif what == 'dtype':
            d = rng.choice(['int64', 'uint64', 'bool', 'float16', 'complex64', 'str', 'object', 'datetime64', 'longdouble'])
            if d in ('int64', 'uint64'):
                ars[1] = array1(d, [5] * n)
            elif d == 'bool':
                ars[1] = array1(d, [True] * n)
            elif d == 'float16':
                ars[1] = array1(d, [1.5] * n)
            else:
                ars[1] = array(d, [], [[]] * n)
            if d in ('str', 'object', 'datetime64', 'longdouble', 'complex64') and kind == 'hdf5':
                kind = 'dict'
        elif what == 'dims':
            ars[1] = array('uint8', rng.choice([[2, 2], [1, 1], [2, 1, 2]]), [])
            sz = 1
            for x in ars[1]['dims']:
                sz *= x
            ars[1]['rows'] = [[7] * sz] * n
            ars[1]['n'] = n
        elif what == 'zerowidth':
            ars[1] = array('uint8', [0], [[]] * n)
        if n == 0 and kind == 'struct':
            kind = 'dict'
        ids = [c.arr(a) for a in ars]
        chs = [c.channel(lf, f'C{j}', arr=ids[j] if kind == 'none' else 0) for j in range(len(ids))]
        if what == 'missing' and kind == 'none':
            chs.append(c.channel(lf, 'NODATA'))
        f = c.frame(lf, 'F', chs)
        if what == 'castbad':
            c.cast(chs[0], rng.choice(['bad:unsupported', 'bad:str']))
        kw = {}
        if kind != 'none':
            m = [(f'C{j}', ids[j]) for j in range(len(ids))]
            if what == 'missing':
                m = m[:1]
            kw = dict(src=kind, map=m)
        c.write(ich=rng.choice([0, 1]), **kw)
        yield c.end()
    # incomplete structure
    for i, drop in enumerate(['lf', 'origin', 'channel', 'frame', 'origin2', 'channel2', 'frame2', 'nochannels', 'allrows']):
        c = fresh()
        if drop != 'lf':
            lf = c.lf()
            if drop != 'origin':
                c.origin(lf)
            ch = None
            if drop != 'channel':
                ch = c.channel(lf, 'C', arr=c.arr(array1('uint8', [1, 2])))
            if drop == 'nochannels':
                c.add(lf, 'FRAME', 'F', strict=False)
            elif drop != 'frame' and ch:
                c.frame(lf, 'F', [ch])
            if drop.endswith('2'):
                lf = c.lf(id='SECOND')
                if drop != 'origin2':
                    c.origin(lf, set='T')
                if drop != 'channel2':
                    ch = c.channel(lf, 'C', arr=c.arr(array1('uint8', [1, 2])), set='T')
                if drop != 'frame2' and drop != 'channel2':
                    c.frame(lf, 'F', [ch], set='T')
        c.write()
        yield c.end()
    # label and header parameters, windows and chunk sizes
    for kw in [dict(mrl=18), dict(mrl=21), dict(mrl=16386), dict(mrl=0), dict(mrl=-20), dict(seq=-1), dict(seq=10000), dict(id='i' * 61),
               dict(id='i' * 80), dict(mrl=19), dict(mrl=16383), dict(mrl=bad('float')), dict(mrl=bad('str')), dict(seq=bad('float')),
               dict(seq=bad('str')), dict(id=bad('int')), dict(mrl=65536), dict(mrl=2 ** 20), dict(seq=99999), dict(id='')]:
        c = fresh(**kw)
        lf = c.lf()
        c.basic(lf)
        c.write()
        yield c.end()
    for kw in [dict(seq=0), dict(seq=-1), dict(seq=10 ** 10), dict(id='h' * 66), dict(name=''), dict(name='ab'), dict(id=bad('int')),
               dict(seq=bad('str')), dict(seq=bad('float')), dict(name=bad('int')), dict(id='h' * 100), dict(id='')]:
        c = fresh()
        lf = c.lf(**kw)
        c.basic(lf)
        c.write()
        yield c.end()
    for kw in [dict(fr=-1), dict(fr=5), dict(to=0), dict(fr=1, to=1), dict(fr=2, to=1), dict(to=9), dict(fr=3), dict(ich=-1),
               dict(och=-1), dict(och=19), dict(och=8191), dict(fr=-2, to=2)]:
        for kind in ('none', 'dict', 'struct', 'hdf5'):
            c = fresh()
            lf = c.lf()
            c.origin(lf)
            a = c.arr(array1('uint8', [1, 2, 3]))
            ch = c.channel(lf, 'C', arr=a if kind == 'none' else 0)
            c.frame(lf, 'F', [ch], *([attr('INDEX-TYPE', txt('BOREHOLE-DEPTH'))] if rng.random() < 0.5 else []))
            x = dict(kw)
            if kind != 'none':
                x.update(src=kind, map=[('C', a)])
            c.write(**x)
            yield c.end()


# --------------------------------------------------------------------------------------------- high compatibility

@family
def hc_breach(rng, tier):
    """Each restriction of the mode breached at each place, inside (has to raise) and outside (accepted, warning)."""
    k = [0]
    bad_names = ['lower', 'SPACE IN', 'DOT.', 'Mixed', 'A/B', '\u00c4'[:0] + 'a', 'TRAIL ', 'A\n', 'UND(', 'x']
    good = ['A', 'GOOD-NAME', 'N_1', '0', '-', '_', 'X' * 60]
    where = ['set', 'header', 'origin', 'channel', 'frame', 'zone', 'param', 'nf', 'rename', 'unit', 'units_attr', 'itype', 'eqtype',
             'eqloc', 'signed', 'signedcast', 'twoframes', 'noframe', 'spacing', 'good', 'good', 'hname', 'setlate', 'unitlate',
             'unsignedcast', 'long_name_id', 'axis_id', 'units_enum']
    for mode in ('in', 'out', 'deco', 'nested', 'writein', 'late'):
        for w in where:
            for rep in range(scale(tier, 1, 3)):
                k[0] += 1
                c = Case(f'hc{k[0]} {mode} {w}', 'hc_breach', raise_=['C17'])
                nm = lambda x: rng.choice(bad_names) if w == x else rng.choice(good)
                if mode in ('in', 'nested'):
                    c.hcin()
                if mode == 'deco':
                    c.hcin('deco')
                if mode == 'nested':
                    c.hcin()
                    c.probe()
                    c.hcout(rng.random() < 0.5)
                c.file(id=nm('set'))
                lf = c.lf(id=nm('header'), name='b' if w == 'hname' else rng.choice('0AZ'))
                c.origin(lf, nm('origin'), fsn=None if rng.random() < 0.6 else 1)
                if rng.random() < 0.3:
                    c.origin(lf, 'SECOND', fsn=None)
                if mode == 'late':
                    c.hcin()
                n = 4
                dtn = rng.choice(['uint8', 'uint16', 'uint32', 'float32', 'float64'])
                if w == 'signed':
                    dtn = rng.choice(['int8', 'int16', 'int32'])
                xs = [10, 12, 14, 16]
                if w == 'spacing':
                    xs = rng.choice([[1, 2, 4, 8], [1, 5, 6, 20], [10, 9, 1, 0], [3, 3, 4, 5]])
                cast = ''
                if w == 'signedcast':
                    cast = rng.choice(['int8', 'int16', 'int32'])
                if w == 'unsignedcast':
                    dtn, cast = 'int16', rng.choice(['uint8', 'float32', 'uint16'])
                a = c.arr(array1(dtn, xs))
                us = [attr('UNITS', txt('furlong') if w == 'unit' else rng.choice([txt('m'), enum('Unit', 'ft')]))] \
                    if w in ('unit',) or rng.random() < 0.4 else []
                ch = c.channel(lf, nm('channel'), *us, arr=a, cast=cast)
                ch2 = c.channel(lf, 'CH-2', arr=c.arr(array1('float32', [1, 2, 3, 4])))
                it = []
                if w in ('itype', 'spacing') or rng.random() < 0.3:
                    it = [attr('INDEX-TYPE', txt('ODD-INDEX' if w == 'itype' else rng.choice(['BOREHOLE-DEPTH', 'NON-STANDARD'])))]
                f = c.frame(lf, nm('frame'), [ch] if w == 'noframe' else [ch, ch2], *it)
                if w == 'twoframes':
                    c.frame(lf, 'FR-2', [ch])
                z = c.add(lf, 'ZONE', nm('zone'), *([attr('MAXIMUM', flt(1.5), txt('no unit'))] if w == 'units_attr' else
                                                    [attr('MAXIMUM', flt(1.5), txt('m'))] if rng.random() < 0.4 else []))
                e = c.add(lf, 'EQUIPMENT', 'EQ', *([attr('TYPE', txt('Odd-Type'))] if w == 'eqtype' else
                                                   [attr('TYPE', txt('Tool'))] if rng.random() < 0.4 else []),
                          *([attr('LOCATION', txt('Nowhere'))] if w == 'eqloc' else
                            [attr('LOCATION', txt('Rig'))] if rng.random() < 0.4 else []))
                c.add(lf, 'PARAMETER', nm('param'), attr('VALUES', num(5), txt('m')))
                c.add(lf, 'NO-FORMAT', nm('nf'))
                if w == 'axis_id':
                    c.add(lf, 'AXIS', 'AX', attr('AXIS-ID', txt('lower id')))
                if w == 'rename':
                    c.rename(rng.choice([z, e, f, ch]), rng.choice(bad_names))
                if w == 'setlate':
                    c.set(e, 'TYPE', txt('Odd'))
                if w == 'unitlate':
                    c.set(z, 'MAXIMUM', flt(2.0))
                    c.set(z, 'MAXIMUM', txt('odd unit'), 'units')
                if mode == 'writein':
                    c.hcin(rng.choice(['with', 'deco']))
                uni = w != 'spacing'
                c.write(uniform=uni)
                c.probe()
                if mode != 'out':
                    c.hcout(rng.random() < 0.4)
                    c.probe()
                    if rng.random() < 0.5:
                        c.write(uniform=uni)
                yield c.end()


@family
def hc_context(rng, tier):
    """Nesting of contexts, left normally and by exceptions, with calls in between and probes of the mode."""
    for k in range(scale(tier, 40, 300)):
        c = Case(f'hcx{k}', 'hc_context', raise_=['C17'])
        depth = 0
        made = False
        c.probe()
        for _ in range(rng.randint(4, 14)):
            x = rng.random()
            if x < 0.35 and depth < 4:
                c.hcin(rng.choice(['with', 'with', 'deco']))
                depth += 1
            elif x < 0.6 and depth:
                c.hcout(rng.random() < 0.5)
                depth -= 1
            elif x < 0.75:
                c.file(id=rng.choice(['GOOD', 'bad name']))
                lf = c.lf(id=rng.choice(['GOOD', 'bad']))
                c.basic(lf, name=rng.choice(['CH', 'ch']), dt=rng.choice(['uint8', 'int16']))
                made = True
                if rng.random() < 0.7:
                    c.write()
            elif made:
                c.write()
            c.probe()
        while depth:
            c.hcout(rng.random() < 0.3)
            depth -= 1
            c.probe()
        yield c.end()


@family
def hc_files(rng, tier):
    """Valid files in the mode; several origins without file set numbers; several logical files."""
    for k in range(scale(tier, 40, 250)):
        c = Case(f'hcf{k}', 'hc_files', raise_=['C17'])
        R = Rich(rng, c, hc=True)
        c.hcin(rng.choice(['with', 'deco']))
        c.file(id=R.name())
        for j in range(rng.choice([1, 1, 2])):
            lf = c.lf(id=R.name(), name=rng.choice('0AZ9'), seq=j + 1)
            kw = {'set': f'S{j}'} if j else {}
            for q in range(rng.choice([1, 2, 3])):
                c.origin(lf, R.name(), fsn=rng.choice([None, None, 3]), **kw)
            for t in rng.sample(R.ORDER[1:5], 2):
                R.obj(lf, t, 0.4, **kw)
            for f in range(rng.choice([1, 2])):
                n = rng.choice([1, 2, 4])
                names = set()
                chs = []
                at = []
                if rng.random() < 0.4:
                    st = rng.choice([1, 2, -1])
                    a = c.arr(array1(rng.choice(['uint8', 'float32', 'uint16']), [50 + st * i for i in range(n)]))
                    chs.append(c.channel(lf, f'IX{f}', arr=a, **kw))
                    at = [attr('INDEX-TYPE', enum('FrameIndexType', 'BOREHOLE-DEPTH'))]
                for q in range(rng.choice([1, 2])):
                    chs.append(R.channel(lf, n, f'C{f}{q}', unsigned=True, **kw)[0])
                c.frame(lf, f'F{f}', chs, *at, **kw)
        c.write()
        c.hcout(rng.random() < 0.3)
        c.probe()
        if rng.random() < 0.5:
            c.write()
        yield c.end()


# ---------------------------------------------------------------------------------------------- primitive values

INTCODES = {12: (-128, 127), 13: (-2 ** 15, 2 ** 15 - 1), 14: (-2 ** 31, 2 ** 31 - 1), 15: (0, 255), 16: (0, 2 ** 16 - 1),
            17: (0, 2 ** 32 - 1), 18: (0, 2 ** 30 - 1), 26: (0, 1)}
NPINTS = {'int8': (-128, 127), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1), 'int64': (-2 ** 63, 2 ** 63 - 1),
          'uint8': (0, 255), 'uint16': (0, 2 ** 16 - 1), 'uint32': (0, 2 ** 32 - 1), 'uint64': (0, 2 ** 64 - 1)}


def int_pool(rng, code, n):
    lo, hi = INTCODES[code]
    s = {lo, lo - 1, lo + 1, hi, hi - 1, hi + 1, 0, 1, 2, -1, -2, 127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 32767, 32768,
         65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64, 2 ** 64 + 5, 2 ** 80, -128, -129,
         -32768, -32769, -2 ** 31, -2 ** 31 - 1, -2 ** 63, 2 ** 30 - 1, 2 ** 30, 2 ** 30 + 1, 2 ** 29, 3 * 2 ** 30, 2 ** 24, 2 ** 15 + 3}
    for _ in range(n):
        s.add(rng.randint(lo, hi))
        s.add(rng.randint(0, min(hi, 2 ** rng.randint(1, 31))))
        s.add(rng.randint(-2 ** 40, 2 ** 40))
    return sorted(s)


def float_pool(rng, n):
    s = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 0.1, 1 / 3, 3.4028234663852886e38, -3.4028234663852886e38, 3.4028235677973362e38,
         3.4028235677973366e38, 3.4028236e38, 1e39, -1e39, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 1e-310,
         2.2250738585072014e-308, 1.401298464324817e-45, 1.1754943508222875e-38, 1.1754942106924411e-38, 7e-46, 7.1e-46, 1e-60,
         -1e-60, 16777216.0, 16777217.0, 16777219.0, 2.0 ** 31, 2.0 ** 53, 2.0 ** 63, -153.0, 153.5, 3.141592653589793,
         float('inf'), float('-inf'), float('nan')]
    out = [flt(x) for x in s]
    for _ in range(n):
        out.append(fltbits('%016x' % rng.getrandbits(64)))
        out.append(flt(struct.unpack('>f', struct.pack('>I', rng.getrandbits(31)))[0]))
        out.append(flt(rng.choice([-1, 1]) * rng.random() * 2.0 ** rng.randint(-160, 140)))
        out.append(flt(rng.randint(-2 ** 26, 2 ** 26)))
    return out


@family
def prim(rng, tier):
    """Single values of every representation code: every boundary, random ones, and what cannot be represented."""
    n = scale(tier, 15, 200)

    def units(name, evs):
        for k in range(0, len(evs), 60):
            c = Case(f'prim {name} {k // 60}', 'prim')
            for rc, v in evs[k:k + 60]:
                c.ev('unit', rc=rc, v=v, via='convert' if rc in (2, 7, 12, 13, 14, 15, 16, 17) and rng.random() < 0.3 else 'struct')
            yield c.end()

    for code in INTCODES:
        evs = []
        for i in int_pool(rng, code, n):
            evs.append((code, num(i)))
            fit = [t for t, (lo, hi) in NPINTS.items() if lo <= i <= hi]
            if fit and rng.random() < 0.4 and code != 18:
                evs.append((code, npnum(i, rng.choice(fit))))
        for x in (0.0, 1.0, 0.5, 1.5, -0.5, 127.5, 255.9, 1e10, -3.0, float('nan'), float('inf')):
            evs.append((code, flt(x)))
        evs += [(code, v) for v in (txt('5'), txt(''), dict(NONE), bad('object'), bad('complex'), boolean(True), boolean(False))]
        yield from units(f'int{code}', evs)
    for code in (2, 7):
        evs = [(code, v) for v in float_pool(rng, n)]
        for i in [0, 1, -1, 2 ** 24, 2 ** 24 + 1, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 100, 2 ** 127, 2 ** 128, 2 ** 128 - 2 ** 103,
                  2 ** 128 - 2 ** 104, 2 ** 1023, 2 ** 1024, -2 ** 1024, 2 ** 2000, 255, 256, 65535, 10 ** 15]:
            evs.append((code, num(i)))
        for x in (0.5, -2.25, 1e10, 0.1, -0.0):
            evs.append((code, npflt(x, 'float64')))
        for x in (0.5, -2.25, 65504.0, -0.0):
            evs.append((code, npflt(x, 'float32')))
        evs += [(code, v) for v in (txt('1.5'), dict(NONE), bad('object'), bad('complex'), boolean(True))]
        yield from units(f'float{code}', evs)
    for code in (19, 20):
        lens = [0, 1, 2, 10, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 640] + [rng.randint(0, 255) for _ in range(n)]
        if code == 20:
            lens += [1000, 16382, 16383, 16384, 16385]
        evs = [(code, txt(''.join(chr(rng.randint(32, 126)) for _ in range(m)))) for m in lens]
        for ch in (0, 1, 9, 10, 13, 31, 32, 127, 128, 160, 178, 233, 255, 256, 0x391, 0x20ac, 0x1F600):
            evs.append((code, txt('A' + chr(ch))))
            evs.append((code, txt(chr(ch) * 3)))
        evs.append((code, txt('\u00b2' * 255)))
        evs.append((code, txt('m' * 254 + '\u00b2')))
        evs.append((code, txt('m' * 300 + '\u00b2')))
        for cls, vals in (('Unit', ['ft', 'm', 'degC']), ('FrameIndexType', ['BOREHOLE-DEPTH', 'NON-STANDARD']),
                          ('EquipmentType', ['Tool', 'Drilling-Equipment'])):
            for x in vals:
                evs.append((code, enum(cls, x)))
        yield from units(f'text{code}', evs)
    evs = []
    for y in [1700, 1800, 1898, 1900, 1901, 1902, 1969, 1970, 1999, 2000, 2001, 2023, 2024, 2027, 2028, 2100, 2153, 2154, 2157, 2160,
              2200, 2500] + [rng.randint(1901, 2154) for _ in range(n)]:
        mo = rng.randint(1, 12)
        for us in rng.sample([0, 1, 400, 499, 500, 501, 999, 1000, 1499, 1500, 1501, 123456, 998999, 999000, 999400, 999499, 999500,
                              999501, 999600, 999999], 3):
            off = rng.choice([0, 0, 3600, -3600, 19800, -34200, 12 * 3600, -12 * 3600])
            evs.append((21, dt(y, rng.choice([1, 2, 12, mo]), rng.choice([1, 15, 28, 28]), rng.choice([0, 12, 23]),
                               rng.choice([0, 30, 59]), rng.choice([0, 59]), us, off, rng.choice(['utc', 'fixed']) if off == 0 else 'fixed')))
    evs += [(21, dt(2024, 2, 29, 23, 59, 59, 999999, 0, 'utc')), (21, dt(2000, 2, 29, 0, 0, 0, 0, 3600, 'fixed')),
            (21, dt(2023, 12, 31, 23, 59, 59, 999999, -3600, 'fixed')), (21, txt('2020/01/01 00:00:00')), (21, num(5)), (21, dict(NONE))]
    yield from units('dtime', evs)
    # names: origin reference, copy number, name
    for k in range(scale(tier, 4, 20)):
        c = Case(f'prim ref {k}', 'prim')
        c.file()
        lf = c.lf()
        orgs = rng.sample([0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65536, 2 ** 29, 2 ** 30 - 1], 5)
        for i, o in enumerate(orgs):
            x = c.origin(lf, f'O{i}', org=o, fsn=i + 1)
            for rc in (23, 24):
                c.ev('unit', rc=rc, v=ref(x), via='struct')
        for i in range(20):
            ty = rng.choice(['ZONE', 'AXIS', 'CALIBRATION-COEFFICIENT', 'WELL-REFERENCE', 'NO-FORMAT'])
            x = c.add(lf, ty, rng.choice(['A', 'A', 'N' * rng.choice([1, 127, 128, 254, 255]), 'x y']), org=rng.choice(orgs))
            for rc in (23, 24):
                c.ev('unit', rc=rc, v=ref(x), via='struct')
        for v in (txt('NAME'), num(3), dict(NONE)):
            for rc in (23, 24):
                c.ev('unit', rc=rc, v=v, via='struct')
        yield c.end()


# ------------------------------------------------------------------------------------- text which looks like a number

@family
def numtext(rng, tier):
    """Text made of digits, in attributes which take numbers as well as text (a recorded finding, C05)."""
    for ty, label in (('AXIS', 'COORDINATES'), ('PARAMETER', 'VALUES')):
        for s in ('007', '1e3', '12', '1.50', '-0', 'nan', '0x10', '12 m', '1,5', '1-2'):
            c = Case(f'numtext {ty} {s}', 'numtext', raise_=['C05'])
            c.file()
            lf = c.lf()
            c.basic(lf)
            c.add(lf, ty, 'X', attr(label, lst(txt(s))))
            c.write()
            yield c.end()

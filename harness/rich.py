"""Random specifications which are certainly valid, made of all object types and kinds of values."""

from vals import *
import schema
import enums_table

HCNAME = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-'
PRINT = ''.join(chr(c) for c in range(32, 127))
ALLASCII = ''.join(chr(c) for c in range(128))
UNITS = enums_table.ENUMS['Unit']
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, -2.5, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, 2.0 ** 53, 2.0 ** -1022, 1 / 3,
          123456789.123456789, 3.4028234663852886e38, 1e-45]
INTS = [0, 1, -1, 2, 127, 128, 255, 256, 32767, -32768, 65535, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 53, -2 ** 53]


class Rich:
    """Builds objects in a case; hc: only what the high-compatibility mode allows."""

    def __init__(self, rng, case, hc=False, off=0):
        self.r = rng
        self.c = case
        self.hc = hc
        self.off = off
        self.byty = {}   # (lf, type) -> object ids
        self.names = {}

    # ------------------------------------------------------------------ values
    def name(self, short=False):
        r = self.r
        if self.hc:
            return ''.join(r.choice(HCNAME) for _ in range(r.randint(1, 12)))
        k = r.random()
        if k < 0.5:
            return r.choice(['A', 'B', 'X-1', 'LONG_NAME', 'DEPTH'])
        if k < 0.9:
            return ''.join(r.choice(PRINT) for _ in range(r.randint(1, 20)))
        if k < 0.95:
            return ''.join(r.choice(ALLASCII) for _ in range(r.randint(1, 10)))
        return 'N' * r.choice([127, 128, 254, 255])

    def text(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return ''.join(r.choice(PRINT) for _ in range(r.randint(1, 30)))
        if k < 0.8:
            return ''.join(r.choice(ALLASCII) for _ in range(r.randint(1, 12)))
        if k < 0.85:
            return ''
        return 'x' * r.choice([126, 127, 128, 129, 200, 255, 256, 300])

    def ident(self):
        r = self.r
        if self.hc:
            return self.name()
        k = r.random()
        if k < 0.9:
            return ''.join(r.choice(PRINT) for _ in range(r.randint(1, 20)))
        return 'y' * r.choice([127, 128, 200, 255])

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            return flt(r.choice(FLOATS))
        if k < 0.5:
            return flt(r.uniform(-1e4, 1e4))
        if k < 0.7:
            return num(r.choice(INTS))
        if k < 0.8:
            return npflt(r.choice([0.5, -3.25, 7.0]), r.choice(['float32', 'float64']))
        if k < 0.9:
            t = r.choice(['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32'])
            return npnum(r.choice([0, 1, 100, 127]), t)
        return num(r.randint(-10 ** 6, 10 ** 6))

    def dtime(self):
        r = self.r
        y, mo, d = r.choice([1901, 1970, 1999, 2000, 2024, 2154, r.randint(1902, 2153)]), r.randint(1, 12), r.randint(1, 28)
        h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
        us = r.choice([0, 1, 499, 500, 501, 1000, 999000, 999499, 999500, 999999, r.randint(0, 999999)])
        k = r.random()
        if k < 0.2:
            fmt = r.choice(['%04d/%02d/%02d %02d:%02d:%02d', '%04d.%02d.%02d %02d:%02d:%02d'])
            return txt(fmt % (y, mo, d, h, mi, s), off=self.off)
        if k < 0.5:
            return dt(y, mo, d, h, mi, s, us, self.off, 'naive')
        if k < 0.7:
            return dt(y, mo, d, h, mi, s, us, 0, 'utc')
        return dt(y, mo, d, h, mi, s, us, r.choice([3600, -3600, 19800, -34200, 50400, -43200, 20700, 0]), 'fixed')

    def units(self):
        r = self.r
        if self.hc or r.random() < 0.7:
            u = r.choice(UNITS)
            return enum('Unit', u) if r.random() < 0.3 else txt(u)
        return txt(r.choice(['furlong', 'm/s', 'kg.m', '1/s', 'u' * 255, 'degC ', 'M']))

    def one(self, lf, ty, label, kind):
        r = self.r
        if kind.startswith('ref:'):
            pool = self.byty.get((lf, kind[4:]), [])
            return ref(r.choice(pool)) if pool else None
        if kind == 'oref':
            pool = [x for (l, _), xs in self.byty.items() if l == lf for x in xs]
            return ref(r.choice(pool)) if pool else None
        if kind.startswith('enum:'):
            _, e, soft = kind.split(':')
            if soft == 'soft' and not self.hc and r.random() < 0.15:
                return txt(r.choice(['NOT-STANDARD', 'whatever']))
            v = r.choice(enums_table.ENUMS[e])
            return enum(e, v) if r.random() < 0.5 else txt(v)
        if kind == 'text':
            return txt(self.text())
        if kind in ('ident', 'identv'):
            return txt(self.ident())
        if kind in ('num', 'fdoubl'):
            return self.number()
        if kind == 'unorm':
            return num(r.choice([0, 1, 255, 256, 65535, r.randint(0, 65535)]))
        if kind == 'uvari':
            return num(r.choice([0, 1, 127, 128, 16383, 16384, 2 ** 30 - 1, r.randint(0, 2 ** 30 - 1)]))
        if kind == 'int':
            return num(r.choice([0, 1, -1, 100, 2 ** 31 - 1, -2 ** 31]))
        if kind in ('enc', 'status'):
            return r.choice([num(0), num(1), boolean(True), boolean(False)])
        if kind == 'dim':
            return num(r.choice([1, 2, 3, 127, 128, 16384]))
        if kind == 'dtime':
            return self.dtime()
        if kind == 'dtimef':
            return self.dtime() if r.random() < 0.6 else self.number()
        if kind == 'any':
            return None
        if kind == 'lntext':
            pool = self.byty.get((lf, 'LONG-NAME'), [])
            if pool and r.random() < 0.5:
                return ref(r.choice(pool))
            return txt(self.text())
        raise ValueError(kind)

    def anyvals(self, n):
        r = self.r
        k = r.random()
        if k < 0.4:
            return [txt(r.choice(['abc', 'Q', 'x y', 'N/A', 'val-1', self.text() + 'q'])) for _ in range(n)]
        if k < 0.7:
            return [num(r.choice([0, 1, -1, 5, 2 ** 31 - 1, -2 ** 31])) for _ in range(n)]
        if k < 0.85:
            return [flt(r.choice(FLOATS)) for _ in range(n)]
        return [r.choice([num(r.choice([0, -7, 2 ** 31 - 1])), flt(r.choice(FLOATS))]) for _ in range(n)]

    def value(self, lf, ty, a):
        label, _, _, kind, multi = a
        r = self.r
        if kind == 'any':
            n = r.randint(1, 4)
            xs = self.anyvals(n)
            return lst(*xs) if n > 1 or r.random() < 0.5 else xs[0]
        v = self.one(lf, ty, label, kind)
        if v is None:
            return None
        if multi and r.random() < 0.75:
            n = r.choice([1, 2, 2, 3, 5])
            vs = [self.one(lf, ty, label, kind) for _ in range(n)]
            return lst(*vs, kind=r.choice(['list', 'list', 'tuple']))
        return v

    # ----------------------------------------------------------------- objects
    def attrs_for(self, lf, ty, density):
        """Attributes such that the object is certainly writable."""
        r = self.r
        at = []
        skip = {'REPRESENTATION-CODE', 'FILE-ID', 'CHANNELS' if ty == 'FRAME' else ''}
        if ty in ('PARAMETER', 'COMPUTATION'):
            skip |= {'DIMENSION', 'AXIS', 'ZONES', 'VALUES'}
            zones = self.byty.get((lf, 'ZONE'), [])
            nz = r.randint(1, 3) if zones and r.random() < 0.5 else 0
            if nz:
                at.append(attr('ZONES', lst(*[ref(r.choice(zones)) for _ in range(nz)])))
            if r.random() < 0.8:
                n = nz or (1 if ty == 'PARAMETER' else r.randint(1, 3))
                shape = r.choice([None, None, None, 2, 3])
                if ty == 'PARAMETER':
                    flat = self.anyvals(n * (shape or 1))
                else:
                    flat = [self.number() for _ in range(n * (shape or 1))]
                if shape:
                    v = lst(*[lst(*flat[i * shape:(i + 1) * shape]) for i in range(n)])
                    if not nz and ty == 'PARAMETER' and n > 1:
                        v = lst(*flat[:1])
                else:
                    v = lst(*flat)
                if not nz and ty == 'PARAMETER' and len(flat) > 1:
                    v = lst(flat[0])
                u = self.units() if r.random() < 0.4 else NONE
                at.append(attr('VALUES', v, u))
        if ty in ('CALIBRATION-COEFFICIENT', 'CALIBRATION-MEASUREMENT'):
            group = {'CALIBRATION-COEFFICIENT': ('COEFFICIENTS', 'REFERENCES', 'PLUS-TOLERANCES', 'MINUS-TOLERANCES'),
                     'CALIBRATION-MEASUREMENT': ('MAXIMUM-DEVIATION', 'STANDARD-DEVIATION', 'STANDARD', 'PLUS-TOLERANCE',
                                                 'MINUS-TOLERANCE')}[ty]
            skip |= set(group) | {'DIMENSION', 'AXIS'}
            n = r.randint(1, 3)
            for g in group:
                if r.random() < density:
                    at.append(attr(g, lst(*[self.number() for _ in range(n)]), self.units() if r.random() < 0.3 else NONE))
        if ty == 'SPLICE':
            skip |= {'INPUT-CHANNELS', 'ZONES'}
            zs, cs = self.byty.get((lf, 'ZONE'), []), self.byty.get((lf, 'CHANNEL'), [])
            if zs and cs:
                n = r.randint(1, 3)
                at.append(attr('ZONES', lst(*[ref(r.choice(zs)) for _ in range(n)])))
                at.append(attr('INPUT-CHANNELS', lst(*[ref(r.choice(cs)) for _ in range(n)])))
        if ty == 'ZONE':
            skip |= {'DOMAIN', 'MAXIMUM', 'MINIMUM'}
            dom = r.choice(['BOREHOLE-DEPTH', 'TIME', 'VERTICAL-DEPTH', None])
            if dom:
                at.append(attr('DOMAIN', txt(dom) if r.random() < 0.5 else enum('ZoneDomain', dom)))
            for x in ('MAXIMUM', 'MINIMUM'):
                if r.random() < density:
                    v = self.dtime() if dom == 'TIME' else self.number()
                    if v['t'] == 'txt':
                        v = dt(2001, 2, 3, 4, 5, 6, 7000, self.off)
                    at.append(attr(x, v, self.units() if r.random() < 0.4 and dom != 'TIME' else NONE))
        if ty == 'CHANNEL':
            skip |= {'DIMENSION', 'ELEMENT-LIMIT', 'AXIS'}
        if ty == 'FRAME':
            skip |= {'INDEX-TYPE', 'DIRECTION', 'SPACING', 'INDEX-MIN', 'INDEX-MAX'}
        if ty == 'ORIGIN':
            skip |= {'FILE-SET-NUMBER', 'CREATION-TIME'}
        for a in schema.TYPES[ty][2]:
            if a[0] in skip or r.random() > density:
                continue
            v = self.value(lf, ty, a)
            if v is None:
                continue
            u = NONE
            if a[3] in schema.UNITS_OK and r.random() < 0.4:
                u = self.units()
            at.append(attr(a[0], v, u, r.choice(['setup', 'dict']) if u is not NONE else r.choice(['plain', 'plain', 'setup',
                                                                                                   'dict'])))
        r.shuffle(at)
        return at

    def obj(self, lf, ty, density=0.5, name=None, later=0.0, **kw):
        at = self.attrs_for(lf, ty, density)
        now, then = [], []
        for a in at:
            late = not schema.attr(ty, a['l'])[2] or (self.r.random() < later and a['l'] not in ('FILE-ID', 'FILE-SET-NUMBER'))
            (then if late else now).append(a)
        for a in now:
            if a['via'] == 'plain' and a['u']['t'] != 'none':
                a['via'] = 'setup'
        i = self.c.add(lf, ty, name or self.name(), *now, **kw)
        self.byty.setdefault((lf, ty), []).append(i)
        for a in then:
            if a['u']['t'] != 'none' and self.r.random() < 0.5:
                self.c.set(i, a['l'], a['u'], 'units')
                self.c.set(i, a['l'], a['v'])
            else:
                self.c.set(i, a['l'], a['v'])
                if a['u']['t'] != 'none':
                    self.c.set(i, a['l'], a['u'], 'units')
        return i

    DTS = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64']

    def data(self, dtn, n, k=None, special=True, **kw):
        """Random array: bytes of full entropy now and then."""
        r = self.r
        size = DTSIZE[dtn]
        rows = []
        for _ in range(n):
            row = []
            for _ in range(k or 1):
                if special and r.random() < 0.3:
                    pats = [[0] * size, [255] * size, [128] + [0] * (size - 1), [127] + [255] * (size - 1)]
                    if dtn == 'float64':
                        pats += [[0x7f, 0xf0] + [0] * 6, [0xff, 0xf0] + [0] * 6, [0x7f, 0xf8, 0, 0, 0, 0, 0, 1],
                                 [0x7f, 0xf0, 0, 0, 0, 0, 0, 1], [0xff, 0xff, 1, 2, 3, 4, 5, 6], [0] * 7 + [1]]
                    if dtn == 'float32':
                        pats += [[0x7f, 0x80, 0, 0], [0xff, 0x80, 0, 0], [0x7f, 0xc0, 0, 1], [0x7f, 0x80, 0, 1],
                                 [0xff, 0xff, 1, 2], [0, 0, 0, 1]]
                    row += r.choice(pats)
                else:
                    row += [r.randint(0, 255) for _ in range(size)]
            rows.append(row)
        return array(dtn, [k] if k else [], rows, **kw)

    LAYS = ['C', 'C', 'F', 'strided', 'rev', 'ro', 'unaligned', 'cols', 'sub']

    def channel(self, lf, n, name=None, unsigned=False, density=0.2, inline=True, **kw):
        r = self.r
        dts = [d for d in self.DTS if d.startswith(('u', 'f'))] if unsigned else self.DTS
        dtn = r.choice(dts)
        k = r.choice([None, None, 1, 2, 3])
        a = self.c.arr(self.data(dtn, n, k, lay=r.choice(self.LAYS), bo=r.choice('=<>')))
        i = self.obj(lf, 'CHANNEL', density, name=name, arr=a if inline else 0, **kw)
        return i, a

    def frame(self, lf, chs, name=None, density=0.3, later=0.0, **kw):
        at = self.attrs_for(lf, 'FRAME', density)
        i = self.c.frame(lf, name or self.name(), chs, *at, **kw)
        self.byty.setdefault((lf, 'FRAME'), []).append(i)
        return i

    ORDER = ['ORIGIN', 'ZONE', 'AXIS', 'LONG-NAME', 'EQUIPMENT', 'CHANNEL', 'PARAMETER', 'COMPUTATION', 'TOOL',
             'CALIBRATION-COEFFICIENT', 'CALIBRATION-MEASUREMENT', 'CALIBRATION', 'PROCESS', 'SPLICE', 'FRAME', 'PATH',
             'MESSAGE', 'COMMENT', 'WELL-REFERENCE', 'NO-FORMAT', 'GROUP']

    def logical_file(self, lf, nobj=6, nframes=1, nch=2, nrows=3, types=None, tag='', density=0.4, later=0.2, fsn=None,
                     unsigned=False):
        """A valid logical file with nobj further objects; tag: set name of every object (distinct per logical file)."""
        r = self.r
        kw = {'set': tag} if tag else {}
        at = self.attrs_for(lf, 'ORIGIN', density * 0.5)
        o = self.c.origin(lf, self.name(), *at, fsn=fsn if fsn is not None else r.choice([0, 1, 127, 128, 16384, 2 ** 30 - 1]),
                          **kw)
        self.byty[(lf, 'ORIGIN')] = [o]
        if types is None:
            types = [t for t in self.ORDER if t not in ('ORIGIN', 'CHANNEL', 'FRAME', 'PATH')]
        todo = sorted((r.choice(types) for _ in range(nobj)), key=lambda t: self.ORDER.index(t) + r.uniform(-4, 4))
        before = [t for t in todo if r.random() < 0.5]
        for t in before:
            self.obj(lf, t, density, later=later, **kw)
        for _ in range(nframes):
            n = nrows if isinstance(nrows, int) else r.choice(nrows)
            used = set()
            chs = []
            for _ in range(nch):
                nm = self.name()
                while nm in used:
                    nm = self.name()
                used.add(nm)
                chs.append(self.channel(lf, n, nm, later=later, unsigned=unsigned, **kw)[0])
            self.frame(lf, chs, **kw)
        rest = list(todo)
        for t in before:
            rest.remove(t)
        if not types or 'PATH' in types or r.random() < 0.3:
            rest.append('PATH')
        for t in rest:
            self.obj(lf, t, density, later=later, **kw)
        nfs = self.byty.get((lf, 'NO-FORMAT'), [])
        for _ in range(r.randint(0, 3) if nfs else 0):
            self.c.nf(lf, r.choice(nfs), self.payload())
        return o

    def payload(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 3, 7, 8, 9, 11, 12, 13, 30, 100])
        k = r.random()
        if k < 0.4:
            return txt(''.join(chr(r.randint(0, 127)) for _ in range(n)))
        b = bytes(r.randint(0, 255) for _ in range(n))
        return txt(b, pt='str') if k < 0.7 else txt(b, pt='str', kind='bytearray')

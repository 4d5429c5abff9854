"""Constructors of abstract values and of histories (JSON) for the driver.

Each value has the fields the specification reads (see spec/Build.tla) and, under 'py', hints which only the driver
uses to build the Python object; they are stripped from the trace.
"""

import re
import struct

NONE = {'t': 'none'}
NODT = {'t': 'dt', 'y': 2000, 'mo': 1, 'd': 1, 'h': 0, 'mi': 0, 's': 0, 'us': 0, 'off': 0}

_NUM = re.compile(r'\s*[-+]?(\d[\d_]*(\.[\d_]*)?([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|infinity|nan|)\s*$', re.I)


def codes(s):
    if isinstance(s, (bytes, bytearray)):
        return list(s)
    return [ord(x) for x in s]


def _asdt(s, off):
    m = re.fullmatch(r'(\d{4})([/.])(\d{1,2})\2(\d{1,2}) (\d{1,2}):(\d{1,2}):(\d{1,2})', s)
    if not m:
        return False, dict(NODT)
    y, _, mo, d, h, mi, se = m.groups()
    return True, dt(int(y), int(mo), int(d), int(h), int(mi), int(se), 0, off)


def txt(s, pt='str', off=0, **py):
    """Text; pt: str, enum (py: cls, member), bytes (no-format payloads only)."""
    asdt, d = (False, dict(NODT))
    raw = s
    if isinstance(s, str):
        asdt, d = _asdt(s, off)
    d.pop('py', None)
    v = {'t': 'txt', 'c': codes(s), 'pt': pt, 'asdt': asdt, 'dt': d,
         'asnum': bool(isinstance(raw, str) and _NUM.match(raw)), 'flag': -1}
    if isinstance(s, (bytes, bytearray)):
        py.setdefault('kind', 'bytes')
    if py:
        v['py'] = py
    return v


def enum(cls, value):
    """Member of an enumeration of dliswriter.utils.enums, found by its value."""
    return txt(value, pt='enum', kind='enum', cls=cls)


def num(i, pt='int', **py):
    n = 1 if i < 0 else 0
    a = abs(i)
    m = list(a.to_bytes((a.bit_length() + 7) // 8, 'big')) if a else []
    v = {'t': 'int', 'n': n, 'm': m, 'pt': pt, 'dec': [ord(c) for c in str(a)]}
    if py:
        v['py'] = py
    return v


def npnum(i, dtype):
    return num(i, 'np', np=dtype)


def flt(x, pt='float', **py):
    v = {'t': 'flt', 'b': list(struct.pack('>d', float(x))), 'pt': pt}
    if py:
        v['py'] = py
    return v


def fltbits(hexstr):
    return {'t': 'flt', 'b': list(bytes.fromhex(hexstr)), 'pt': 'float'}


def npflt(x, dtype):
    return flt(x, 'np', np=dtype)


def boolean(b):
    return {'t': 'bool', 'w': bool(b)}


def dt(y, mo, d, h=0, mi=0, s=0, us=0, off=0, tz='naive'):
    """tz: naive (off has to be the offset of the case's time zone), fixed, utc."""
    return {'t': 'dt', 'y': y, 'mo': mo, 'd': d, 'h': h, 'mi': mi, 's': s, 'us': us, 'off': off, 'py': {'tz': tz}}


def ref(o):
    return {'t': 'ref', 'o': o}


def lst(*vs, kind='list'):
    v = {'t': 'list', 'v': list(vs)}
    if kind != 'list':
        v['py'] = {'kind': kind}
    return v


BAD = {
    'int': lambda: num(17), 'float': lambda: flt(1.5), 'intlist': lambda: lst(num(1), num(2)),
    'strlist': lambda: lst(txt('A'), txt('B')), 'none': lambda: dict(NONE), 'nan': lambda: flt(float('nan')),
    'inf': lambda: flt(float('inf')), 'true': lambda: boolean(True), 'str': lambda: txt('SOMETHING'),
    'emptylist': lambda: lst(), 'neg': lambda: num(-1), 'big': lambda: num(2 ** 70),
    'ragged': lambda: lst(lst(num(1), num(2)), lst(num(3))), 'mixed': lambda: lst(num(1), txt('A')),
    'tuple': lambda: lst(num(1), txt('A'), kind='tuple'), 'unicode': lambda: txt('NA\u00cfVE'),
    'long': lambda: txt('L' * 300), 'empty': lambda: txt(''), 'unsupported': lambda: txt('int64'),
}


def bad(kind):
    """A Python object of a wrong kind: an abstract value if it is one, else opaque (see driver.make_bad)."""
    if kind in BAD:
        return BAD[kind]()
    return {'t': 'bad', 'py': {'kind': kind}}


def attr(l, v, u=NONE, via=None):
    """Attribute passed to an add_* call; via: plain, setup, dict."""
    if via is None:
        via = 'plain' if u is NONE or u['t'] == 'none' else 'setup'
    return {'l': l, 'v': v, 'u': u, 'via': via}


DTSIZE = {'int8': 1, 'uint8': 1, 'bool': 1, 'int16': 2, 'uint16': 2, 'int32': 4, 'uint32': 4, 'float32': 4,
          'int64': 8, 'uint64': 8, 'float64': 8, 'float16': 2}


def array(dt, dims, rows, lay='C', bo='='):
    """rows: list of big-endian bytes (list of ints), one per row."""
    return {'dt': dt, 'dims': list(dims), 'n': len(rows), 'rows': [list(r) for r in rows], 'lay': lay, 'bo': bo}


FMT = {'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q',
       'uint64': 'Q', 'float32': 'f', 'float64': 'd', 'float16': 'e', 'bool': '?'}


def packed(dt, x):
    return list(struct.pack('>' + FMT[dt], x))


def array1(dt, values, **kw):
    """One-dimensional array from Python numbers."""
    return array(dt, [], [packed(dt, x) for x in values], **kw)


def array2(dt, rows, **kw):
    k = len(rows[0]) if rows else 1
    return array(dt, [k], [sum((packed(dt, x) for x in r), []) for r in rows], **kw)


class Case:
    """Builder of one history."""

    def __init__(self, id, fam, off=0, **meta):
        self.d = {'id': id, 'fam': fam, 'arrays': [], 'ev': [], 'tzoff': off, 'meta': meta}
        self.off = off
        self.nob = 0
        self.nlf = 0

    def ev(self, op, **kw):
        kw['op'] = op
        self.d['ev'].append(kw)
        return kw

    def arr(self, a):
        self.d['arrays'].append(a)
        return len(self.d['arrays'])

    def proc(self):
        self.nlf = 0
        self.ev('proc')

    def file(self, id='SET-1', seq=1, mrl=8192, via='kw'):
        t = lambda x: x if isinstance(x, dict) else txt(x)
        n = lambda x: x if isinstance(x, dict) else num(x)
        self.nlf = 0
        self.ev('file', seq=n(seq), mrl=n(mrl), id=t(id), via=via)

    def lf(self, id='HEADER', name='0', seq=1, via='kw'):
        t = lambda x: x if isinstance(x, dict) else txt(x)
        n = lambda x: x if isinstance(x, dict) else num(x)
        self.ev('lf', seq=n(seq), id=t(id), name=t(name), via=via)
        self.nlf += 1
        return self.nlf

    def add(self, lf, ty, name, *attrs, set=NONE, org=NONE, arr=0, ds=NONE, cast='', strict=True, castvia='np'):
        self.nob += 1
        t = lambda x: txt(x) if isinstance(x, str) else x
        o = num(org) if isinstance(org, int) else org
        self.ev('add', lf=lf, ob=self.nob, ty=ty, name=t(name), set=t(set), org=o, attrs=list(attrs), arr=arr, ds=t(ds),
                cast=cast, castvia=castvia, strict=strict)
        return self.nob

    def origin(self, lf, name='ORIGIN', *attrs, fsn=1, created=True, **kw):
        a = list(attrs)
        if fsn is not None:
            a.insert(0, attr('FILE-SET-NUMBER', num(fsn)))
        if created:
            a.append(attr('CREATION-TIME', dt(2020, 5, 17, 10, 11, 12, 0, 0, 'utc')))
        return self.add(lf, 'ORIGIN', name, *a, **kw)

    def channel(self, lf, name, *attrs, **kw):
        return self.add(lf, 'CHANNEL', name, *attrs, **kw)

    def frame(self, lf, name, channels, *attrs, **kw):
        return self.add(lf, 'FRAME', name, attr('CHANNELS', lst(*[ref(c) for c in channels])), *attrs, **kw)

    def basic(self, lf=None, n=2, dt='uint8', name='CH', frame='FR', **kw):
        """Origin, one channel with data, one frame."""
        if lf is None:
            self.file(**kw)
            lf = self.lf()
        o = self.origin(lf)
        a = self.arr(array1(dt, [i % 100 for i in range(n)]))
        c = self.channel(lf, name, arr=a)
        f = self.frame(lf, frame, [c])
        return o, c, f

    def nf(self, lf, ob, pay):
        self.ev('nf', lf=lf, ob=ob, pay=pay)

    def set(self, ob, l, v, part='value'):
        self.ev('set', ob=ob, l=l, part=part, v=v)

    def rename(self, ob, name):
        self.ev('ren', ob=ob, name=txt(name) if isinstance(name, str) else name)

    def org(self, ob, v):
        self.ev('org', ob=ob, v=num(v) if isinstance(v, int) else v)

    def cast(self, ob, c):
        self.ev('cast', ob=ob, cast=c)

    def ds(self, ob, v):
        self.ev('ds', ob=ob, v=txt(v) if isinstance(v, str) else v)

    def hcin(self, via='with'):
        self.ev('hcin', via=via)

    def hcout(self, exc=False):
        self.ev('hcout', exc=exc)

    def probe(self):
        self.ev('probe')

    def write(self, src='none', map=(), fr=0, to=-1, ich=0, och=65536, strict=True, uniform=True, **kw):
        """map: list of (dataset name, array id)."""
        m = [{'ds': codes(k), 'arr': a} for k, a in map]
        self.ev('write', **{'from': fr}, to=to, ich=ich, och=och, src={'kind': src, 'map': m}, strict=strict,
                uniform=uniform, **kw)

    def end(self):
        return self.d

"""Runs histories against the real library and records what happened.

A history (harness/vals.py) is a list of public calls.  Every segment of it (separated by 'proc') runs in a process
of its own, forked from this one, which has imported the library but not used it.  The result is the trace case which
spec/Trace.tla checks: the calls, their outcomes, and the files written.

Run by the Python in which dliswriter is installed.
"""

import contextlib
import hashlib
import json
import logging
import multiprocessing
import os
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings

os.environ['WELL_ID_DLISWRITER_VERIF'] = '1'
os.environ['PROGRESSBAR_DISABLE_FASTPATH'] = '1'     # its checks depend on the time otherwise
sys.dont_write_bytecode = True

import h5py                                                                                        # noqa: E402
import numpy as np                                                                                 # noqa: E402

import dliswriter                                                                                  # noqa: E402
from dliswriter import DLISFile, AttrSetup, StorageUnitLabel, high_compatibility_mode              # noqa: E402
from dliswriter import high_compatibility_mode_decorator, eflr_types, enums                        # noqa: E402
try:
    from dliswriter.utils.internal import verif_tap                                                # noqa: E402
except ImportError:
    verif_tap = None
import schema                                                                                      # noqa: E402

CASE_TIMEOUT = 30
MAX_SNAPS = 200


class Skip(Exception):
    """The call cannot be made (it would use an object whose creation was refused)."""


class _Leave(Exception):
    pass


# ------------------------------------------------------------------------------------------------- Python values

class Thing:
    """An object of no use."""

    def __str__(self):
        return 'THING'


def make_bad(kind):
    return {
        'object': lambda: Thing(), 'int': lambda: 17, 'float': lambda: 1.5, 'bytes': lambda: b'ABC',
        'dict': lambda: {'valeu': 1}, 'set': lambda: {1, 2}, 'complex': lambda: 1 + 2j, 'list': lambda: [Thing()],
        'intlist': lambda: [1, 2], 'strlist': lambda: ['A', 'B'], 'type': lambda: int, 'none': lambda: None,
        'nan': lambda: float('nan'), 'inf': lambda: float('inf'), 'true': lambda: True, 'str': lambda: 'SOMETHING',
        'array': lambda: np.arange(3.), 'emptylist': lambda: [], 'neg': lambda: -1, 'big': lambda: 2 ** 70,
        'ragged': lambda: [[1, 2], [3]], 'mixed': lambda: [1, 'A'], 'tuple': lambda: (1, 'A'), 'func': lambda: print,
        'unicode': lambda: 'NA\u00cfVE', 'long': lambda: 'L' * 300, 'empty': lambda: '',
        'float16': lambda: np.float16(1.5), 'int64arr': lambda: np.arange(4), 'unsupported': lambda: 'int64',
    }[kind]()


class Ctx:
    def __init__(self, case, work):
        self.case = case
        self.work = work
        self.file = None
        self.lfs = []
        self.obs = {}
        self.inline = {}
        self.nwrite = 0
        self.records = []      # log records of the current call
        self.taps = []
        self.flushes = []
        self.snaps = []        # (size, digest) of the target at the moments observed
        self.target = None
        self.sent = 0


def txt_of(v):
    return ''.join(map(chr, v['c']))


def make(ctx, v):
    t, py = v['t'], v.get('py', {})
    if t == 'none':
        return None
    if t == 'bad':
        return make_bad(py['kind'])
    if t == 'txt':
        k = py.get('kind')
        if k == 'enum':
            cls = getattr(enums, py['cls'])
            s = txt_of(v)
            for m in cls:
                if str.__str__(m) == s or m.value == s:
                    return m
            raise Skip
        if k == 'bytes':
            return bytes(v['c'])
        if k == 'bytearray':
            return bytearray(v['c'])
        if k == 'npstr':
            return np.str_(txt_of(v))
        return txt_of(v)
    if t == 'int':
        i = int.from_bytes(bytes(v['m']), 'big') * (-1 if v['n'] else 1)
        return getattr(np, py['np'])(i) if 'np' in py else i
    if t == 'flt':
        x = struct.unpack('>d', bytes(v['b']))[0]
        return getattr(np, py['np'])(x) if 'np' in py else x
    if t == 'bool':
        return v['w']
    if t == 'dt':
        from datetime import datetime, timedelta, timezone
        tz = {'naive': None, 'utc': timezone.utc, 'fixed': timezone(timedelta(seconds=v['off']))}[py.get('tz', 'naive')]
        return datetime(v['y'], v['mo'], v['d'], v['h'], v['mi'], v['s'], v['us'], tz)
    if t == 'ref':
        if v['o'] not in ctx.obs:
            raise Skip
        return ctx.obs[v['o']]
    if t == 'list':
        xs = [make(ctx, x) for x in v['v']]
        k = py.get('kind')
        if k == 'tuple':
            return tuple(xs)
        if k == 'nparray':
            return np.array(xs)
        return xs
    raise ValueError(t)


class MyArray(np.ndarray):
    """A subclass which gives scalars, like numpy.memmap."""

    def __array_wrap__(self, array, context=None, return_scalar=False):
        return array[()] if return_scalar or array.ndim == 0 else np.asarray(array).view(type(self))


NPDT = {'str': 'U3', 'object': 'O', 'datetime64': 'M8[s]', 'bytes': 'S2'}


def make_array(a, plain=False):
    """numpy array of the requested dtype, memory layout and byte order."""
    dtn = NPDT.get(a['dt'], a['dt'])
    dims = tuple(a['dims'])
    n = a['n']
    if a['dt'] in NPDT or 'complex' in a['dt'] or 'longdouble' in a['dt']:
        x = np.zeros((n,) + dims, dtype=dtn)
        if a['dt'] == 'str':
            x[:] = 'ab'
        return x
    buf = b''.join(bytes(r) for r in a['rows'])
    be = np.dtype(dtn).newbyteorder('>')
    base = np.frombuffer(buf, dtype=be).reshape((n,) + dims)
    bo = a.get('bo', '=')
    want = np.dtype(dtn).newbyteorder(bo)

    def conv(y, order='C'):
        # byte swapping with view keeps NaN payloads
        raw = y.view(np.uint8 if be.itemsize == 1 else f'>u{be.itemsize}') if be.kind == 'f' else y
        if be.kind == 'f':
            return np.array(raw.astype(np.dtype(f'u{be.itemsize}').newbyteorder(bo)), order=order).view(want)
        return np.array(y.astype(want), order=order)

    x = conv(base)
    lay = 'C' if plain else a.get('lay', 'C')
    if lay == 'F':
        return np.asfortranarray(x)
    if lay == 'strided':
        big = np.zeros((2 * n,) + dims, dtype=want)
        big.view(np.uint8)[...] = 0xEE
        big[::2] = 0
        v = big[::2]
        v[...] = x
        _copybits(v, x)
        return v
    if lay == 'rev':
        return _bits(x[::-1])[::-1]
    if lay == 'cols' and dims:
        big = np.zeros((n, 2 * dims[0]) + dims[1:], dtype=want)
        v = big[:, ::2]
        _copybits(v, x)
        return v
    if lay == 'ro':
        x = x.copy()
        x.flags.writeable = False
        return x
    if lay == 'unaligned':
        raw = bytearray(x.nbytes + 1)
        v = np.frombuffer(raw, dtype=want, offset=1, count=x.size).reshape(x.shape)
        _copybits(v, x)
        return v
    if lay == 'sub':
        return x.view(MyArray)
    return x


def _copybits(dst, src):
    if dst.dtype.kind == 'f':
        dst.view(f'u{dst.dtype.itemsize}')[...] = src.view(f'u{src.dtype.itemsize}')
    else:
        dst[...] = src


def _bits(x):
    y = np.empty_like(x, order='C') if x.dtype.kind != 'f' else np.empty(x.shape, dtype=x.dtype)
    _copybits(y, x) if x.dtype.kind != 'f' else y.view(f'u{y.dtype.itemsize}').__setitem__(
        ..., np.ascontiguousarray(x.view(f'u{x.dtype.itemsize}') if x.flags.c_contiguous else
                                  x.copy().view(f'u{x.dtype.itemsize}')))
    return y


def root_of(x):
    while isinstance(x.base, np.ndarray):
        x = x.base
    return x


def digest_array(x):
    h = hashlib.sha256()
    r = root_of(x)
    for y in (x, r):
        h.update(repr((y.dtype.str, y.dtype.descr, y.shape, y.strides, y.flags.writeable)).encode())
        if y.dtype.hasobject:
            h.update(repr(y.tolist()).encode())
        else:
            h.update(y.tobytes())
    return h.hexdigest()


def digest_file(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


# ---------------------------------------------------------------------------------------------------- recording

class Handler(logging.Handler):
    def __init__(self, ctx):
        super().__init__(logging.DEBUG)
        self.ctx = ctx

    def emit(self, r):
        try:
            self.ctx.records.append((r.levelno, r.getMessage()))
        except Exception:
            self.ctx.records.append((r.levelno, str(r.msg)))


def install(ctx):
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(Handler(ctx))
    root.setLevel(logging.INFO)
    lg = logging.getLogger('dliswriter')
    lg.setLevel(logging.INFO)
    lg.propagate = True

    def showwarning(message, category, *a, **k):
        ctx.records.append((logging.WARNING, str(message)))
    warnings.showwarning = showwarning
    warnings.simplefilter('always')

    if verif_tap is not None and getattr(verif_tap, 'enabled', False):
        def listener(kind, *args):
            if ctx.target is None:
                return
            if kind == 'lr':
                if len(ctx.taps) < 20000:
                    ctx.taps.append((1 if args[0] else 0, args[1], bytes(args[2])))
            elif kind == 'flush':
                snapshot(ctx)
        verif_tap.listeners.append(listener)

    def hook(event, args):
        if event == 'open' and ctx.target is not None and ctx.hooked:
            try:
                p = args[0]
                if isinstance(p, bytes):
                    p = os.fsdecode(p)
                if isinstance(p, (str, os.PathLike)) and os.path.abspath(os.fspath(p)) == ctx.target:
                    ctx.hooked = False
                    try:
                        ctx.nopen += 1
                        if ctx.nopen > 1:
                            snapshot(ctx)
                    finally:
                        ctx.hooked = True
            except Exception:
                pass
    sys.addaudithook(hook)
    ctx.hooked = False
    ctx.nopen = 0


def snapshot(ctx):
    was, ctx.hooked = ctx.hooked, False
    try:
        with open(ctx.target, 'rb') as f:
            b = f.read()
        s = (len(b), hashlib.sha256(b).hexdigest())
        if (not ctx.snaps or ctx.snaps[-1] != s) and len(ctx.snaps) < MAX_SNAPS:
            ctx.snaps.append(s)
    except OSError:
        pass
    finally:
        ctx.hooked = was


# --------------------------------------------------------------------------------------------------------- calls

def call(ctx, ev, fn):
    """Make a call and record its outcome in the event."""
    ctx.records = []
    try:
        r = fn()
        ev['ok'], ev['exc'] = True, ''
    except Skip:
        raise
    except Exception as e:
        r = None
        ev['ok'], ev['exc'] = False, f'{type(e).__name__}: {str(e)[:150]}'.encode('ascii', 'replace').decode()\
            .replace('|', '/').replace('\n', ' ')
    ev['warn'] = sum(1 for lv, _ in ctx.records if lv >= logging.WARNING)
    return r


def do_file(ctx, ev):
    a = dict(seq=make(ctx, ev['seq']), mrl=make(ctx, ev['mrl']), id=make(ctx, ev['id']))

    def go():
        if ev.get('via') == 'sul':
            return DLISFile(storage_unit_label=StorageUnitLabel(
                set_identifier=a['id'], sequence_number=a['seq'], max_record_length=a['mrl']))
        return DLISFile(set_identifier=a['id'], sul_sequence_number=a['seq'], max_record_length=a['mrl'])
    r = call(ctx, ev, go)
    if ev['ok']:
        ctx.file, ctx.lfs, ctx.obs = r, [], {}


def do_lf(ctx, ev):
    if ctx.file is None:
        raise Skip
    i, n, s = make(ctx, ev['id']), make(ctx, ev['name']), make(ctx, ev['seq'])

    def go():
        if ev.get('via') == 'fh':
            fh = eflr_types.FileHeaderItem(header_id=i, identifier=n, sequence_number=s,
                                           parent=eflr_types.FileHeaderSet())
            return ctx.file.add_logical_file(file_header=fh)
        return ctx.file.add_logical_file(fh_id=i, fh_identifier=n, fh_sequence_number=s)
    r = call(ctx, ev, go)
    if ev['ok']:
        ctx.lfs.append(r)


def inline_array(ctx, k):
    if k not in ctx.inline:
        ctx.inline[k] = make_array(ctx.case['arrays'][k - 1])
    return ctx.inline[k]


def cast_of(c, via='np'):
    if not c:
        return None
    if c.startswith('bad'):
        return make_bad(c.split(':')[1])
    return np.dtype(c) if via == 'dtype' else getattr(np, c)


def do_add(ctx, ev):
    if ev['lf'] > len(ctx.lfs):
        raise Skip
    lf = ctx.lfs[ev['lf'] - 1]
    method = schema.TYPES[ev['ty']][0]
    kw = {}
    for a in ev['attrs']:
        v, u = make(ctx, a['v']), make(ctx, a['u'])
        k = schema.attr(ev['ty'], a['l'])[2]
        via = a.get('via', 'plain')
        if via == 'plain':
            kw[k] = v
        elif via == 'setup':
            kw[k] = AttrSetup(v, u)
        else:
            kw[k] = {x: y for x, y in (('value', v), ('units', u)) if y is not None}
    if ev['set']['t'] != 'none':
        kw['set_name'] = make(ctx, ev['set'])
    if ev['org']['t'] != 'none':
        kw['origin_reference'] = make(ctx, ev['org'])
    if ev['ty'] == 'CHANNEL':
        if ev['arr']:
            kw['data'] = inline_array(ctx, ev['arr'])
        elif ev.get('baddata'):
            kw['data'] = make_bad(ev['baddata'])
        if ev['ds']['t'] != 'none':
            kw['dataset_name'] = make(ctx, ev['ds'])
        if ev['cast']:
            kw['cast_dtype'] = cast_of(ev['cast'], ev.get('castvia', 'np'))
    for k, b in ev.get('badkw', {}).items():
        kw[k] = make_bad(b)
    name = make(ctx, ev['name'])
    item = call(ctx, ev, lambda: getattr(lf, method)(name, **kw))
    ev['obs'] = {'o': -1, 'c': -1, 'ds': []}
    if ev['ok']:
        ctx.obs[ev['ob']] = item
        o = item.origin_reference
        ev['obs'] = {'o': int(o) if o is not None else -1, 'c': int(item.copy_number),
                     'ds': [ord(c) for c in item.dataset_name] if ev['ty'] == 'CHANNEL' else []}


def do_nf(ctx, ev):
    ob = ctx.obs.get(ev['ob'])
    if ob is None and ev['ob'] != 0:
        raise Skip
    if ev['lf'] > len(ctx.lfs):
        raise Skip
    pay = make(ctx, ev['pay'])
    call(ctx, ev, lambda: ctx.lfs[ev['lf'] - 1].add_no_format_frame_data(ob, pay))


def do_set(ctx, ev):
    ob = ctx.obs.get(ev['ob'])
    if ob is None:
        raise Skip
    ty = ob.parent.set_type
    v = make(ctx, ev['v'])
    at = getattr(ob, schema.attr(ty, ev['l'])[1])
    if ev.get('via') == 'set_attributes':
        k = schema.attr(ty, ev['l'])[1]
        call(ctx, ev, lambda: ob.set_attributes(**{f'{k}.units' if ev['part'] == 'units' else k: v}))
    else:
        call(ctx, ev, lambda: setattr(at, 'value' if ev['part'] == 'value' else 'units', v))


def do_write(ctx, ev):
    if ctx.file is None:
        raise Skip
    ctx.nwrite += 1
    path = os.path.join(ctx.work, f'out{ctx.nwrite}.dlis')
    if ev.get('reuse'):
        path = os.path.join(ctx.work, 'same.dlis')
    if ev.get('pre'):
        with open(path, 'wb') as f:
            f.write(b'\xff\x01PREVIOUS' * ev['pre'])
    src, held, files = ev['src'], [], []
    kw = {}
    kind = src['kind']
    ars = ctx.case['arrays']
    names = [''.join(map(chr, m['ds'])) for m in src['map']]
    data = None
    if kind == 'dict':
        data = {}
        for nm, m in zip(names, src['map']):
            data[nm] = make_array(ars[m['arr'] - 1])
            held.append((nm, data[nm]))
        for k, b in ev.get('badmap', {}).items():
            data[k] = make_bad(b)
    elif kind == 'struct':
        a0 = ars[src['map'][0]['arr'] - 1]
        descr = []
        for nm, m in zip(names, src['map']):
            a = ars[m['arr'] - 1]
            d = np.dtype(NPDT.get(a['dt'], a['dt'])).newbyteorder(a.get('bo', '='))
            descr.append((nm, d, tuple(a['dims'])) if a['dims'] else (nm, d))
        data = np.zeros(a0['n'], dtype=np.dtype(descr, align=bool(ev.get('align'))))
        for nm, m in zip(names, src['map']):
            x = make_array(ars[m['arr'] - 1], plain=True)
            if x.dtype.kind == 'f':
                v = data[nm]
                raw = np.ndarray(v.shape, np.dtype(f'u{x.dtype.itemsize}').newbyteorder(x.dtype.byteorder), data,
                                 offset=data.dtype.fields[nm][1], strides=v.strides)
                raw[...] = x.view(np.dtype(f'u{x.dtype.itemsize}').newbyteorder(x.dtype.byteorder))
            else:
                data[nm] = x
        if ev.get('lay') == 'strided':
            big = np.zeros(2 * len(data), dtype=data.dtype)
            for i in range(len(data)):
                big[2 * i:2 * i + 1].view(np.uint8)[...] = data[i:i + 1].view(np.uint8)
            data = big[::2]
        elif ev.get('lay') == 'ro':
            data.flags.writeable = False
        elif ev.get('lay') == 'rec':
            data = data.view(np.recarray)
        held.append(('struct', data))
    elif kind == 'hdf5':
        hp = os.path.join(ctx.work, f'src{ctx.nwrite}.h5')
        with h5py.File(hp, 'w') as h5:
            for nm, m in zip(names, src['map']):
                a = ars[m['arr'] - 1]
                opts = dict(chunks=True, compression='gzip') if ev.get('h5chunks') and a['n'] else {}
                x = make_array(a, plain=True)
                ds = h5.create_dataset(nm, shape=x.shape, dtype=x.dtype, **opts)
                if x.size:
                    ds[...] = x
        files.append(hp)
        data = hp
    elif kind == 'bad':
        data = make_bad(src['what'])
    if kind != 'none':
        kw['data'] = data
    if ev['from'] != 0 or ev.get('passfrom'):
        kw['from_idx'] = ev['from']
    if ev['to'] != -1:
        kw['to_idx'] = ev['to']
    if ev['ich'] != 0:
        kw['input_chunk_size'] = ev['ich']
    kw['output_chunk_size'] = float(ev['och']) if ev.get('ochfloat') else ev['och']
    for k, b in ev.get('badopt', {}).items():
        kw[k] = make_bad(b)

    def state():
        d = {}
        for k, x in ctx.inline.items():
            d[f'inline array {k}'] = digest_array(x)
        for k, x in held:
            d[f'passed array {k}'] = digest_array(x)
        for p in files:
            d['hdf5 file'] = digest_file(p)
        if kind == 'dict':
            d['dict keys'] = repr(list(data.keys()))
            d['dict values'] = repr([id(x) for x in data.values()])
        return d

    before = state()
    ctx.taps, ctx.snaps, ctx.nopen = [], [], 0
    ctx.target = os.path.abspath(path)
    ctx.hooked = True
    target = path
    if ev.get('target') == 'dir':
        target = ctx.work
    elif ev.get('target') == 'nodir':
        target = os.path.join(ctx.work, 'nonexistent', 'x.dlis')
    elif ev.get('target') == 'path':
        from pathlib import Path
        target = Path(path)
    out = os.dup(1), os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    try:
        call(ctx, ev, lambda: ctx.file.write(target, **kw))
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(out[0], 1)
        os.dup2(out[1], 2)
        for x in out + (nul,):
            os.close(x)
        ctx.hooked = False
        ctx.target = None
    after = state()
    mut = [k for k in before if before[k] != after.get(k)]
    ev['mutwhat'] = ', '.join(mut)
    ev['before'], ev['after'] = ('same', 'same') if not mut else ('before', 'after')
    content = b''
    if ev['ok'] and os.path.exists(path):
        with open(path, 'rb') as f:
            content = f.read()
    ev['content'] = content.hex() if ev['ok'] else ''
    ev['size'] = len(content)
    ev['dg'] = hashlib.sha256(content).hexdigest()
    rep = -1
    for lv, m in ctx.records:
        mm = re.search(r'[Tt]otal file size is (\d+) bytes', m)
        if mm:
            rep = int(mm.group(1))
    ev['rep'] = rep
    ev['snaps'] = [{'n': n, 'dg': d, 'pd': hashlib.sha256(content[:n]).hexdigest()} for n, d in ctx.snaps] \
        if ev['ok'] else []
    taps = []
    if ev['ok'] and ev.get('taps', True):
        for e, ty, body in ctx.taps:
            if len(body):
                try:
                    t = ty[0] if isinstance(ty, (bytes, bytearray)) else int(ty)
                except Exception:
                    t = -1
                taps.append({'e': e, 'ty': t, 'body': list(body)})
    ev['taps'] = taps
    if os.path.exists(path) and not ev.get('reuse'):
        os.unlink(path)


def do_probe(ctx, ev):
    def go():
        f = DLISFile(set_identifier='PROBE')
        f.add_logical_file().add_zone('lower case')
    call(ctx, ev, go)
    ev['hc'] = not ev['ok']


def do_simple(ctx, ev):
    ob = ctx.obs.get(ev['ob'])
    if ob is None:
        raise Skip
    op = ev['op']
    if op == 'ren':
        v = make(ctx, ev['name'])
        call(ctx, ev, lambda: setattr(ob, 'name', v))
    elif op == 'org':
        v = make(ctx, ev['v'])
        call(ctx, ev, lambda: setattr(ob, 'origin_reference', v))
    elif op == 'cast':
        v = cast_of(ev['cast'])
        call(ctx, ev, lambda: setattr(ob, 'cast_dtype', v))
    elif op == 'ds':
        v = make(ctx, ev['v'])
        call(ctx, ev, lambda: setattr(ob, 'dataset_name', v))


def do_unit(ctx, ev):
    """The encoding of one value (property C06), through the function which encodes all values."""
    try:
        from dliswriter.utils.internal.struct_writer import write_struct
        from dliswriter.utils.internal.internal_enums import RepresentationCode
    except ImportError:
        raise Skip
    v = make(ctx, ev['v'])
    rc = RepresentationCode(ev['rc'])
    ev['out'] = []
    if ev.get('via') == 'convert':
        r = call(ctx, ev, lambda: rc.convert(v))
    else:
        r = call(ctx, ev, lambda: write_struct(rc, v))
    if ev['ok']:
        ev['out'] = list(r)


def do_read(ctx, ev):
    """Look at the specification through its public properties; changes nothing."""
    for i, ob in ctx.obs.items():
        try:
            str(ob), ob.obname, ob.attributes, repr(ob)
            for a in ob.attributes.values():
                a.value, a.units, a.count, a.representation_code, str(a)
        except Exception:
            pass
    for lf in ctx.lfs:
        for a in ('channels', 'frames', 'origins', 'file_header', 'default_origin_reference', 'defining_origin'):
            try:
                getattr(lf, a)
            except Exception:
                pass
    ev['ok'], ev['exc'], ev['warn'] = True, '', 0


OPS = {'file': do_file, 'lf': do_lf, 'add': do_add, 'nf': do_nf, 'set': do_set, 'write': do_write, 'probe': do_probe,
       'ren': do_simple, 'org': do_simple, 'cast': do_simple, 'ds': do_simple, 'unit': do_unit, 'read': do_read}


def strip(x):
    """Remove what only the driver reads from values."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != 'py'}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def run_ops(ctx, ops, i, out, end_on_leave=False):
    """Run ops[i:]; returns the index after the last one run (at a matching hcout if nested)."""
    while i < len(ops):
        ev = ops[i]
        op = ev['op']
        if op == 'hcout' and end_on_leave:
            return i
        if op == 'hcin':
            ev = {'op': 'hcin'}
            out(ev)
            box = {}

            def inner():
                box['i'] = run_ops(ctx, ops, i + 1, out, True)
                j = box['i']
                if j < len(ops) and ops[j].get('exc'):
                    raise _Leave
            try:
                if ops[i].get('via') == 'deco':
                    high_compatibility_mode_decorator(inner)()
                else:
                    with high_compatibility_mode():
                        inner()
            except _Leave:
                pass
            i = box['i']
            if i < len(ops):
                out({'op': 'hcout'})
                i += 1
            continue
        if op == 'proc':
            i += 1
            continue
        ev = json.loads(json.dumps(ev))
        try:
            OPS[op](ctx, ev)
        except Skip:
            i += 1
            continue
        ev = strip(ev)
        out(ev)
        i += 1
    return i


def child(case, ops, work, w):
    os.environ['TZ'] = 'XXX%s%02d:%02d' % ('-' if case.get('tzoff', 0) >= 0 else '+', abs(case.get('tzoff', 0)) // 3600,
                                           abs(case.get('tzoff', 0)) % 3600 // 60)
    time.tzset()
    ctx = Ctx(case, work)
    install(ctx)

    def out(ev):
        w.write((json.dumps(ev) + '\n').encode())
        w.flush()
    try:
        run_ops(ctx, ops, 0, out)
        out({'op': 'finished'})
    except BaseException:
        out({'op': 'crash', 'what': traceback.format_exc()})


def run_segment(case, ops, timeout):
    work = tempfile.mkdtemp(prefix='dlisdrv', dir=os.environ.get('VERIF_TMP', None))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setsid()
            child(case, ops, work, os.fdopen(w, 'wb'))
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    end = time.time() + timeout
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    shutil.rmtree(work, ignore_errors=True)
    evs = []
    for ln in bytes(buf).split(b'\n'):
        if ln.strip():
            try:
                evs.append(json.loads(ln))
            except ValueError:
                pass
    state = 'hang' if hang else 'died'
    what = ''
    if evs and evs[-1]['op'] == 'finished':
        evs.pop()
        state = 'ok'
    elif evs and evs[-1]['op'] == 'crash':
        what = evs.pop()['what']
        state = 'crash'
    return evs, state, what


def run_case(case):
    """Trace case of a history."""
    t0 = time.time()
    segs = [[]]
    for ev in case['ev']:
        if ev['op'] == 'proc':
            segs.append([])
        else:
            segs[-1].append(ev)
    out, problems = [], []
    files, index = [], {}
    for k, ops in enumerate(segs):
        if k:
            out.append({'op': 'proc'})
        evs, state, what = run_segment(case, ops, case.get('timeout', CASE_TIMEOUT))
        for ev in evs:
            if ev['op'] == 'write':
                c = ev.pop('content')
                if ev['ok']:
                    if c not in index:
                        files.append(list(bytes.fromhex(c)))
                        index[c] = len(files)
                    ev['f'] = index[c]
                else:
                    ev['f'] = 0
            out.append(ev)
        if state == 'hang' or state == 'died':
            # the call which did not come back counts as one that raised
            problems.append(f'{state} in segment {k + 1} after {len(evs)} events')
            done = sum(1 for e in evs)
            nxt = [o for o in ops if o['op'] != 'proc'][done:done + 1]
            if nxt and nxt[0]['op'] == 'write':
                ev = strip(nxt[0])
                ev.update(ok=False, exc=state, warn=0, f=0, dg='', size=0, rep=-1, snaps=[], taps=[], before='same',
                          after='same', mutwhat='')
                out.append(ev)
            break
        if state == 'crash':
            raise RuntimeError(f"driver failed in case {case['id']}: {what}")
    out.append({'op': 'end'})
    ars = [{k: a[k] for k in ('dt', 'dims', 'n', 'rows')} for a in case['arrays']]
    return {'id': case['id'], 'arrays': ars, 'files': files, 'ev': out}, problems, time.time() - t0


HANGS = multiprocessing.Value('i', 0)
MAX_HANGS = 24


def _work(job):
    case, deadline = job
    if deadline and time.time() > deadline or HANGS.value > MAX_HANGS:
        return None, [], 0
    try:
        r = run_case(case)
        if any(p.startswith('hang') for p in r[1]):
            with HANGS.get_lock():
                HANGS.value += 1
        return r
    except Exception as e:
        return {'id': case['id'], 'error': f'{e}'}, [], 0


def run_cases(cases, procs=8, deadline=None):
    """Traces of many cases, in order; None for those left out (past the deadline, or after too many hung calls)."""
    jobs = [(c, deadline) for c in cases]
    if procs <= 1 or len(cases) < 4:
        return [_work(j) for j in jobs]
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        return pool.map(_work, jobs, chunksize=max(1, min(8, len(cases) // (procs * 4) or 1)))


if __name__ == '__main__':
    cases = [json.loads(ln) for ln in open(sys.argv[1])]
    with open(sys.argv[2], 'w') as f:
        for tr, problems, t in run_cases(cases):
            f.write(json.dumps(tr) + '\n')

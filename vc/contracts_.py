"""Contracts of callees: a caller is checked against these, not against the callee's body.
Each of them is itself discharged by the entries of drivers/d_varint.cpp (property C01), which
every check that uses them runs too."""
import re
import z3
from engine import *
from engine import DeadPath

BV = lambda v: z3.BitVecVal(v, 64)
ENC_FIRST = z3.Function('varint_first_byte', z3.BitVecSort(64), z3.BitVecSort(8))
ARR = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))
DEC_N = z3.Function('varint_size', ARR, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
DEC_OK = z3.Function('varint_ok', ARR, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
DEC_V = z3.Function('varint_value', ARR, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


KEEP = []


class VarTok:
    """the bytes encodeVarint64(v) wrote: not looked into, only decodeVarint reads them back"""
    def __init__(s, v, b, n): s.v, s.b, s.n, s.arr = v, b, n, None

    def first_byte(s, e, st): return s.b

    def byte(s, e, i):
        if s.arr is None: s.arr = e.fresh_arr('tok')
        return z3.If(i == 0, s.b, z3.Select(s.arr, i))


def same_value(e, st, v, obj):
    """an earlier encoding of the same value elsewhere (the encoder is a function: entry c01_encode_frame)"""
    for oid, c in st.mem.items():
        if oid == obj.id: continue
        for l in c.log:
            if l[0] == 'tok' and (l[4].v is v or is_sym(v) and is_sym(l[4].v) and (l[4].v.eq(v) or e.valid(st, l[4].v == v))): return l[4]
    return None


def varint_size(v):
    """exact size of the code of v (contract of encodeVarint64, entry c01_size)"""
    v = bv(v, 64)
    u = z3.simplify(((v << 1) ^ (v >> 63)) + 1)
    r = BV(10)
    for k in range(9, 0, -1): r = z3.If(z3.ULT(u, BV(1 << (7 * k))), BV(k), r)
    return z3.simplify(z3.If(v == BV(1 << 63), BV(10), r))


def c_encode(e, st, name, args):
    v, p = args
    if p.obj is None: return None
    n = varint_size(v) if not is_sym(v) else None
    old = same_value(e, st, v, p.obj) if e.det_varint else None
    if n is not None: n = n.as_long()
    elif old is not None: n = old.n
    else:
        n = e.fresh(64, 'vsz')
        e.assume(st, z3.And(z3.UGE(n, BV(1)), z3.ULE(n, BV(10))))
        RNG[n.get_id()] = (1, 10); KEEP.append(n)
        st.lazy = st.lazy + (z3.simplify(n == varint_size(v)),)
    e.check_bounds(st, p, n, 'write')
    e.check_frame(st, p, n)
    if st.w is not None: st.w.append((p.obj, None, None))
    c = e.content(st, p.obj, True)
    base, k = split(p.off)
    if old is None:
        b = e.fresh(8, 'vb')
        e.assume(st, b != 0)
        old = VarTok(v, b, n)
    c.log.append(('tok', base, k, n, old))
    return [(st, n)]


def find_tok(e, st, obj, off):
    c = e.content(st, obj)
    oo = bv(off, 64)
    for i in range(len(c.log) - 1, -1, -1):
        t = c.log[i]
        if t[0] != 'tok': continue
        o2 = bv(add64(t[1] if t[1] is not None else 0, t[2]), 64)
        if not (z3.simplify(o2 - oo).eq(BV(0)) or e.valid(st, o2 == oo)): continue
        ln = bv(t[3], 64)
        for l in c.log[i + 1:]:
            if l[0] in ('w', 'tok'): lo, n = bv(add64(l[1] if l[1] is not None else 0, l[2]), 64), bv(l[3], 64)
            else: lo, n = bv(l[1], 64), bv(l[2], 64)
            if not e.valid(st, z3.Or(z3.ULE(o2 + ln, lo), z3.ULE(lo + n, o2))): return None
        return t
    return None


def c_decode(e, st, name, args):
    p, mx, out = args
    if p is UNDEF or isinstance(p, FnPtr): return None
    if p.obj is None:
        # only legal with max_size == 0, which throws
        e.oblige(st, simp(bv(mx, 64) == 0) if is_sym(mx) else mx == 0, 'no null pointer access', 'memory')
        e.on_throw(st, None)
        return []
    t = find_tok(e, st, p.obj, p.off)
    if t is not None and e.valid(st, z3.ULE(bv(t[3], 64), bv(mx, 64))):
        e.check_bounds(st, p, t[3], 'read')
        e.check_bounds(st, out, 8, 'write'); e.check_frame(st, out, 8); e.record_write(st, out, 8)
        e.write_raw(st, out.obj, out.off, 8, t[4].v)
        return [(st, t[3])]
    # it may throw: a function of the bytes
    e.check_bounds(st, p, mx, 'read')
    c = e.content(st, p.obj)
    arr = c.arr if c.arr is not None and not c.log and not c.cells else e.flatten_copy(st, p.obj)
    k = (arr, bv(p.off, 64), bv(mx, 64))
    n, v, ok = DEC_N(*k), DEC_V(*k), DEC_OK(*k)
    s2 = st.clone()
    e.assume(s2, z3.Not(ok))
    e.on_throw(s2, None)
    e.assume(st, ok)
    e.assume(st, z3.And(z3.UGE(n, BV(1)), z3.ULE(n, BV(10)), z3.ULE(n, bv(mx, 64))))
    if not e.feasible(st, z3.ULE(n, bv(mx, 64))): return []
    e.check_bounds(st, out, 8, 'write'); e.check_frame(st, out, 8); e.record_write(st, out, 8)
    e.write_raw(st, out.obj, out.off, 8, v)
    return [(st, n)]


VARINT = [(re.compile(r'(^|:)encodeVarint64\(long, unsigned char\*\)'), c_encode),
          (re.compile(r'(^|:)decodeVarint\(unsigned char const\*, unsigned long, long&\)'), c_decode)]


def table(entry):
    if '_v_' in entry: return VARINT
    return []


def configure(e, entry): e.det_varint = 'c14_' in entry

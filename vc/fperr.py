"""Rounding error obligations: vc_fperr32/64(x, res, out, name).

out must be a floating point expression of x and res whose value differs from x by at most
  res/2 * (1 + eps) + |x| * eps        for all finite x with |x| / res <= T
The bound is discharged by forward error analysis in exact rational arithmetic, with the standard
model of IEEE-754 rounding (every operation returns the exact result times (1+d) plus a subnormal
error, |d| <= u; conversions to integer are off by what their rounding mode allows).  Every value
is kept in the form  res^k * (c1*t + c0 + e),  t = x/res,  |e| <= A*|t| + B."""
from fractions import Fraction as F
import struct
import z3
from engine import *
from engine import BUILTINS
import engine


class Form:
    def __init__(s, k, c1, c0, A=F(0), B=F(0), integer=False): s.k, s.c1, s.c0, s.A, s.B, s.integer = k, F(c1), F(c0), A, B, integer

    def mx(s, T):   # (coefficient of |t|, constant) bounding the absolute value
        return abs(s.c1) + s.A, abs(s.c0) + s.B

    def bound(s, T):
        a, b = s.mx(T)
        return a * T + b


class Unknown(Exception): pass


def fpval(bits, w):
    x = struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', bits))[0]
    if x != x or x in (float('inf'), float('-inf')): raise Unknown('constant %r' % x)
    return F(x)


class Analysis:
    def __init__(s, eng, st, x, res, T):
        s.e, s.st, s.x, s.res, s.T = eng, st, x, res, T

    def rnd(s, f, w):
        """rounding to w bits; the subnormal error is at most 2^-149 (2^-1074), and 1 <= 2^126/res, 2^126*res (res is normal)"""
        u = F(1, 2 ** 24) if w == 32 else F(1, 2 ** 53)
        a, b = f.mx(s.T)
        eta = F(2) ** (-150 if w == 32 else -1075)
        # in units of res^k: an absolute error eta is at most eta * 2^(126*|k|)
        return Form(f.k, f.c1, f.c0, f.A + u * a, f.B + u * b + eta * F(2) ** (126 * abs(f.k)))

    def ev(s, t):
        if isinstance(t, int): raise Unknown('untyped constant')
        w = t.size()
        if s.x is not None and t.eq(s.x): return Form(1, 1, 0)
        if t.eq(s.res): return Form(1, 0, 1)
        if z3.is_bv_value(t): return Form(0, 0, fpval(t.as_long(), w))
        d = t.decl()
        n = d.name()
        ch = t.children()
        if d.kind() != z3.Z3_OP_UNINTERPRETED or not ch:
            raise Unknown('not a floating point expression: %s' % str(t)[:200])
        if n in ('fmul32', 'fmul64'):
            a, b = s.ev(ch[0]), s.ev(ch[1])
            if a.c1 != 0 and b.c1 != 0: raise Unknown('product of two values of x')
            if a.c1 != 0 or (b.c1 == 0 and b.A == 0): pass
            else: a, b = b, a
            if b.A != 0 or b.c1 != 0: raise Unknown('product')
            # (c1 t + c0 + ea)(d0 + eb) = c1 d0 t + c0 d0 + d0 ea + (c1 t + c0) eb + ea eb
            r = Form(a.k + b.k, a.c1 * b.c0, a.c0 * b.c0, abs(b.c0) * a.A + abs(a.c1) * b.B + a.A * b.B, abs(b.c0) * a.B + abs(a.c0) * b.B + a.B * b.B)
            return s.rnd(r, w)
        if n in ('fdiv32', 'fdiv64'):
            a, b = s.ev(ch[0]), s.ev(ch[1])
            if b.c1 != 0 or b.A != 0 or abs(b.c0) <= b.B or b.c0 == 0: raise Unknown('division')
            # 1/(d0+eb) = 1/d0 + e, |e| <= B / (|d0| (|d0| - B))
            iv = Form(-b.k, 0, 1 / b.c0, F(0), b.B / (abs(b.c0) * (abs(b.c0) - b.B)))
            r = Form(a.k + iv.k, a.c1 * iv.c0, a.c0 * iv.c0, abs(iv.c0) * a.A + abs(a.c1) * iv.B + a.A * iv.B, abs(iv.c0) * a.B + abs(a.c0) * iv.B + a.B * iv.B)
            return s.rnd(r, w)
        if n in ('fadd32', 'fadd64', 'fsub32', 'fsub64'):
            a, b = s.ev(ch[0]), s.ev(ch[1])
            if a.k != b.k: raise Unknown('sum of different units')
            sg = 1 if n[1] == 'a' else -1
            return s.rnd(Form(a.k, a.c1 + sg * b.c1, a.c0 + sg * b.c0, a.A + b.A, a.B + b.B), w)
        if n.startswith(('round32', 'round64', 'roundeven', 'rint', 'nearbyint')):
            a = s.ev(ch[0])
            if a.k != 0: raise Unknown('rounding of a value with a unit')
            return Form(0, a.c1, a.c0, a.A, a.B + F(1, 2), True)
        if n in ('floor32', 'floor64', 'ceil32', 'ceil64'):
            a = s.ev(ch[0])
            if a.k != 0: raise Unknown('rounding of a value with a unit')
            return Form(0, a.c1, a.c0 + (F(-1, 2) if n[0] == 'f' else F(1, 2)), a.A, a.B + F(1, 2), True)
        if n in ('trunc32', 'trunc64'):
            a = s.ev(ch[0])
            if a.k != 0: raise Unknown('rounding of a value with a unit')
            return a if a.integer else Form(0, a.c1, a.c0, a.A, a.B + 1, True)
        if n == 'fpext': return s.ev(ch[0])
        if n == 'fptrunc': return s.rnd(s.ev(ch[0]), 32)
        if n.startswith('sitofp_'):
            f = s.ei(ch[0])
            if f.bound(s.T) < 2 ** (24 if w == 32 else 53): return f
            return s.rnd(f, w)
        raise Unknown('operation %s' % n)

    def ei(s, t):
        """a signed integer"""
        w = t.size()
        d = t.decl()
        n = d.name()
        ch = t.children()
        if z3.is_bv_value(t): return Form(0, 0, t.as_signed_long(), integer=True)
        if d.kind() == z3.Z3_OP_SIGN_EXT: return s.ei(ch[0])
        if d.kind() == z3.Z3_OP_EXTRACT and d.params()[1] == 0:
            f = s.ei(ch[0])
            if f.bound(s.T) >= 2 ** (w - 1): raise Unknown('an integer of %d bits may overflow' % w)
            return f
        if d.kind() == z3.Z3_OP_UNINTERPRETED and ch:
            if n.startswith('fptosi_') or n in ('cvtps2dq', 'cvttps2dq'):
                f = s.ev(ch[0])
                if f.k != 0: raise Unknown('conversion of a value with a unit')
                if n == 'cvtps2dq': f = Form(0, f.c1, f.c0, f.A, f.B + F(1, 2), True) if not f.integer else f
                elif not f.integer: f = Form(0, f.c1, f.c0, f.A, f.B + 1, True)
                if f.bound(s.T) >= 2 ** (w - 1): raise Overflow('the conversion to %d bits may overflow' % w)
                return f
        for c in cands(t, w):
            if s.e.valid(s.st, t == c, 20000): return s.ei(c)
        raise Unknown('integer expression %s' % str(t)[:200])


class Overflow(Unknown): pass


def cands(t, w):
    seen = set()
    out = []
    stack = [t]
    while stack:
        a = stack.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id())
        if z3.is_bv(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() and (a.decl().name().startswith('fptosi_') or a.decl().name() in ('cvtps2dq', 'cvttps2dq')):
            z = a.size()
            out.append(a if z == w else z3.SignExt(w - z, a) if z < w else z3.Extract(w - 1, 0, a))
        stack += a.children()
    return out


def obligation(w, T, eps):
    def h(s, st, a, ins):
        x, res, out = a[0], a[1], a[2]
        from builtins_ import cstr
        nm = cstr(s, st, a[3])
        if s.quiet: return [(st, None)]
        x, out, res = bv(x, w), bv(out, w), bv(res, 32)
        if not s.feasible(st, True): return []
        try:
            f = Analysis(s, st, x, res, F(T)).ev(z3.simplify(out))
            ok = f.k == 1 and f.c1 == 1 and f.c0 == 0 and f.A <= eps and f.B <= F(1, 2) * (1 + eps)
            why = 'unit %d, %s*t + %s, error %.4g*|t| + %.10g' % (f.k, f.c1, f.c0, float(f.A), float(f.B))
        except Overflow as ex: ok, why = False, str(ex)
        except Unknown as ex: raise Unsupported('error analysis: ' + str(ex))
        s.oblige(st, ok, nm + ' [' + why + ']' if False else nm, 'fperr')
        if not ok:
            for o in s.obl.values():
                if o.name == nm and not o.detail.startswith('bound'): o.detail = 'bound: ' + why + '; ' + o.detail
        return [(st, None)]
    return h


BUILTINS['@vc_fperr32'] = obligation(32, 2 ** 30, F(1, 2 ** 21))
BUILTINS['@vc_fperr64'] = obligation(64, 2 ** 50, F(1, 2 ** 49))

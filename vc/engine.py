"""Deductive verifier for the LLVM IR of the real code: a VC generator by symbolic execution.

Every function is executed symbolically from its contract's precondition; calls are replaced by
the callee's contract where one is registered and by the callee's own body otherwise; loops
bounded by operand width are unrolled completely (an unrolling that does not terminate within
the limit is abandoned), every other loop is cut at its head with an inductive invariant that is
inferred (Houdini over a fixed template set) and then checked.  Every obligation is discharged by
Z3 for all inputs and all iterations."""
import re, sys, time, struct, math, itertools
import z3
import lin
from ir import *

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
z3.set_param('auto_config', True)


class Unsupported(Exception):
    pass


class NeedInv(Exception):
    pass


class Stop(Exception):
    """budget exhausted"""


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(s, obj, off): s.obj, s.off = obj, off

    def __repr__(s): return '<%s+%s>' % (s.obj.name if s.obj else 'null', s.off)


class FnPtr:
    __slots__ = ('name',)

    def __init__(s, name): s.name = name

    def __repr__(s): return '<fn %s>' % s.name


class Obj:
    cnt = itertools.count(1)

    def __init__(s, name, size, kind):
        s.id = next(Obj.cnt)
        s.name, s.size, s.kind = name, size, kind
        s.reader = None
        s.elem = None
        s.const = False
        s.base = None

    def basesym(s):
        if s.base is None: s.base = z3.BitVec('base!%d!%s' % (s.id, s.name), 64); BASES[s.base.get_id()] = s
        return s.base


BASES = {}


class Content:
    __slots__ = ('cells', 'arr', 'log', 'owner', 'freed', 'zero')

    def __init__(s, owner):
        s.cells = {}
        s.arr = None
        s.log = []
        s.owner = owner
        s.freed = False
        s.zero = False

    def copy(s, owner):
        c = Content(owner)
        c.cells = dict(s.cells); c.arr = s.arr; c.log = list(s.log); c.freed = s.freed; c.zero = s.zero
        return c


def is_sym(v): return isinstance(v, z3.ExprRef)


def mask(w): return (1 << w) - 1


def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v


def bv(v, w):
    if isinstance(v, bool): return z3.BitVecVal(int(v), w)
    if isinstance(v, int): return z3.BitVecVal(v, w)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def tobool(v):
    if isinstance(v, (bool, int)): return z3.BoolVal(bool(v))
    return v


def cval(e):
    """fold a z3 expr to int if it is a numeral"""
    if z3.is_bv_value(e): return e.as_long()
    return e


def simp(e):
    if not is_sym(e): return e
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e


def add64(a, b):
    if not is_sym(a) and not is_sym(b): return (a + b) & M64
    if not is_sym(a) and a == 0: return b
    if not is_sym(b) and b == 0: return a
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if not is_sym(a) and not is_sym(b): return (a - b) & M64
    if not is_sym(b) and b == 0: return a
    return simp(bv(a, 64) - bv(b, 64))


def split(off):
    """off -> (base term or None, const)"""
    if not is_sym(off): return (None, off)
    d = off.decl().kind()
    if d == z3.Z3_OP_BADD:
        ch = off.children()
        if z3.is_bv_value(ch[0]):
            c = ch[0].as_long()
            rest = ch[1:]
            if len(rest) == 1: return (rest[0], c)
            r = rest[0]
            for x in rest[1:]: r = r + x
            return (simp(r), c)
    return (off, 0)


def same(a, b):
    if a is None or b is None: return a is None and b is None
    return a.eq(b)


_fp = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(x) for x in sorts)
    if k not in _fp: _fp[k] = z3.Function(name, *sorts)
    return _fp[k]


def BVS(n): return z3.BitVecSort(n)


def f2b(x, w):
    if w == 32:
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def b2f(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]


def exp_mant(w): return (0x7f800000, 0x7fffffff) if w == 32 else (0x7ff0000000000000, 0x7fffffffffffffff)


def fisnan(x, w):
    inf, m = exp_mant(w)
    if not is_sym(x): return (x & m) > inf
    return z3.UGT(x & m, z3.BitVecVal(inf, w))


def fkey(x, w):
    """monotone unsigned key of a non-NaN float; -0 and +0 share a key"""
    x = bv(x, w)
    s = z3.Extract(w - 1, w - 1, x) == 1
    top = z3.BitVecVal(1 << (w - 1), w)
    return z3.If(s, top - (x & bv((1 << (w - 1)) - 1, w)), top + x)


import os
SLOW = float(os.environ.get('VC_SLOW', '0'))


_vars = {}


def vars_of(e):
    """free symbols of e (ids); uninterpreted functions count as symbols so that they link constraints"""
    k = e.get_id()
    r = _vars.get(k)
    if r is not None: return r[0]
    acc = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _vars.get(i)
        if c is not None:
            acc |= c[0]; continue
        if z3.is_quantifier(x): st.append(x.body()); continue
        if not z3.is_app(x): continue
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().get_id() if x.num_args() else -i)
        st.extend(x.children())
    r = frozenset(acc)
    _vars[k] = (r, e)       # keep e alive so that its id stays valid
    return r


RNG = {}        # variables created with an assumed range: id -> (lo, hi)


def linear(t):
    """64-bit term -> ({id: coefficient}, const) over variables of known range, without overflow; else None"""
    if isinstance(t, int): return {}, t
    if z3.is_bv_value(t): return {}, t.as_signed_long()
    if t.get_id() in RNG: return {t.get_id(): 1}, 0
    k = t.decl().kind()
    if k == z3.Z3_OP_EXTRACT:
        h, lo = t.params()
        l = linear(t.arg(0))
        if l is None: return None
        a, b = lrange(l)
        if a < 0: return None
        if lo == 0 and b < 1 << (h + 1): return l
        if b < 1 << lo: return {}, 0
        return None
    if k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.num_args() == 2:
        l = linear(t.arg(1))
        return l if l is not None and lrange(l)[0] >= 0 else None
    if k == z3.Z3_OP_BADD:
        r, c = {}, 0
        for ch in t.children():
            l = linear(ch)
            if l is None: return None
            for v, a in l[0].items(): r[v] = r.get(v, 0) + a
            c += l[1]
        return r, c
    if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        l = linear(t.arg(1))
        if l is None: return None
        a = t.arg(0).as_signed_long()
        return {v: x * a for v, x in l[0].items()}, l[1] * a
    return None


def lrange(l):
    lo = hi = l[1]
    for v, a in l[0].items():
        if a == 0: continue
        x, y = RNG[v]
        lo += min(a * x, a * y); hi += max(a * x, a * y)
    return lo, hi


def decide(c):
    """True/False if interval arithmetic settles the condition, else None"""
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = decide(c.arg(0))
        return None if r is None else not r
    if k in (z3.Z3_OP_OR, z3.Z3_OP_AND):
        st = k == z3.Z3_OP_OR
        rs = []
        for x in c.children():
            r = decide(x)
            if r == st: return st
            rs.append(r)
        return (not st) if all(r is not None for r in rs) else None
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_EQ) and z3.is_bv(c.arg(0)):
        w = c.arg(0).size()
        eq = k == z3.Z3_OP_EQ
        a, b = [({}, x.as_long()) if z3.is_bv_value(x) and not eq else linear(x) for x in (c.arg(0), c.arg(1))]
        if a is None or b is None: return None
        for l in (a, b):
            lo, hi = lrange(l)
            if eq and w == 64 and lo > -1 << 62 and hi < 1 << 62: continue
            if lo < 0 or hi >= 1 << (w if not l[0] else min(w, 62)): return None
        d = {v: a[0].get(v, 0) - b[0].get(v, 0) for v in set(a[0]) | set(b[0])}, a[1] - b[1]
        lo, hi = lrange(d)
        if k == z3.Z3_OP_UGEQ: k, lo, hi = z3.Z3_OP_ULEQ, -hi, -lo
        if k == z3.Z3_OP_UGT: k, lo, hi = z3.Z3_OP_ULT, -hi, -lo
        if k == z3.Z3_OP_ULEQ: return True if hi <= 0 else False if lo > 0 else None
        if k == z3.Z3_OP_ULT: return True if hi < 0 else False if lo >= 0 else None
        return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
    return None


HARD = {}
HARDK = (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR)


def hard(e):
    i = e.get_id()
    r = HARD.get(i)
    if r is None:
        r = False
        if z3.is_app(e):
            if e.decl().kind() in HARDK and not z3.is_bv_value(e.arg(1)): r = True
            else: r = any(hard(c) for c in e.children())
        HARD[i] = (r, e)
        return r
    return r[0]


HOP = int(os.environ.get('VC_HOP', '30'))
QUICK = int(os.environ.get('VC_QUICK', '500'))


PRE = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat')
_PURE = {}


def pure(e):
    """bit vectors and booleans only"""
    i = e.get_id()
    r = _PURE.get(i)
    if r is None:
        r = z3.is_app(e) and (z3.is_bv(e) or z3.is_bool(e)) and (e.num_args() == 0 or e.decl().kind() != z3.Z3_OP_UNINTERPRETED) and all(pure(c) for c in e.children())
        _PURE[i] = (r, e)
        return r
    return r[0]


class Solver:
    """each query goes to a fresh solver with the constraints connected to it (the path condition
    is satisfiable, so unconnected constraints cannot matter; a "sat" for an obligation is
    confirmed with all of them)"""
    def __init__(s):
        s.n = 0
        s.t = 0.0
        s.unk = 0
        s.cache = {}
        s.hits = 0
        s.lin = s.hop = 0

    def slice(s, pc, extra):
        vs = set()
        for e in extra: vs |= vars_of(e)
        rest = [(c, vars_of(c)) for c in pc]
        out = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for c, v in rest:
                if not v or not v.isdisjoint(vs):
                    out.append(c)
                    if not v <= vs: vs |= v; ch = True
                else: nr.append((c, v))
            rest = nr
        return out, bool(rest)

    def raw(s, cs, timeout):
        r = z3.unknown
        if not any(hard(c) for c in cs):
            p = all(pure(c) for c in cs)
            f = PRE.solver() if p else z3.SimpleSolver()
            f.set('timeout', min(timeout, QUICK * 4 if p else QUICK))
            for c in cs: f.add(c)
            r = f.check()
        if r == z3.unknown:
            f = z3.Solver()
            f.set('timeout', timeout)
            for c in cs: f.add(c)
            r = f.check()
        if r == z3.unknown and timeout > QUICK:
            f = z3.SimpleSolver()
            f.set('timeout', timeout)
            for c in cs: f.add(c)
            r = f.check()
        return r, (f.model() if r == z3.sat else None)

    def check(s, pc, extra, timeout=10000, full=False, want_model=False):
        s.n += 1
        t0 = time.time()
        if len(extra) == 1 and z3.is_not(extra[0]):
            g = lin.holds(pc, extra[0].arg(0))
            if not g:
                s.lin += 1
                return z3.unsat, None
            if not want_model and len(g) < extra[0].arg(0).num_args() and z3.is_and(extra[0].arg(0)): extra = [z3.Not(z3.And(*g))]
        if full: cs, cut = list(pc), False
        else: cs, cut = s.slice(pc, extra) if extra else (list(pc), False)
        cs = cs + list(extra)
        k = frozenset(c.get_id() for c in cs)
        h = s.cache.get(k)
        if h is not None and (h[0] == z3.unsat or not want_model or h[1] is not None):
            s.hits += 1
            return h[0], h[1]
        r = None
        if HOP and not full and len(cs) > HOP and len(extra) == 1:
            # facts directly about the symbols of the goal often suffice
            vs = vars_of(extra[0])
            near = [c for c in cs if not vars_of(c).isdisjoint(vs)]
            if len(near) < len(cs) * 0.7 and not any(hard(c) for c in near):
                f = z3.SimpleSolver()
                f.set('timeout', min(timeout, 300))
                for c in near: f.add(c)
                if f.check() == z3.unsat: r, m = z3.unsat, None; s.hop += 1
        if r is None: r, m = s.raw(cs, timeout)
        if r == z3.unknown: s.unk += 1
        else: s.cache[k] = (r, m, cs)
        d = time.time() - t0
        s.t += d
        if SLOW and d > SLOW: print('   slow %.1f %s %s' % (d, r, [str(e)[:300] for e in extra]), flush=True)
        return r, m


class State:
    ids = itertools.count(1)

    def __init__(s):
        s.id = next(State.ids)
        s.mem = {}
        s.pc = []
        s.lazy = ()     # facts only tried when an obligation needs them
        s.flags = {}
        s.frame = {}
        s.w = None      # write recorder (set) when inside a summarised loop
        s.icmps = None
        s.muls = ()
        s.trace = ()
        s.notes = ()

    def clone(s):
        n = State()
        n.mem = dict(s.mem); n.pc = list(s.pc); n.lazy = s.lazy; n.flags = dict(s.flags); n.frame = dict(s.frame)
        n.w = list(s.w) if s.w is not None else None; n.icmps = s.icmps; n.muls = s.muls; n.trace = s.trace; n.notes = s.notes
        # both share contents now: forget ownership
        s.id = next(State.ids)
        return n


STDEXC = set('@_ZTISt' + str(len(n)) + n for n in '''exception logic_error runtime_error invalid_argument domain_error length_error
out_of_range range_error overflow_error underflow_error bad_alloc bad_cast bad_typeid bad_function_call bad_optional_access
bad_variant_access bad_weak_ptr bad_array_new_length future_error'''.split()) | {'@_ZTISt12system_error', '@_ZTISt9exception', '@_ZTISt20bad_array_new_length'}


class Frame:
    __slots__ = ('fn', 'regs', 'allocas')

    def __init__(s, fn):
        s.fn, s.regs, s.allocas = fn, {}, []

    def copy(s):
        f = Frame(s.fn)
        f.regs = dict(s.regs); f.allocas = list(s.allocas)
        return f


class Obligation:
    __slots__ = ('name', 'fn', 'kind', 'n', 'ok', 'status', 'model', 'detail', 'secs', 'pc')

    def __init__(s, name, fn, kind):
        s.name, s.fn, s.kind = name, fn, kind
        s.n = 0; s.ok = 0; s.status = 'discharged'; s.model = None; s.detail = ''; s.secs = 0.0; s.pc = None


class Engine:
    def __init__(s, mod, contracts=None, budget=600, unroll=12, oblig_timeout=60000, verbose=False):
        s.assumed = set()
        s.m = mod
        s.S = Solver()
        s.obl = {}
        s.fresh_n = itertools.count()
        s.globals = {}
        s.gcontent = {}
        s.contracts = contracts or []      # list of (regex, handler)
        s.ccache = {}
        s.quiet = 0
        s.patience = 1      # factor of the time limits of the search for invariants
        s.unsure = []       # invariant candidates given up at a time limit
        s.loopmode = {}
        s.vcactive = []
        s.peel = s.lean = False
        s.unroll = unroll
        s.t_end = time.time() + budget
        s.verbose = verbose
        s.oblig_timeout = oblig_timeout
        s.executed = {}        # functions executed from their body
        s.used = {}            # contracts applied
        s.loops = {}           # (fn, header) -> info
        s.throws = 0
        s.det_varint = False
        s.catchers = []   # vc_try: states of the exceptions thrown below it
        s.paths = 0
        s.covers = {}
        s.instrs = 0
        s.callstack = []
        s.sites = []
        s.cursite = 0
        s.spec_templates = []
        s.depth = 0
        s.demangle = {}
        s.extra_candidates = None
        s.skolem = None      # see vc_index
        s.nobounds = s.narrow = False   # see vc_nobounds
        s.unroll_hint = {}
        s.termination = {}

    # ---------------------------------------------------------------- symbols
    def fresh(s, w, name='v'):
        if w == 1: return z3.Bool('%s!%d' % (name, next(s.fresh_n)))
        return z3.BitVec('%s!%d' % (name, next(s.fresh_n)), w)

    def fresh_arr(s, name='a'):
        return z3.Array('%s!%d' % (name, next(s.fresh_n)), BVS(64), BVS(8))

    # ---------------------------------------------------------------- solving
    def feasible(s, st, cond):
        if isinstance(cond, (bool, int)): return bool(cond)
        if time.time() > s.t_end: raise Stop('time budget exhausted')
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i, j = c.get_id(), z3.simplify(z3.Not(c)).get_id()
        for x in st.pc:
            k = x.get_id()
            if k == i: return True
            if k == j: return False
        d = decide(c)
        if d is not None: return d
        r, _ = s.S.check(st.pc, [c], 10000)
        return r != z3.unsat

    def assume(s, st, cond):
        if isinstance(cond, (bool, int)):
            if not cond: st.pc.append(z3.BoolVal(False))
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c):
            st.pc.append(c)
            return False
        k = c.get_id()
        for x in st.pc:
            if x.get_id() == k: return True
        g = lin.holds(st.pc, c)
        if not g: return True
        if z3.is_and(c) and len(g) < c.num_args(): c = z3.And(*g) if len(g) > 1 else g[0]
        st.pc.append(c)
        return True

    def valid(s, st, cond, timeout=10000):
        if isinstance(cond, (bool, int)): return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if decide(c): return True
        if time.time() > s.t_end: raise Stop('time budget exhausted')
        r, _ = s.S.check(st.pc, [z3.Not(c)], timeout)
        return r == z3.unsat

    def oblige(s, st, cond, name, kind='assert'):
        """an obligation: must hold on every path"""
        fnname = s.callstack[-1] if s.callstack else ''
        if s.quiet:
            s.assume(st, cond)
            return
        key = (name, kind)
        o = s.obl.get(key)
        if o is None: o = s.obl[key] = Obligation(name, s.pretty(fnname), kind)
        o.n += 1
        t0 = time.time()
        if isinstance(cond, (bool, int)):
            okc = bool(cond)
            if okc:
                o.ok += 1; return
            r, m = s.S.check(st.pc + list(st.lazy), [], s.oblig_timeout)
        else:
            c = z3.simplify(cond)
            if z3.is_true(c):
                o.ok += 1; return
            if time.time() > s.t_end: raise Stop('time budget exhausted')
            if decide(c):
                o.ok += 1; return
            r = z3.unknown
            if z3.is_and(c) and c.num_args() > 2:
                r = z3.unsat
                for x in c.children():
                    r, m = s.S.check(st.pc, [z3.Not(x)], s.oblig_timeout)
                    if r != z3.unsat: break
            if r != z3.unsat: r, m = s.S.check(st.pc, [z3.Not(c)], s.oblig_timeout)
            if r == z3.sat and st.lazy: r, m = s.S.check(st.pc + list(st.lazy), [z3.Not(c)], s.oblig_timeout)
            if r == z3.sat: r, m = s.S.check(st.pc + list(st.lazy), [z3.Not(c)], s.oblig_timeout, full=True)
        o.secs += time.time() - t0
        if r == z3.unsat: o.ok += 1
        elif r == z3.sat:
            if o.status != 'failed':
                o.status = 'failed'; o.model = s.harvest(st, m)
                o.detail = '%s in %s' % (' <- '.join(s.pretty(x) for x in reversed(s.callstack[-4:])), cond if not is_sym(cond) else str(cond)[:2000])
                o.pc = [str(x)[:200] for x in st.pc[-12:]]
        else:
            if o.status == 'discharged': o.status = 'unknown'
        s.assume(st, cond)

    def harvest(s, st, m):
        """concrete values of the counterexample model: used to search for a failing input of the real code"""
        vals = {}
        for nm, v in st.notes:
            try: x = m.eval(bv(v, 64), model_completion=True) if is_sym(v) else None
            except z3.Z3Exception: continue
            if x is None: vals[nm] = v
            elif z3.is_bv_value(x): vals[nm] = x.as_long()
        for d in m.decls():
            if d.arity() == 0 and z3.is_bv_value(m[d]): vals[d.name()] = m[d].as_long()
        return vals

    def pretty(s, n):
        return s.demangle.get(n, n)

    # ---------------------------------------------------------------- memory
    def content(s, st, obj, write=False):
        c = st.mem.get(obj.id)
        if c is None:
            c = s.gcontent.get(obj.id)
            if c is None:
                if obj.kind == 'heap': s.oblige(st, False, 'no use of freed memory', 'memory')
                raise Unsupported('dead object ' + obj.name)
        if write and c.owner != st.id:
            c = c.copy(st.id)
            st.mem[obj.id] = c
        return c

    def new_obj(s, st, name, size, kind, arr=False):
        o = Obj(name, size, kind)
        c = Content(st.id)
        if arr: c.arr = s.fresh_arr(name)
        st.mem[o.id] = c
        return o

    def check_bounds(s, st, p, n, what):
        """n: bytes, int or BV64"""
        if p.obj is None:
            s.oblige(st, simp(bv(n, 64) == 0) if is_sym(n) else n == 0, 'no null pointer access', 'memory')
            return
        size = p.obj.size
        if not is_sym(p.off) and not is_sym(n) and not is_sym(size):
            if n == 0 or p.off + n <= size: return
            s.oblige(st, False, '%s stays inside its buffer' % what, 'memory')
            return
        off, nn, sz = bv(p.off, 64), bv(n, 64), bv(size, 64)
        cond = z3.And(z3.ULE(nn, sz), z3.ULE(off, sz - nn))
        if is_sym(n): cond = z3.Or(nn == 0, cond)
        s.oblige(st, cond, '%s stays inside its buffer' % what, 'memory')

    def check_frame(s, st, p, n):
        if p.obj is None: return
        if p.obj.const: s.oblige(st, False, 'no write to constant data', 'frame')
        fr = st.frame.get(p.obj.id)
        if fr is None: return
        lo, hi, nm = fr
        off, nn = bv(p.off, 64), bv(n, 64)
        cond = z3.And(z3.ULE(bv(lo, 64), off), z3.ULE(off, bv(hi, 64)), z3.ULE(nn, bv(hi, 64) - off))
        if is_sym(n): cond = z3.Or(nn == 0, cond)
        elif n == 0: return
        s.oblige(st, simp(cond), nm, 'frame')

    def record_write(s, st, p, n):
        if st.w is not None:
            st.w.append((p.obj, p.off if not is_sym(p.off) else None, n if not is_sym(n) else None))

    def free(s, st, obj):
        if obj.id in st.mem: del st.mem[obj.id]

    def flatten(s, st, obj):
        c = s.content(st, obj, True)
        arr = c.arr
        if arr is None:
            arr = z3.K(BVS(64), z3.BitVecVal(0, 8)) if c.zero else s.fresh_arr('u')
        for off, (sz, v) in sorted(c.cells.items()):
            arr = s.store_bytes(arr, off, sz, v)
        c.cells = {}
        for e in c.log:
            k = e[0]
            if k == 'w':
                off = add64(e[1] if e[1] is not None else 0, e[2])
                arr = s.store_bytes(arr, off, e[3], e[4])
            elif k == 'tok':
                off = bv(add64(e[1] if e[1] is not None else 0, e[2]), 64)
                i = z3.BitVec('i!%d' % next(s.fresh_n), 64)
                arr = z3.Lambda([i], z3.If(z3.ULT(i - off, bv(e[3], 64)), e[4].byte(s, i - off), z3.Select(arr, i)))
            elif k == 'cpy':
                i = z3.BitVec('i!%d' % next(s.fresh_n), 64)
                d, ln, sarr, so = bv(e[1], 64), bv(e[2], 64), e[3], bv(e[4], 64)
                arr = z3.Lambda([i], z3.If(z3.ULT(i - d, ln), z3.Select(sarr, i - d + so), z3.Select(arr, i)))
            elif k == 'fill':
                i = z3.BitVec('i!%d' % next(s.fresh_n), 64)
                d, ln = bv(e[1], 64), bv(e[2], 64)
                arr = z3.Lambda([i], z3.If(z3.ULT(i - d, ln), bv(e[3], 8), z3.Select(arr, i)))
        c.log = []
        c.arr = arr
        return c

    def as_bits(s, v, n):
        """memory value -> BV of 8n bits / int"""
        if v is UNDEF: return s.fresh(8 * n, 'u')
        if isinstance(v, Ptr):
            if v.obj is None: return v.off
            return add64(v.obj.basesym(), v.off)
        if isinstance(v, FnPtr): return z3.BitVec('fn!' + v.name, 64)
        return v

    def store_bytes(s, arr, off, n, v):
        v = s.as_bits(v, n)
        for i in range(n):
            b = bv((v >> (8 * i)) & 255, 8) if not is_sym(v) else z3.Extract(8 * i + 7, 8 * i, v)
            arr = z3.Store(arr, bv(add64(off, i), 64), b)
        return arr

    def sub_bits(s, v, sz, d, n):
        """bytes [d,d+n) of a value of sz bytes"""
        v = s.as_bits(v, sz)
        if not is_sym(v): return (v >> (8 * d)) & mask(8 * n)
        return simp(z3.Extract(8 * (d + n) - 1, 8 * d, v))

    def read_raw(s, st, obj, off, n):
        """returns the stored value (int/BV/Ptr/FnPtr) of n bytes at off"""
        if obj.reader is not None:
            return obj.reader(s, st, obj, off, n)
        c = s.content(st, obj)
        base, k = split(off)
        hit = None
        for e in reversed(c.log):
            kind = e[0]
            if kind == 'w':
                if same(base, e[1]):
                    d = (k - e[2]) & M64
                    ds = sgn(d, 64)
                    if ds == 0 and n == e[3]: return e[4]
                    if 0 <= ds and ds + n <= e[3]: return s.sub_bits(e[4], e[3], ds, n)
                    if ds >= e[3] or ds + n <= 0: continue
                    hit = 'flat'; break
                o2 = bv(add64(e[1] if e[1] is not None else 0, e[2]), 64)
                oo = bv(off, 64)
                if s.valid(st, z3.Or(z3.And(z3.ULE(o2 + e[3], oo), z3.ULE(o2, o2 + e[3])), z3.And(z3.ULE(oo + n, o2), z3.ULE(oo, oo + n)))): continue
                if n == e[3] and s.valid(st, oo == o2): return e[4]
                hit = 'flat'; break
            elif kind == 'tok':
                o2 = bv(add64(e[1] if e[1] is not None else 0, e[2]), 64)
                oo = bv(off, 64)
                ln = bv(e[3], 64)
                if s.valid(st, z3.Or(z3.ULE(o2 + ln, oo), z3.ULE(oo + n, o2))): continue
                if n == 1 and (same(base, e[1]) and k == e[2] or s.valid(st, oo == o2)):
                    return e[4].first_byte(s, st)
                hit = 'flat'; break
            elif kind in ('cpy', 'fill'):
                d, ln = bv(e[1], 64), bv(e[2], 64)
                oo = bv(off, 64)
                if s.valid(st, z3.Or(z3.ULE(d + ln, oo), z3.ULE(oo + n, d))): continue
                if s.valid(st, z3.And(z3.ULE(d, oo), z3.ULE(oo + n, d + ln))):
                    if kind == 'fill':
                        b = bv(e[3], 8)
                        return simp(z3.Concat(*([b] * n))) if n > 1 else simp(b)
                    so = simp(oo - d + bv(e[4], 64))
                    if e[5] is not None:
                        # read through to the snapshot of the source object
                        sobj, scont = e[5]
                        save = st.mem.get(sobj.id)
                        st.mem[sobj.id] = scont
                        try: v = s.read_raw(st, sobj, so, n)
                        finally:
                            if save is None: st.mem.pop(sobj.id, None)
                            else: st.mem[sobj.id] = save
                        return v
                    return s.select_bytes(e[3], so, n)
                hit = 'flat'; break
        if hit is None and base is None:
            # concrete offset, bottom cells
            ce = c.cells.get(k)
            if ce is not None and ce[0] == n: return ce[1]
            parts = []
            i = k
            end = k + n
            while i < end:
                found = None
                for back in range(0, 17):
                    ce = c.cells.get(i - back)
                    if ce is not None:
                        if ce[0] > back: found = (i - back, ce)
                        break
                if found:
                    o, (sz, v) = found
                    d = i - o
                    m = min(sz - d, end - i)
                    parts.append((m, s.sub_bits(v, sz, d, m)))
                    i += m
                else:
                    j = i + 1
                    while j < end and c.cells.get(j) is None: j += 1
                    m = j - i
                    if c.arr is not None: v = s.select_bytes(c.arr, i, m)
                    elif c.zero: v = 0
                    else:
                        v = s.fresh(8 * m, 'uninit')
                        c = s.content(st, obj, True)
                        c.cells[i] = (m, v)
                    parts.append((m, v))
                    i = j
            if len(parts) == 1: return parts[0][1]
            if all(not is_sym(v) for _, v in parts):
                r = 0; sh = 0
                for m, v in parts: r |= v << sh; sh += 8 * m
                return r
            return simp(z3.Concat(*[bv(v, 8 * m) for m, v in reversed(parts)]))
        if hit is None and not c.cells and not c.log:
            if c.arr is None:
                c = s.content(st, obj, True)
                c.arr = z3.K(BVS(64), z3.BitVecVal(0, 8)) if c.zero else s.fresh_arr('u')
            return s.select_bytes(c.arr, off, n)
        if hit is None and base is not None and c.cells:
            cs = sorted(c.cells.items())
            oo = bv(off, 64)
            ptrs = any(isinstance(v, (Ptr, FnPtr)) for _, (z, v) in cs)
            if ptrs or len(cs) <= 8:
                for o, (sz, v) in cs:
                    if sz == n and s.valid(st, oo == o): return v
            if ptrs: raise Unsupported('symbolic index into pointer cells of ' + obj.name)
        c = s.flatten(st, obj)
        return s.select_bytes(c.arr, off, n)

    def select_bytes(s, arr, off, n):
        bs = [z3.Select(arr, bv(add64(off, i), 64)) for i in range(n)]
        if n == 1: return simp(bs[0])
        return simp(z3.Concat(*reversed(bs)))

    def write_raw(s, st, obj, off, n, v):
        if n == 0: return
        if obj.reader is not None: raise Unsupported('write into a special object')
        c = s.content(st, obj, True)
        base, k = split(off)
        if base is None and not c.log:
            # remove overlaps
            for o in range(k - 16, k + n):
                ce = c.cells.get(o)
                if ce is None or o + ce[0] <= k: continue
                sz, ov = ce
                del c.cells[o]
                if o < k: c.cells[o] = (k - o, s.sub_bits(ov, sz, 0, k - o))
                if o + sz > k + n: c.cells[k + n] = (o + sz - k - n, s.sub_bits(ov, sz, k + n - o, o + sz - k - n))
            c.cells[k] = (n, v)
            return
        # drop an identical earlier write
        if len(c.log) > 48:
            if not any(e[0] == 'tok' for e in c.log):
                c = s.flatten(st, obj)
        c.log = [e for e in c.log if not (e[0] == 'w' and same(e[1], base) and e[2] == k and e[3] == n)]
        c.log.append(('w', base, k, n, v))

    # typed access
    def load(s, st, p, t):
        t = s.m.res(t)
        n = s.m.size(t)
        if isinstance(p, FnPtr) or p is UNDEF: raise Unsupported('load via %r' % (p,))
        s.check_bounds(st, p, n, 'read')
        if p.obj is None: raise DeadPath()
        if t.k in ('struct', 'arr', 'vec'):
            if t.k == 'struct':
                offs = s.m.layout(t)[2]
                return [s.load_at(st, p, o, e) for o, e in zip(offs, t.e)]
            ez = s.m.size(t.e)
            return [s.load_at(st, p, i * ez, t.e) for i in range(t.n)]
        v = s.read_raw(st, p.obj, p.off, n)
        return s.conv_load(v, t, n)

    def load_at(s, st, p, o, t):
        t = s.m.res(t)
        if t.k in ('struct', 'arr', 'vec'): return s.load(st, Ptr(p.obj, add64(p.off, o)), t)
        n = s.m.size(t)
        return s.conv_load(s.read_raw(st, p.obj, add64(p.off, o), n), t, n)

    def conv_load(s, v, t, n):
        if t.k == 'ptr':
            if isinstance(v, (Ptr, FnPtr)) or v is UNDEF: return v
            return s.int2ptr(v)
        if t.k == 'int':
            if isinstance(v, (Ptr, FnPtr)) or v is UNDEF: v = s.as_bits(v, n)
            if t.n == 1:
                if is_sym(v): return simp(z3.Extract(0, 0, v) == 1)
                return v & 1
            if t.n < 8 * n:
                return simp(z3.Extract(t.n - 1, 0, v)) if is_sym(v) else v & mask(t.n)
            return v
        if t.k in ('float', 'double'):
            return s.as_bits(v, n)
        raise Unsupported('load type %r' % t)

    def int2ptr(s, v):
        if not is_sym(v): return Ptr(None, v)
        v = simp(v)
        if not is_sym(v): return Ptr(None, v)
        # base!k + off
        terms = v.children() if v.decl().kind() == z3.Z3_OP_BADD else [v]
        ob = None
        rest = []
        for t in terms:
            if ob is None and t.get_id() in BASES: ob = BASES[t.get_id()]
            else: rest.append(t)
        if ob is None:
            if v.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(v).startswith('fn!'): return FnPtr(str(v)[3:])
            # the same sum, split up by the simplifier: Concat(hi(base + c), c + lo(base))
            bs, todo, seen = set(), [v], set()
            while todo and len(seen) < 64:
                t = todo.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if t.get_id() in BASES: bs.add(t)
                todo += t.children()
            if len(bs) == 1 and not todo:
                b = bs.pop()
                c = simp(z3.substitute(v, (b, z3.BitVecVal(0, 64))))
                if not is_sym(c):
                    q = z3.Solver()
                    q.set('timeout', 5000)
                    q.add(v != b + c)
                    if q.check() == z3.unsat: return Ptr(BASES[b.get_id()], cval(c))
            raise Unsupported('pointer from integer %s' % str(v)[:80])
        off = 0
        for t in rest: off = add64(off, cval(t))
        return Ptr(ob, off)

    def store(s, st, p, t, v):
        t = s.m.res(t)
        n = s.m.size(t)
        if isinstance(p, FnPtr) or p is UNDEF: raise Unsupported('store via %r' % (p,))
        s.check_bounds(st, p, n, 'write')
        if p.obj is None: raise DeadPath()
        s.check_frame(st, p, n)
        s.record_write(st, p, n)
        s.store_at(st, p, 0, t, v)

    def store_at(s, st, p, o, t, v):
        t = s.m.res(t)
        if t.k == 'struct':
            if v is UNDEF: return
            for oo, e, x in zip(s.m.layout(t)[2], t.e, v): s.store_at(st, p, o + oo, e, x)
            return
        if t.k in ('arr', 'vec'):
            if v is UNDEF: return
            ez = s.m.size(t.e)
            for i in range(t.n): s.store_at(st, p, o + i * ez, t.e, v[i])
            return
        n = s.m.size(t)
        if t.k == 'int' and t.n == 1: v = bv(v, 8) if is_sym(v) else int(v)
        elif t.k == 'int' and t.n < 8 * n and is_sym(v): v = z3.ZeroExt(8 * n - t.n, v)
        s.write_raw(st, p.obj, add64(p.off, o), n, v)

    def memcpy(s, st, d, src, n, move=False):
        if not is_sym(n) and n == 0: return [st]
        if is_sym(n):
            n = simp(n)
        if is_sym(n):
            # small set of feasible sizes: fork
            vals = s.enum(st, n, 9)
            if vals is not None and len(vals) <= 8 and max(vals) <= 64:
                out = []
                for i, v in enumerate(vals):
                    s2 = st.clone() if i < len(vals) - 1 else st
                    s.assume(s2, n == v)
                    out += s.memcpy(s2, d, src, v, move)
                return out
        s.check_bounds(st, src, n, 'read')
        s.check_bounds(st, d, n, 'write')
        if d.obj is None or src.obj is None: return [st]
        s.check_frame(st, d, n)
        s.record_write(st, d, n)
        if not is_sym(n) and n <= 256 and not is_sym(src.off):
            # concrete copy, piecewise along the source cells
            c = s.content(st, src.obj)
            if not c.log and src.obj.reader is None:
                pieces = []
                i = 0
                while i < n:
                    ce = c.cells.get(src.off + i)
                    if ce is not None and i + ce[0] <= n:
                        pieces.append((i, ce[0], ce[1])); i += ce[0]
                    else:
                        j = i + 1
                        while j < n and (src.off + j) not in c.cells: j += 1
                        m = j - i
                        while m:
                            q = min(m, 8)
                            pieces.append((i, q, s.read_raw(st, src.obj, src.off + i, q)))
                            c = s.content(st, src.obj)
                            i += q; m -= q
                for o, z, v in pieces: s.write_raw(st, d.obj, add64(d.off, o), z, v)
                return [st]
        if not is_sym(n) and n <= 32:
            if n in (1, 2, 4, 8):
                v = s.read_raw(st, src.obj, src.off, n)
                s.write_raw(st, d.obj, d.off, n, v)
                return [st]
            pieces = []
            i = 0
            while i < n:
                q = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
                pieces.append((i, q, s.read_raw(st, src.obj, add64(src.off, i), q))); i += q
            for o, z, v in pieces: s.write_raw(st, d.obj, add64(d.off, o), z, v)
            return [st]
        sc = s.content(st, src.obj)
        if src.obj.reader is not None: raise Unsupported('memcpy from special object')
        snap = sc.copy(0)
        # array view of the source for fallback
        tmp = s.flatten_copy(st, src.obj)
        c = s.content(st, d.obj, True)
        c.log.append(('cpy', d.off, n, tmp, src.off, (src.obj, snap)))
        return [st]

    def flatten_copy(s, st, obj):
        t = st.mem.get(obj.id, s.gcontent.get(obj.id))
        save = st.mem.get(obj.id)
        st.mem[obj.id] = t.copy(st.id)
        c = s.flatten(st, obj)
        arr = c.arr
        if save is None: del st.mem[obj.id]
        else: st.mem[obj.id] = save
        return arr

    def memset(s, st, d, val, n):
        if not is_sym(n) and n == 0: return
        s.check_bounds(st, d, n, 'write')
        if d.obj is None: return
        s.check_frame(st, d, n)
        s.record_write(st, d, n)
        if not is_sym(n) and n <= 256 and not is_sym(val):
            i = 0
            while i < n:
                q = min(8, n - i)
                v = 0
                for k in range(q): v |= (val & 255) << (8 * k)
                s.write_raw(st, d.obj, add64(d.off, i), q, v); i += q
            return
        c = s.content(st, d.obj, True)
        if not is_sym(d.off) and d.off == 0 and not is_sym(n) and not is_sym(d.obj.size) and n == d.obj.size and not is_sym(val) and val == 0:
            c.cells = {}; c.log = []; c.arr = None; c.zero = True
            return
        c.log.append(('fill', d.off, n, bv(val, 8) if is_sym(val) else val & 255))

    def enum(s, st, e, limit):
        """all feasible values of e, or None if more than limit"""
        out = []
        ex = []
        while len(out) <= limit:
            r, m = s.S.check(st.pc, ex, 10000)
            if r == z3.unsat: return out
            if r != z3.sat: return None
            v = m.eval(e, model_completion=True).as_long()
            out.append(v)
            ex = ex + [e != v]
        return None

    # ---------------------------------------------------------------- globals
    def glob(s, name):
        if name in s.m.fns or name in s.m.decls: return FnPtr(name)
        if name in s.globals: return s.globals[name]
        if name not in s.m.globals: return FnPtr(name)
        d = s.m.global_def(name)
        if d is None: raise Unsupported('global ' + name)
        if d[0] == 'alias':
            p = d[1]; p.type(); p.exp(','); t, v = p.tv()
            r = s.const(t, v)
            s.globals[name] = r
            return r
        t, init, kind = d
        try: size = s.m.size(t)
        except PE: size = 8
        o = Obj(name, size, 'global')
        o.const = kind == 'constant'
        c = Content(0)
        s.gcontent[o.id] = c
        pt = Ptr(o, 0)
        s.globals[name] = pt
        if init is not None: s.init(c, 0, t, init)
        else: c.arr = s.fresh_arr(name)
        return pt

    def init(s, c, off, t, v):
        t = s.m.res(t)
        if v[0] == 'zero':
            n = s.m.size(t)
            i = 0
            while i < n:
                q = min(8, n - i); c.cells[off + i] = (q, 0); i += q
            return
        if v[0] == 'undef': return
        if v[0] == 'str':
            for i, b in enumerate(v[1]): c.cells[off + i] = (1, b)
            return
        if v[0] == 'agg':
            if t.k == 'struct':
                for o, (et, ev) in zip(s.m.layout(t)[2], v[1]): s.init(c, off + o, et, ev)
            else:
                z = s.m.size(t.e)
                for i, (et, ev) in enumerate(v[1]): s.init(c, off + i * z, et, ev)
            return
        n = s.m.size(t)
        c.cells[off] = (n, s.const(t, v))

    def const(s, t, v):
        k = v[0]
        t = s.m.res(t)
        if k == 'c':
            if t.k == 'int': return v[1] & mask(t.n)
            return v[1]
        if k == 'null': return Ptr(None, 0)
        if k == 'undef': return UNDEF
        if k == 'g': return s.glob(v[1])
        if k == 'f':
            x = v[1]
            w = 32 if t.k == 'float' else 64
            if x.startswith('0x'):
                if t.k not in ('float', 'double'): raise Unsupported('fp const')
                d = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
                if w == 64: return int(x, 16)
                if d != d: return 0x7fc00000 | (0x80000000 if int(x, 16) >> 63 else 0)
                return f2b(d, 32)
            return f2b(float(x), w)
        if k == 'zero':
            if t.k == 'struct': return [s.const(e, v) for e in t.e]
            if t.k in ('arr', 'vec'): return [s.const(t.e, v) for _ in range(t.n)]
            if t.k == 'ptr': return Ptr(None, 0)
            return 0
        if k == 'agg': return [s.const(et, ev) for et, ev in v[1]]
        if k == 'str': return list(v[1])
        if k == 'cgep':
            base = s.const(*v[2][0])
            return s.gep(None, base, v[1], [(tt, s.const(tt, vv)) for tt, vv in v[2][1:]])
        if k == 'ccast':
            a = s.const(*v[2])
            return s.cast(v[1], v[2][0], a, v[3])
        if k == 'cbin':
            return s.binop(None, v[1], v[2][0], s.const(*v[2]), s.const(*v[3]), set())
        raise Unsupported('const ' + k)

    def gep(s, st, base, t, idx):
        if base is UNDEF: return UNDEF
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        off = base.off
        first = True
        for it, iv in idx:
            it = s.m.res(it)
            if first:
                z = s.m.size(t); first = False
                off = add64(off, s.mulc(s.sext64(iv, it), z))
                continue
            t = s.m.res(t)
            if t.k == 'struct':
                off = add64(off, s.m.layout(t)[2][iv])
                t = t.e[iv]
            else:
                t = t.e
                off = add64(off, s.mulc(s.sext64(iv, it), s.m.size(t)))
        return Ptr(base.obj, off)

    def sext64(s, v, t):
        if t.n == 64: return v
        if is_sym(v): return simp(z3.SignExt(64 - t.n, v))
        return sgn(v, t.n) & M64

    def mulc(s, v, c):
        if not is_sym(v): return (v * c) & M64
        if c == 1: return v
        return simp(v * z3.BitVecVal(c, 64))

    # ---------------------------------------------------------------- operators
    def binop(s, st, op, t, a, b, flags):
        t = s.m.res(t)
        if t.k == 'vec':
            if a is UNDEF: a = [UNDEF] * t.n
            if b is UNDEF: b = [UNDEF] * t.n
            return [s.binop(st, op, t.e, x, y, flags) for x, y in zip(a, b)]
        if op[0] == 'f': return s.fbin(op, t, a, b)
        w = t.n
        a = s.mat(a, w); b = s.mat(b, w)
        if isinstance(a, Ptr): a = s.as_bits(a, 8)
        if isinstance(b, Ptr): b = s.as_bits(b, 8)
        if w == 1:
            if not is_sym(a) and not is_sym(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            A, B = tobool(a), tobool(b)
            return simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op](A, B))
        if not is_sym(a) and not is_sym(b):
            m = mask(w)
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
            if op in ('udiv', 'urem'):
                if b == 0:
                    s.oblige(st, False, 'no division by zero', 'arith'); raise DeadPath()
                return a // b if op == 'udiv' else a % b
            if op in ('sdiv', 'srem'):
                if b == 0:
                    s.oblige(st, False, 'no division by zero', 'arith'); raise DeadPath()
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & m
        A, B = bv(a, w), bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem') and st is not None:
            s.oblige(st, simp(B != 0), 'no division by zero', 'arith')
        if op in ('shl', 'lshr', 'ashr') and st is not None and is_sym(b) and not s.valid(st, z3.ULT(B, w)):
            # an over-wide shift yields an arbitrary value (the optimiser may have hoisted it above its guard)
            r = {'shl': A << B, 'lshr': z3.LShR(A, B), 'ashr': A >> B}[op]
            return simp(z3.If(z3.ULT(B, w), r, s.fresh(w, 'ovs')))
        if op == 'add': return simp(A + B)
        if op == 'sub': return simp(A - B)
        if op == 'mul':
            if is_sym(a) and is_sym(b) and w >= 32 and st is not None: return s.mul(st, A, B, w)
            return simp(A * B)
        if op == 'and': return simp(A & B)
        if op == 'or': return simp(A | B)
        if op == 'xor': return simp(A ^ B)
        if op == 'shl': return simp(A << B)
        if op == 'lshr': return simp(z3.LShR(A, B))
        if op == 'ashr': return simp(A >> B)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if is_sym(b) and st is not None: return s.div(st, op, A, B, w)
            if st is not None and op in ('udiv', 'sdiv') and A.decl().kind() == z3.Z3_OP_BMUL and A.num_args() == 2 and z3.is_bv_value(A.arg(0)) and A.arg(0).eq(B):
                # exact: (k * x) / k with a product that does not wrap
                if s.bound(st, A.arg(1), w) + B.as_long().bit_length() < w: return A.arg(1)
            return simp({'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](A, B))
        raise Unsupported(op)

    def bound(s, st, x, w):
        """smallest k in a few candidates such that x < 2^k is known"""
        if x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
            return w - x.arg(0).size()
        for k in (16, 32, 33, 48):
            if k < w and s.valid(st, z3.ULT(x, z3.BitVecVal(1 << k, w))): return k
        return w

    def mul(s, st, A, B, w):
        """symbolic product as an uninterpreted term with the monotonicity lemmas of
        multiplication over the naturals (proved once over the integers, see lemmas.py)"""
        if A.get_id() > B.get_id(): A, B = B, A
        f = uf('mul%d' % w, BVS(w), BVS(w), BVS(w))
        p = f(A, B)
        for (x, y, q, ww, nov) in st.muls:
            if ww == w and q.eq(p): return p
        ka, kb = s.bound(st, A, w), s.bound(st, B, w)
        nov = ka + kb <= w
        ax = [z3.Implies(z3.Or(A == 0, B == 0), p == 0), z3.Implies(A == 1, p == B), z3.Implies(B == 1, p == A)]
        if nov:
            if ka + kb < w: ax.append(z3.ULT(p, z3.BitVecVal(1 << (ka + kb), w)))
            ax.append(z3.Implies(B != 0, z3.UGE(p, A)))
            ax.append(z3.Implies(A != 0, z3.UGE(p, B)))
        for (x, y, q, ww, nv) in st.muls:
            if ww != w: continue
            for (u, v) in ((A, B), (B, A)):
                for (u2, v2) in ((x, y), (y, x)):
                    if v.eq(v2):
                        # p = u*v, q = u2*v
                        if nov: ax.append(z3.Implies(z3.ULT(u2, u), z3.And(z3.ULE(q, p), z3.ULE(v, p - q))))
                        if nv: ax.append(z3.Implies(z3.ULT(u, u2), z3.And(z3.ULE(p, q), z3.ULE(v, q - p))))
                        ax.append(z3.Implies(u == u2 + 1, p == q + v))
                        ax.append(z3.Implies(u2 == u + 1, q == p + v))
        st.muls = st.muls + ((A, B, p, w, nov),)
        for a in ax: s.assume(st, a)
        return p

    def div(s, st, op, A, B, w):
        f = uf('%s%d' % (op, w), BVS(w), BVS(w), BVS(w))
        if op in ('udiv', 'urem'):
            q = uf('udiv%d' % w, BVS(w), BVS(w), BVS(w))(A, B)
            r = uf('urem%d' % w, BVS(w), BVS(w), BVS(w))(A, B)
            s.assume(st, z3.ULT(r, B)); s.assume(st, z3.ULE(q, A)); s.assume(st, z3.ULE(r, A))
            m = s.mul(st, q, B, w)
            s.assume(st, z3.And(A == m + r, z3.ULE(m, A)))
            # q*B does not wrap (q = A div B): record it as non-overflowing for the lemmas
            st.muls = tuple((x, y, t, ww, True if t.eq(m) else nv) for (x, y, t, ww, nv) in st.muls)
            return q if op == 'udiv' else r
        return f(A, B)

    def mat(s, v, w):
        if v is UNDEF: return s.fresh(w, 'undef')
        return v

    def fbin(s, op, t, a, b):
        w = 32 if t.k == 'float' else 64
        a = s.mat(a, w); b = s.mat(b, w)
        if not is_sym(a) and not is_sym(b):
            x, y = b2f(a, w), b2f(b, w)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                if w == 32: pass     # double rounding is innocuous for + - * / from binary32
                return f2b(r, w)
            except ZeroDivisionError: pass
        return uf('%s%d' % (op, w), BVS(w), BVS(w), BVS(w))(bv(a, w), bv(b, w))

    def fcmp(s, pr, t, a, b):
        w = 32 if t.k == 'float' else 64
        a = s.mat(a, w); b = s.mat(b, w)
        if not is_sym(a) and not is_sym(b):
            x, y = b2f(a, w), b2f(b, w)
            un = x != x or y != y
            if pr == 'true': return 1
            if pr == 'false': return 0
            if pr == 'ord': return int(not un)
            if pr == 'uno': return int(un)
            c = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[1:]]
            return int((c or un) if pr[0] == 'u' else (c and not un))
        if is_sym(a) and is_sym(b) and a.eq(b): un = fisnan(a, w)
        else: un = z3.Or(tobool(fisnan(a, w)), tobool(fisnan(b, w)))
        if pr == 'uno': return simp(un)
        if pr == 'ord': return simp(z3.Not(un))
        ka, kb = fkey(a, w), fkey(b, w)
        c = {'eq': lambda: ka == kb, 'ne': lambda: ka != kb, 'lt': lambda: z3.ULT(ka, kb), 'le': lambda: z3.ULE(ka, kb),
             'gt': lambda: z3.UGT(ka, kb), 'ge': lambda: z3.UGE(ka, kb)}[pr[1:]]()
        return simp(z3.Or(un, c) if pr[0] == 'u' else z3.And(z3.Not(un), c))

    def icmp(s, st, pr, t, a, b):
        t = s.m.res(t)
        if t.k == 'vec':
            return [s.icmp(st, pr, t.e, x, y) for x, y in zip(a, b)]
        if t.k == 'ptr':
            if a is UNDEF or b is UNDEF: return s.fresh(1, 'undef')
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return int(eq == (pr == 'eq'))
            if a.obj is b.obj:
                a, b = a.off, b.off
                w = 64
            else:
                if pr == 'eq': return 0
                if pr == 'ne': return 1
                if a.obj is None and not is_sym(a.off) and a.off == 0: return int(pr in ('ult', 'ule'))
                if b.obj is None and not is_sym(b.off) and b.off == 0: return int(pr in ('ugt', 'uge'))
                raise Unsupported('pointer comparison across objects %r %r' % (a, b))
        else:
            w = t.n
            a = s.mat(a, w); b = s.mat(b, w)
            if isinstance(a, Ptr): a = s.as_bits(a, 8)
            if isinstance(b, Ptr): b = s.as_bits(b, 8)
        if not is_sym(a) and not is_sym(b):
            a, b = int(a), int(b)
            if pr == 'eq': return int(a == b)
            if pr == 'ne': return int(a != b)
            if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]])
        if st is not None and st.icmps is not None and w in (32, 64): st.icmps.append((w, a, b))
        if w == 1:
            A, B = tobool(a), tobool(b)
            if pr == 'eq': return simp(A == B)
            if pr == 'ne': return simp(A != B)
            A, B = bv(a, 1), bv(b, 1)
        else:
            A, B = bv(a, w), bv(b, w)
        f = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pr]
        r = simp(f())
        return int(r) if isinstance(r, bool) else r

    def cast(s, op, t, v, t2):
        t = s.m.res(t); t2 = s.m.res(t2)
        if t.k == 'vec' and op != 'bitcast':
            if v is UNDEF: v = [UNDEF] * t.n
            return [s.cast(op, t.e, x, t2.e) for x in v]
        if op == 'bitcast':
            if t.k == t2.k and t.k == 'ptr': return v
            if t.k == 'vec' or t2.k == 'vec': return s.bitcast_vec(t, v, t2)
            return v if v is not UNDEF else UNDEF
        if op == 'ptrtoint':
            v = s.as_bits(v, 8)
            if t2.n < 64: return simp(z3.Extract(t2.n - 1, 0, bv(v, 64)))
            return v
        if op == 'inttoptr': return s.int2ptr(v)
        if v is UNDEF: v = s.fresh(t.n if t.k == 'int' else 32 if t.k == 'float' else 64, 'undef')
        if op == 'trunc':
            if t2.n == 1:
                if not is_sym(v): return v & 1
                return simp(z3.Extract(0, 0, v) == 1)
            if not is_sym(v): return v & mask(t2.n)
            return simp(z3.Extract(t2.n - 1, 0, v))
        if op == 'zext':
            if not is_sym(v): return int(v)
            if t.n == 1: return simp(bv(v, t2.n))
            return simp(z3.ZeroExt(t2.n - t.n, v))
        if op == 'sext':
            if not is_sym(v): return sgn(int(v), t.n) & mask(t2.n)
            if t.n == 1: return simp(z3.If(v, z3.BitVecVal(-1, t2.n), z3.BitVecVal(0, t2.n)))
            return simp(z3.SignExt(t2.n - t.n, v))
        fw = {'float': 32, 'double': 64}
        if op in ('sitofp', 'uitofp'):
            w = fw[t2.k]
            if not is_sym(v):
                x = sgn(v, t.n) if op == 'sitofp' else v
                if w == 64: return f2b(float(x), 64)
                return f2b_int32(x)
            return uf('%s_%d_%d' % (op, t.n, w), BVS(t.n), BVS(w))(bv(v, t.n))
        if op in ('fptosi', 'fptoui'):
            w = fw[t.k]
            if not is_sym(v):
                x = b2f(v, w)
                if x == x and abs(x) < 2.0 ** 63: return int(x) & mask(t2.n)
            return uf('%s_%d_%d' % (op, w, t2.n), BVS(w), BVS(t2.n))(bv(v, w))
        if op == 'fpext':
            if not is_sym(v): return f2b(b2f(v, 32), 64)
            return uf('fpext', BVS(32), BVS(64))(v)
        if op == 'fptrunc':
            if not is_sym(v): return f2b(b2f(v, 64), 32)
            return uf('fptrunc', BVS(64), BVS(32))(v)
        raise Unsupported('cast ' + op)

    def bitcast_vec(s, t, v, t2):
        def bits(tt):
            tt = s.m.res(tt)
            return tt.n if tt.k == 'int' else {'float': 32, 'double': 64, 'ptr': 64}[tt.k]
        if v is UNDEF: return [UNDEF] * t2.n if t2.k == 'vec' else UNDEF
        src = [(bits(t.e), x) for x in v] if t.k == 'vec' else [(bits(t), v)]
        dst = [bits(t2.e)] * t2.n if t2.k == 'vec' else [bits(t2)]
        if [a for a, _ in src] == dst:
            r = [x for _, x in src]
        else:
            if all(not is_sym(s.mat(x, w)) for w, x in src) and False: pass
            tot = z3.Concat(*[bv(s.mat(x, w), w) for w, x in reversed(src)]) if len(src) > 1 else bv(s.mat(src[0][1], src[0][0]), src[0][0])
            if z3.is_bool(tot): tot = bv(tot, 1)
            r = []
            lo = 0
            for w in dst:
                r.append(simp(z3.Extract(lo + w - 1, lo, tot))); lo += w
        return r if t2.k == 'vec' else r[0]

    # ---------------------------------------------------------------- execution
    def val(s, fr, t, v):
        if v[0] == 'l':
            try: return fr.regs[v[1]]
            except KeyError: raise Unsupported('undefined register %s' % v[1])
        if v[0] == 'c':
            return v[1] & mask(t.n) if t.k == 'int' else v[1]
        return s.const(t, v)

    def call(s, st, name, args):
        """execute function `name`; list of (state, ret)"""
        h = s.contract_for(name)
        if h is not None:
            r = h(s, st, name, args)
            if r is not None:
                s.used[name] = s.used.get(name, 0) + 1
                return r
        fn = s.m.fns.get(name)
        if fn is None: raise Unsupported('call to external function ' + s.pretty(name))
        fn.parse()
        if len(s.callstack) > 60: raise Unsupported('recursion: ' + s.pretty(name))
        s.executed[name] = s.executed.get(name, 0) + 1
        fr = Frame(fn)
        for (t, nm), a in zip(fn.params, args): fr.regs[nm] = a
        s.callstack.append(name)
        s.sites.append(s.cursite)
        try:
            outs = s.run(st, fr, fn.entry, None, None)
        finally:
            s.callstack.pop(); s.sites.pop()
        res = []
        for k, st2, fr2, *rest in outs:
            for o in fr2.allocas: s.free(st2, o)
            res.append((st2, rest[0]))
        return res

    def contract_for(s, name):
        if name not in s.ccache:
            pn = s.pretty(name)
            s.ccache[name] = None
            for rx, h in s.contracts:
                if rx.search(pn):
                    s.ccache[name] = h
                    break
        return s.ccache[name]

    def phis(s, fr, blk, prev):
        fn = fr.fn
        upd = {}
        for ins in fn.blocks[blk]:
            if ins[0] != 'phi': break
            v = ins[3].get(prev)
            if v is None: raise Unsupported('phi edge')
            upd[ins[1]] = s.val(fr, s.m.res(ins[2]), v)
        fr.regs.update(upd)

    def run(s, st, fr, blk, prev, stopf):
        """run from the start of blk until return or a block where stopf(blk) holds.
        outcomes: ('ret', st, fr, val) / ('stop', st, fr, blk, prev)"""
        out = []
        work = [(st, fr, blk, prev, 0, True)]
        while work:
            st, fr, blk, prev, idx, enter = work.pop()
            try:
                s.run1(st, fr, blk, prev, idx, enter, stopf, out, work)
            except DeadPath:
                pass
        return out

    def goto(s, st, fr, blk, prev, stopf, out, work):
        if stopf is not None and stopf(blk):
            out.append(('stop', st, fr, blk, prev))
            return None
        fn = fr.fn
        if blk in fn.mustthrow and not (s.catchers and fn.throw_stores(blk)):
            s.on_throw(st, fr, fn.throw_types(blk))
            return None
        if blk in fn.loops and (prev is None or prev not in fn.loops[blk]):
            for o in s.loop(st, fr, blk, prev):
                if o[0] == 'ret': out.append(o)
                else:
                    k, st2, fr2, b2, p2 = o
                    r = s.goto(st2, fr2, b2, p2, stopf, out, work)
                    if r is not None: work.append(r)
            return None
        return (st, fr, blk, prev, 0, True)

    def on_throw(s, st, fr, types=()):
        s.throws += 1
        for t in types:
            if t not in STDEXC and not s.quiet:
                s.oblige(st, False, 'only exceptions derived from std::exception are thrown (%s)' % t, 'throw-type')
        if s.catchers:
            s.catchers[-1].append(st)
            return
        if st.flags.get('nothrow') and not s.quiet:
            s.oblige(st, False, st.flags['nothrow'], 'throw')

    def run1(s, st, fr, blk, prev, idx, enter, stopf, out, work):
        fn = fr.fn
        while True:
            if enter:
                s.phis(fr, blk, prev)
                enter = False
                if time.time() > s.t_end: raise Stop('time budget exhausted')
            insts = fn.blocks[blk]
            n = len(insts)
            nxt = None
            while idx < n:
                ins = insts[idx]
                k = ins[0]
                s.instrs += 1
                if k == 'phi':
                    idx += 1; continue
                if k == 'br':
                    nxt = s.goto(st, fr, ins[1], blk, stopf, out, work)
                    break
                if k == 'cbr':
                    c = s.val(fr, INT(1), ins[1])
                    if c is UNDEF: c = s.fresh(1, 'undef')
                    if not is_sym(c):
                        nxt = s.goto(st, fr, ins[2] if c else ins[3], blk, stopf, out, work)
                        break
                    ft = s.feasible(st, c)
                    ff = s.feasible(st, z3.Not(c)) if ft else True
                    if ft and ff:
                        st2 = st.clone(); fr2 = fr.copy()
                        s.assume(st2, z3.Not(c))
                        r = s.goto(st2, fr2, ins[3], blk, stopf, out, work)
                        if r is not None: work.append(r)
                        s.assume(st, c)
                        nxt = s.goto(st, fr, ins[2], blk, stopf, out, work)
                    else:
                        nxt = s.goto(st, fr, ins[2] if ft else ins[3], blk, stopf, out, work)
                    break
                if k == 'switch':
                    t = s.m.res(ins[1])
                    v = s.val(fr, t, ins[2])
                    if not is_sym(v):
                        tgt = ins[3]
                        for cv, b in ins[4]:
                            if cv & mask(t.n) == v: tgt = b
                        nxt = s.goto(st, fr, tgt, blk, stopf, out, work)
                        break
                    rest = []
                    todo = []
                    for cv, b in ins[4]:
                        cond = v == bv(cv & mask(t.n), t.n)
                        rest.append(z3.Not(cond))
                        if s.feasible(st, cond): todo.append((cond, b))
                    dc = z3.And(*rest) if rest else z3.BoolVal(True)
                    if s.feasible(st, dc): todo.append((dc, ins[3]))
                    for i, (cond, b) in enumerate(todo):
                        st2, fr2 = (st.clone(), fr.copy())
                        s.assume(st2, cond)
                        r = s.goto(st2, fr2, b, blk, stopf, out, work)
                        if r is not None: work.append(r)
                    return
                if k == 'ret':
                    v = s.val(fr, s.m.res(ins[1]), ins[2]) if ins[1] is not None else None
                    out.append(('ret', st, fr, v))
                    return
                if k == 'unreachable':
                    return
                if k == 'call':
                    res = s.do_call(st, fr, ins)
                    if res is None:      # simple, no fork, already stored
                        pass
                    else:
                        if not res: return
                        cont = []
                        for st2, rv in res: cont.append((st2, rv))
                        # first continues here; others go to the worklist
                        for st2, rv in cont[1:]:
                            fr2 = fr.copy()
                            if ins[1]: fr2.regs[ins[1]] = rv
                            if ins[6] is not None:
                                r = s.goto(st2, fr2, ins[6][0], blk, stopf, out, work)
                                if r is not None: work.append(r)
                            else: work.append((st2, fr2, blk, prev, idx + 1, False))
                        st, rv = cont[0]
                        if ins[1]: fr.regs[ins[1]] = rv
                    if ins[6] is not None:
                        nxt = s.goto(st, fr, ins[6][0], blk, stopf, out, work)
                        break
                    idx += 1
                    continue
                r = s.step(st, fr, ins)
                if r is not None:
                    # forked: list of (state, value)
                    for st2, rv in r[1:]:
                        fr2 = fr.copy()
                        if ins[1]: fr2.regs[ins[1]] = rv
                        work.append((st2, fr2, blk, prev, idx + 1, False))
                    st, rv = r[0]
                    if ins[1]: fr.regs[ins[1]] = rv
                idx += 1
            if nxt is None: return
            st, fr, blk, prev, idx, enter = nxt

    def step(s, st, fr, ins):
        k = ins[0]
        R = fr.regs
        if k == 'bin':
            t = s.m.res(ins[3])
            R[ins[1]] = s.binop(st, ins[2], t, s.val(fr, t, ins[4]), s.val(fr, t, ins[5]), ins[6])
        elif k == 'load':
            p = s.val(fr, PTR, ins[3])
            p = s.fixptr(st, p)
            R[ins[1]] = s.load(st, p, ins[2])
        elif k == 'store':
            t = s.m.res(ins[2])
            v = s.val(fr, t, ins[3])
            p = s.fixptr(st, s.val(fr, PTR, ins[4]))
            s.store(st, p, t, v)
        elif k == 'gep':
            base = s.val(fr, PTR, ins[3][0][1])
            R[ins[1]] = s.gep(st, base, ins[2], [(tt, s.val(fr, s.m.res(tt), vv)) for tt, vv in ins[3][1:]])
        elif k == 'icmp':
            t = s.m.res(ins[3])
            R[ins[1]] = s.icmp(st, ins[2], t, s.val(fr, t, ins[4]), s.val(fr, t, ins[5]))
        elif k == 'fcmp':
            t = s.m.res(ins[3])
            a, b = s.val(fr, t, ins[4]), s.val(fr, t, ins[5])
            if t.k == 'vec': R[ins[1]] = [s.fcmp(ins[2], s.m.res(t.e), x, y) for x, y in zip(a, b)]
            else: R[ins[1]] = s.fcmp(ins[2], t, a, b)
        elif k == 'cast':
            t = s.m.res(ins[3])
            R[ins[1]] = s.cast(ins[2], t, s.val(fr, t, ins[4]), ins[5])
        elif k == 'alloca':
            n = s.val(fr, INT(64), ins[3])
            z = s.m.size(ins[2])
            if is_sym(n): raise Unsupported('dynamic alloca')
            o = s.new_obj(st, '%s:%s' % (s.short(fr.fn.name), ins[1]), z * n, 'stack')
            fr.allocas.append(o)
            R[ins[1]] = Ptr(o, 0)
        elif k == 'select':
            ct = s.m.res(ins[6])
            c = s.val(fr, ct, ins[3])
            t = s.m.res(ins[2])
            a, b = s.val(fr, t, ins[4]), s.val(fr, t, ins[5])
            if ct.k == 'vec': R[ins[1]] = [s.select(st, s.m.res(t.e), cc, x, y) for cc, x, y in zip(c, a, b)]
            else:
                if c is UNDEF: c = s.fresh(1, 'undef')
                if is_sym(c) and (t.k in ('ptr', 'struct', 'arr', 'vec')):
                    if t.k == 'vec':
                        R[ins[1]] = [s.select(st, s.m.res(t.e), c, x, y) for x, y in zip(a, b)]
                        return None
                    if t.k == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                        R[ins[1]] = Ptr(a.obj, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
                        return None
                    res = []
                    if s.feasible(st, z3.Not(c)):
                        st2 = st.clone(); s.assume(st2, z3.Not(c)); res.append((st2, b))
                    if s.feasible(st, c):
                        s.assume(st, c); res.append((st, a))
                    return res
                R[ins[1]] = s.select(st, t, c, a, b)
        elif k == 'extractvalue':
            v = s.val(fr, s.m.res(ins[2]), ins[3])
            for i in ins[4]: v = v[i] if v is not UNDEF else UNDEF
            R[ins[1]] = v
        elif k == 'insertvalue':
            t = s.m.res(ins[2])
            v = s.val(fr, t, ins[3])
            x = s.val(fr, s.m.res(ins[4]), ins[5])
            R[ins[1]] = s.insval(t, v, x, ins[6])
        elif k == 'extractelement':
            t = s.m.res(ins[2])
            v = s.val(fr, t, ins[3]); i = s.val(fr, INT(64), ins[4])
            if v is UNDEF: R[ins[1]] = UNDEF
            elif is_sym(i):
                w = s.m.size(t.e) * 8
                r = bv(s.mat(v[-1], w), w)
                for j in range(t.n - 2, -1, -1): r = z3.If(i == j, bv(s.mat(v[j], w), w), r)
                R[ins[1]] = simp(r)
            else: R[ins[1]] = v[i]
        elif k == 'insertelement':
            t = s.m.res(ins[2])
            v = s.val(fr, t, ins[3]); e = s.val(fr, s.m.res(t.e), ins[4]); i = s.val(fr, INT(64), ins[5])
            v = [UNDEF] * t.n if v is UNDEF else list(v)
            if is_sym(i): raise Unsupported('insertelement symbolic')
            v[i] = e
            R[ins[1]] = v
        elif k == 'shuffle':
            t = s.m.res(ins[2])
            a = s.val(fr, t, ins[3]); b = s.val(fr, t, ins[4])
            if a is UNDEF: a = [UNDEF] * t.n
            if b is UNDEF: b = [UNDEF] * t.n
            ab = list(a) + list(b)
            mt = s.m.res(ins[5])
            mv = s.const(mt, ins[6])
            if mv is UNDEF: mv = [UNDEF] * mt.n
            R[ins[1]] = [UNDEF if x is UNDEF else ab[x] for x in mv]
        elif k == 'fneg':
            t = s.m.res(ins[2])
            v = s.val(fr, t, ins[3])
            def neg(tt, x):
                w = 32 if tt.k == 'float' else 64
                x = s.mat(x, w)
                return x ^ (1 << (w - 1)) if not is_sym(x) else simp(x ^ z3.BitVecVal(1 << (w - 1), w))
            R[ins[1]] = [neg(s.m.res(t.e), x) for x in v] if t.k == 'vec' else neg(t, v)
        elif k == 'freeze':
            t = s.m.res(ins[2])
            v = s.val(fr, t, ins[3])
            if v is UNDEF and t.k == 'int': v = s.fresh(t.n, 'frz')
            R[ins[1]] = v
        elif k == 'nop': pass
        elif k in ('landingpad', 'resume'): raise DeadPath()
        elif k == 'unsupported': raise Unsupported(ins[1])
        else: raise Unsupported('instruction ' + k)
        return None

    def fixptr(s, st, p):
        """replace a symbolic offset that is forced to one value by that value when the object holds pointers"""
        return p

    def short(s, n):
        p = s.pretty(n)
        p = re.sub(r'\(.*', '', p)
        return p.split('::')[-1]

    def insval(s, t, v, x, idx):
        t = s.m.res(t)
        n = len(t.e) if t.k == 'struct' else t.n
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1: v[idx[0]] = x
        else: v[idx[0]] = s.insval(t.e[idx[0]] if t.k == 'struct' else t.e, v[idx[0]], x, idx[1:])
        return v

    def select(s, st, t, c, a, b):
        if not is_sym(c): return a if c else b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if t.k == 'int' and t.n == 1:
            r = simp(z3.If(c, tobool(a), tobool(b)))
            return int(r) if isinstance(r, bool) else r
        w = t.n if t.k == 'int' else 32 if t.k == 'float' else 64
        return simp(z3.If(c, bv(a, w), bv(b, w)))

    def do_call(s, st, fr, ins):
        callee = ins[3]
        if callee[0] == 'g': f = s.glob(callee[1]) if callee[1] in s.m.globals else FnPtr(callee[1])
        elif callee[0] == 'asm': return [(st, None)] if ins[1] is None else [(st, s.fresh(64, 'asm'))]
        else: f = s.val(fr, PTR, callee)
        if not isinstance(f, FnPtr): raise Unsupported('indirect call through %r' % (f,))
        name = f.name
        if name.startswith('@llvm.'):
            args = [s.val(fr, s.m.res(t), v) if t.k not in ('metadata',) else None for t, v in ins[4]]
            r = s.intrinsic(st, fr, name[1:], ins, args)
            return r
        args = [s.val(fr, s.m.res(t), v) for t, v in ins[4]]
        b = BUILTINS.get(name)
        if b is not None:
            if not name.startswith('@vc_'): s.assumed.add(s.pretty(name))
            return b(s, st, args, ins)
        s.cursite = id(ins)
        return s.call(st, name, args)

    def intrinsic(s, st, fr, name, ins, args):
        d = ins[1]
        R = fr.regs
        if name.startswith('llvm.lifetime.start'):
            p = args[1]
            if isinstance(p, Ptr) and p.obj is not None and p.obj.id in st.mem and not is_sym(p.off) and p.off == 0 and args[0] == p.obj.size:
                st.mem[p.obj.id] = Content(st.id)
                if st.w is not None: st.w.append((p.obj, 'life', 0))
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.donothing', 'llvm.experimental', 'llvm.prefetch', 'llvm.stack', 'llvm.invariant')):
            if d: R[d] = Ptr(None, 0)
            return None
        if name.startswith('llvm.assume'):
            c = args[0]
            if is_sym(c): s.assume(st, c)
            elif not c: raise DeadPath()
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            r = s.memcpy(st, args[0], args[1], args[2], 'move' in name)
            return [(x, None) for x in r]
        if name.startswith('llvm.memset'):
            s.memset(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            s.oblige(st, False, 'no trap', 'trap')
            raise DeadPath()
        if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith('llvm.strip'):
            R[d] = args[0]
            return None
        if name.startswith('llvm.eh.typeid') or name.startswith('llvm.is.constant'):
            R[d] = 0
            return None
        t = s.m.res(ins[2])
        m = re.match(r'llvm\.(umin|umax|smin|smax|ctlz|cttz|ctpop|abs|bswap|fshl|fshr)\.', name)
        if m:
            op = m.group(1)
            if t.k == 'vec': R[d] = [s.iintr(op, s.m.res(t.e), [a[i] if isinstance(a, list) else a for a in args]) for i in range(t.n)]
            else: R[d] = s.iintr(op, t, args)
            return None
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow', name)
        if m:
            et = s.m.res(t.e[0]); w = et.n
            a, b = args
            if m.group(2) == 'mul' and (is_sym(a) or is_sym(b)):
                A, B = bv(a, w), bv(b, w)
                ext = z3.ZeroExt if m.group(1) == 'u' else z3.SignExt
                full = ext(w, A) * ext(w, B)
                res = simp(z3.Extract(w - 1, 0, full))
                ov = simp(full != ext(w, z3.Extract(w - 1, 0, full)))
            else:
                A, B = bv(a, w), bv(b, w)
                ext = z3.ZeroExt if m.group(1) == 'u' else z3.SignExt
                k = w if m.group(2) == 'mul' else 1
                X, Y = ext(k, A), ext(k, B)
                full = X + Y if m.group(2) == 'add' else X - Y if m.group(2) == 'sub' else X * Y
                res = simp(z3.Extract(w - 1, 0, full))
                ov = simp(full != ext(k, z3.Extract(w - 1, 0, full)))
            R[d] = [res, int(ov) if isinstance(ov, bool) else ov]
            return None
        m = re.match(r'llvm\.([us])(add|sub)\.sat', name)
        if m and m.group(1) == 'u':
            w = t.n; A, B = bv(args[0], w), bv(args[1], w)
            R[d] = simp(z3.If(z3.UGE(A, B), A - B, bv(0, w)) if m.group(2) == 'sub' else z3.If(z3.ULT(A + B, A), bv(mask(w), w), A + B))
            return None
        m = re.match(r'llvm\.(fabs|round|rint|nearbyint|floor|ceil|trunc|roundeven|sqrt)\.', name)
        if m:
            op = m.group(1)
            def one(tt, x):
                w = 32 if tt.k == 'float' else 64
                x = s.mat(x, w)
                if op == 'fabs':
                    return x & mask(w - 1) if not is_sym(x) else simp(x & z3.BitVecVal(mask(w - 1), w))
                if not is_sym(x):
                    y = b2f(x, w)
                    if y == y and abs(y) < 2.0 ** 52:
                        if op == 'round': return f2b(math.copysign(math.floor(abs(y) + 0.5) if abs(y) + 0.5 != abs(y) + 1 or True else 0, y), w) if False else f2b(roundaway(y), w)
                        if op in ('rint', 'nearbyint', 'roundeven'): return f2b(math.copysign(float(round(y)), y), w)
                        if op == 'floor': return f2b(float(math.floor(y)), w)
                        if op == 'ceil': return f2b(float(math.ceil(y)), w)
                        if op == 'trunc': return f2b(float(math.trunc(y)), w)
                return uf('%s%d' % (op, w), BVS(w), BVS(w))(bv(x, w))
            R[d] = [one(s.m.res(t.e), x) for x in args[0]] if t.k == 'vec' else one(t, args[0])
            return None
        m = re.match(r'llvm\.(fmuladd|fma)\.', name)
        if m:
            def fma(tt, a, b, c):
                w = 32 if tt.k == 'float' else 64
                if m.group(1) == 'fmuladd':
                    return s.fbin('fadd', tt, s.fbin('fmul', tt, a, b), c)
                return uf('fma%d' % w, BVS(w), BVS(w), BVS(w), BVS(w))(*[bv(s.mat(x, w), w) for x in (a, b, c)])
            R[d] = fma(t, *args) if t.k != 'vec' else [fma(s.m.res(t.e), *x) for x in zip(*args)]
            return None
        m = re.match(r'llvm\.(minnum|maxnum|copysign)\.', name)
        if m:
            w = 32 if t.k == 'float' else 64
            a, b = [bv(s.mat(x, w), w) for x in args]
            if m.group(1) == 'copysign': R[d] = simp((a & bv(mask(w - 1), w)) | (b & bv(1 << (w - 1), w)))
            else: R[d] = uf(m.group(1) + str(w), BVS(w), BVS(w), BVS(w))(a, b)
            return None
        if name.startswith('llvm.is.fpclass'):
            tt = s.m.res(ins[4][0][0]); w = 32 if tt.k == 'float' else 64
            x = bv(s.mat(args[0], w), w)
            msk = args[1]
            inf, mm = exp_mant(w)
            mag = x & bv(mm, w)
            neg = z3.Extract(w - 1, w - 1, x) == 1
            ors = []
            if msk & 3 == 3: ors.append(z3.UGT(mag, inf))
            if msk & 4: ors.append(z3.And(neg, mag == inf))
            if msk & 0x200: ors.append(z3.And(z3.Not(neg), mag == inf))
            mn = 0x00800000 if w == 32 else 0x0010000000000000
            norm = z3.And(z3.ULT(mag, inf), z3.UGE(mag, mn)); sub = z3.And(z3.ULT(mag, mn), mag != 0); ze = mag == 0
            for bit, c in ((8, z3.And(neg, norm)), (16, z3.And(neg, sub)), (32, z3.And(neg, ze)), (64, z3.And(z3.Not(neg), ze)),
                           (128, z3.And(z3.Not(neg), sub)), (256, z3.And(z3.Not(neg), norm))):
                if msk & bit: ors.append(c)
            r = simp(z3.Or(*ors)) if ors else False
            R[d] = int(r) if isinstance(r, bool) else r
            return None
        if name == 'llvm.x86.sse2.cvtps2dq':
            R[d] = [uf('cvtps2dq', BVS(32), BVS(32))(bv(s.mat(x, 32), 32)) for x in args[0]]
            return None
        if name == 'llvm.x86.sse2.cvttps2dq':
            R[d] = [uf('cvttps2dq', BVS(32), BVS(32))(bv(s.mat(x, 32), 32)) for x in args[0]]
            return None
        if name == 'llvm.x86.sse41.round.ps':
            mode = args[1] & 7
            R[d] = [uf({0: 'roundeven', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'roundeven'}[mode] + '32', BVS(32), BVS(32))(bv(s.mat(x, 32), 32)) for x in args[0]]
            return None
        m = re.match(r'llvm\.x86\.sse\.movmsk\.ps', name)
        if m:
            bits = []
            r = z3.BitVecVal(0, 32)
            allc = True
            ci = 0
            for i, x in enumerate(args[0]):
                x = s.mat(x, 32)
                if is_sym(x):
                    allc = False
                    r = r | z3.If(z3.Extract(31, 31, x) == 1, z3.BitVecVal(1 << i, 32), z3.BitVecVal(0, 32))
                else:
                    r = r | z3.BitVecVal(((x >> 31) & 1) << i, 32)
            R[d] = simp(r)
            return None
        if name.startswith('llvm.vector.reduce.'):
            raise Unsupported(name)
        raise Unsupported('intrinsic ' + name)

    def iintr(s, op, t, args):
        w = t.n
        a = s.mat(args[0], w)
        if op in ('umin', 'umax', 'smin', 'smax'):
            b = s.mat(args[1], w)
            if not is_sym(a) and not is_sym(b):
                ka, kb = (a, b) if op[0] == 'u' else (sgn(a, w), sgn(b, w))
                return (a if ka <= kb else b) if op[1:] == 'min' else (a if ka >= kb else b)
            A, B = bv(a, w), bv(b, w)
            lt = z3.ULT(A, B) if op[0] == 'u' else A < B
            return simp(z3.If(lt, A, B) if op[1:] == 'min' else z3.If(lt, B, A))
        if op == 'abs':
            if not is_sym(a): return abs(sgn(a, w)) & mask(w)
            return simp(z3.If(a < 0, -a, a))
        if op == 'bswap':
            n = w // 8
            if not is_sym(a): return int.from_bytes(a.to_bytes(n, 'little'), 'big')
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(n)]))
        if op in ('ctlz', 'cttz', 'ctpop'):
            if not is_sym(a):
                if op == 'ctpop': return bin(a).count('1')
                if a == 0: return w
                return w - a.bit_length() if op == 'ctlz' else (a & -a).bit_length() - 1
            if op == 'ctpop':
                r = z3.BitVecVal(0, w)
                for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
                return simp(r)
            r = z3.BitVecVal(w, w)
            rng = range(w) if op == 'ctlz' else range(w - 1, -1, -1)
            for i in rng:
                cnt = w - 1 - i if op == 'ctlz' else i
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(cnt, w), r)
            return r
        if op in ('fshl', 'fshr'):
            b, c = s.mat(args[1], w), s.mat(args[2], w)
            A, B, C = bv(a, w), bv(b, w), bv(c, w)
            k = z3.URem(z3.ZeroExt(w, C), z3.BitVecVal(w, 2 * w))
            x = z3.Concat(A, B)
            r = z3.Extract(2 * w - 1, w, x << k) if op == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(x, k))
            return simp(r)

    # ---------------------------------------------------------------- loops
    from loops import loop, loop_unroll, loop_inv


class DeadPath(Exception):
    pass


def roundaway(y):
    r = math.floor(abs(y))
    if abs(y) - r >= 0.5: r += 1
    return math.copysign(float(r), y)


def f2b_int32(x):
    """int -> binary32 bits with a single rounding"""
    if x == 0: return 0
    sgn_ = 1 if x < 0 else 0
    a = abs(x)
    n = a.bit_length()
    if n > 24:
        sh = n - 24
        q, r = a >> sh, a & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1): q += 1
        a = q << sh
    return f2b(float(-a if sgn_ else a), 32)


BUILTINS = {}

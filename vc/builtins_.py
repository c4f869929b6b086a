"""Models of the verifier's own primitives (vc_*) and trusted contracts of the runtime library."""
import re
import z3
from engine import *
from engine import BUILTINS, DeadPath


def bi(*names):
    def d(f):
        for n in names: BUILTINS['@' + n] = f
        return f
    return d


def cstr(s, st, p):
    out = bytearray()
    i = 0
    while True:
        v = s.read_raw(st, p.obj, add64(p.off, i), 1)
        if is_sym(v): return '?'
        if v == 0: return out.decode('latin1')
        out.append(v); i += 1


# ------------------------------------------------------------------ contract primitives
@bi('vc_assert')
def _(s, st, a, ins):
    c = a[0]
    s.oblige(st, tobool(c) if is_sym(c) else bool(c), cstr(s, st, a[1]))
    if not is_sym(c) and not c: return []
    return [(st, None)]


@bi('vc_assume')
def _(s, st, a, ins):
    c = a[0]
    if not is_sym(c): return [(st, None)] if c else []
    if not s.feasible(st, c): return []
    s.assume(st, c)
    return [(st, None)]


@bi('vc_cover')
def _(s, st, a, ins):
    nm = cstr(s, st, a[0])
    if s.quiet: return [(st, None)]
    if not s.covers.get(nm):
        r, m = s.S.check(st.pc, [], 60000)
        s.covers[nm] = r == z3.sat
    return [(st, None)]


@bi('vc_note')
def _(s, st, a, ins):
    st.notes = st.notes + ((cstr(s, st, a[0]), a[1]),)
    return [(st, None)]


@bi('vc_loop')
def _(s, st, a, ins): return [(st, s.fresh(1, 'go'))]


@bi('vc_bool')
def _(s, st, a, ins): return [(st, s.fresh(1, 'b'))]


@bi('vc_u64')
def _(s, st, a, ins): return [(st, s.fresh(64, 'n'))]


@bi('vc_u32')
def _(s, st, a, ins): return [(st, s.fresh(32, 'n'))]


@bi('vc_u8')
def _(s, st, a, ins): return [(st, s.fresh(8, 'n'))]


@bi('vc_havoc')
def _(s, st, a, ins):
    p, n = a
    if is_sym(n): raise Unsupported('vc_havoc symbolic size')
    if n <= 8 and n in (1, 2, 4, 8):
        s.check_bounds(st, p, n, 'write'); s.record_write(st, p, n)
        s.write_raw(st, p.obj, p.off, n, s.fresh(8 * n, 'hv'))
        return [(st, None)]
    s.check_bounds(st, p, n, 'write'); s.record_write(st, p, n)
    i = 0
    while i < n:
        q = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
        s.write_raw(st, p.obj, add64(p.off, i), q, s.fresh(8 * q, 'hv')); i += q
    return [(st, None)]


@bi('vc_buffer')
def _(s, st, a, ins):
    """a fresh buffer of a[0] bytes with arbitrary content"""
    n = a[0]
    o = s.new_obj(st, 'buf', n, 'ext', arr=True)
    if is_sym(n): s.assume(st, z3.ULT(n, z3.BitVecVal(1 << 47, 64)))
    return [(st, Ptr(o, 0))]


def _aligned(s, st, off, k):
    if k != 8: raise Unsupported('unaligned access to vc_objects')
    if is_sym(off):
        if not s.valid(st, off & 7 == 0): raise Unsupported('unaligned access to vc_objects')
    elif off & 7: raise Unsupported('unaligned access to vc_objects')


@bi('vc_objects')
def _(s, st, a, ins):
    """a[2] objects of a[1] (8 or 16) bytes, all like a[0]"""
    p, z, n = a
    ws = [s.read_raw(st, p.obj, add64(p.off, i), 8) for i in range(0, z, 8)]
    if z not in (8, 16): raise Unsupported('vc_objects')
    o = s.new_obj(st, 'objs', simp(bv(n, 64) * z) if is_sym(n) else n * z, 'ext')

    def rd(s, st, obj, off, k):
        _aligned(s, st, off, k)
        if z == 8: return ws[0]
        if not is_sym(off): return ws[off % 16 // 8]
        for i in (0, 1):
            if s.valid(st, off & 15 == 8 * i): return ws[i]
        raise Unsupported('unaligned access to vc_objects')
    o.reader = rd
    return [(st, Ptr(o, 0))]


@bi('vc_pointers')
def _(s, st, a, ins):
    """the array of the pointers to the a[2] objects of a[1] bytes at a[0]"""
    t, z, n = a
    o = s.new_obj(st, 'ptrs', simp(bv(n, 64) * 8) if is_sym(n) else n * 8, 'ext')

    def rd(s, st, obj, off, k):
        _aligned(s, st, off, k)
        return Ptr(t.obj, add64(t.off, off * (z // 8) if not is_sym(off) else simp(off * (z // 8))))
    o.reader = rd
    return [(st, Ptr(o, 0))]


@bi('vc_peel')
def _(s, st, a, ins):
    s.peel = bool(a[0])
    s.lean = True
    return [(st, None)]


@bi('vc_index')
def _(s, st, a, ins):
    s.skolem = tuple(bv(x, 64) for x in a[:3])
    return [(st, None)]


@bi('vc_narrow')
def _(s, st, a, ins):
    s.narrow = True
    return [(st, None)]


@bi('vc_nobounds')
def _(s, st, a, ins):
    """no constant bounds among the candidates of the invariants"""
    s.nobounds = True
    return [(st, None)]


@bi('vc_unroll')
def _(s, st, a, ins):
    s.unroll = a[0]
    return [(st, None)]


@bi('vc_replace')
def _(s, st, a, ins):
    """from now on calls of the functions whose demangled name matches a[0] go to a[1], which states their contract"""
    f = a[1]

    def h(e, st, name, args): return e.call(st, f.name, args)
    import re
    s.contracts.append((re.compile(cstr(s, st, a[0])), h))
    s.ccache.clear()
    return [(st, None)]


@bi('vc_fresh_bytes')
def _(s, st, a, ins):
    """make the whole content of the object arbitrary"""
    p = a[0]
    c = Content(st.id)
    c.arr = s.fresh_arr('fb')
    st.mem[p.obj.id] = c
    if st.w is not None: st.w.append((p.obj, None, None))
    return [(st, None)]


@bi('vc_frame')
def _(s, st, a, ins):
    """from now on only [p, p+n) of p's object may be written"""
    p, n = a[0], a[1]
    st.frame[p.obj.id] = (p.off, add64(p.off, n), cstr(s, st, a[2]))
    return [(st, None)]


@bi('vc_unframe')
def _(s, st, a, ins):
    st.frame.pop(a[0].obj.id, None)
    return [(st, None)]


@bi('vc_nothrow')
def _(s, st, a, ins):
    p = a[0]
    if p.obj is None: st.flags.pop('nothrow', None)
    else: st.flags['nothrow'] = cstr(s, st, p)
    return [(st, None)]


@bi('vc_objsize')
def _(s, st, a, ins): return [(st, a[0].obj.size)]


@bi('vc_offset')
def _(s, st, a, ins): return [(st, a[0].off)]


@bi('vc_sameobj')
def _(s, st, a, ins): return [(st, int(isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and a[0].obj is a[1].obj))]


@bi('vc_concrete')
def _(s, st, a, ins):
    """case split: fork over all feasible values of the argument"""
    v = a[0]
    if not is_sym(v): return [(st, v)]
    vals = s.enum(st, v, 80)
    if vals is None: raise Unsupported('vc_concrete: too many values')
    out = []
    for i, x in enumerate(sorted(vals)):
        st2 = st.clone() if i < len(vals) - 1 else st
        s.assume(st2, v == x)
        st2.flags['split'] = st2.flags.get('split', ()) + (x,)
        out.append((st2, x))
    return out


@bi('vc_fn1')
def _(s, st, a, ins):
    """uninterpreted spec function u64 -> u64, by name"""
    nm = cstr(s, st, a[0])
    return [(st, uf('spec_' + nm, BVS(64), BVS(64))(bv(a[1], 64)))]


@bi('vc_hold')
def _(s, st, a, ins):
    """ghost: 1 if the condition is provably true here (used to guide, never to conclude)"""
    c = a[0]
    return [(st, int(s.valid(st, tobool(c)) if is_sym(c) else bool(c)))]


# ------------------------------------------------------------------ allocation
@bi('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def _(s, st, a, ins):
    n = a[0]
    s.alloc_note = True
    o = s.new_obj(st, 'heap', n, 'heap')
    if is_sym(n) and s.valid(st, z3.ULE(n, z3.BitVecVal(0, 64))): o.size = 0
    if is_sym(n): s.assume(st, z3.ULT(n, z3.BitVecVal(1 << 47, 64)))   # a larger allocation throws bad_alloc
    return [(st, Ptr(o, 0))]


@bi('_ZdlPvm', '_ZdlPv', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _(s, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj is not None:
        s.oblige(st, simp(bv(p.off, 64) == 0) if is_sym(p.off) else p.off == 0, 'delete of the start of a block', 'memory')
        if p.obj.id not in st.mem: s.oblige(st, False, 'no double free', 'memory')
        else:
            st.frame.pop(p.obj.id, None)
            s.free(st, p.obj)
    return [(st, None)]


def throwing(s, st, a, ins):
    t = []
    if ins[3][1] == '@__cxa_throw' and ins[4][1][1][0] == 'g': t = [ins[4][1][1][1]]
    s.on_throw(st, None, t)
    return []


@bi('vc_try')
def _(s, st, a, ins):
    f = a[0]
    if not hasattr(f, 'name'): raise Unsupported('vc_try: not a function')
    s.catchers.append([])
    depth = len(s.catchers)
    try:
        outs = s.call(st, f.name, [a[1]])
        caught = s.catchers[depth - 1]
    finally:
        del s.catchers[depth - 1:]
    return [(st2, 1) for st2, rv in outs] + [(c, 0) for c in caught]


for n in '''__cxa_throw __cxa_rethrow _ZSt20__throw_length_errorPKc _ZSt17__throw_bad_allocv _ZSt28__throw_bad_array_new_lengthv
_ZSt24__throw_out_of_range_fmtPKcz _ZSt19__throw_logic_errorPKc _ZSt20__throw_out_of_rangePKc _ZSt27__throw_bad_optional_accessv
_ZSt25__throw_bad_function_callv _ZSt24__throw_invalid_argumentPKc _ZSt20__throw_system_errori'''.split():
    BUILTINS['@' + n] = throwing


@bi('_ZSt9terminatev', 'abort', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__clang_call_terminate')
def _(s, st, a, ins):
    s.oblige(st, False, 'no abort', 'abort')
    return []


# ------------------------------------------------------------------ libc
@bi('memcpy', 'memmove')
def _(s, st, a, ins):
    return [(x, a[0]) for x in s.memcpy(st, a[0], a[1], a[2])]


@bi('memset')
def _(s, st, a, ins):
    v = a[1]
    if is_sym(v): v = z3.Extract(7, 0, v)
    s.memset(st, a[0], v, a[2])
    return [(st, a[0])]


@bi('memcmp', 'bcmp')
def _(s, st, a, ins):
    n = a[2]
    if is_sym(n):
        vals = s.enum(st, n, 32)
        if vals is None: raise Unsupported('memcmp symbolic length')
        out = []
        for v in vals:
            st2 = st.clone(); s.assume(st2, n == v)
            out += BUILTINS['@memcmp'](s, st2, [a[0], a[1], v], ins)
        return out
    if n == 0: return [(st, 0)]
    s.check_bounds(st, a[0], n, 'read'); s.check_bounds(st, a[1], n, 'read')
    r = z3.BitVecVal(0, 32)
    for i in range(n - 1, -1, -1):
        x = bv(s.read_raw(st, a[0].obj, add64(a[0].off, i), 1), 8)
        y = bv(s.read_raw(st, a[1].obj, add64(a[1].off, i), 1), 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
    return [(st, simp(r))]


@bi('strlen')
def _(s, st, a, ins):
    i = 0
    while True:
        v = s.read_raw(st, a[0].obj, add64(a[0].off, i), 1)
        if is_sym(v): raise Unsupported('strlen of symbolic string')
        if v == 0: return [(st, i)]
        i += 1


def fuf(name, w):
    def f(s, st, a, ins):
        x = a[0]
        if not is_sym(x):
            y = b2f(x, w)
            if y == y and abs(y) < 2.0 ** 51:
                if name == 'round': return [(st, f2b(roundaway(y), w))]
        return [(st, uf('%s%d' % (name, w), BVS(w), BVS(w))(bv(s.mat(x, w), w)))]
    return f


for nm in ('round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundeven'):
    BUILTINS['@' + nm] = fuf({'rint': 'roundeven', 'nearbyint': 'roundeven'}.get(nm, nm), 64)
    BUILTINS['@' + nm + 'f'] = fuf({'rint': 'roundeven', 'nearbyint': 'roundeven'}.get(nm, nm), 32)


def lround(w):
    def f(s, st, a, ins):
        x = s.mat(a[0], w)
        r = uf('round%d' % w, BVS(w), BVS(w))(bv(x, w))
        return [(st, uf('fptosi_%d_64' % w, BVS(w), BVS(64))(r))]
    return f


for nm in ('lround', 'llround'):
    BUILTINS['@' + nm] = lround(64); BUILTINS['@' + nm + 'f'] = lround(32)


def lrint(w):
    def f(s, st, a, ins):
        x = s.mat(a[0], w)
        r = uf('roundeven%d' % w, BVS(w), BVS(w))(bv(x, w))
        return [(st, uf('fptosi_%d_64' % w, BVS(w), BVS(64))(r))]
    return f


for nm in ('lrint', 'llrint'):
    BUILTINS['@' + nm] = lrint(64); BUILTINS['@' + nm + 'f'] = lrint(32)


# ------------------------------------------------------------------ guards for function-local statics, exceptions
@bi('__cxa_allocate_exception')
def _(s, st, a, ins):
    o = s.new_obj(st, 'exc', a[0], 'heap')
    return [(st, Ptr(o, 0))]


@bi('__cxa_free_exception', '__cxa_guard_release', '__cxa_atexit')
def _(s, st, a, ins): return [(st, 0)]


@bi('__cxa_guard_acquire')
def _(s, st, a, ins): return [(st, 1)]


# constructors of the standard exceptions: only that one is thrown matters, not its text
for n in '13runtime_error 11logic_error 16invalid_argument 12length_error 12out_of_range 11range_error 12domain_error 14overflow_error'.split():
    for t in ('EPKc', 'ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'):
        for c in ('C1', 'C2'):
            @bi('_ZNSt' + n + c + t)
            def _(s, st, a, ins): return [(st, None)]


# one thread: mutexes are always free, condition variables are never waited for (waiting is unsupported)
@bi('pthread_mutex_lock', 'pthread_mutex_unlock')
def _(s, st, a, ins): return [(st, 0)]


@bi('_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev', '_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv')
def _(s, st, a, ins): return [(st, None)]

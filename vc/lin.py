"""Linear reasoning modulo 2^w: an equality that follows from the equalities of the path condition by
Gaussian elimination needs no solver.  (Only ever used to discharge, never to refute.)"""
import z3

_F = {}      # id -> (form, expr)
_E = {}      # id -> ([(form, width)], expr)
_B = {}
K = z3


def form(e):
    """linear form {atom id: coefficient, 0: constant} of a bit vector term"""
    i = e.get_id()
    r = _F.get(i)
    if r is not None: return r[0]
    w = e.size(); m = (1 << w) - 1
    k = e.decl().kind()
    if z3.is_bv_value(e): f = {0: e.as_long()} if e.as_long() else {}
    elif k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB:
        f = {}
        for n, c in enumerate(e.children()):
            s = -1 if k == z3.Z3_OP_BSUB and n else 1
            for a, x in form(c).items():
                v = (f.get(a, 0) + s * x) & m
                if v: f[a] = v
                else: f.pop(a, None)
    elif k == z3.Z3_OP_BNEG: f = {a: -x & m for a, x in form(e.arg(0)).items()}
    elif k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
        c = e.arg(0).as_long()
        f = {a: x * c & m for a, x in form(e.arg(1)).items() if x * c & m}
    else: f = {i: 1}
    _F[i] = (f, e)
    return f


def sub(f, g, q, m):
    """f - q*g"""
    f = dict(f)
    for a, x in g.items():
        v = (f.get(a, 0) - q * x) & m
        if v: f[a] = v
        else: f.pop(a, None)
    return f


def eqs(c):
    i = c.get_id()
    r = _E.get(i)
    if r is not None: return r[0]
    out = []
    if z3.is_and(c):
        for x in c.children(): out += eqs(x)
    elif z3.is_eq(c) and z3.is_bv(c.arg(0)):
        w = c.arg(0).size()
        out = [(sub(form(c.arg(0)), form(c.arg(1)), 1, (1 << w) - 1), w)]
    _E[i] = (out, c)
    return out


def basis(pc):
    es = []
    for c in pc: es += [(c.get_id(), x) for x in eqs(c)]
    key = tuple(i for i, x in es)
    r = _B.get(key)
    if r is not None: return r
    rows = []      # (pivot, form, width), each reduced by those before it
    for i, (f, w) in es:
        f = reduce(f, w, rows)
        m = (1 << w) - 1
        for a, x in f.items():
            if a and x & 1:
                q = pow(x, -1, 1 << w)
                g = {b: y * q & m for b, y in f.items()}
                rows.append((a, g, w))
                break
    if len(_B) > 2000: _B.clear()
    _B[key] = rows
    return rows


def reduce(f, w, rows):
    m = (1 << w) - 1
    for a, g, w2 in rows:
        x = f.get(a)
        if x and w2 == w: f = sub(f, g, x, m)
    return f


def _cmp(c):
    """(a, b, strict) of an unsigned comparison a <= b / a < b"""
    neg = False
    if z3.is_not(c): c = c.arg(0); neg = True
    if not z3.is_app(c) or c.num_args() != 2: return None
    k = c.decl().kind()
    if k == z3.Z3_OP_ULEQ: a, b, st = c.arg(0), c.arg(1), False
    elif k == z3.Z3_OP_UGEQ: a, b, st = c.arg(1), c.arg(0), False
    elif k == z3.Z3_OP_ULT: a, b, st = c.arg(0), c.arg(1), True
    elif k == z3.Z3_OP_UGT: a, b, st = c.arg(1), c.arg(0), True
    else: return None
    if neg: a, b, st = b, a, not st
    return a, b, st


_C = {}


def cmps(c):
    i = c.get_id()
    r = _C.get(i)
    if r is not None: return r[0]
    out = []
    if z3.is_and(c):
        for x in c.children(): out += cmps(x)
    else:
        r = _cmp(c)
        if r is not None: out = [(form(r[0]), form(r[1]), r[2], r[0].size())]
    _C[i] = (out, c)
    return out


def _key(f, g, w, rows):
    return (w, frozenset(reduce(f, w, rows).items()), frozenset(reduce(g, w, rows).items()))


_K = {}


def facts(pc, rows):
    key = tuple(c.get_id() for c in pc)
    r = _K.get(key)
    if r is None:
        r = set()
        for c in pc:
            for f, g, st, w in cmps(c): r.add((st,) + _key(f, g, w, rows))
        if len(_K) > 500: _K.clear()
        _K[key] = r
    return r


def holds(pc, c):
    """the conjuncts of c that do not follow this way (only once each); [] if all of them do"""
    parts = []
    st = [c]
    while st:
        x = st.pop()
        if z3.is_and(x): st += x.children()
        elif not z3.is_true(x): parts.append(x)
    out = []
    rows = seen = None
    for x in parts:
        e = z3.is_eq(x) and z3.is_bv(x.arg(0))
        k = None if e else _cmp(x)
        if e or k is not None:
            if rows is None: rows = basis(pc)
            if e:
                w = x.arg(0).size()
                if rows and not reduce(sub(form(x.arg(0)), form(x.arg(1)), 1, (1 << w) - 1), w, rows): continue
            else:
                a, b, s = k
                w = a.size()
                f, g = reduce(form(a), w, rows), reduce(form(b), w, rows)
                if not s and (f == g or not f or g == {0: (1 << w) - 1}): continue
                kk = (w, frozenset(f.items()), frozenset(g.items()))
                if seen is None: seen = set(facts(pc, rows))
                if (s,) + kk in seen or not s and (True,) + kk in seen: continue
                seen.add((s,) + kk)
        out.append(x)
    return out

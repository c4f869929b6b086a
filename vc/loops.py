"""Loops of the code under verification: complete unrolling where the trip count is bounded by
operand width, otherwise a cut at the loop head with an inferred inductive invariant."""
import re, time
import z3
import lin

_num = re.compile(r'!(\d+)')


def exprs_vars(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
        elif z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())


def older(e, n0):
    """True if every symbol in e was created before counter n0"""
    acc = set()
    exprs_vars(e, acc, set())
    for nm in acc:
        m = _num.search(nm)
        if m and not nm.startswith('base!') and int(m.group(1)) >= n0: return False
    return True


def is_vc_loop(fn, H):
    if not hasattr(fn, 'vcl'): fn.vcl = {}
    if H not in fn.vcl:
        r = False
        for b in fn.loops[H]:
            for ins in fn.blocks[b]:
                if ins[0] == 'call' and ins[3][0] == 'g' and ins[3][1] == '@vc_loop':
                    # belongs to the innermost loop containing it
                    inner = min((h for h in fn.loops if b in fn.loops[h]), key=lambda h: len(fn.loops[h]))
                    if inner == H: r = True
        fn.vcl[H] = r
    return fn.vcl[H]


def loop(s, st, fr, H, prev):
    from engine import NeedInv, Stop
    fn = fr.fn
    key = (fn.name, H)
    mkey = (key, tuple(s.vcactive))   # decided anew within each loop of the driver
    mode = s.loopmode.get(mkey)
    if mode is None and is_vc_loop(fn, H):
        s.vcactive.append(key)
        try: return s.loop_inv(st, fr, H, prev)
        finally: s.vcactive.pop()
    if mode != 'inv':
        snap = {k: (o.n, o.ok, o.status, o.model, o.detail, o.secs, o.pc) for k, o in s.obl.items()}
        st0, fr0 = st.clone(), fr.copy()
        cs = list(s.callstack); ss = list(s.sites)
        nc = len(s.catchers), len(s.catchers[-1]) if s.catchers else 0
        try:
            return s.loop_unroll(st, fr, H, prev)
        except NeedInv as e:
            if e.args and e.args[0] != key: raise
            s.callstack[:] = cs; s.sites[:] = ss
            del s.catchers[nc[0]:]
            if s.catchers: del s.catchers[-1][nc[1]:]
            for k in list(s.obl):
                if k not in snap: del s.obl[k]
                else:
                    o = s.obl[k]
                    o.n, o.ok, o.status, o.model, o.detail, o.secs, o.pc = snap[k]
            s.loopmode[mkey] = 'inv'
            st, fr = st0, fr0
    if s.peel and not any(h != H and h in fn.loops[H] for h in fn.loops):
        # innermost loops: the first round on its own: invariants that only hold from the second one on
        outs = []
        L = fn.loops[H]
        for o in s.run(st, fr, H, prev, lambda b: b == H or b not in L):
            if o[0] == 'stop' and o[3] == H: outs += s.loop_inv(o[1], o[2], H, o[4])
            else: outs.append(o)
        return outs
    return s.loop_inv(st, fr, H, prev)


def loop_unroll(s, st, fr, H, prev):
    from engine import NeedInv
    fn = fr.fn
    L = fn.loops[H]
    key = (fn.name, H)
    stopf = lambda b: b == H or b not in L
    outs = []
    work = [(st, fr, prev)]
    it = 0
    tot = 0
    limit = s.unroll
    for rx, n in s.unroll_hint.items():
        if re.search(rx, s.pretty(fn.name)): limit = n
    while work:
        nxt = []
        one = len(work) == 1
        pcl = len(work[0][0].pc) if one else 0
        for st1, fr1, p1 in work:
            for o in s.run(st1, fr1, H, p1, stopf):
                if o[0] == 'stop' and o[3] == H: nxt.append((o[1], o[2], o[4]))
                else: outs.append(o)
        tot += 1
        concrete = one and len(nxt) <= 1 and (not nxt or len(nxt[0][0].pc) == pcl)
        if not concrete: it += 1
        if nxt and (it >= limit or tot > 20000 or len(nxt) > 80): raise NeedInv(key)
        work = nxt
    return outs


def lean(C, vs, cur):
    """without the bounds of variables that the equalities determine by others"""
    import lin
    fs = [(c, c[1](cur)) for c in C]
    fs = [(c, z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))) for c, f in fs]
    eq = [f for c, f in fs if lin.eqs(f)]
    ids = {v.cur.get_id(): v.cur for v in vs if z3.is_expr(v.cur)}
    rank = {v.cur.get_id(): (v.kind != 'off') for v in vs if z3.is_expr(v.cur)}
    rows, piv = [], set()
    for f in eq:
        for g, w in lin.eqs(f):
            g = lin.reduce(g, w, rows)
            m = (1 << w) - 1
            best = None
            for a, x in g.items():
                if a in rank and x & 1 and (best is None or rank[a] > rank[best]): best = a
            if best is not None:
                q = pow(g[best], -1, 1 << w)
                rows.append((best, {b: y * q & m for b, y in g.items()}, w))
                piv.add(best)
    from engine import vars_of
    aff = set()     # variables that are more than another name for one
    for a, g, w in rows:
        h = {b: x for b, x in g.items() if b != a}
        if a in piv and (len(h) != 1 or 0 in h or list(h.values())[0] != (1 << w) - 1): aff |= vars_of(ids[a])
    out, seen = [], set()
    for c, f in fs:
        if not lin.eqs(f):
            if not vars_of(f).isdisjoint(aff): continue
            k = [(st,) + lin._key(x, y, w, rows) for x, y, st, w in lin.cmps(f)]
            if len(k) == 1:
                if k[0] in seen or (k[0][2] == k[0][3] and not k[0][0]): continue
                seen.add(k[0])
        out.append(c)
    return out


def eqfirst(C, cur):
    fs = [f(cur) for d, f in C]
    return [f for f in fs if z3.is_expr(f) and z3.is_eq(f)] + [f for f in fs if not (z3.is_expr(f) and z3.is_eq(f))]


class Widen(Exception):
    pass


class Var:
    __slots__ = ('name', 'w', 'entry', 'cur', 'kind', 'src', 'obj', 'raw')


def loop_inv(s, st, fr, H, prev):
    from engine import Ptr, FnPtr, UNDEF, Unsupported, Content, is_sym, bv, simp, tobool, cval, Undef
    from ir import PTR as PTRT
    fn = fr.fn
    L = fn.loops[H]
    key = (fn.name, H)
    stopf = lambda b: b == H or b not in L
    lname = '%s loop %s' % (s.short(fn.name), H)
    phis = [ins for ins in fn.blocks[H] if ins[0] == 'phi']
    entry_phi = [s.val(fr, s.m.res(i[2]), i[3][prev]) for i in phis]
    outer_w = st.w
    entry = st
    n0 = next(s.fresh_n)
    vcl = is_vc_loop(fn, H)

    M = {}       # (obj, off) -> size
    A = {}       # obj.id -> obj  (whole content unknown)
    reset = {}   # objects whose lifetime starts inside the loop

    def phi_vars(v, t, cur):
        pass

    def havoc():
        st1 = entry.clone()
        fr1 = fr.copy()
        st1.w = []
        vs = []

        def mk(name, raw, src):
            """fresh replacement for raw; returns new raw"""
            if isinstance(raw, Ptr):
                if raw.obj is None: return raw
                off = s.fresh(64, 'h')
                v = Var(); v.name = name + '.off'; v.w = 64; v.entry = raw.off; v.cur = off; v.kind = 'off'; v.src = src; v.obj = raw.obj
                vs.append(v)
                return Ptr(raw.obj, off)
            if isinstance(raw, (FnPtr,)): return raw
            return None

        for ins, ev in zip(phis, entry_phi):
            t = s.m.res(ins[2])
            if ins[1] in Und:
                fr1.regs[ins[1]] = UNDEF
                continue
            if t.k == 'ptr':
                if isinstance(ev, Ptr): fr1.regs[ins[1]] = mk('phi' + ins[1], ev, ('phi', ins))
                elif ev is UNDEF: fr1.regs[ins[1]] = UNDEF
                else: fr1.regs[ins[1]] = ev
                continue
            if t.k == 'vec':
                ew = s.m.size(t.e) * 8
                fr1.regs[ins[1]] = [s.fresh(ew, 'h') for _ in range(t.n)]
                continue
            w = t.n if t.k == 'int' else 32 if t.k == 'float' else 64
            x = s.fresh(w, 'h')
            v = Var(); v.name = 'phi' + ins[1]; v.w = w; v.entry = ev; v.cur = x; v.kind = 'int'; v.src = ('phi', ins); v.obj = None
            if ev is UNDEF: v.entry = None
            vs.append(v)
            fr1.regs[ins[1]] = x
        for oid, o in reset.items():
            if o.id in st1.mem: st1.mem[o.id] = Content(st1.id)
        for oid, o in A.items():
            c0 = s.content(st1, o)
            c = Content(st1.id)
            c.arr = s.fresh_arr('h' + o.name)
            # pointer cells never overwritten keep their value
            for off, (sz, v) in c0.cells.items():
                if isinstance(v, (Ptr, FnPtr)):
                    if oid in Asym: raise Unsupported('symbolic write into object with pointers: ' + o.name)
                    c.cells[off] = (sz, v)
            st1.mem[o.id] = c
        for (oid, off), (o, n) in sorted(M.items(), key=lambda x: x[0]):
            if oid in A or oid in reset: continue
            if (oid, off) in Und:
                s.write_raw(st1, o, off, n, UNDEF)
                continue
            ev = s.read_raw(entry, o, off, n)
            nm = '%s+%d' % (o.name, off)
            if isinstance(ev, Ptr) and ev.obj is not None:
                s.write_raw(st1, o, off, n, mk(nm, ev, ('cell', o, off, n)))
                continue
            if isinstance(ev, FnPtr): continue
            if isinstance(ev, Ptr): ev = ev.off if not is_sym(ev.off) else ev.off
            x = s.fresh(8 * n, 'h')
            v = Var(); v.name = nm; v.w = 8 * n; v.entry = ev if ev is not UNDEF else None; v.cur = x; v.kind = 'int'; v.src = ('cell', o, off, n); v.obj = None
            vs.append(v)
            s.write_raw(st1, o, off, n, x)
        st1.w = []
        return st1, fr1, vs

    Asym = set()
    Und = set()     # cells / phis whose kind changes inside the loop: arbitrary at the head

    def newval(v, o):
        """value of variable v at a back edge outcome o"""
        k = v.src[0]
        st2, fr2, p2 = o[1], o[2], o[4]
        if k == 'phi':
            ins = v.src[1]
            r = s.val(fr2, s.m.res(ins[2]), ins[3][p2])
        else:
            r = s.read_raw(st2, v.src[1], v.src[2], v.src[3])
        if v.kind == 'off':
            if not isinstance(r, Ptr) or r.obj is not v.obj:
                Und.add(ins[1] if k == 'phi' else (v.src[1].id, v.src[2]))
                raise Widen()
            return r.off
        if r is UNDEF: return s.fresh(v.w, 'undef')
        if isinstance(r, (Ptr, FnPtr)):
            Und.add(ins[1] if k == 'phi' else (v.src[1].id, v.src[2]))
            raise Widen()
        return r

    nc = len(s.catchers[-1]) if s.catchers else 0

    def body(st1, fr1, outs=None):
        if s.catchers: del s.catchers[-1][nc:]
        # phis at H are already set: enter after them
        o = []
        work = [(st1, fr1, H, None, len(phis), False)]
        from engine import DeadPath
        while work:
            a = work.pop()
            try: s.run1(a[0], a[1], a[2], a[3], a[4], a[5], stopf, o, work)
            except DeadPath: pass
        return o

    def absorb(outs, vs, fr1h, st_h):
        """extend the modified set with what the back edges wrote; True if it changed"""
        changed = False
        backs = [o for o in outs if o[0] == 'stop' and o[3] == H]
        for o in backs:
            for v in vs:
                try: newval(v, o)
                except Widen: changed = True
            for ins in phis:
                if s.m.res(ins[2]).k == 'ptr' and ins[1] not in Und:
                    r = s.val(o[2], PTRT, ins[3][o[4]])
                    h = fr1h.get(ins[1])
                    if isinstance(h, Ptr) and h.obj is None or isinstance(h, FnPtr):
                        if not (type(r) is type(h) and (r.name == h.name if isinstance(h, FnPtr) else r.obj is None and not is_sym(r.off) and r.off == h.off)):
                            Und.add(ins[1]); changed = True
            for (oid, off), (ob, n) in M.items():
                if oid in A or oid in reset or (oid, off) in Und: continue
                ev = s.read_raw(entry, ob, off, n)
                if isinstance(ev, FnPtr):
                    r = s.read_raw(o[1], ob, off, n)
                    if not (isinstance(r, FnPtr) and r.name == ev.name): Und.add((oid, off)); changed = True
        life = None
        for o in backs:
            first = {}
            for (ob, off, n) in o[1].w:
                if ob.id not in first: first[ob.id] = (ob, off == 'life')
            l = {i for i, (ob, f) in first.items() if f}
            life = l if life is None else life & l
        life = life or set()
        for o in backs:
            for (ob, off, n) in o[1].w:
                if ob.id not in entry.mem and ob.id not in s.gcontent: continue
                if ob.id in life and ob.id not in nolife:
                    if ob.id not in reset: reset[ob.id] = ob; changed = True
                    continue
                if off == 'life': off, n = None, None
                if ob.id in reset: del reset[ob.id]; nolife.add(ob.id); changed = True
                if ob.id in A:
                    if off is None and ob.id not in Asym: Asym.add(ob.id); changed = True
                    continue
                if off is None or n is None or (n > 64):
                    A[ob.id] = ob; changed = True; Asym.add(ob.id)
                    continue
                # split into pieces along existing entries
                pieces = split_pieces(M, ob, off, n)
                for (po, pn) in pieces:
                    if (ob.id, po) not in M or M[(ob.id, po)][1] != pn:
                        M[(ob.id, po)] = (ob, pn); changed = True
                if sum(1 for k in M if k[0] == ob.id) > 40:
                    A[ob.id] = ob; changed = True
        # the log of an object written at concrete offsets on top of a symbolic log: treat as array
        for (oid, off), (o, n) in list(M.items()):
            if oid in A: continue
            if s.content(entry, o).log: A[oid] = o; changed = True
        return changed

    # products of a variable of the loop with a factor that the loop does not change: name of the variable, factor
    MS = {}

    def find_products(outs, vs):
        new = False
        for o in outs:
            if len(o) < 2 or not hasattr(o[1], 'muls'): continue
            for (x, y, p, w, nv) in o[1].muls:
                if w != 64: continue
                for (a, b) in ((x, y), (y, x)):
                    if not older(b, n0) or z3.is_bv_value(b): continue
                    for v in vs:
                        if v.w == 64 and is_sym(v.cur) and v.cur.eq(a) and (v.name, b.get_id()) not in MS and len(MS) < 4:
                            MS[(v.name, b.get_id())] = b; new = True
        return new

    def prep(st, vs, vals):
        """the lemmas about those products for these values"""
        for (nm, k), S in MS.items():
            for v, x in zip(vs, vals):
                if v.name == nm: s.mul(st, S, bv(x, 64), 64)

    def product(S, x):
        A, B = S, bv(x, 64)
        if A.get_id() > B.get_id(): A, B = B, A
        return z3.Function('mul64', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))(A, B)

    nolife = set()
    icm = []
    icmseen = set()

    # ---- candidates
    def cands_for(vs):
        C = []
        seen = {}
        cn = {}
        for v in vs:
            k = seen[v.name] = seen.get(v.name, 0) + 1
            if k > 1: v.name += '#%d' % k

        def add(d, f):
            k = cn[d] = cn.get(d, 0) + 1
            C.append((d if k == 1 else d + '#%d' % k, f))
        pool = {32: {}, 64: {}}
        for (w, a, b) in icm:
            for x in (a, b):
                if isinstance(x, int):
                    if 1 < x < (1 << (w - 1)): pool[w][('c', x)] = x
                elif older(x, n0) and not z3.is_bool(x): pool[w][x.get_id()] = x
                elif z3.is_app_of(x, z3.Z3_OP_BADD):
                    # what is left of something: x compared with bound - variable
                    for c in x.children():
                        if z3.is_const(c) and not z3.is_bv_value(c) and older(c, n0): pool[w][c.get_id()] = c
        for v in vs:
            if v.kind == 'off' and v.obj.size is not None:
                z = v.obj.size
                pool[64][('c', z) if isinstance(z, int) else z.get_id()] = z
            if v.entry is not None and is_sym(v.entry) and v.w in (32, 64): pool[v.w][v.entry.get_id()] = v.entry
        idx = range(len(vs))
        for i in idx:
            v = vs[i]
            w = v.w
            e = v.entry
            if w == 1:
                if e is not None: add('%s==init' % v.name, lambda x, i=i, e=e: tobool(x[i]) == tobool(e))
                continue
            if e is not None:
                add('%s==init' % v.name, lambda x, i=i, e=e, w=w: bv(x[i], w) == bv(e, w))
                if w >= 16:
                    add('%s>=init' % v.name, lambda x, i=i, e=e, w=w: z3.UGE(bv(x[i], w), bv(e, w)))
                    add('%s<=init' % v.name, lambda x, i=i, e=e, w=w: z3.ULE(bv(x[i], w), bv(e, w)))
            for c in () if s.nobounds else (1, 7, 8, 15, 16, 31, 32, 63, 64):
                if w >= 8: add('%s<=%d' % (v.name, c), lambda x, i=i, c=c, w=w: z3.ULE(bv(x[i], w), z3.BitVecVal(c, w)))
            if w == 64 and v.kind == 'int' and not s.nobounds:
                for k in (8, 16, 32):
                    add('%s fits i%d' % (v.name, k), lambda x, i=i, k=k: bv(x[i], 64) == z3.SignExt(64 - k, z3.Extract(k - 1, 0, bv(x[i], 64))))
                    add('%s<2^%d' % (v.name, k), lambda x, i=i, k=k: z3.Extract(63, k, bv(x[i], 64)) == 0)
            if w in (32, 64):
                for k, b in pool[w].items():
                    if isinstance(b, int) and b in (1, 7, 8, 15, 16, 31, 32, 63, 64): continue
                    if e is not None and is_sym(e) and is_sym(b) and e.eq(b): continue
                    add('%s<=%s' % (v.name, str(b)[:60]), lambda x, i=i, b=b, w=w: z3.ULE(bv(x[i], w), bv(b, w)))
                if w == 32: add('%s>=s0' % v.name, lambda x, i=i: bv(x[i], 32) >= 0)
        strides = [2, 4, 8]
        for (a, b, p, w, nov) in entry.muls:
            pass
        strmul = []
        for i in idx:
            for j in idx:
                if i >= j: continue
                a, b = vs[i], vs[j]
                if a.w == 1 and b.w == 1:
                    add('%s==%s' % (a.name, b.name), lambda x, i=i, j=j: tobool(x[i]) == tobool(x[j]))
                    continue
                if {a.w, b.w} == {32, 64} and a.kind == b.kind == 'int':
                    h, l = (i, j) if a.w == 64 else (j, i)
                    add('low half of %s==%s' % (vs[h].name, vs[l].name), lambda x, h=h, l=l: z3.Extract(31, 0, bv(x[h], 64)) == bv(x[l], 32))
                    add('high half of %s==%s' % (vs[h].name, vs[l].name), lambda x, h=h, l=l: z3.Extract(63, 32, bv(x[h], 64)) == bv(x[l], 32))
                if s.narrow and {a.w, b.w} == {8, 64} and a.kind == b.kind == 'int':
                    add('%s==0 iff %s==0' % (a.name, b.name), lambda x, i=i, j=j, wa=a.w, wb=b.w: (bv(x[i], wa) == 0) == (bv(x[j], wb) == 0))
                if a.w != b.w: continue
                w = a.w
                if s.narrow and w == 64 and a.kind == b.kind == 'int':
                    for k in (16, 32): add('low %d of %s==%s' % (k, a.name, b.name), lambda x, i=i, j=j, k=k: z3.Extract(k - 1, 0, bv(x[i], 64)) == z3.Extract(k - 1, 0, bv(x[j], 64)))
                add('%s==%s' % (a.name, b.name), lambda x, i=i, j=j, w=w: bv(x[i], w) == bv(x[j], w))
                if w < 32: continue
                add('%s<=%s' % (a.name, b.name), lambda x, i=i, j=j, w=w: z3.ULE(bv(x[i], w), bv(x[j], w)))
                add('%s<=%s' % (b.name, a.name), lambda x, i=i, j=j, w=w: z3.ULE(bv(x[j], w), bv(x[i], w)))
                if a.entry is None or b.entry is None or w != 64: continue
                ea, eb = bv(a.entry, w), bv(b.entry, w)
                add('%s-%s==init' % (a.name, b.name), lambda x, i=i, j=j, w=w, d=ea - eb: bv(x[i], w) - bv(x[j], w) == d)
                add('%s+%s==init' % (a.name, b.name), lambda x, i=i, j=j, w=w, d=ea + eb: bv(x[i], w) + bv(x[j], w) == d)
                for k in (2, 4, 8, 16, 24, 32, 40, 64):
                    add('d%s==%d*d%s' % (a.name, k, b.name), lambda x, i=i, j=j, w=w, ea=ea, eb=eb, k=k: bv(x[i], w) - ea == k * (bv(x[j], w) - eb))
                    add('d%s==%d*d%s' % (b.name, k, a.name), lambda x, i=i, j=j, w=w, ea=ea, eb=eb, k=k: bv(x[j], w) - eb == k * (bv(x[i], w) - ea))
        # what is taken in portions of K until nothing is left: a == 0 or da == -K*db
        big = [x for x in pool[64].values() if isinstance(x, int) and 64 < x < (1 << 32)]
        if len(big) <= 3 and len(vs) <= 12:
            for K in big:
                for i in idx:
                    for j in idx:
                        a, b = vs[i], vs[j]
                        if i == j or a.w != 64 or b.w != 64 or a.kind != 'int' or b.kind != 'int' or a.entry is None or b.entry is None: continue
                        ea, eb = bv(a.entry, 64), bv(b.entry, 64)
                        add('%s==0 or d%s==-%d*d%s' % (a.name, a.name, K, b.name), lambda x, i=i, j=j, ea=ea, eb=eb, K=K:
                            z3.Or(bv(x[i], 64) == 0, bv(x[i], 64) == ea - K * (bv(x[j], 64) - eb)))
        for i in idx:
            v = vs[i]
            if v.w == 64 and v.entry is not None:
                for k in (2, 4, 8):
                    if v.kind == 'off': add('%s%%%d' % (v.name, k), lambda x, i=i, k=k, e=bv(v.entry, 64): z3.Extract(k.bit_length() - 2, 0, bv(x[i], 64) - e) == 0)
        for (nm, k), S in MS.items():
            for i in idx:
                if vs[i].name != nm or vs[i].entry is None: continue
                for j in idx:
                    a = vs[j]
                    if i == j or a.w != 64 or a.entry is None: continue
                    add('d%s==%s*%s' % (a.name, str(S)[:30], nm), lambda x, i=i, j=j, S=S, ea=bv(a.entry, 64), ei=vs[i].entry:
                        bv(x[j], 64) - ea == product(S, x[i]) - product(S, ei))
        if s.skolem is not None:
            K, X, Y = s.skolem
            Es = [x for x in pool[64].values() if not isinstance(x, int) and not z3.is_bv_value(x)]
            for i in idx:
                v = vs[i]
                if v.w != 64 or v.entry is None: continue
                k = K * 8 if v.kind == 'off' else K
                for E in Es:
                    add('k: %s<=k<%s: %s==x' % (str(v.entry)[:20], v.name, str(E)[:40]), lambda x, i=i, k=k, E=E, e=bv(v.entry, 64):
                        z3.Or(z3.ULT(k, e), z3.UGE(k, bv(x[i], 64)), E == X))
                for j in idx:
                    if i == j or vs[j].w != 64 or vs[j].kind != 'int': continue
                    add('k: %s==k: %s==before' % (v.name, vs[j].name), lambda x, i=i, j=j, k=k: z3.Or(bv(x[i], 64) != k, bv(x[j], 64) == Y))
        if s.extra_candidates is not None: C.extend(s.extra_candidates(s, entry, vs, icm, n0))
        return C

    def entry_vals(vs):
        return [v.entry if v.entry is not None else v.cur for v in vs]

    def prune(pc, C, vals, timeout=15000 * s.patience):
        """drop candidates that fail for vals under pc; returns (kept, dropped?)"""
        dropped = False
        exprs = []
        keep = []
        for d, f in C:
            e = f(vals)
            e = z3.simplify(e) if is_sym(e) else z3.BoolVal(bool(e))
            if z3.is_true(e): keep.append((d, f)); exprs.append(None); continue
            if z3.is_false(e): dropped = True; continue
            keep.append((d, f)); exprs.append(e)
        while True:
            todo = [e for e in exprs if e is not None]
            if not todo: break
            # those that follow linearly are not part of the query: its model says nothing about them
            asked = {x.get_id() for x in lin.holds(pc, z3.And(*todo))} if len(todo) > 1 else None
            r, m = s.S.check(pc, [z3.Not(z3.And(*todo))], 150 * s.patience if len(todo) > 2 else timeout)
            if r == z3.unsat: break
            if r == z3.unknown and len(todo) > 2:
                # one by one; a model that refutes one is tried on the others
                bad = False
                for j, e in enumerate(exprs):
                    if e is None: continue
                    r, m = s.S.check(pc, [z3.Not(e)], timeout if len(todo) < 100 else 2000 * s.patience)
                    if r == z3.unsat: exprs[j] = None; continue
                    bad = True
                    break
                if not bad: break
                asked = {e.get_id()}
                if r == z3.sat and all(z3.is_true(m.eval(c, model_completion=True)) for c in pc): asked = None
                if r == z3.unknown:
                    s.unsure.append(keep[j][0])
                    del keep[j], exprs[j]
                    dropped = True
                    continue
            nk, ne = [], []
            if r == z3.sat:
                for (c, e) in zip(keep, exprs):
                    if e is not None:
                        x = m.eval(e, model_completion=True)
                        if not z3.is_true(x) and (asked is None or e.get_id() in asked or z3.is_and(e) and len(asked) > 1): dropped = True; continue
                    nk.append(c); ne.append(e)
                if len(nk) == len(keep):
                    r = z3.unknown
            if r != z3.sat:
                nk, ne = [], []
                for (c, e) in zip(keep, exprs):
                    if e is not None:
                        r1, _ = s.S.check(pc, [z3.Not(e)], 2000 * s.patience)
                        if r1 == z3.unknown: s.unsure.append(c[0])
                        if r1 != z3.unsat: dropped = True; continue
                    nk.append(c); ne.append(e)
                keep, exprs = nk, ne
                break
            keep, exprs = nk, ne
        return keep, dropped

    ck = (tuple(s.callstack), tuple(s.sites), H, entry.flags.get('split') if s.narrow else None)
    if not hasattr(s, 'invcache'): s.invcache = {}
    prevset = s.invcache.get(ck)
    dead = set()
    alive = None
    entry_ok = set()
    rounds = 0
    while True:
        rounds += 1
        st1, fr1, vs = havoc()
        fr1h = dict(fr1.regs)
        C = [c for c in cands_for(vs) if c[0] not in dead]
        if prevset is not None and prevset[0] == {v.name for v in vs}: C = [c for c in C if c[0] in prevset[1] or c[0] in entry_ok or c[0].startswith('k: ')]
        total = len(C)
        new = [c for c in C if c[0] not in entry_ok]
        if MS: prep(entry, vs, entry_vals(vs))
        kept, _ = prune(entry.pc, new, entry_vals(vs))
        kn = {c[0] for c in kept}
        dead |= {c[0] for c in new} - kn
        entry_ok |= kn
        C = [c for c in C if c[0] in entry_ok]
        cur = [v.cur for v in vs]
        if MS: prep(st1, vs, cur)
        full = {c[0] for c in C}
        if s.lean: C = lean(C, vs, cur)
        st1.icmps = icm
        for f in eqfirst(C, cur): s.assume(st1, f)
        saved = s.quiet; s.quiet += 1
        try: outs = body(st1, fr1)
        finally: s.quiet = saved
        changed = absorb(outs, vs, fr1h, st1)
        if find_products(outs, vs): changed = True
        nC = C
        for o in outs:
            if o[0] == 'stop' and o[3] == H:
                try: nv = [newval(v, o) for v in vs]
                except Widen:
                    changed = True; continue
                if MS: prep(o[1], vs, nv)
                nC, d = prune(o[1].pc, nC, nv)
        kn = {c[0] for c in nC}
        gone = {c[0] for c in C} - kn
        dead |= gone
        if s.verbose: print('    VARS', [(v.name, v.w) for v in vs], 'DROPPED', sorted(gone), [d for d, f in nC][:20])
        if s.verbose: print('   %s[%s] round %d: %d/%d candidates, %d paths, %d vars%s' % ('  ' * s.quiet, lname, rounds, len(nC), total, len(outs), len(vs), ' *' if changed else ''), flush=True)
        if not changed and not gone:
            # comparisons seen in the last round may suggest further candidates: once
            if len(icm) != len(icmseen) and rounds < 4 and icm_new(icm, icmseen): continue
            break
        if rounds > 60: raise Unsupported('invariant inference for %s' % lname)
    s.invcache[ck] = ({v.name for v in vs}, {d for d, f in C} | (full - dead))
    C = subsume(C)
    if s.quiet:
        result = outs
    else:
        # final pass with obligations
        e0 = entry_vals(vs)
        conj = z3.And(*[x if is_sym(x) else z3.BoolVal(bool(x)) for x in (f(e0) for d, f in C)]) if C else z3.BoolVal(True)
        s.oblige(entry, conj, 'invariant of %s holds on entry' % lname, 'invariant')
        st1, fr1, vs = havoc()
        fr1h = dict(fr1.regs)
        cur = [v.cur for v in vs]
        if MS: prep(st1, vs, cur)
        for f in eqfirst(C, cur): s.assume(st1, f)
        outs = body(st1, fr1)
        if absorb(outs, vs, fr1h, st1): raise Unsupported('modified set of %s changed in the final pass' % lname)
        back = [o for o in outs if o[0] == 'stop' and o[3] == H]
        for o in back:
            nv = [newval(v, o) for v in vs]
            if MS: prep(o[1], vs, nv)
            conj = z3.And(*[x if is_sym(x) else z3.BoolVal(bool(x)) for x in (f(nv) for d, f in C)]) if C else z3.BoolVal(True)
            s.oblige(o[1], conj, 'invariant of %s is preserved' % lname, 'invariant')
        s.loops[key] = {'loop': lname, 'invariant': [d for d, f in C][:60], 'candidates': total, 'rounds': rounds,
                        'vars': [v.name for v in vs], 'backpaths': len(back)}
        if not vcl: s.loops[key]['terminates'] = term(s, vs, back, newval)
        result = outs
    exits = []
    # exits of the loop: ordinary ones, and states of exceptions thrown in its body (see vc_try)
    for o in result + ([('threw', c) for c in s.catchers[-1][nc:]] if s.catchers else []):
        if o[0] == 'stop' and o[3] == H: continue
        if outer_w is not None:
            o[1].w = list(outer_w) + [(ob, off, n) for (oid, off), (ob, n) in M.items()] + \
                [(ob, None, None) for ob in A.values()] + [(ob, None, None) for ob in reset.values() if ob.id in entry.mem] + list(o[1].w or [])
        else: o[1].w = None
        o[1].icmps = entry.icmps
        if o[0] != 'threw': exits.append(o)
    return exits


def split_pieces(M, ob, off, n):
    """cover [off,off+n) by pieces compatible with the entries of M; may merge/split existing ones"""
    cuts = {off, off + n}
    ov = [(o, M[(i, o)][1]) for (i, o) in list(M) if i == ob.id and o < off + n and o + M[(i, o)][1] > off]
    lo, hi = off, off + n
    for o, z in ov:
        cuts.add(o); cuts.add(o + z)
        lo = min(lo, o); hi = max(hi, o + z)
    pts = sorted(cuts)
    out = []
    for a, b in zip(pts, pts[1:]):
        while b - a > 8:
            out.append((a, 8)); a += 8
        z = b - a
        while z:
            q = 8 if z >= 8 else 4 if z >= 4 else 2 if z >= 2 else 1
            out.append((a, q)); a += q; z -= q
    outs = set(out)
    for o, z in ov:
        if (o, z) not in outs: M.pop((ob.id, o), None)
    return out


def icm_new(icm, seen):
    new = False
    for (w, a, b) in icm:
        k = (w, a if isinstance(a, int) else a.get_id(), b if isinstance(b, int) else b.get_id())
        if k not in seen: seen.add(k); new = True
    return new


def subsume(C):
    """drop conjuncts implied by an equality that is also in the set"""
    names = {d for d, f in C}
    out = []
    for d, f in C:
        m = re.match(r'^(.*)(>=|<=)init$', d)
        if m and m.group(1) + '==init' in names: continue
        m = re.match(r'^(.*)<=(.*)$', d)
        if m and (m.group(1) + '==' + m.group(2) in names or m.group(2) + '==' + m.group(1) in names): continue
        m = re.match(r'^(.*) fits i(16|32)$', d)
        if m and any('%s fits i%d' % (m.group(1), k) in names for k in (8, 16, 32) if k < int(m.group(2))): continue
        m = re.match(r'^(.*)<2\^(16|32)$', d)
        if m and any('%s<2^%d' % (m.group(1), k) in names for k in (8, 16, 32) if k < int(m.group(2))): continue
        m = re.match(r'^(.*)<=(\d+)$', d)
        if m and (m.group(1) + '==init' in names or any('%s<=%d' % (m.group(1), k) in names for k in (1, 7, 8, 15, 16, 31, 32, 63) if k < int(m.group(2)))): continue
        out.append((d, f))
    return out


def term(s, vs, back, newval):
    """a variable that strictly decreases (unsigned) on every back edge, or strictly increases"""
    from engine import bv, is_sym
    if not back: return 'no back edge'
    nvs = [(o, [newval(v, o) for v in vs]) for o in back]
    for i, v in enumerate(vs):
        if v.w not in (8, 32, 64): continue
        w = v.w
        if all(s.valid(o[1], z3.ULT(bv(nv[i], w), bv(v.cur, w)), 5000) for o, nv in nvs): return v.name + ' decreases'
    for i, v in enumerate(vs):
        if v.w not in (8, 32, 64): continue
        w = v.w
        if all(s.valid(o[1], z3.UGT(bv(nv[i], w), bv(v.cur, w)), 5000) for o, nv in nvs): return v.name + ' increases without wrapping'
    return None

"""Parser for the textual LLVM 18 IR that clang emits from the code under verification.

Function bodies are parsed lazily; an instruction the parser does not know becomes an
('unsupported', text) instruction, which only matters when a path reaches it."""
import re

TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*" | [%@]"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
  | [%@][-a-zA-Z$._0-9]+ | \#[0-9]+ | ![-a-zA-Z$._0-9]*
  | -?0x[HKLMR]?[0-9A-Fa-f]+ | -?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)? | -?[0-9]+
  | [a-zA-Z_$][-a-zA-Z$._0-9]* | \.\.\. | [(){}\[\]<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ('k', 'n', 'e', 'name', 'packed')

    def __init__(s, k, n=0, e=None, name=None, packed=False):
        s.k, s.n, s.e, s.name, s.packed = k, n, e, name, packed

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.n
        if s.k in ('arr', 'vec'): return '[%d x %r]' % (s.n, s.e)
        if s.k == 'struct': return '{%s}' % ', '.join(map(repr, s.e))
        if s.k == 'named': return s.name
        return s.k


VOID, PTR, FLT, DBL = Ty('void'), Ty('ptr'), Ty('float'), Ty('double')
_ints = {}


def INT(n):
    if n not in _ints: _ints[n] = Ty('int', n)
    return _ints[n]


class PE(Exception):
    pass


ATTR = set('''noundef nonnull signext zeroext inreg nocapture readonly writeonly readnone returned noalias nofree
immarg nest swiftself writable dead_on_unwind noext allocptr allocalign nounwind willreturn
dso_local local_unnamed_addr unnamed_addr noinline hidden protected default
nuw nsw exact inbounds disjoint nneg fast nnan ninf nsz arcp contract afn reassoc volatile tail musttail notail
fastcc ccc coldcc samesign captures inrange'''.split())
ATTRP = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'align', 'range', 'initializes',
         'inalloca', 'preallocated', 'elementtype', 'memory', 'nofpclass', 'alignstack', 'captures'}


class P:
    """token cursor"""

    def __init__(s, text, mod):
        s.t = TOK.findall(text)
        s.i = 0
        s.mod = mod

    def peek(s, k=0):
        j = s.i + k
        return s.t[j] if j < len(s.t) else None

    def next(s):
        v = s.t[s.i] if s.i < len(s.t) else None
        s.i += 1
        return v

    def acc(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def exp(s, x):
        v = s.next()
        if v != x: raise PE('expected %s got %s in %s' % (x, v, ' '.join(s.t[:60])))

    def skip_paren(s):
        d = 0
        while True:
            v = s.next()
            if v is None: raise PE('paren')
            if v == '(': d += 1
            if v == ')':
                d -= 1
                if d == 0: return

    def attrs(s):
        while True:
            p = s.peek()
            if p in ATTR:
                s.i += 1
                if p == 'captures' and s.peek() == '(': s.skip_paren()
            elif p in ATTRP:
                s.i += 1
                if s.peek() == '(': s.skip_paren()
                elif p == 'align': s.i += 1
            elif p is not None and p.startswith('#'): s.i += 1
            elif p is not None and p.startswith('"'):
                s.i += 1
                if s.acc('='): s.i += 1
            else: return

    def type(s):
        t = s.type1()
        while True:
            if s.peek() == '(':   # function type
                d = s.i
                s.skip_paren()
                t = Ty('fn', e=t)
            elif s.peek() == '*':
                s.i += 1
                t = PTR
            else: return t

    def type1(s):
        v = s.next()
        if v is None: raise PE('type eof')
        if v == 'void': return VOID
        if v == 'ptr':
            if s.peek() == 'addrspace': s.i += 1; s.skip_paren()
            return PTR
        if v == 'float': return FLT
        if v == 'double': return DBL
        if v in ('x86_fp80', 'half', 'fp128', 'metadata', 'label', 'token'): return Ty(v)
        if v[0] == 'i' and v[1:].isdigit(): return INT(int(v[1:]))
        if v == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']')
            return Ty('arr', n, e)
        if v == '<':
            if s.peek() == '{':
                s.i += 1
                es = s.tylist('}'); s.exp('>')
                return Ty('struct', e=es, packed=True)
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>')
            return Ty('vec', n, e)
        if v == '{':
            return Ty('struct', e=s.tylist('}'))
        if v[0] == '%': return Ty('named', name=v)
        raise PE('type ' + v)

    def tylist(s, close):
        es = []
        if s.acc(close): return es
        while True:
            es.append(s.type())
            if s.acc(close): return es
            s.exp(',')

    def tv(s):
        t = s.type(); s.attrs()
        return (t, s.value(t))

    def value(s, t):
        v = s.next()
        if v is None: raise PE('value eof')
        c = v[0]
        if c == '%': return ('l', v)
        if c == '@': return ('g', v)
        if v == 'true': return ('c', 1)
        if v == 'false': return ('c', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            es = []
            if s.acc(close): return ('agg', es)
            while True:
                es.append(s.tv())
                if s.acc(close): return ('agg', es)
                s.exp(',')
        if v == '<':
            packed = s.acc('{')
            es = []
            while True:
                es.append(s.tv())
                if packed and s.acc('}'):
                    s.exp('>'); return ('agg', es)
                if s.acc('>'): return ('agg', es)
                s.exp(',')
        if c == 'c' and v[1:2] == '"': return ('str', unesc(v[2:-1]))
        if v in ('getelementptr',):
            s.attrs()
            s.exp('(')
            ty = s.type(); s.exp(',')
            ops = [s.tv()]
            while s.acc(','):
                s.attrs(); ops.append(s.tv())
            s.exp(')')
            return ('cgep', ty, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.exp('('); a = s.tv(); s.exp('to'); ty = s.type(); s.exp(')')
            return ('ccast', v, a, ty)
        if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            s.attrs(); s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')')
            return ('cbin', v, a, b)
        if v == 'icmp':
            pr = s.next(); s.exp('('); a = s.tv(); s.exp(','); b = s.tv(); s.exp(')')
            return ('cicmp', pr, a, b)
        if v == 'asm': return ('asm',)
        if c == '!' or v == 'metadata': return ('undef',)
        if re.match(r'-?\d+$', v): return ('c', int(v))
        if re.match(r'-?0x', v) or re.match(r'-?\d+\.', v): return ('f', v)
        raise PE('value ' + v)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Fn:
    def __init__(s, name, header, lines, mod):
        s.name, s.header, s.lines, s.mod = name, header, lines, mod
        s.parsed = False

    def parse(s):
        if s.parsed: return
        p = P(s.header, s.mod)
        while p.peek() and p.peek() != s.name and p.peek() != '@' + s.name: p.i += 1
        p.i += 1
        p.exp('(')
        s.params = []
        idx = 0
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')'); break
                t = p.type(); p.attrs()
                nm = p.peek()
                if nm and nm[0] == '%': p.i += 1
                else: nm = '%%%d' % idx
                idx += 1
                s.params.append((t, nm))
                if p.acc(')'): break
                p.exp(',')
        m = re.match(r'.*?define\s+(.*?)@', s.header)
        pr = P(m.group(1), s.mod)
        skip = {'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'available_externally', 'external', 'linkonce', 'weak', 'hidden'}
        while pr.peek() in skip: pr.i += 1
        pr.attrs()
        s.ret = pr.type()
        s.blocks = {}
        s.order = []
        cur = None
        first = True
        for ln in s.join(s.lines):
            mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if mm:
                cur = '%' + mm.group(1)
                s.blocks[cur] = []; s.order.append(cur); first = False
                continue
            if not ln.strip(): continue
            if first:
                cur = '%%%d' % len(s.params)
                s.blocks[cur] = []; s.order.append(cur); first = False
            s.blocks[cur].append(parse_inst(ln.strip(), s.mod))
        s.entry = s.order[0]
        s.parsed = True
        s.cfg()

    @staticmethod
    def join(lines):
        out = []
        insw = False
        for ln in lines:
            ln = re.sub(r'\s;(?= preds| No pred).*$', '', ln)
            if ln.startswith(';'): continue
            if insw:
                out[-1] += ' ' + ln.strip()
                if ln.strip().startswith(']'): insw = False
                continue
            if ln.startswith('          ') or ln.startswith('    ') and out:
                out[-1] += ' ' + ln.strip()
                continue
            out.append(ln)
            st = ln.strip()
            if st.startswith('switch ') and not st.rstrip().endswith(']') and '[' in st and ']' not in st.split('[', 1)[1]:
                insw = True
        return out

    def cfg(s):
        s.succ = {b: succs(s.blocks[b][-1]) for b in s.order}
        s.nsucc = {b: succs(s.blocks[b][-1], False) for b in s.order}
        s.pred = {b: [] for b in s.order}
        for b in s.order:
            for t in s.nsucc[b]: s.pred[t].append(b)
        # reachable by normal edges
        reach = []
        seen = set()
        st = [s.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); reach.append(b)
            st.extend(s.nsucc[b])
        s.reach = seen
        # dominators (normal edges)
        order = [b for b in s.order if b in seen]
        idx = {b: i for i, b in enumerate(order)}
        full = (1 << len(order)) - 1
        dom = {b: full for b in order}
        dom[s.entry] = 1 << idx[s.entry]
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == s.entry: continue
                m = full
                for p in s.pred[b]:
                    if p in seen: m &= dom[p]
                m |= 1 << idx[b]
                if m != dom[b]: dom[b] = m; ch = True
        s.loops = {}
        for b in order:
            for t in s.nsucc[b]:
                if dom[b] >> idx[t] & 1:   # back edge b->t
                    body = s.loops.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(p for p in s.pred[x] if p in seen)
        # blocks that can only end by throwing / unreachable, without passing a return
        canret = {b for b in order if s.blocks[b][-1][0] == 'ret'}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b not in canret and any(t in canret for t in s.nsucc[b]):
                    canret.add(b); ch = True
        inloop = set()
        for h in s.loops: inloop |= s.loops[h]
        # only from the blocks that cannot return does a path end exceptionally; loops that
        # never return (while(true) workers) are kept as ordinary blocks
        s._ts, s._tt = {}, {}
        s.mustthrow = {b for b in order if b not in canret and b not in inloop and s._ends_in_throw(b, canret)}

    def _throw_region(s, b):
        seen = []; st = [b]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.append(x)
            st.extend(s.nsucc[x])
        return seen

    def throw_stores(s, b):
        if b not in s._ts: s._ts[b] = any(ins[0] == 'store' for x in s._throw_region(b) for ins in s.blocks[x])
        return s._ts[b]

    def throw_types(s, b):
        if b not in s._tt:
            s._tt[b] = [ins[4][1][1][1] for x in s._throw_region(b) for ins in s.blocks[x]
                        if ins[0] == 'call' and ins[3] == ('g', '@__cxa_throw') and ins[4][1][1][0] == 'g']
        return s._tt[b]

    def _ends_in_throw(s, b, canret):
        seen = set(); st = [b]; found = False
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for ins in s.blocks[x]:
                if ins[0] == 'call' and ins[3][0] == 'g' and (
                        ins[3][1] in ('@__cxa_throw', '@__cxa_rethrow') or '__throw_' in ins[3][1]): found = True
            st.extend(s.nsucc[x])
        return found


def succs(ins, unwind=True):
    k = ins[0]
    if k == 'br': return [ins[1]]
    if k == 'cbr': return [ins[2], ins[3]] if ins[2] != ins[3] else [ins[2]]
    if k == 'switch':
        out = []
        for t in [ins[3]] + [x[1] for x in ins[4]]:
            if t not in out: out.append(t)
        return out
    if k == 'call' and ins[6] is not None:
        return [ins[6][0], ins[6][1]] if unwind else [ins[6][0]]
    return []


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


def parse_inst(ln, mod):
    try:
        return parse_inst1(ln, mod)
    except (PE, ValueError, IndexError, KeyError) as e:
        return ('unsupported', ln + ' // ' + str(e))


def parse_inst1(ln, mod):
    p = P(ln, mod)
    dst = None
    if p.peek() and p.peek()[0] == '%' and p.peek(1) == '=':
        dst = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        flags = set()
        while p.peek() in ATTR: flags.add(p.next())
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return ('bin', dst, op, t, a, b, flags)
    if op in CAST:
        flags = set()
        while p.peek() in ATTR: flags.add(p.next())
        t, a = p.tv(); p.exp('to'); t2 = p.type()
        return ('cast', dst, op, t, a, t2)
    if op == 'fneg':
        p.attrs(); t, a = p.tv()
        return ('fneg', dst, t, a)
    if op in ('icmp', 'fcmp'):
        p.attrs()
        pr = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return (op, dst, pr, t, a, b)
    if op == 'alloca':
        p.attrs()
        if p.acc('inalloca'): pass
        t = p.type()
        n = ('c', 1)
        while p.acc(','):
            if p.peek() == 'align': p.i += 2
            elif p.peek() == 'addrspace': p.i += 1; p.skip_paren()
            else: n = p.tv()[1]
        return ('alloca', dst, t, n)
    if op == 'load':
        atomic = p.acc('atomic')
        p.attrs()
        t = p.type(); p.exp(','); pt, a = p.tv()
        return ('load', dst, t, a)
    if op == 'store':
        p.acc('atomic'); p.attrs()
        t, v = p.tv(); p.exp(','); pt, a = p.tv()
        return ('store', None, t, v, a)
    if op == 'getelementptr':
        p.attrs()
        t = p.type(); p.exp(','); ops = [p.tv()]
        while p.acc(','):
            if p.peek() and p.peek()[0] == '!': break
            ops.append(p.tv())
        return ('gep', dst, t, ops)
    if op == 'phi':
        p.attrs()
        t = p.type()
        inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next(); p.exp(']')
            inc.append((v, b))
            if not p.acc(','): break
        return ('phi', dst, t, dict((b, v) for v, b in inc))
    if op == 'select':
        p.attrs()
        c = p.tv(); p.exp(','); a = p.tv(); p.exp(','); b = p.tv()
        return ('select', dst, a[0], c[1], a[1], b[1], c[0])
    if op == 'br':
        if p.acc('label'): return ('br', p.next())
        t, c = p.tv(); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
        return ('cbr', c, a, b)
    if op == 'switch':
        t, v = p.tv(); p.exp(','); p.exp('label'); d = p.next(); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct, cv = p.tv(); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()))
        return ('switch', t, v, d, cs)
    if op == 'ret':
        if p.acc('void'): return ('ret', None, None)
        t, v = p.tv()
        return ('ret', t, v)
    if op == 'unreachable': return ('unreachable',)
    if op == 'resume': return ('resume',)
    if op == 'landingpad': return ('landingpad', dst)
    if op == 'fence': return ('nop',)
    if op == 'freeze':
        t, v = p.tv()
        return ('freeze', dst, t, v)
    if op in ('extractvalue', 'insertvalue'):
        t, v = p.tv(); p.exp(',')
        if op == 'insertvalue':
            t2, v2 = p.tv(); p.exp(',')
        idx = [int(p.next())]
        while p.acc(','):
            if p.peek() and p.peek()[0] == '!': break
            idx.append(int(p.next()))
        if op == 'extractvalue': return ('extractvalue', dst, t, v, idx)
        return ('insertvalue', dst, t, v, t2, v2, idx)
    if op == 'extractelement':
        t, v = p.tv(); p.exp(','); ti, i = p.tv()
        return ('extractelement', dst, t, v, i)
    if op == 'insertelement':
        t, v = p.tv(); p.exp(','); te, e = p.tv(); p.exp(','); ti, i = p.tv()
        return ('insertelement', dst, t, v, e, i)
    if op == 'shufflevector':
        t, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); tm, m = p.tv()
        return ('shuffle', dst, t, a, b, tm, m)
    if op in ('call', 'invoke'):
        p.attrs()
        if p.peek() == 'cc': p.i += 2
        rt = p.type(); p.attrs()
        if rt.k == 'fn': rt = rt.e
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                if t.k == 'metadata':
                    # skip to , or )
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        if p.peek() == '(': d += 1
                        if p.peek() == ')': d -= 1
                        p.i += 1
                    args.append((t, ('undef',)))
                else:
                    p.attrs()
                    args.append((t, p.value(t)))
                if p.acc(')'): break
                p.exp(',')
        inv = None
        if op == 'invoke':
            while p.peek() != 'to': p.i += 1
            p.exp('to'); p.exp('label'); n = p.next(); p.exp('unwind'); p.exp('label'); u = p.next()
            inv = (n, u)
        return ('call', dst, rt, callee, args, ln, inv)
    if op == 'cmpxchg' or op == 'atomicrmw':
        raise PE('atomic')
    raise PE('op ' + str(op))


class Module:
    def __init__(s, text):
        s.types = {}
        s.fns = {}
        s.decls = {}
        s.globals = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                nm = m.group(1)
                j = i + 1
                while lines[j] != '}': j += 1
                s.fns['@' + nm] = Fn('@' + nm, ln, lines[i + 1:j], s)
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                if m: s.decls['@' + m.group(1)] = ln
            elif ln.startswith('%'):
                m = re.match(r'^(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)$', ln)
                if m: s.types[m.group(1)] = m.group(2)
            elif ln.startswith('@'):
                m = re.match(r'^(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', ln)
                if m: s.globals[m.group(1)] = m.group(2)
            i += 1
        s._tyc = {}
        s._lay = {}

    def named(s, name):
        if name not in s._tyc:
            tx = s.types[name]
            if tx == 'opaque': s._tyc[name] = Ty('struct', e=[])
            else: s._tyc[name] = P(tx, s).type()
        return s._tyc[name]

    def res(s, t):
        while t.k == 'named': t = s.named(t.name)
        return t

    def layout(s, t):
        """size, align, field offsets"""
        t = s.res(t)
        k = id(t)
        if k in s._lay: return s._lay[k][1]
        r = s._layout(t)
        s._lay[k] = (t, r)
        return r

    def _layout(s, t):
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b: a *= 2
            if t.n > 64: return ((t.n + 127) // 128 * 16, 16, None)
            return (a, a, None)
        if t.k == 'ptr' or t.k == 'double': return (8, 8, None)
        if t.k == 'float': return (4, 4, None)
        if t.k == 'x86_fp80': return (16, 16, None)
        if t.k == 'arr':
            z, a, _ = s.layout(t.e)
            return (z * t.n, a, None)
        if t.k == 'vec':
            z, a, _ = s.layout(t.e)
            if s.res(t.e).k == 'int' and s.res(t.e).n == 1: return ((t.n + 7) // 8, 1, None)
            tot = z * t.n
            al = 1
            while al < tot: al *= 2
            return (al, al, None)
        if t.k == 'struct':
            off = 0; al = 1; offs = []
            for e in t.e:
                z, a, _ = s.layout(e)
                if t.packed: a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += z
                al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        raise PE('layout ' + repr(t))

    def size(s, t): return s.layout(t)[0]

    def global_def(s, name):
        """(type, init value) or None if external"""
        tx = s.globals[name]
        toks = P(tx, s)
        ext = False
        while toks.peek() not in ('global', 'constant'):
            v = toks.next()
            if v is None: return None
            if v in ('external', 'extern_weak'): ext = True
            if v == 'alias':
                return ('alias', toks)
            if v == '(':
                toks.i -= 1; toks.skip_paren()
        kind = toks.next()
        t = toks.type()
        if ext: return (t, None, kind)
        return (t, toks.value(t), kind)

"""Loop invariants: join and widening of abstract states at loop heads."""
from dom import *
import dom
from build import newbase

BIG = 1 << 100
ITH = sorted({-BIG, -(1 << 63), -(1 << 31), -(1 << 15), -128, -1, 0, 1, 127, 255, (1 << 15) - 1, (1 << 16) - 1,
              (1 << 31) - 1, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1, BIG})
# one and a little more: results of rounding
FTH = [-INF, -F32MAX, -1.0 - 2.0 ** -20, -1.0, 0.0, 1.0, 1.0 + 2.0 ** -20, F32MAX, INF]


class Phi:
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g


class Group:
    __slots__ = ('k', 'iv', 'name', 'cnt', 'first')

    def __init__(self, k, iv, name, cnt=0, first=None):
        self.k, self.iv, self.name, self.cnt, self.first = k, iv, name, cnt, first


def I():
    import interp
    return interp


def memkeys(st):
    return sorted(st.mem, key=lambda k: (k[1], k[2]))


def zst(ip, v):
    """a value without information"""
    return not isinstance(v, N) and isinstance(v, I().Agg) and not v.f and v.ty is not None and ip.sizeof(v.ty) == 0


def widen(old, new, k, cnt, cons=()):
    h = iv_hull(old, new, k)
    if k == 'b':
        return (0, 1)
    if h[:2] == old[:2] or cnt < 2:
        return h
    th = FTH if k == 'f' else ITH if not cons else sorted(set(ITH).union(cons))
    lo, hi = h[0], h[1]
    if k != 'f':
        lo, hi = max(lo, -BIG), min(hi, BIG)
    if lo < old[0]:
        lo = max(t for t in th if t <= lo)
    if hi > old[1]:
        hi = min(t for t in th if t >= hi)
    return (lo, hi, h[2]) if k == 'f' else (lo, hi)


class LoopInv:
    @staticmethod
    def key(ip, st):
        M = I()
        out = []
        rids = {}

        def go(v):
            if isinstance(v, M.Agg):
                out.append(('A', v.v, len(v.f)))
                for x in v.f:
                    go(x)
            elif isinstance(v, M.Arr):
                out.append(('E', len(v.e)))
                for x in v.e:
                    go(x)
            elif isinstance(v, M.Ptr):
                o = v.obj
                if o[0] == 'r':
                    n = rids.setdefault(o[1], len(rids))
                    out.append(('r', n, len(v.path), v.meta is None))
                elif o[0] == 'n':
                    out.append(('n', o[1] if o[1].op == 'ci' else None))
                else:
                    out.append((o, len(v.path), v.meta is None))
            elif isinstance(v, M.FnV):
                out.append(('f', v.inst))
            elif isinstance(v, N):
                if v.k == 'b':
                    t = st.truth(v)
                    out.append(t)
                else:
                    out.append(v.k)
            elif isinstance(v, M.Tab):
                out.append(v.key)
            else:
                out.append(None)
        for k in memkeys(st):
            v = st.mem[k]
            if zst(ip, v):
                continue
            out.append(k)
            go(v)
        # empty buffers and others are told apart
        for rid in rids:
            n = st.rgn[rid].len
            if isinstance(n, N) and n.k == 'i':
                out.append(st.truth(cmp('le', ci(1), n)))
        out.append(tuple(f.uid for f in st.frames))
        return tuple(out)

    def __init__(self, ip, st):
        self.ip = ip
        self.A = st.copy()
        fr = self.A.top
        fr.visits = {}
        self.groups = {}
        self.ng = 0
        self.facts = []
        self.affine = {}        # gid -> (gid, distance): moves along with it
        self.M = None
        self.val = {}
        self.phireg = set()
        self.bools(self.A)
        self.gc(self.A)
        self.cons = self.constants()

    def bools(self, st):
        """booleans with a known value become constants"""
        M = I()

        def go(v):
            if isinstance(v, M.Agg):
                return M.Agg(v.ty, v.v, tuple(go(x) for x in v.f))
            if isinstance(v, M.Arr):
                if any(isinstance(x, N) and x.k == 'b' or not isinstance(x, N) for x in v.e):
                    return M.Arr(tuple(go(x) for x in v.e))
                return v
            if isinstance(v, N) and v.k == 'b' and v.op != 'cb':
                t = st.truth(v)
                return v if t is None else cb(t)
            return v
        for k in list(st.mem):
            st.mem[k] = go(st.mem[k])

    def constants(self):
        """integer constants of the state: limits of counters and pointers"""
        M = I()
        out = set()

        def go(v):
            if isinstance(v, M.Agg):
                for x in v.f:
                    go(x)
            elif isinstance(v, M.Ptr):
                for x in v.path:
                    if isinstance(x, tuple):
                        go(x[1])
                if v.meta is not None:
                    go(v.meta)
            elif isinstance(v, N) and v.op == 'ci':
                out.update((v.a[0] - 1, v.a[0], v.a[0] + 1))
        for v in self.A.mem.values():
            go(v)
        return out

    def gc(self, st):
        M = I()
        live = set()

        def go(v):
            if isinstance(v, M.Agg):
                for x in v.f:
                    go(x)
            elif isinstance(v, M.Arr):
                for x in v.e:
                    go(x)
            elif isinstance(v, M.Ptr) and v.obj[0] == 'r':
                live.add(v.obj[1])
        for v in st.mem.values():
            go(v)
        for f in st.frames:
            if f.dest is not None:
                go(f.dest)
        for r in list(st.rgn):
            if r not in live:
                del st.rgn[r]

    # ---------------------------------------------------------- materialise
    def materialize(self):
        M = I()
        s = self.A.copy()
        val = {}
        for g, G in self.groups.items():
            if g not in self.affine or self.affine[g][1].op != 'ci':
                val[g] = fresh(G.name, G.k, G.iv)
        for h, (g, d) in self.affine.items():
            if h not in val:
                val[h] = iadd(val[g], d)

        def go(v):
            if isinstance(v, Phi):
                return val[v.g]
            if isinstance(v, M.Agg):
                return M.Agg(v.ty, v.v, tuple(go(x) for x in v.f))
            if isinstance(v, M.Arr):
                return M.Arr(tuple(go(x) for x in v.e))
            if isinstance(v, M.Ptr):
                o = v.obj
                if o[0] == 'n':
                    o = ('n', go(o[1]))
                return M.Ptr(o, tuple((x[0], go(x[1])) if isinstance(x, tuple) else x for x in v.path),
                             go(v.meta) if v.meta is not None else None)
            return v
        for k in s.mem:
            s.mem[k] = go(s.mem[k])
        for rid in list(s.rgn):
            r = s.rgn[rid].copy()
            r.len = go(r.len)
            r.reads, r.writes, r.lastr, r.lastw = go(r.reads), go(r.writes), go(r.lastr), go(r.lastw)
            s.rgn[rid] = r
        s.ivc = {}
        s.entc = {}
        for h, (g, d) in self.affine.items():
            if d.op == 'ci':
                s.refine(val[h], self.groups[h].iv)
            else:
                s.assume(cmp('eq', val[h], iadd(val[g], d)), True)
        for op, a, b in self.facts:
            x = val[a] if not isinstance(a, N) else a
            y = val[b] if not isinstance(b, N) else b
            s.assume(cmp(op, x, y), True)
        s.trace = ('… after any number of loop iterations', s.trace) if self.groups else s.trace
        s.fresh = False
        s.flags = dict(s.flags)
        self.M = s.copy()
        self.val = val
        return s

    # --------------------------------------------------------------- absorb
    def absorb(self, B):
        M = I()
        B = B.copy()
        self.bools(B)
        if self.M is None:
            self.materialize()
        A = self.A
        ST = self.M
        pairs = {}          # (xkey, y) -> new gid
        ofold = {}          # old gid -> list of new gids
        src = {}            # new gid -> (x, y)
        groups = {}
        changed = [False]
        rmap = {}
        usedr = set()

        def leaf(x, y, name):
            if isinstance(x, Phi):
                k = (('g', x.g), y)
            else:
                if x is y:
                    return x
                if x.k != y.k:
                    return M.UNDEF
                k = (x, y)
            g = pairs.get(k)
            if g is None:
                if isinstance(x, Phi):
                    old = self.groups[x.g]
                    lst = ofold.setdefault(x.g, [])
                    g = x.g if not lst else self.newg()
                    lst.append(g)
                    if len(lst) > 1:
                        changed[0] = True
                    iv = widen(old.iv, B.iv(y), old.k, old.cnt, self.cons)
                    if old.name.endswith(('.reads', '.writes')):
                        # access counters are ghost state; 2^62 accesses never happen
                        iv = (iv[0], min(iv[1], 1 << 62))
                    if iv != old.iv:
                        changed[0] = True
                        groups[g] = Group(old.k, iv, old.name, old.cnt + 1, old.first)
                    else:
                        groups[g] = Group(old.k, iv, old.name, old.cnt, old.first)
                    src[g] = (self.val[x.g], y)
                else:
                    g = self.newg()
                    changed[0] = True
                    groups[g] = Group(x.k, iv_hull(A.iv(x), B.iv(y), x.k), name, 0, x)
                    src[g] = (x, y)
                pairs[k] = g
            return Phi(g)

        def jr(ra, rb, name):
            k = (ra, rb)
            o = rmap.get(k)
            if o is not None:
                return o
            if ra == rb:
                o = ra
            elif ra in self.phireg and ra not in usedr:
                o = ra
            else:
                self.ip.rid += 1
                o = self.ip.rid
                self.phireg.add(o)
                changed[0] = True
            usedr.add(o)
            rmap[k] = o
            return o

        def go(x, y, name):
            if isinstance(x, Phi):
                return leaf(x, y, name) if isinstance(y, N) else undef(x)
            if isinstance(x, N):
                return leaf(x, y, name) if isinstance(y, N) else undef(x)
            if isinstance(x, M.Agg):
                if not isinstance(y, M.Agg) or x.v != y.v or len(x.f) != len(y.f):
                    return undef(x)
                if all(p is q for p, q in zip(x.f, y.f)):
                    pass
                ns = self.fields(x)
                return M.Agg(x.ty, x.v, tuple(go(p, q, name + ns(i)) for i, (p, q) in enumerate(zip(x.f, y.f))))
            if isinstance(x, M.Arr):
                if not isinstance(y, M.Arr) or len(x.e) != len(y.e):
                    return undef(x)
                return M.Arr(tuple(go(p, q, '%s[%d]' % (name, i)) for i, (p, q) in enumerate(zip(x.e, y.e))))
            if isinstance(x, M.Ptr):
                if not isinstance(y, M.Ptr) or len(x.path) != len(y.path) or (x.meta is None) != (y.meta is None) or x.obj[0] != y.obj[0]:
                    return undef(x)
                o = x.obj
                if o[0] == 'n':
                    o = ('n', go(x.obj[1], y.obj[1], name))
                elif o[0] == 'r':
                    o = ('r', jr(x.obj[1], y.obj[1], name))
                elif o != y.obj:
                    return undef(x)
                p = []
                for u, v in zip(x.path, y.path):
                    if isinstance(u, tuple):
                        if not isinstance(v, tuple):
                            return undef(x)
                        p.append((u[0], go(u[1], v[1], name + '.ptr')))
                    elif u != v:
                        return undef(x)
                    else:
                        p.append(u)
                return M.Ptr(o, tuple(p), go(x.meta, y.meta, name + '.len') if x.meta is not None else None)
            if isinstance(x, M.FnV):
                return x if isinstance(y, M.FnV) and x.inst == y.inst else undef(x)
            if isinstance(x, M.Tab):
                return x if x == y else undef(x)
            return M.UNDEF

        def undef(x):
            changed[0] = True
            return M.UNDEF

        mem = {}
        for k in memkeys(A):
            if zst(self.ip, A.mem[k]):
                mem[k] = A.mem[k]
            elif k in B.mem:
                mem[k] = go(A.mem[k], B.mem[k], self.lname(A, k))
            else:
                changed[0] = True
        for k in memkeys(B):
            if k not in A.mem and zst(self.ip, B.mem[k]):
                mem[k] = B.mem[k]
                changed[0] = True
        # regions (joining lengths may discover no new regions)
        rgn = {}
        for (ra, rb), o in rmap.items():
            x, y = A.rgn[ra], B.rgn[rb]
            r = x.copy()
            nm = x.name
            r.len = go(x.len, y.len, nm + '.len')
            r.reads = go(x.reads, y.reads, nm + '.reads')
            r.writes = go(x.writes, y.writes, nm + '.writes')
            r.lastr = go(x.lastr, y.lastr, nm + '.lastr')
            r.lastw = go(x.lastw, y.lastw, nm + '.lastw')
            same = x.base == y.base and len(x.log) == len(y.log) and all(
                p[0] is q[0] and p[1] is q[1] for p, q in zip(x.log, y.log))
            if not same and not (o in self.phireg and not x.log and getattr(self, 'pbase', {}).get(o) == x.base):
                r.base = newbase()
                r.log = ()
                self.pbase = getattr(self, 'pbase', {})
                self.pbase[o] = r.base
                self.phireg.add(o)
                changed[0] = True
            elif not same:
                pass
            iv = iv_hull(x.iv, y.iv, 'f')
            for _, v in y.log:
                iv = iv_hull(iv, B.iv(v), 'f')
            if iv != x.iv and (r.base != x.base or not same):
                iv = widen(x.iv, iv, 'f', 3)
                if iv != x.iv:
                    r.iv = iv
                    r.base = newbase()
                    self.pbase = getattr(self, 'pbase', {})
                    self.pbase[o] = r.base
                    changed[0] = True
            rgn[o] = r
        # relational facts
        kept = []

        def vb(r):
            return r if isinstance(r, N) else src[r][1]

        def va(r):
            return r if isinstance(r, N) else src[r][0]
        affine = {}
        for h, (g, d) in self.affine.items():
            lg, lh = ofold.get(g, []), ofold.get(h, [])
            if len(lg) != 1 or not lh:
                changed[0] = True
                continue
            for y in lh:
                u, v = vb(y), iadd(vb(lg[0]), d)
                if u is v or B.le(u, v) and B.le(v, u):
                    affine[y] = (lg[0], d)
                else:
                    changed[0] = True
        reps = [g for g in groups if g not in affine and groups[g].k == 'i' and groups[g].first is not None]
        for h in [g for g in groups if g not in self.groups and g in reps]:
            for g in reps:
                if g == h or g in affine or any(v[0] == h for v in affine.values()):
                    continue
                d = isub(groups[h].first, groups[g].first)
                if isub(vb(h), vb(g)) is d:
                    affine[h] = (g, d)
                    break
        seenf = set()
        for op, a, b in self.facts:
            la = [a] if isinstance(a, N) else ofold.get(a, [])
            lb = [b] if isinstance(b, N) else ofold.get(b, [])
            if not la or not lb:
                changed[0] = True
            for x in la:
                for y in lb:
                    f = (op, x, y)
                    if (B.lt if op == 'lt' else B.le)(vb(x), vb(y)):
                        kept.append(f)
                        seenf.add((x, y))
                    elif op == 'lt' and B.le(vb(x), vb(y)):
                        kept.append(('le', x, y))
                        seenf.add((x, y))
                        changed[0] = True
                    else:
                        changed[0] = True
        newg = [g for g in groups if g not in self.groups]
        anch = {'i': [], 'f': []}

        def collect(v):
            if isinstance(v, M.Agg):
                for x in v.f:
                    collect(x)
            elif isinstance(v, M.Ptr):
                if isinstance(v.meta, N):
                    collect(v.meta)
            elif isinstance(v, N) and v.k in 'if' and v.op not in ('ci', 'cf') and v not in anch[v.k]:
                anch[v.k].append(v)
        for v in mem.values():
            collect(v)
        for r in rgn.values():
            if isinstance(r.len, N):
                collect(r.len)
        if newg:
            for g in newg:
                k = groups[g].k
                if k == 'b' or k == 'f' and sum(G.k == 'f' for G in groups.values()) > 12:
                    continue
                others = [h for h in groups if h != g and groups[h].k == k][:16] + anch[k][:12]
                for h in others:
                    if g in affine and (h in affine and affine[g][0] == affine[h][0] or affine[g][0] == h) or \
                            h in affine and affine[h][0] == g:
                        continue
                    for x, y in ((g, h), (h, g)):
                        if (x, y) in seenf:
                            continue
                        seenf.add((x, y))
                        if ST.lt(va(x), va(y)) and B.lt(vb(x), vb(y)):
                            kept.append(('lt', x, y))
                        elif ST.le(va(x), va(y)) and B.le(vb(x), vb(y)):
                            kept.append(('le', x, y))
        # facts about invariant nodes
        ref = {}
        for n, v in A.ref.items():
            h = iv_hull(v, B.iv(n), n.k)
            if h != v:
                changed[0] = True
            if h != n.siv:
                ref[n] = h
        fs = []
        for f in A.facts:
            if f in B.facts or B.entails_ge(*f):
                fs.append(f)
            else:
                changed[0] = True
        dec = {}
        for c, v in A.decided.items():
            if B.truth(c) is v:
                dec[c] = v
            else:
                changed[0] = True
        eqs = [e for e in A.eqs if e in B.eqs or B.truth(cmp('eq', e[0], e[1])) is True]
        if len(eqs) != len(A.eqs):
            changed[0] = True
        if not changed[0] and len(groups) == len(self.groups):
            return False
        A.mem = mem
        A.rgn = rgn
        A.ref = ref
        A.facts = fs
        A.decided = dec
        A.eqs = eqs
        A.ivc = {}
        A.entc = {}
        self.groups = groups
        self.facts = kept
        self.affine = affine
        self.M = None
        self.gc(A)
        return True

    def newg(self):
        self.ng += 1
        return self.ng

    def lname(self, st, k):
        for f in st.frames:
            if f.uid == k[1]:
                for l, n in self.ip.p.fns[f.fn]['dbg']:
                    if l == k[2]:
                        return n
        return '_%d' % k[2]

    def fields(self, v):
        t = self.ip.p.types[v.ty] if v.ty is not None else {}
        if t.get('k') in ('struct', 'enum'):
            fs = t['variants'][v.v]['fields']
            return lambda i: '.' + fs[i]['name'] if i < len(fs) else '.%d' % i
        return lambda i: '.%d' % i

"""Abstract interpreter for monomorphic MIR over the domains of dom.py."""
import json
import math
import sys
from dom import *
import dom
from fractions import Fraction

sys.setrecursionlimit(200000)

EXACT = 1 << 24


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Choose(Exception):
    def __init__(self, n, label):
        self.n = n
        self.label = label


class Dead(Exception):
    """Current path ends (panic, UB reported, infeasible)."""


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    __slots__ = ('ty', 'v', 'f')

    def __init__(self, ty, v, f):
        self.ty = ty
        self.v = v
        self.f = f

    def __repr__(self):
        return 'Agg%s%r' % (self.v, self.f)


class Arr:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Arr[%d]' % len(self.e)


class Tab:
    """Constant table in static memory, decoded lazily."""
    __slots__ = ('key', 'e', 'vals', 'kind', '_mm')

    def __init__(self, key, e):
        self.key = key
        self.e = e
        self.kind = e[0].k if e and isinstance(e[0], N) else None
        self.vals = [cval(x) for x in e] if self.kind else None
        self._mm = {}

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Tab) and o.key == self.key

    def hull(self, lo, hi):
        lo = max(0, int(lo))
        hi = min(len(self.e) - 1, int(hi))
        k = (lo, hi)
        r = self._mm.get(k)
        if r is None:
            v = self.vals[lo:hi + 1]
            r = (min(v), max(v)) if v else (0, 0)
            if self.kind == 'f':
                r = r + (False,)
            self._mm[k] = r
        return r


class Ptr:
    __slots__ = ('obj', 'path', 'meta')

    def __init__(self, obj, path=(), meta=None):
        self.obj = obj
        self.path = path
        self.meta = meta

    def __repr__(self):
        return 'Ptr(%r,%r,%r)' % (self.obj, self.path, self.meta)


class FnV:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst


class Region:
    __slots__ = ('len', 'base', 'log', 'reads', 'writes', 'lastr', 'lastw', 'name', 'iv')

    def __init__(self, name, ln, base, iv=FTOP):
        self.name = name
        self.len = ln
        self.base = base
        self.log = ()
        self.reads = self.writes = ci(0)
        self.lastr = self.lastw = ci(-1)
        self.iv = iv

    def copy(self):
        r = Region(self.name, self.len, self.base, self.iv)
        r.log, r.reads, r.writes, r.lastr, r.lastw = self.log, self.reads, self.writes, self.lastr, self.lastw
        return r


class Frame:
    __slots__ = ('uid', 'fn', 'bb', 'i', 'dest', 'tgt', 'visits', 'call', 'destty', 'tag')

    def copy(self):
        f = Frame()
        f.uid, f.fn, f.bb, f.i, f.dest, f.tgt, f.call = self.uid, self.fn, self.bb, self.i, self.dest, self.tgt, self.call
        f.visits = dict(self.visits)
        f.destty = self.destty
        f.tag = self.tag
        return f


class St:
    __slots__ = ('frames', 'mem', 'rgn', 'ref', 'facts', 'decided', 'chosen', 'cpos', 'trace', 'nfork', 'flags',
                 'fresh', 'ivc', 'eqs', 'entc')

    def copy(self):
        s = St()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.rgn = dict(self.rgn)
        s.ref = dict(self.ref)
        s.facts = list(self.facts)
        s.decided = dict(self.decided)
        s.chosen = list(self.chosen)
        s.cpos = self.cpos
        s.trace = self.trace
        s.nfork = self.nfork
        s.flags = dict(self.flags)
        s.fresh = self.fresh
        s.ivc = dict(self.ivc)
        s.eqs = list(self.eqs)
        s.entc = {}
        return s

    @property
    def top(self):
        return self.frames[-1]

    # -------------------------------------------------------- intervals
    def iv(self, n):
        if not self.ref:
            return n.siv
        c = self.ivc
        r = c.get(n)
        if r is not None:
            return r
        # explicit stack to survive deep graphs
        st = [n]
        while st:
            x = st[-1]
            if x in c:
                st.pop()
                continue
            if x.op == 'lin':
                kids = [y for y, _ in x.a[0]]
            elif x.op in ('cf', 'ci', 'cb', 'at'):
                kids = ()
            else:
                kids = [y for y in x.a if isinstance(y, N)]
            todo = [y for y in kids if y not in c]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            if kids:
                v = transfer(x, c.__getitem__)
                v = iv_meet(v, x.siv, x.k)
            else:
                v = x.siv
            q = self.ref.get(x)
            if q is not None:
                v = iv_meet(v, q, x.k)
            c[x] = v
        return c[n]

    def refine(self, n, iv, depth=0):
        """Restrict n to iv; False when contradictory."""
        cur = self.iv(n)
        new = iv_meet(cur, iv, n.k)
        if iv_empty(new, n.k):
            return False
        if new == cur:
            return True
        self.ref[n] = new
        self.ivc = {}
        self.entc = {}
        if depth > 12:
            return True
        g = self.iv
        op, a = n.op, n.a
        d = depth + 1
        if n.k == 'f' and cur[0] < 0 < cur[1] and (new[0] >= 0 or new[1] <= 0) and op not in ('cf', 'fabs'):
            # the sign is known now: bounds of the magnitude apply
            m = self.ref.get(fabs(n))
            if m is not None and m[0] <= m[1] and new[0] <= new[1] and not new[2]:
                if not self.refine(n, (m[0], m[1], False) if new[0] >= 0 else (-m[1], -m[0], False), d):
                    return False
                new = self.iv(n)
        if op == 'lin':
            terms, c = a
            if len(terms) > 6:
                return True
            for i, (x, q) in enumerate(terms):
                lo = new[0] - c
                hi = new[1] - c
                for j, (y, p) in enumerate(terms):
                    if i == j:
                        continue
                    l, h = g(y)
                    if p > 0:
                        lo, hi = lo - p * h, hi - p * l
                    else:
                        lo, hi = lo - p * l, hi - p * h
                if q > 0:
                    b = (-((-lo) // q), hi // q)
                else:
                    b = (-((hi) // (-q)), (-lo) // (-q))
                if not self.refine(x, b, d):
                    return False
            return True
        if op in ('fadd', 'fsub'):
            nan = new[2]
            if new[0] > new[1] or nan:
                return True
            x, y = a
            lo = next_dn(new[0]) if not math.isinf(new[0]) else new[0]
            hi = next_up(new[1]) if not math.isinf(new[1]) else new[1]
            X, Y = g(x), g(y)
            if op == 'fadd':
                bx = f_add((lo, hi, False), Y, -1)
                by = f_add((lo, hi, False), X, -1)
            else:
                bx = f_add((lo, hi, False), Y)
                by = f_add(X, (lo, hi, False), -1)

            def sl(b):
                l, h = b[0], b[1]
                return (next_dn(l) if not math.isinf(l) else l, next_up(h) if not math.isinf(h) else h, False)
            if Y[0] <= Y[1] and not math.isinf(Y[0]) and not math.isinf(Y[1]):
                if not self.refine(x, sl(bx), d):
                    return False
            else:
                if not self.refine(x, (-INF, INF, False), d):
                    return False
            X = g(x)
            if X[0] <= X[1] and not math.isinf(X[0]) and not math.isinf(X[1]):
                return self.refine(y, sl(by), d)
            return self.refine(y, (-INF, INF, False), d)
        if op == 'fmul':
            if new[2] or new[0] > new[1]:
                return True
            x, y = a
            for p, q in ((x, y), (y, x)):
                Q = g(q)
                if not self.refine(p, (-INF, INF, False), d):
                    return False
                if Q[0] > 0 or Q[1] < 0:
                    if not (math.isinf(Q[0]) or math.isinf(Q[1])) and p is not q:
                        lo = next_dn(new[0]) if not math.isinf(new[0]) else new[0]
                        hi = next_up(new[1]) if not math.isinf(new[1]) else new[1]
                        b = f_div((lo, hi, False), (Q[0], Q[1], False))
                        if not self.refine(p, (next_dn(b[0]) if not math.isinf(b[0]) else b[0],
                                               next_up(b[1]) if not math.isinf(b[1]) else b[1], False), d):
                            return False
            return True
        if op == 'fdiv':
            if new[2] or new[0] > new[1]:
                return True
            x, y = a
            if not self.refine(x, (-INF, INF, False), d) or not self.refine(y, (-INF, INF, False), d):
                return False
            Y = g(y)
            if (Y[0] > 0 or Y[1] < 0) and not (math.isinf(Y[0]) or math.isinf(Y[1])):
                lo = next_dn(new[0]) if not math.isinf(new[0]) else new[0]
                hi = next_up(new[1]) if not math.isinf(new[1]) else new[1]
                b = f_mul((lo, hi, False), (Y[0], Y[1], False))
                return self.refine(x, (next_dn(b[0]) if not math.isinf(b[0]) else b[0],
                                       next_up(b[1]) if not math.isinf(b[1]) else b[1], False), d)
            return True
        if op == 'fneg':
            return self.refine(a[0], (-new[1], -new[0], new[2]), d)
        if op == 'fabs':
            x = g(a[0])
            if new[0] > new[1]:
                return True
            lo, hi = -new[1], new[1]
            if x[0] > -new[0]:
                lo = max(lo, new[0])
            if x[1] < new[0]:
                hi = min(hi, -new[0])
            return self.refine(a[0], (lo, hi, new[2]), d)
        if op == 'wrap':
            lo = ity(a[1], a[2])[0]
            m = 1 << a[1]
            X = g(a[0])
            k1, k2 = (X[0] - lo) // m, (X[1] - lo) // m
            if k2 - k1 > 3:
                return True
            parts = [(max(X[0], new[0] + k * m), min(X[1], new[1] + k * m)) for k in range(k1, k2 + 1)]
            parts = [b for b in parts if b[0] <= b[1]]
            if not parts:
                return False
            return self.refine(a[0], (min(b[0] for b in parts), max(b[1] for b in parts)), d)
        if op == 'i2f':
            l = new[0]
            h = new[1]
            if l > h:
                return False
            X = g(a[0])
            lo = X[0] if l == -INF else math.ceil(next_dn(l)) if abs(l) > EXACT else math.ceil(l)
            hi = X[1] if h == INF else math.floor(next_up(h)) if abs(h) > EXACT else math.floor(h)
            return self.refine(a[0], (lo, hi), d)
        if op == 'f2i':
            lo, hi = ity(a[1], a[2])
            if new[0] > new[1]:
                return False
            if new[0] > 0 or new[1] < 0:
                l = float(new[0]) if new[0] > 0 else (-INF if new[0] == lo else float(new[0] - 1))
                h = (INF if new[1] == hi else float(new[1] + 1)) if new[1] > 0 else float(new[1])
                if new[0] < 0 and new[1] < 0:
                    h = float(new[1])
                return self.refine(a[0], (r32(l) if not math.isinf(l) else l, r32(h) if not math.isinf(h) else h, False), d)
            l = -INF if new[0] == lo else float(new[0] - 1)
            h = INF if new[1] == hi else float(new[1] + 1)
            return self.refine(a[0], (next_dn(r32(l)) if not math.isinf(l) else l, next_up(r32(h)) if not math.isinf(h) else h, True), d)
        if op == 'ifl':
            l = -INF if new[0] <= -(1 << 31) else r32(float(new[0]))
            h = INF if new[1] >= (1 << 31) else r32(float(new[1] + 1))
            if new[1] < (1 << 31) and abs(new[1]) < EXACT:
                h = next_dn(float(new[1] + 1))
            nan = new[0] <= 0 <= new[1]
            return self.refine(a[0], (l, h, nan), d)
        if op == 'fclamp':
            l, h = g(a[1]), g(a[2])
            x = g(a[0])
            if new[0] > new[1]:
                return True
            lo = new[0] if new[0] > l[1] else -INF
            hi = new[1] if new[1] < h[0] else INF
            return self.refine(a[0], (lo, hi, new[2]), d)
        if op == 'b2i':
            return self.assume(a[0], new[0] == 1) if new[0] == new[1] else True
        return True

    # ------------------------------------------------------ linear facts
    def flin(self, n):
        """Linear form of a float node over exact atoms."""
        op = n.op
        if op == 'cf':
            v = fval(n)
            if math.isnan(v) or math.isinf(v):
                return {n: 1}, 0
            return {}, Fraction(v)
        if op == 'fneg':
            t, c = self.flin(n.a[0])
            return {k: -v for k, v in t.items()}, -c
        if op == 'i2f':
            l, h = self.iv(n.a[0])
            if (-EXACT <= l and h <= EXACT) or n.a[0].op in ('ifl', 'f2i'):
                return lin(n.a[0])
        if op == 'fsub':
            x, y = n.a
            # x - floor(x) is exact for x >= 0
            if y.op == 'i2f' and y.a[0].op == 'ifl' and y.a[0].a[0] is x and self.iv(x)[0] >= 0:
                t, c = self.flin(x)
                t = dict(t)
                k = y.a[0]
                t[k] = t.get(k, 0) - 1
                return t, c
        return {n: 1}, 0

    def linof(self, n):
        return lin(n) if n.k != 'f' else self.flin(n)

    def lindiff(self, a, b):
        """linear form of a-b"""
        t, c = self.linof(a)
        u, d = self.linof(b)
        t = dict(t)
        for k, v in u.items():
            t[k] = t.get(k, 0) - v
        return {k: v for k, v in t.items() if v != 0}, c - d

    def deffacts(self, n):
        """facts implied by the definition of an atom of a linear form"""
        op, a = n.op, n.a
        out = []
        g = self.iv
        if op == 'irem':
            x, y = a
            X, Y = g(x), g(y)
            if Y[0] > 0:
                t, c = lin(y)
                u = dict(t)
                u[n] = u.get(n, 0) - 1
                out.append((u, c - 1, False))         # y - r - 1 >= 0
                u = dict(t)
                u[n] = u.get(n, 0) + 1
                out.append((u, c - 1, False))         # y + r - 1 >= 0
            if X[0] >= 0:
                out.append(({n: 1}, 0, False))
                t, c = lin(x)
                u = dict(t)
                u[n] = u.get(n, 0) - 1
                out.append((u, c, False))
            if X[1] <= 0:
                out.append(({n: -1}, 0, False))
        elif op == 'idiv':
            x, y = a
            X = g(x)
            if y.op == 'ci' and y.a[0] > 0 and X[0] >= 0:
                k = y.a[0]
                t, c = lin(x)
                u = dict(t)
                u[n] = u.get(n, 0) - k
                out.append((u, c, False))
                u = {p: -q for p, q in t.items()}
                u[n] = u.get(n, 0) + k
                out.append((u, k - 1 - c, False))
        elif op == 'ishr' and a[1].op == 'ci':
            k = 1 << a[1].a[0]
            t, c = lin(a[0])
            u = dict(t)
            u[n] = u.get(n, 0) - k
            out.append((u, c, False))
            u = {p: -q for p, q in t.items()}
            u[n] = u.get(n, 0) + k
            out.append((u, k - 1 - c, False))
        elif op == 'ifl':
            x = a[0]
            X = g(x)
            if not X[2] and X[0] >= -2147483648.0 and X[1] < 2147483648.0:
                t, c = self.flin(x)
                u = dict(t)
                u[n] = u.get(n, 0) - 1
                out.append((u, c, False))       # x - k >= 0
                u = {p: -q for p, q in t.items()}
                u[n] = u.get(n, 0) + 1
                out.append((u, 1 - c, True))    # k + 1 - x > 0
        elif op == 'f2i':
            x = a[0]
            X = g(x)
            lo, hi = ity(a[1], a[2])
            if not X[2] and X[0] > lo - 1 and X[1] < hi + 1:
                t, c = self.flin(x)
                if X[0] < 0:
                    # t < x + 1 ; and t >= x when x <= 0
                    u = dict(t)
                    u[n] = u.get(n, 0) - 1
                    out.append((u, c + 1, True))
                if X[1] <= 0:
                    u = {p: -q for p, q in t.items()}
                    u[n] = u.get(n, 0) + 1
                    out.append((u, -c, False))
                else:
                    u = {p: -q for p, q in t.items()}
                    u[n] = u.get(n, 0) + 1
                    out.append((u, 1 - c, True))
                if X[0] >= 0:
                    u = dict(t)
                    u[n] = u.get(n, 0) - 1
                    out.append((u, c, False))
        elif op == 'wrap':
            w, s = a[1], a[2]
            lo, hi = ity(w, s)
            X = g(a[0])
            m = 1 << w
            q = (X[0] - lo) // m
            if q == (X[1] - lo) // m:
                t, c = lin(a[0])
                u = dict(t)
                u[n] = u.get(n, 0) - 1
                out.append((u, c - q * m, False))
                u = {p: -v for p, v in u.items()}
                out.append((u, q * m - c, False))
        elif op == 'fclamp' and n.k == 'f':
            x, l, h = a
            if not g(x)[2]:
                pass
        elif op in ('fmin', 'fmax') and not g(a[0])[2] and not g(a[1])[2]:
            for y in a:
                t, c = self.flin(y)
                s = 1 if op == 'fmin' else -1
                u = {p: q * s for p, q in t.items()}
                u[n] = u.get(n, 0) - s
                out.append((u, c * s, False))
        return out

    def gather(self, terms):
        """facts relevant to the atoms"""
        seen = set()
        work = list(terms)
        out = []
        used = set()
        steps = 0
        while work and steps < 60:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            steps += 1
            for f in self.deffacts(n):
                out.append(f)
                work.extend(f[0])
            for i, f in enumerate(self.facts):
                if i not in used and n in f[0]:
                    used.add(i)
                    out.append(f)
                    work.extend(f[0])
        for n in seen:
            iv = self.iv(n)
            if n.k == 'f':
                if iv[2] or iv[0] > iv[1]:
                    continue
                if not math.isinf(iv[0]):
                    out.append(({n: 1}, -Fraction(iv[0]), False))
                if not math.isinf(iv[1]):
                    out.append(({n: -1}, Fraction(iv[1]), False))
            else:
                out.append(({n: 1}, -iv[0], False))
                out.append(({n: -1}, iv[1], False))
        return out

    def intlike(self, t):
        return all(n.k != 'f' and Fraction(v).denominator == 1 for n, v in t.items())

    def entails_ge(self, t, c, strict=False):
        """facts |= t + c >= 0 (or > 0)"""
        if not t:
            return c > 0 if strict else c >= 0
        lo = c
        hi = c
        bad = False
        for n, q in t.items():
            iv = self.iv(n)
            if n.k == 'f' and (iv[2] or iv[0] > iv[1]):
                return False
            if n.k == 'f' and (math.isinf(iv[0]) or math.isinf(iv[1])):
                bad = True
                continue
            a, b = (Fraction(iv[0]), Fraction(iv[1])) if n.k == 'f' else iv
            lo += q * a if q > 0 else q * b
            hi += q * b if q > 0 else q * a
        if not bad:
            if lo > 0 or (lo == 0 and not strict):
                return True
            if hi < 0 or (hi == 0 and strict):
                return False
        key = (tuple(sorted((n.id, q) for n, q in t.items())), c, strict)
        r = self.entc.get(key)
        if r is not None:
            return r
        cons = self.gather(t)
        neg = {n: -q for n, q in t.items()}
        if self.intlike(t) and Fraction(c).denominator == 1:
            # not(t+c>=0) <=> -t-c-1>=0 ; not(t+c>0) <=> -t-c>=0
            cons.append((neg, -c - (0 if strict else 1), False))
        else:
            cons.append((neg, -c, not strict))
        r = fm_infeasible(cons)
        self.entc[key] = r
        return r

    def le(self, a, b):
        t, c = self.lindiff(b, a)
        return self.entails_ge(t, c)

    def lt(self, a, b):
        t, c = self.lindiff(b, a)
        return self.entails_ge(t, c, True)

    # ------------------------------------------------------------ truth
    def nonegzero(self, x):
        """x is never -0.0: sums are -0.0 only when both terms are zero"""
        if x.op in ('fadd', 'fsub'):
            for y in x.a:
                iv = self.iv(y)
                if iv[0] > 0 or iv[1] < 0:
                    return True
        return x.op == 'i2f'

    def truth(self, c):
        """True/False/None"""
        if c.op == 'cb':
            return bool(c.a[0])
        d = self.decided.get(c)
        if d is not None:
            return d
        if c.op == 'not':
            r = self.truth(c.a[0])
            return None if r is None else not r
        if c.op == 'and':
            x, y = self.truth(c.a[0]), self.truth(c.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if c.op == 'or':
            x, y = self.truth(c.a[0]), self.truth(c.a[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
            return None
        if c.op == 'sgn':
            iv = self.iv(c.a[0])
            if iv[2]:
                return None
            if iv[0] > 0 or iv[0] == 0 and self.nonegzero(c.a[0]):
                return False
            if iv[1] < 0:
                return True
            return None
        if c.op == 'isnan':
            iv = self.iv(c.a[0])
            if not iv[2]:
                return False
            if iv[0] > iv[1]:
                return True
            return None
        if c.op == 'cmp':
            op, a, b = c.a
            A, B = self.iv(a), self.iv(b)
            if a.k == 'f':
                if (A[0] > A[1]) or (B[0] > B[1]):
                    return False
                nan = A[2] or B[2]
                if op == 'lt':
                    if A[0] >= B[1]:
                        return False
                    if A[1] < B[0] and not nan:
                        return True
                elif op == 'le':
                    if A[0] > B[1]:
                        return False
                    if A[1] <= B[0] and not nan:
                        return True
                else:
                    if A[0] > B[1] or B[0] > A[1]:
                        return False
                    if A[0] == A[1] == B[0] == B[1] and not nan:
                        return True
                if nan:
                    if a is b and op != 'lt':
                        return None
                    return None
                if a is b:
                    return op != 'lt'
                x, y = self.nozero(a), self.nozero(b)
                if x is not a or y is not b:
                    return self.truth(cmp(op, x, y))
                m = dom.mono_order(a, b, self.iv)
                if m is not None:
                    return op != 'eq' and m < 0
                if op == 'le':
                    # x - k against an integer m: rounding is monotone and m is a float
                    for p, m, up in ((a, b, True), (b, a, False)):
                        if p.op == 'fsub' and p.a[1].op == 'i2f' and m.op in ('i2f', 'cf'):
                            X = self.iv(p.a[0])
                            k, m = intof(self, p.a[1]), intof(self, m)
                            if k is None or m is None or X[2] or X[0] < -8388608.0 or X[1] > 8388608.0:
                                continue
                            f = iop('ifl', p.a[0])
                            if up and self.le(iadd(f, ci(1)), iadd(k, m)) or not up and self.le(iadd(k, m), f):
                                return True
            else:
                if a.k == 'b':
                    x, y = self.truth(a), self.truth(b)
                    if x is None or y is None:
                        if a is b:
                            return True
                        x, y = asbit(self, a), asbit(self, b)
                        if x[0] == y[0]:
                            return x[1] == y[1]
                        return None
                    return x == y
                if op == 'lt':
                    if A[1] < B[0]:
                        return True
                    if A[0] >= B[1]:
                        return False
                elif op == 'le':
                    if A[1] <= B[0]:
                        return True
                    if A[0] > B[1]:
                        return False
                else:
                    if A[0] == A[1] == B[0] == B[1]:
                        return True
                    if A[0] > B[1] or B[0] > A[1]:
                        return False
                    r = bits_eq(a, b, self)
                    if r is not None:
                        return r
            if op == 'lt':
                if self.lt(a, b):
                    return True
                if self.le(b, a):
                    return False
            elif op == 'le':
                if self.le(a, b):
                    return True
                if self.lt(b, a):
                    return False
            else:
                if self.le(a, b):
                    if self.le(b, a):
                        return True
                    if self.lt(a, b):
                        return False
                elif self.lt(b, a):
                    return False
            return None
        return None

    def nozero(self, n):
        """the value without terms that are zero (the sign of zero aside)"""
        while n.op in ('fadd', 'fsub'):
            x, y = n.a
            if self.iv(y)[:2] == (0.0, 0.0):
                n = x
            elif n.op == 'fadd' and self.iv(x)[:2] == (0.0, 0.0):
                n = y
            else:
                break
        return n

    # ----------------------------------------------------------- assume
    def addfact(self, t, c, strict):
        t = {k: v for k, v in t.items() if v != 0}
        if not t:
            return c > 0 if strict else c >= 0
        if strict and self.intlike(t) and Fraction(c).denominator == 1:
            c -= 1
            strict = False
        self.facts.append((t, c, strict))
        self.entc = {}
        if len(t) == 1 and not strict:
            (n, q), = t.items()
            if n.k != 'f' and Fraction(q).denominator == 1 and Fraction(c).denominator == 1:
                b = Fraction(-c, 1) / q
                iv = self.iv(n)
                return self.refine(n, (math.ceil(b), iv[1]) if q > 0 else (iv[0], math.floor(b)))
        return True

    def assume(self, c, val):
        if c.op == 'cb':
            return bool(c.a[0]) == val
        t = self.truth(c)
        if t is not None:
            return t == val
        self.decided[c] = val
        if c.op == 'not':
            return self.assume(c.a[0], not val)
        if (c.op == 'and' and val) or (c.op == 'or' and not val):
            return self.assume(c.a[0], val) and self.assume(c.a[1], val)
        if c.op in ('and', 'or'):
            x, y = self.truth(c.a[0]), self.truth(c.a[1])
            if c.op == 'and':
                if x is True:
                    return self.assume(c.a[1], False)
                if y is True:
                    return self.assume(c.a[0], False)
            else:
                if x is False:
                    return self.assume(c.a[1], True)
                if y is False:
                    return self.assume(c.a[0], True)
            return True
        if c.op == 'sgn':
            top = dom.next_dn(0.0) if self.nonegzero(c.a[0]) else 0.0
            return self.refine(c.a[0], (-INF, top, True) if val else (0.0, INF, True))
        if c.op == 'isnan':
            return self.refine(c.a[0], (INF, -INF, True) if val else (-INF, INF, False))
        if c.op == 'cmp':
            op, a, b = c.a
            if a.k == 'b':
                x, y = self.truth(a), self.truth(b)
                if x is not None:
                    return self.assume(b, x == val)
                if y is not None:
                    return self.assume(a, y == val)
                return True
            f = a.k == 'f'
            A, B = self.iv(a), self.iv(b)
            if val:
                if f:
                    # a true comparison excludes NaN
                    if not self.refine(a, (-INF, INF, False)) or not self.refine(b, (-INF, INF, False)):
                        return False
                    A, B = self.iv(a), self.iv(b)
                    if A[0] > A[1] or B[0] > B[1]:
                        return False
                if op == 'eq':
                    if f:
                        ok = self.refine(a, (B[0], B[1], False)) and self.refine(b, (self.iv(a)[0], self.iv(a)[1], False))
                    else:
                        ok = self.refine(a, B) and self.refine(b, self.iv(a))
                    if not ok:
                        return False
                    self.eqs.append((a, b))
                    t, cc = self.lindiff(a, b)
                    return self.addfact(t, cc, False) and self.addfact({k: -v for k, v in t.items()}, -cc, False) and self.check(t)
                st = op == 'lt'
                return self._less(a, b, st, f)
            else:
                if f and (A[2] or B[2]):
                    # false because ordered the other way or NaN
                    if op == 'eq':
                        for x, y in ((a, b), (b, a)):
                            Y = self.iv(y)
                            if Y[0] == Y[1] and not Y[2]:
                                X = self.iv(x)
                                if X[0] > X[1]:
                                    continue
                                lo, hi = X[0], X[1]
                                if lo == Y[0]:
                                    lo = -F32MAX if lo == -INF else INF if lo == INF else next_up(lo)
                                if hi == Y[0]:
                                    hi = F32MAX if hi == INF else -INF if hi == -INF else next_dn(hi)
                                if lo > hi:
                                    lo, hi = INF, -INF
                                if not self.refine(x, (lo, hi, X[2])):
                                    return False
                        return True
                    if not B[2] and B[0] <= B[1]:
                        lo = B[0]
                        if op == 'le' and B[0] == B[1]:
                            lo = next_up(B[0]) if not math.isinf(B[0]) else INF
                        return self.refine(a, (lo, INF, True))
                    if not A[2] and A[0] <= A[1]:
                        hi = A[1]
                        if op == 'le' and A[0] == A[1]:
                            hi = next_dn(A[1]) if not math.isinf(A[1]) else -INF
                        return self.refine(b, (-INF, hi, True))
                    return True
                if op == 'lt':
                    return self._less(b, a, False, f)
                if op == 'le':
                    return self._less(b, a, True, f)
                # disequality: trim endpoints
                for x, y in ((a, b), (b, a)):
                    Y = self.iv(y)
                    if Y[0] == Y[1]:
                        X = self.iv(x)
                        lo, hi = X[0], X[1]
                        if lo == Y[0]:
                            lo = lo + 1 if not f else (next_up(lo) if not math.isinf(lo) else -F32MAX if lo < 0 else INF)
                        if hi == Y[0]:
                            hi = hi - 1 if not f else (next_dn(hi) if not math.isinf(hi) else F32MAX if hi > 0 else -INF)
                        iv = (lo, hi, X[2]) if f else (lo, hi)
                        if f and lo > hi and not X[2]:
                            return False
                        if not self.refine(x, iv):
                            return False
                # a<=b known & a!=b -> a<b
                if self.le(a, b):
                    return self._less(a, b, True, f)
                if self.le(b, a):
                    return self._less(b, a, True, f)
                return True
        return True

    def _less(self, a, b, strict, f):
        A, B = self.iv(a), self.iv(b)
        if f:
            hi = B[1]
            lo = A[0]
            if strict:
                hi = next_dn(hi) if not math.isinf(hi) else (F32MAX if hi > 0 else hi)
                lo = next_up(lo) if not math.isinf(lo) else (-F32MAX if lo < 0 else lo)
                if B[1] == -INF or A[0] == INF:
                    return False
            if not self.refine(a, (-INF, hi, False)) or not self.refine(b, (lo, INF, False)):
                return False
        else:
            d = 1 if strict else 0
            if not self.refine(a, (A[0], B[1] - d)) or not self.refine(b, (A[0] + d, B[1])):
                return False
        t, c = self.lindiff(b, a)
        if not self.addfact(t, c, strict):
            return False
        return self.check(t)

    def check(self, t):
        if len(t) < 1:
            return True
        return not fm_infeasible(self.gather(t))


def statebits(st, n):
    """bit provenance under the ranges and decisions of a state"""
    memo = {}

    def rec(x):
        if x not in memo:
            r = dom._bits(x, rec, lambda y: st.iv(y)[1])
            if r is not None:
                r = dom._trim([bitval(st, v) for v in r])
            memo[x] = r
        return memo[x]
    return rec(n)


def bitval(st, v):
    if not isinstance(v, tuple):
        return v
    b = v[0] if v[0].k == 'b' else bittest(v)
    t = b if b.op == 'cb' else None
    d = st.decided.get(b)
    if t is not None:
        return int(b.a[0])
    if d is not None:
        return int(d)
    return (b, 0) if b.op == 'sgn' else v


def asbit(st, b):
    """normal form of a boolean as (bit, negated)"""
    neg = False
    while b.op == 'not':
        b, neg = b.a[0], not neg
    if b.op == 'cmp' and b.a[0] == 'eq' and b.a[1].k == 'i':
        for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
            if x.op == 'ci' and x.a[0] in (0, 1) and y.siv[0] >= 0:
                v = statebits(st, y)
                if v is not None:
                    nz = [z for z in v if z != 0]
                    if len(nz) == 1 and nz[0] is not None and (x.a[0] == 0 or v[0] == nz[0]):
                        z = nz[0]
                        if z == 1:
                            return 1, neg ^ (x.a[0] == 0)
                        return (bittest(z) if z[0].k != 'b' else z[0]), neg ^ (x.a[0] == 0)
                    if not nz:
                        return 1, neg ^ (x.a[0] == 1)
    return b, neg


def bits_eq(a, b, st=None):
    if a.k != 'i':
        return None
    if a.siv[0] < 0 or b.siv[0] < 0:
        return None
    if st is None:
        x, y = dom._bitsc(a), dom._bitsc(b)
    else:
        x, y = statebits(st, a), statebits(st, b)
    if x is None or y is None:
        return None
    m = max(len(x), len(y))
    x = x + (0,) * (m - len(x))
    y = y + (0,) * (m - len(y))
    same = True
    for p, q in zip(x, y):
        if p is None or q is None:
            same = False
        elif p != q:
            if p in (0, 1) and q in (0, 1):
                return False
            same = False
    return True if same else None


from build import *   # noqa  node construction in a state
from models import MODELS, PREFIX, INVOKED, call_intrinsic   # noqa


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.fns = d['fns']
        self.allocs = d['allocs']
        self.files = d['files']
        self.adts = d['adts']
        self.statics = d['statics']
        self.roots = {n: i for n, i in d['roots']}
        self.usize = self.isize = self.f32 = self.u8 = self.u32 = None
        for i, t in enumerate(self.types):
            if t['name'] in ('usize', 'isize', 'f32', 'u8', 'u32'):
                setattr(self, t['name'], i)
        self._cfg = {}
        self._alloc = {}

    def tname(self, t):
        return self.types[t]['name']

    def loc(self, sp):
        f = self.files[sp[0]]
        return '%s:%d' % (f.replace('../../repo/', '').replace('/repo/', ''), sp[1])

    def cfg(self, fid):
        """heads: dict head bb -> (loopset, has_again)"""
        r = self._cfg.get(fid)
        if r is not None:
            return r
        f = self.fns[fid]
        bl = f['blocks']
        n = len(bl)
        succ = [self.succs(b[1]) for b in bl]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        # dominators (iterative, bitsets)
        order = []
        seen = [False] * n
        stk = [(0, iter(succ[0]))]
        seen[0] = True
        while stk:
            u, it = stk[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    stk.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stk.pop()
        order.reverse()
        full = (1 << n) - 1
        dom_ = [full] * n
        dom_[0] = 1
        ch = True
        while ch:
            ch = False
            for u in order:
                if u == 0:
                    continue
                m = full
                for p in pred[u]:
                    if seen[p]:
                        m &= dom_[p]
                m |= 1 << u
                if m != dom_[u]:
                    dom_[u] = m
                    ch = True
        heads = {}
        for u in order:
            for v in succ[u]:
                if dom_[u] >> v & 1:
                    body = heads.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in pred[x] if seen[p])
        res = {}
        for h, body in heads.items():
            again = False
            for b in body:
                t = bl[b][1]
                if t[0] == 'call' and t[2][0] == 'inst' and self.fns[t[2][1]]['def'].endswith('intr::again'):
                    # innermost loop only
                    inner = [h2 for h2, b2 in heads.items() if b in b2]
                    best = min(inner, key=lambda x: len(heads[x]))
                    if best == h:
                        again = True
            res[h] = (frozenset(body), again)
        # any back edge that is not to a dominator (irreducible) is ignored
        self._cfg[fid] = res
        return res

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[2]]
        if k == 'switch':
            return [b for _, b in t[3]] + [t[4]]
        if k == 'drop':
            return [t[3]]
        if k == 'call':
            return [t[5]] if t[5] is not None else []
        if k == 'assert':
            return [t[5]]
        return []


class Ctx:
    """stop condition of a nested exploration"""

    def __init__(self, uid, head, body):
        self.uid = uid
        self.head = head
        self.body = body

    def classify(self, st):
        t = st.top if st.frames else None
        if t is not None and t.uid == self.uid:
            if t.i == 0:
                if t.bb == self.head:
                    return 'back'
                if t.bb not in self.body:
                    return 'exit'
            return None
        for f in st.frames:
            if f.uid == self.uid:
                return None
        return 'exit'


class RetCtx:
    """stop when the frame returns"""

    def __init__(self, uid):
        self.uid = uid

    def classify(self, st):
        for f in st.frames:
            if f.uid == self.uid:
                return None
        return 'exit'


class Limit(BaseException):
    pass


class Interp:
    MAXSTEPS = 20000000

    volatile = False    # inside a volatile intrinsic

    def __init__(self, prog, opts=None):
        self.p = prog
        self.opts = opts or {}
        self.uid = 0
        self.quiet = 0
        self.events = {}
        self.stats = {'steps': 0, 'paths': 0, 'claims': 0, 'forks': 0, 'fixpoints': 0, 'fixiters': 0,
                      'havoc': {}, 'fns': {}, 'lines': set(), 'oblig': {}, 'eq': {}}
        self.rid = 0
        self.cur_span = None
        self.claimlog = {}
        self.thresholds = [-1.0, 0.0, 1.0]
        self.summ = {}
        self.deadline = None

    # ------------------------------------------------------------- events
    def known(self, key):
        return False

    def event(self, st, kind, msg, detail='', span=None):
        if self.quiet:
            return
        fr = st.top
        f = self.p.fns[fr.fn]
        site = None
        stack = []
        for g in reversed(st.frames):
            gf = self.p.fns[g.fn]
            b = gf['blocks'][g.bb]
            sp = b[0][g.i][1] if g.i < len(b[0]) else b[1][1]
            stack.append('%s (%s)' % (gf['name'], self.p.loc(sp)))
            if site is None and gf['krate'] == 'embedded_audio_tools':
                site = gf['def']
        if site is None:
            site = f['def']
        key = (self.root, kind, msg, site)
        if key not in self.events:
            if self.deadline and not self.known(key):
                # enough to report; a short look for more
                import time
                self.deadline = min(self.deadline, time.time() + 30)
            tr = []
            t = st.trace
            while t is not None:
                tr.append(t[0])
                t = t[1]
            tr.reverse()
            self.events[key] = {'root': self.root, 'kind': kind, 'msg': msg, 'site': site, 'detail': detail,
                                'stack': stack, 'trace': tr}

    def oblig(self, kind):
        if not self.quiet:
            o = self.stats['oblig']
            o[kind] = o.get(kind, 0) + 1

    def need(self, st, c):
        """decide c or fork"""
        t = st.truth(c)
        if t is None:
            raise Fork(c)
        return t

    def choose(self, st, n, label):
        if st.cpos < len(st.chosen):
            v = st.chosen[st.cpos]
            st.cpos += 1
            return v
        if n == 1:
            return 0
        raise Choose(n, label)

    # -------------------------------------------------------------- types
    def T(self, i):
        return self.p.types[i]

    def sizeof(self, ty):
        t = self.T(ty)
        lay = t.get('layout')
        return lay['size'] if lay else 0

    def symbolic(self, st, ty, name):
        t = self.T(ty)
        k = t['k']
        if k == 'int':
            return fresh(name, 'i', ity(t['w'], t['s']))
        if k == 'float':
            return fresh(name, 'f', FTOP)
        if k == 'bool':
            return fresh(name, 'b', (0, 1))
        if k == 'tuple':
            return Agg(ty, 0, tuple(self.symbolic(st, x, '%s.%d' % (name, i)) for i, x in enumerate(t['fields'])))
        if k == 'struct':
            return Agg(ty, 0, tuple(self.symbolic(st, x['ty'], '%s.%s' % (name, x['name'])) for x in t['variants'][0]['fields']))
        if k == 'enum':
            v = self.choose(st, len(t['variants']), name)
            return Agg(ty, v, tuple(self.symbolic(st, x['ty'], '%s.%s' % (name, x['name'])) for x in t['variants'][v]['fields']))
        if k == 'array':
            return Arr(tuple(self.symbolic(st, t['elem'], '%s[%d]' % (name, i)) for i in range(t['len'])))
        if k in ('fndef',):
            return FnV(t['inst'])
        return UNDEF

    # ------------------------------------------------------------- consts
    def const(self, c):
        kind = c[0]
        if kind == 'zst':
            return self.zst(c[1])
        if kind == 'alloc':
            key = id(c)
            r = self.p._alloc.get(key)
            if r is None:
                r = self.decode(c[2], 0, c[1], None)
                self.p._alloc[key] = r
            return r
        raise Unsupported('const ' + str(c[:3]))

    def zst(self, ty):
        t = self.T(ty)
        k = t['k']
        if k == 'fndef':
            return FnV(t['inst'])
        if k == 'tuple':
            return Agg(ty, 0, tuple(self.zst(x) for x in t['fields']))
        if k == 'struct':
            return Agg(ty, 0, tuple(self.zst(x['ty']) for x in t['variants'][0]['fields']))
        if k == 'enum':
            return Agg(ty, 0, tuple(self.zst(x['ty']) for x in t['variants'][0]['fields'])) if t['variants'] else UNDEF
        if k == 'array':
            return Arr(())
        if k == 'closure':
            return Agg(ty, 0, ())
        return UNDEF

    def raw(self, al, off, n):
        h = al['b'][2 * off:2 * (off + n)]
        if '--' in h or len(h) < 2 * n:
            return None
        return int.from_bytes(bytes.fromhex(h), 'little')

    def decode(self, al, off, ty, aid):
        t = self.T(ty)
        k = t['k']
        if k == 'int':
            w = t['w'] // 8
            v = self.raw(al, off, w)
            if v is None:
                return UNDEF
            if t['s'] and v >> (t['w'] - 1):
                v -= 1 << t['w']
            return ci(v)
        if k == 'bool':
            v = self.raw(al, off, 1)
            return UNDEF if v is None else cb(v)
        if k == 'float':
            v = self.raw(al, off, t['w'] // 8)
            if v is None:
                return UNDEF
            if t['w'] == 64:
                import struct
                return cf(struct.unpack('<d', v.to_bytes(8, 'little'))[0])
            return dom.cfbits(v)
        if k in ('ptr', 'fnptr'):
            for o, a in al['p']:
                if o == off:
                    base = self.raw(al, off, 8) or 0
                    g = self.p.allocs[a]
                    if g['k'] == 'fn':
                        return FnV(g['inst'])
                    to = t.get('to')
                    tt = self.T(to) if to is not None else None
                    if tt and tt['k'] in ('slice', 'str', 'dyn'):
                        ln = self.raw(al, off + 8, 8) if tt['k'] != 'dyn' else 0
                        if tt['k'] == 'slice':
                            return Ptr(('a', a, base, ('arr', tt['elem'], ln)), (('x', ci(0)),), ci(ln))
                        return Ptr(('a', a, base, None), (), ci(ln or 0))
                    return Ptr(('a', a, base, to), ())
            v = self.raw(al, off, 8)
            meta = None
            tt = self.T(t['to']) if t.get('to') is not None else None
            if tt and tt['k'] in ('slice', 'str'):
                meta = ci(self.raw(al, off + 8, 8) or 0)
            return Ptr(('n', ci(v or 0)), (), meta)
        if k == 'array':
            es = self.sizeof(t['elem'])
            e = tuple(self.decode(al, off + i * es, t['elem'], aid) for i in range(t['len']))
            if e and all(isinstance(x, N) for x in e) and len(e) > 8:
                import hashlib
                return Tab(('tab', ty, hashlib.sha1(al['b'][2 * off:2 * (off + es * t['len'])].encode()).hexdigest()), e)
            return Arr(e)
        if k in ('tuple', 'closure'):
            offs = t['layout']['fields'] or []
            return Agg(ty, 0, tuple(self.decode(al, off + o, x, aid) for o, x in zip(offs, t['fields'])))
        if k == 'struct':
            offs = t['layout']['fields'] or []
            fs = t['variants'][0]['fields']
            return Agg(ty, 0, tuple(self.decode(al, off + o, x['ty'], aid) for o, x in zip(offs, fs)))
        if k == 'enum':
            lay = t['layout']
            vs = lay['variants']
            if vs['kind'] == 'single':
                vi = vs['index']
                offs = lay['fields'] or []
            else:
                foff = lay['fields'][vs['tag_field']] if isinstance(lay['fields'], list) else 0
                tag = self.raw(al, off + foff, vs['tag_size'])
                if vs['enc'] == 'direct':
                    vi = None
                    for i, v in enumerate(t['variants']):
                        if int(v['discr']) & ((1 << (8 * vs['tag_size'])) - 1) == tag:
                            vi = i
                else:
                    e = vs['enc']
                    vi = e['untagged']
                    isptr = any(o == off + foff for o, _ in al['p'])
                    if tag is not None and not isptr:
                        rel = (tag - int(e['niche_start'])) & ((1 << (8 * vs['tag_size'])) - 1)
                        if rel <= e['end'] - e['start']:
                            vi = e['start'] + rel
                if vi is None:
                    return UNDEF
                offs = vs['variants'][vi]
            fs = t['variants'][vi]['fields']
            return Agg(ty, vi, tuple(self.decode(al, off + o, x['ty'], aid) for o, x in zip(offs, fs)))
        if k == 'union':
            fs = t['variants'][0]['fields']
            for i, x in enumerate(fs):
                if self.sizeof(x['ty']) == self.sizeof(ty) and self.sizeof(ty):
                    v = self.decode(al, off, x['ty'], aid)
                    return Agg(ty, i, (v,))
            return Agg(ty, 0, (UNDEF,))
        if k == 'fndef':
            return FnV(t['inst'])
        return UNDEF

    def static_root(self, obj):
        _, a, off, ty = obj
        key = ('obj', a, off, ty)
        r = self.p._alloc.get(key)
        if r is None:
            g = self.p.allocs[a]
            al = g.get('alloc')
            if al is None:
                raise Unsupported('static memory')
            if isinstance(ty, tuple):
                es = self.sizeof(ty[1])
                e = tuple(self.decode(al, off + i * es, ty[1], a) for i in range(ty[2]))
                if len(e) > 8 and all(isinstance(x, N) for x in e):
                    import hashlib
                    r = Tab(('tab', ty, hashlib.sha1(al['b'][2 * off:2 * (off + es * ty[2])].encode()).hexdigest()), e)
                else:
                    r = Arr(e)
            elif ty is None:
                r = UNDEF
            else:
                r = self.decode(al, off, ty, a)
            self.p._alloc[key] = r
        return r

    # ------------------------------------------------------------- memory
    def idx_in_array(self, st, n, i, what):
        """index node i into array of n elements -> fork when it may be out of bounds; returns node"""
        if i.op == 'ci':
            if 0 <= i.a[0] < n:
                return i
        else:
            iv = st.iv(i)
            if iv[0] == iv[1]:
                i = ci(iv[0])
            if 0 <= iv[0] and iv[1] < n:
                return i
        ok = band(cmp('le', ci(0), i), cmp('lt', i, ci(n)))
        if self.need(st, ok):
            iv = st.iv(i)
            if iv[0] == iv[1]:
                return ci(iv[0])
            return i
        self.event(st, 'out-of-bounds', what, 'index %r into %d elements' % (i, n))
        raise Dead()

    def read_elem(self, st, arr, i):
        e = arr.e
        i = self.idx_in_array(st, len(e), i, 'read outside array')
        if i.op == 'ci':
            return e[i.a[0]]
        if isinstance(arr, Tab) and arr.kind:
            iv = st.iv(i)
            n = tabnode(arr, i)
            h = arr.hull(*iv)
            if arr.kind == 'f':
                st.refine(n, h)
            else:
                st.refine(n, h)
            return n
        iv = st.iv(i)
        if 'unroll' in st.flags and all(isinstance(x, N) and x.k == e[0].k for x in e):
            # coarse mode: any element of the range
            h = st.iv(e[iv[0]])
            for x in e[iv[0] + 1:iv[1] + 1]:
                h = iv_hull(h, st.iv(x), x.k)
            return fresh('element', e[0].k, h)
        if iv[1] - iv[0] < 200:
            k = self.choose(st, iv[1] - iv[0] + 1, 'index') + iv[0]
            if not st.assume(cmp('eq', i, ci(k)), True):
                raise Dead()
            return e[k]
        raise Unsupported('symbolic index')

    @staticmethod
    def peel(v):
        """the array inside transparent wrappers, else v"""
        w = v
        while isinstance(w, Agg):
            fs = [x for x in w.f if not (isinstance(x, Agg) and not x.f)]
            if len(fs) != 1:
                return v
            w = fs[0]
        return w if isinstance(w, (Arr, Tab)) else v

    def walk(self, st, v, path):
        for s in path:
            if isinstance(s, tuple):
                v = self.peel(v)
                if isinstance(v, (Arr, Tab)):
                    v = self.read_elem(st, v, s[1])
                elif v is UNDEF:
                    return UNDEF
                else:
                    # pointer to a single object viewed as one-element array
                    i = self.idx_in_array(st, 1, s[1], 'access outside object')
            else:
                if isinstance(v, Agg):
                    if s >= len(v.f):
                        if len(v.f) == 1 and self.T(v.ty)['k'] == 'union':
                            v = v.f[0]
                            continue
                        raise Unsupported('field')
                    v = v.f[s]
                elif v is UNDEF:
                    return UNDEF
                else:
                    # transparent wrapper viewed through its field
                    pass
        return v

    def load(self, st, ptr, ty=None):
        o = ptr.obj
        k = o[0]
        if k == 'l':
            v = st.mem.get(o)
            if v is None:
                return UNDEF
            p = ptr.path
        elif k == 'a':
            v = self.static_root(o)
            p = ptr.path
        elif k == 'r':
            return self.rload(st, ptr, ty)
        elif k == 'n':
            if ty is not None and self.sizeof(ty) == 0:
                return self.zst(ty)
            self.event(st, 'null-deref', 'read through null or dangling pointer')
            raise Dead()
        else:
            raise Unsupported('load ' + str(k))
        # array typed load through element pointer
        if ty is not None and p and isinstance(p[-1], tuple) and self.T(ty)['k'] == 'array':
            c = self.walk(st, v, p[:-1])
            if isinstance(c, (Arr, Tab)) and not (c.e and isinstance(c.e[0], (Arr, Tab))):
                n = self.T(ty)['len']
                return Arr(tuple(self.read_elem(st, c, iadd(p[-1][1], ci(j))) for j in range(n)))
        return self.conform(self.walk(st, v, p), ty)

    def conform(self, v, ty):
        """reconcile transparent wrappers"""
        if ty is None or v is UNDEF:
            return v
        t = self.T(ty)
        k = t['k']
        if isinstance(v, Agg):
            vk = self.T(v.ty)['k'] if v.ty is not None else None
            if k in ('int', 'float', 'bool', 'ptr', 'fnptr') and vk in ('struct', 'union', 'tuple'):
                fs = [x for x in v.f if not (isinstance(x, Agg) and not x.f)]
                if len(fs) == 1:
                    return self.conform(fs[0], ty)
                if k in ('int', 'float', 'bool'):
                    raise Unsupported('scalar read of a compound value')
            if k == 'struct' and vk == 'struct' and v.ty != ty:
                return self.transmute_val(v, v.ty, ty)
            return v
        if isinstance(v, (Arr, Tab)) and v.e and k in ('int', 'float', 'bool', 'ptr'):
            # pointer to an array used as pointer to its first element
            return self.conform(v.e[0], ty)
        if k == 'struct' and isinstance(v, (N, Ptr, FnV)):
            return self.wrapinto(v, ty)
        if isinstance(v, N):
            if k == 'int' and v.k == 'f':
                return fbits(v, t['s'])
            if k == 'float' and v.k == 'i':
                return unbits(v)
        return v

    def wrapinto(self, v, ty):
        t = self.T(ty)
        if t['k'] in ('struct', 'tuple', 'union'):
            fts = [x['ty'] for x in t['variants'][0]['fields']] if t['k'] != 'tuple' else t['fields']
            if t['k'] == 'union':
                for i, x in enumerate(fts):
                    if self.sizeof(x) > 0:
                        return Agg(ty, i, (self.wrapinto(v, x),))
            out = []
            for x in fts:
                if self.sizeof(x) == 0:
                    out.append(self.zst(x))
                else:
                    out.append(self.wrapinto(v, x))
            return Agg(ty, 0, tuple(out))
        return v

    def store(self, st, ptr, val):
        o = ptr.obj
        k = o[0]
        if k == 'l':
            if not ptr.path:
                st.mem[o] = val
            else:
                st.mem[o] = self.upd(st, st.mem.get(o, UNDEF), ptr.path, 0, val)
        elif k == 'r':
            self.rstore(st, ptr, val)
        elif k == 'n':
            if isinstance(val, Agg) and not val.f:
                return
            self.event(st, 'null-deref', 'write through null or dangling pointer')
            raise Dead()
        elif k == 'a':
            self.event(st, 'write-to-constant', 'write to immutable memory')
            raise Dead()
        else:
            raise Unsupported('store')

    def upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        if isinstance(s, tuple):
            if isinstance(v, (Arr, Tab)):
                n = self.idx_in_array(st, len(v.e), s[1], 'write outside array')
                if n.op != 'ci':
                    iv = st.iv(n)
                    if 'unroll' in st.flags and i + 1 == len(path) and isinstance(val, N) and all(
                            isinstance(x, N) and x.k == val.k for x in v.e):
                        w = st.iv(val)
                        return Arr(tuple(x if x is val or not iv[0] <= j <= iv[1] else
                                         fresh('element', x.k, iv_hull(st.iv(x), w, x.k)) for j, x in enumerate(v.e)))
                    if iv[1] - iv[0] < 200:
                        kk = self.choose(st, iv[1] - iv[0] + 1, 'index') + iv[0]
                        if not st.assume(cmp('eq', n, ci(kk)), True):
                            raise Dead()
                        n = ci(kk)
                    else:
                        raise Unsupported('symbolic array store')
                j = n.a[0]
                e = v.e
                return Arr(e[:j] + (self.upd(st, e[j], path, i + 1, val),) + e[j + 1:])
            if v is UNDEF:
                raise Unsupported('store into undef array')
            if isinstance(v, Agg) and isinstance(self.peel(v), Arr):
                j = [x for x, y in enumerate(v.f) if not (isinstance(y, Agg) and not y.f)][0]
                return Agg(v.ty, v.v, v.f[:j] + (self.upd(st, v.f[j], path, i, val),) + v.f[j + 1:])
            return self.upd(st, v, path, i + 1, val)
        if isinstance(v, Agg):
            t = self.T(v.ty)
            if t['k'] == 'union':
                if v.v == s:
                    return Agg(v.ty, s, (self.upd(st, v.f[0], path, i + 1, val),))
                return Agg(v.ty, s, (self.upd(st, UNDEF, path, i + 1, val),))
            f = v.f
            if s >= len(f):
                f = f + (UNDEF,) * (s + 1 - len(f))
            return Agg(v.ty, v.v, f[:s] + (self.upd(st, f[s], path, i + 1, val),) + f[s + 1:])
        if v is UNDEF:
            return Agg(None, 0, (UNDEF,) * s + (self.upd(st, UNDEF, path, i + 1, val),))
        return self.upd(st, v, path, i + 1, val)

    # ------------------------------------------------------------ regions
    def rindex(self, st, ptr):
        p = ptr.path
        if len(p) == 1 and isinstance(p[0], tuple):
            return p[0][1]
        if not p:
            return ci(0)
        raise Unsupported('region path')

    def rbounds(self, st, r, i, what):
        self.oblig('bounds')
        ok = band(cmp('le', ci(0), i), cmp('lt', i, r.len))
        if not self.need(st, ok):
            self.event(st, 'out-of-bounds', what, 'index %r, buffer %s of length %r' % (i, r.name, r.len))
            raise Dead()

    def rcontent(self, st, r, i):
        """content at in-bounds index i"""
        for j, v in reversed(r.log):
            c = cmp('eq', i, j)
            if self.need(st, c):
                return v
        return selnode(r.base, i, r.iv)

    def rkind(self, st, what):
        if st.flags.get('volatile_only'):
            self.oblig('volatile access')
            if not self.volatile:
                self.event(st, 'plain ' + what, 'sample accessed without volatile semantics')

    def rload(self, st, ptr, ty):
        self.rkind(st, 'load')
        rid = ptr.obj[1]
        r = st.rgn[rid]
        i = self.rindex(st, ptr)
        if ty is not None and self.T(ty)['k'] == 'array':
            n = self.T(ty)['len']
            out = []
            for j in range(n):
                x = iadd(i, ci(j))
                self.rbounds(st, r, x, 'read outside buffer')
                out.append(self.rcontent(st, r, x))
            r = r.copy()
            r.reads = iadd(r.reads, ci(n))
            r.lastr = x
            st.rgn[rid] = r
            return Arr(tuple(out))
        self.rbounds(st, r, i, 'read outside buffer')
        v = self.rcontent(st, r, i)
        r = r.copy()
        r.reads = iadd(r.reads, ci(1))
        r.lastr = i
        st.rgn[rid] = r
        return self.conform(v, ty)

    def rstore(self, st, ptr, val):
        self.rkind(st, 'store')
        rid = ptr.obj[1]
        r = st.rgn[rid]
        i = self.rindex(st, ptr)
        self.rbounds(st, r, i, 'write outside buffer')
        if not isinstance(val, N):
            raise Unsupported('region store')
        if val.k == 'i':
            val = unbits(val)
        # drop overwritten entries that are provably the same index
        log = tuple((j, v) for j, v in r.log if st.truth(cmp('eq', i, j)) is not True)
        r = r.copy()
        r.log = log + ((i, val),)
        r.writes = iadd(r.writes, ci(1))
        r.lastw = i
        st.rgn[rid] = r

    def new_region(self, st, ln, name, iv=FTOP):
        self.rid += 1
        rid = self.rid
        st.rgn[rid] = Region(name, ln, newbase(), iv)
        return rid

    # ------------------------------------------------------------- places
    def lval(self, st, fr, place):
        l, proj = place
        cur = Ptr(('l', fr.uid, l), ())
        for e in proj:
            k = e[0]
            if k == '*':
                v = self.load(st, cur)
                if isinstance(v, Agg):
                    # Box/NonNull-like
                    while isinstance(v, Agg):
                        fs = [x for x in v.f if not (isinstance(x, Agg) and not x.f)]
                        if len(fs) != 1:
                            raise Unsupported('deref agg')
                        v = fs[0]
                if not isinstance(v, Ptr):
                    raise Unsupported('deref of %r' % (v,))
                cur = v
            elif k == '.':
                cur = Ptr(cur.obj, cur.path + (e[1],))
            elif k == '[]':
                i = self.load(st, Ptr(('l', fr.uid, e[1]), ()))
                cur = self.elem(cur, i)
            elif k == '[c]':
                off, ml, fe = e[1], e[2], e[3]
                if fe:
                    n = self.seqlen(st, cur)
                    cur = self.elem(cur, isub(n, ci(off)))
                else:
                    cur = self.elem(cur, ci(off))
            elif k == '[s]':
                a, b, fe = e[1], e[2], e[3]
                n = self.seqlen(st, cur)
                q = self.elem(cur, ci(a))
                cur = Ptr(q.obj, q.path, isub(isub(n, ci(b)), ci(a)) if fe else ci(b - a))
            elif k in ('v', 'oc'):
                pass
            else:
                raise Unsupported('proj ' + k)
        return cur

    def elem(self, cur, i):
        if cur.meta is not None and cur.path and isinstance(cur.path[-1], tuple):
            s = cur.path[-1][1]
            return Ptr(cur.obj, cur.path[:-1] + (('x', iadd(s, i)),))
        return Ptr(cur.obj, cur.path + (('x', i),))

    def seqlen(self, st, cur):
        if cur.meta is not None:
            return cur.meta
        v = self.load(st, cur)
        if isinstance(v, (Arr, Tab)):
            return ci(len(v.e))
        raise Unsupported('len')

    # ----------------------------------------------------------- operands
    def operand(self, st, fr, o, ty=None):
        k = o[0]
        if k == 'c' or k == 'm':
            pl = o[1]
            if not pl[1]:
                v = st.mem.get(('l', fr.uid, pl[0]), UNDEF)
                return v
            return self.load(st, self.lval(st, fr, pl), ty)
        if k == 'k':
            return self.const(o[1])
        if k == 'rc':
            n = o[1]
            if 'Overflow' in n:
                return cb(1 if self.opts.get('overflow', True) else 0)
            return cb(0)
        raise Unsupported('operand')

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1], dty)
        if k == 'addr':
            p = self.lval(st, fr, r[1])
            return p
        if k == 'bin':
            op, x, y, tx, tr = r[1:6]
            a = self.operand(st, fr, x, tx)
            b = self.operand(st, fr, y)
            return self.binop(st, op, a, b, tx, tr)
        if k == 'chk':
            op, x, y, tx = r[1:5]
            a = self.operand(st, fr, x, tx)
            b = self.operand(st, fr, y, tx)
            t = self.T(tx)
            if not isinstance(a, N) or not isinstance(b, N):
                raise Unsupported('arithmetic on an unknown value')
            v = arith(op, a, b)
            lo, hi = ity(t['w'], t['s'])
            iv = st.iv(v)
            if lo <= iv[0] and iv[1] <= hi:
                return Agg(dty, 0, (canon(v), cb(0)))
            ok = band(cmp('le', ci(lo), v), cmp('le', v, ci(hi)))
            if self.need(st, ok):
                return Agg(dty, 0, (canon(v), cb(0)))
            return Agg(dty, 0, (wrap(st, v, t['w'], t['s']), cb(1)))
        if k == 'un':
            op, x, tx = r[1:4]
            a = self.operand(st, fr, x, tx)
            t = self.T(tx)
            if op != 'PtrMetadata' and not isinstance(a, N):
                raise Unsupported('operand of unknown shape')
            if op == 'Not':
                if t['k'] == 'bool':
                    return bnot(a)
                if t['s']:
                    return isub(ci(-1), a)
                return canon(isub(ci((1 << t['w']) - 1), a))
            if op == 'Neg':
                if t['k'] == 'float':
                    return fneg(a)
                return wrap(st, ineg(a), t['w'], t['s'])
            if op == 'PtrMetadata':
                if isinstance(a, Ptr):
                    return a.meta if a.meta is not None else Agg(dty, 0, ())
            raise Unsupported('un ' + op)
        if k == 'cast':
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2], r[3]), r[3], r[4])
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == 'array':
                return Arr(tuple(ops))
            if kind[0] == 'tuple':
                return Agg(r[3], 0, tuple(ops))
            if kind[0] == 'adt':
                t = self.T(r[3])
                if t['k'] == 'union':
                    return Agg(r[3], kind[2], tuple(ops))
                return Agg(r[3], kind[1], tuple(ops))
            if kind[0] == 'closure':
                return Agg(r[3], 0, tuple(ops))
            if kind[0] == 'rawptr':
                p, m = ops
                if not isinstance(p, Ptr):
                    raise Unsupported('rawptr')
                if isinstance(m, N):
                    path = p.path
                    if not (path and isinstance(path[-1], tuple)) and p.obj[0] != 'n':
                        path = path + (('x', ci(0)),)
                    return Ptr(p.obj, path, m)
                return Ptr(p.obj, p.path)
            raise Unsupported('agg')
        if k == 'discr':
            v = self.load(st, self.lval(st, fr, r[1]))
            t = self.T(r[2])
            if isinstance(v, Agg):
                if t['k'] == 'enum':
                    d = int(t['variants'][v.v]['discr'])
                    dt = self.T(dty)
                    if dt['k'] == 'int' and dt['s'] and d >> (dt['w'] - 1):
                        d -= 1 << dt['w']
                    return ci(d)
                return ci(0)
            if v is UNDEF and t['k'] == 'enum' and t['layout']['variants']['kind'] == 'single':
                return ci(int(t['variants'][t['layout']['variants']['index']]['discr']))
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            return self.seqlen(st, self.lval(st, fr, r[1]))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return Arr((v,) * r[2])
        raise Unsupported('rvalue ' + k)

    def ptrcmp(self, st, op, a, b):
        if isinstance(a, FnV) or isinstance(b, FnV):
            raise Unsupported('fn ptr cmp')

        def base(p):
            if p.path and isinstance(p.path[-1], tuple):
                return p.path[:-1], p.path[-1][1]
            return p.path, ci(0)
        if a.obj == b.obj and a.obj[0] != 'n':
            pa, ia = base(a)
            pb, ib = base(b)
            if pa == pb or len(pa) == len(pb) == 0:
                c = {'Eq': cmp('eq', ia, ib), 'Ne': bnot(cmp('eq', ia, ib)), 'Lt': cmp('lt', ia, ib),
                     'Le': cmp('le', ia, ib), 'Gt': cmp('lt', ib, ia), 'Ge': cmp('le', ib, ia)}[op]
                if a.meta is not None and b.meta is not None and op in ('Eq', 'Ne'):
                    e = band(cmp('eq', ia, ib), cmp('eq', a.meta, b.meta))
                    c = e if op == 'Eq' else bnot(e)
                return c
        if a.obj[0] == 'n' and b.obj[0] == 'n':
            x, y = addr(self, st, a), addr(self, st, b)
            return {'Eq': cmp('eq', x, y), 'Ne': bnot(cmp('eq', x, y)), 'Lt': cmp('lt', x, y),
                    'Le': cmp('le', x, y), 'Gt': cmp('lt', y, x), 'Ge': cmp('le', y, x)}[op]
        if op == 'Eq':
            return cb(0)
        if op == 'Ne':
            return cb(1)
        raise Unsupported('ptr order')

    def binop(self, st, op, a, b, tx, tr):
        if isinstance(a, (Ptr, FnV)) and isinstance(b, (Ptr, FnV)):
            return self.ptrcmp(st, op, a, b)
        if isinstance(a, Ptr) and op == 'Offset':
            return self.ptradd(st, a, b, tx)
        if a is UNDEF or b is UNDEF:
            raise Unsupported('undef operand')
        if isinstance(a, Agg) or isinstance(b, Agg):
            if op in ('Eq', 'Ne') and isinstance(a, Agg) and not a.f:
                return cb(op == 'Eq')
            raise Unsupported('agg binop')
        if not isinstance(a, N) or not isinstance(b, N):
            raise Unsupported('operand of unknown shape')
        t = self.T(tx)
        k = t['k']
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if k == 'bool' and op not in ('Eq', 'Ne'):
                a, b = b2i(a), b2i(b)
            if op == 'Eq':
                return ncmp(st, 'eq', a, b)
            if op == 'Ne':
                return bnot(ncmp(st, 'eq', a, b))
            if op == 'Lt':
                return ncmp(st, 'lt', a, b)
            if op == 'Le':
                return ncmp(st, 'le', a, b)
            if op == 'Gt':
                return ncmp(st, 'lt', b, a)
            return ncmp(st, 'le', b, a)
        if k == 'float':
            if t['w'] != 32:
                raise Unsupported('f64')
            return farith(st, op, a, b)
        if k == 'bool':
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op == 'BitXor':
                return bnot(cmp('eq', a, b))
            raise Unsupported('bool ' + op)
        if op == 'Cmp':
            # three way compare -> Ordering
            if self.need(st, ncmp(st, 'lt', a, b)):
                v = 0
            elif self.need(st, ncmp(st, 'eq', a, b)):
                v = 1
            else:
                v = 2
            return Agg(tr, v, ())
        return iarith(self, st, op, a, b, t['w'], t['s'])

    def copy_nonoverlapping(self, st, src, dst, n, ty=None):
        if n.op != 'ci' or n.a[0] > 256:
            return self.copy_many(st, src, dst, n)
        if not n.a[0]:
            return
        if src.obj[0] == 'n' or dst.obj[0] == 'n':
            raise Unsupported('copy through an integer pointer')
        src, dst = Ptr(src.obj, src.path), Ptr(dst.obj, dst.path)
        vals = [self.load(st, self.ptradd(st, src, ci(i), None)) for i in range(n.a[0])]
        for i, v in enumerate(vals):
            self.store(st, self.ptradd(st, dst, ci(i), None), v)

    def copy_many(self, st, src, dst, n):
        """an unknown number of floats between local arrays: every element of
        the target may have become any element of the source"""
        box = []
        for p in (src, dst):
            if p.obj[0] in 'rn' or not p.path or not isinstance(p.path[-1], tuple):
                raise Unsupported('copy of many elements')
            a = self.load(st, Ptr(p.obj, p.path[:-1]))
            if not isinstance(a, Arr) or not a.e or not all(isinstance(x, N) and x.k == 'f' for x in a.e):
                raise Unsupported('copy of many elements')
            off = p.path[-1][1]
            self.oblig('bounds')
            if not self.need(st, band(cmp('le', ci(0), off), cmp('le', iadd(off, n), ci(len(a.e))))):
                self.event(st, 'out-of-bounds', 'copied elements outside of an array')
                raise Dead()
            box.append(a)
        iv = box[0].e[0] and st.iv(box[0].e[0])
        for x in box[0].e[1:]:
            iv = dom.iv_hull(iv, st.iv(x), 'f')
        self.store(st, Ptr(dst.obj, dst.path[:-1]),
                   Arr(tuple(fresh('copied', 'f', dom.iv_hull(iv, st.iv(x), 'f')) for x in box[1].e)))

    def ptradd(self, st, p, n, pty):
        if p.obj[0] == 'n':
            es = self.sizeof(self.T(pty)['to'])
            return Ptr(('n', iadd(p.obj[1], iscale(n, es))), (), p.meta)
        if n.op == 'ci' and n.a[0] == 0:
            return p
        if p.path and isinstance(p.path[-1], tuple):
            return Ptr(p.obj, p.path[:-1] + (('x', iadd(p.path[-1][1], n)),), p.meta)
        return Ptr(p.obj, p.path + (('x', n),), p.meta)

    def cast(self, st, fr, kind, v, tf, tt):
        f, t = self.T(tf), self.T(tt)
        if kind == 'IntToInt':
            if f['k'] == 'bool':
                return b2i(v)
            if isinstance(v, Agg):
                d = int(f['variants'][v.v]['discr'])
                return wrap(st, ci(d), t['w'], t['s'])
            return wrap(st, v, t['w'], t['s'])
        if kind == 'FloatToInt':
            return f2i(st, v, t['w'], t['s'])
        if kind == 'IntToFloat':
            if t['w'] != 32:
                raise Unsupported('f64')
            return i2f(st, v)
        if kind == 'FloatToFloat':
            raise Unsupported('f64')
        if kind == 'Transmute':
            return self.transmute_val(v, tf, tt, st)
        if kind.startswith('PtrToPtr') or kind.startswith('FnPtrToPtr'):
            if isinstance(v, Ptr):
                a, b = self.T(f['to']), self.T(t['to'])
                bk = b['k']
                if bk in ('slice', 'str', 'dyn'):
                    return v
                p = v.path
                while a['k'] in ('struct', 'union') and b is not a:
                    fs = [x['ty'] for x in a['variants'][0]['fields'] if self.sizeof(x['ty'])]
                    if len(fs) != 1:
                        break
                    a = self.T(fs[0])
                if a['k'] == 'array' and bk != 'array' and a['elem'] == f_to(t):
                    return Ptr(v.obj, p + (('x', ci(0)),))
                return Ptr(v.obj, p)
            return v
        if kind.startswith('PointerCoercion'):
            if 'ReifyFnPointer' in kind:
                return FnV(f['inst'])
            if 'ClosureFnPointer' in kind:
                return v
            if 'Unsize' in kind:
                if isinstance(v, Ptr):
                    a, b = self.T(f['to']), self.T(t['to'])
                    if a['k'] == 'array' and b['k'] == 'slice':
                        return Ptr(v.obj, v.path + (('x', ci(0)),), ci(a['len']))
                return v
            if 'ArrayToPointer' in kind:
                return Ptr(v.obj, v.path + (('x', ci(0)),))
            return v
        if 'ExposeAddress' in kind or 'ExposeProvenance' in kind:
            return addr(self, st, v)
        if 'FromExposed' in kind or 'WithExposed' in kind:
            return Ptr(('n', v), ())
        raise Unsupported('cast ' + kind)

    # transmute by leaves
    def leaves(self, v, ty, out):
        t = self.T(ty)
        k = t['k']
        if self.sizeof(ty) == 0 and k not in ('slice', 'str', 'dyn'):
            return
        if k in ('int', 'float', 'bool', 'ptr', 'fnptr'):
            v = self.conform(v, ty)
            out.append((k, t.get('w', 8 if k == 'bool' else 64), t.get('s'), v))
        elif k == 'array':
            for x in v.e:
                self.leaves(x, t['elem'], out)
        elif k in ('tuple', 'struct', 'closure'):
            fs = t['fields'] if k != 'struct' else [x['ty'] for x in t['variants'][0]['fields']]
            offs = t['layout']['fields'] or range(len(fs))
            if not isinstance(v, Agg):
                nz = [x for x in fs if self.sizeof(x) > 0]
                if len(nz) == 1:
                    return self.leaves(v, nz[0], out)
                raise Unsupported('leaves')
            for _, x, y in sorted(((o, x, y) for o, x, y in zip(offs, v.f, fs)), key=lambda z: z[0]):
                self.leaves(x, y, out)
        elif k == 'union':
            fs = [x['ty'] for x in t['variants'][0]['fields']]
            self.leaves(v.f[0], fs[v.v], out)
        elif k == 'enum':
            vs = t['layout']['variants']
            if not v.f and isinstance(v, Agg) and vs['kind'] == 'multiple' and vs['enc'] == 'direct':
                out.append(('int', 8 * vs['tag_size'], False, ci(int(t['variants'][v.v]['discr']))))
            else:
                raise Unsupported('transmute enum')
        else:
            raise Unsupported('transmute ' + k)

    def transmute_val(self, v, tf, tt, st=None):
        if tf == tt or v is UNDEF:
            return v
        ls = []
        self.leaves(v, tf, ls)
        pos = [0]
        buf = []   # pending bits: list of (node,width) little endian when regrouping

        def take(k, w, s):
            if not ls:
                return UNDEF
            lk, lw, lsg, lv = ls[0]
            if lw == w:
                ls.pop(0)
                if lk == k or k in ('ptr', 'fnptr') and lk in ('ptr', 'fnptr'):
                    if k == 'int' and lsg != s and isinstance(lv, N):
                        return wrap(st, lv, w, s)
                    return lv
                if lk == 'float' and k == 'int':
                    return fbits(lv, s)
                if lk == 'int' and k == 'float':
                    return unbits(wrap(st, lv, w, False))
                if lk == 'bool' and k == 'int':
                    return b2i(lv)
                if lk == 'int' and k == 'bool':
                    return bnot(cmp('eq', lv, ci(0)))
                if k == 'ptr' and lk == 'int':
                    return Ptr(('n', lv), ())
                if lk == 'ptr' and k == 'int':
                    return addr(self, st, lv)
                raise Unsupported('transmute leaf')
            if lw > w:
                ls.pop(0)
                if lk == 'float':
                    lv = fbits(lv, False)
                lv = wrap(st, lv, lw, False)
                m = lw // w
                parts = [('int', w, False, wrap(st, canon(shr(st, lv, ci(w * i), lw, False)), w, False)) for i in range(m)]
                ls[0:0] = parts
                return take(k, w, s)
            acc = ci(0)
            got = 0
            while got < w:
                if not ls:
                    raise Unsupported('transmute size')
                lk, lw, lsg, lv = ls.pop(0)
                if lk == 'float':
                    lv = fbits(lv, False)
                elif lk == 'bool':
                    lv = b2i(lv)
                if lv is UNDEF:
                    return UNDEF
                lv = wrap(st, lv, lw, False)
                acc = iadd(acc, iscale(lv, 1 << got))
                got += lw
            acc = canon(acc)
            if k == 'float':
                return unbits(acc)
            return wrap(st, acc, w, s)

        def build(ty):
            t = self.T(ty)
            k = t['k']
            if self.sizeof(ty) == 0 and k not in ('ptr',):
                return self.zst(ty)
            if k in ('int', 'float', 'bool', 'ptr', 'fnptr'):
                return take(k, t.get('w', 8 if k == 'bool' else 64), t.get('s'))
            if k == 'array':
                return Arr(tuple(build(t['elem']) for _ in range(t['len'])))
            if k in ('tuple', 'struct'):
                fs = t['fields'] if k == 'tuple' else [x['ty'] for x in t['variants'][0]['fields']]
                offs = t['layout']['fields'] or range(len(fs))
                order = sorted(range(len(fs)), key=lambda i: offs[i])
                vals = [None] * len(fs)
                for i in order:
                    vals[i] = build(fs[i])
                return Agg(ty, 0, tuple(vals))
            if k == 'union':
                fs = [x['ty'] for x in t['variants'][0]['fields']]
                for i, x in enumerate(fs):
                    if self.sizeof(x) == self.sizeof(ty):
                        return Agg(ty, i, (build(x),))
            if k == 'enum':
                vs = t['layout']['variants']
                if vs['kind'] == 'multiple' and vs['enc'] == 'direct' and all(not x['fields'] for x in t['variants']):
                    n = take('int', 8 * vs['tag_size'], False)
                    for i, x in enumerate(t['variants']):
                        if self.need(st, cmp('eq', n, ci(int(x['discr']) & ((1 << 8 * vs['tag_size']) - 1)))):
                            return Agg(ty, i, ())
                    self.event(st, 'invalid-enum', 'transmute to invalid enum value')
                    raise Dead()
                if vs['kind'] == 'multiple' and isinstance(vs['enc'], dict) and vs['tag_size'] == self.sizeof(ty) and len(ls) == 1 \
                        and ls[0][0] == 'int' and ls[0][1] == 8 * vs['tag_size']:
                    e = vs['enc']
                    w = 8 * vs['tag_size']
                    n = wrap(st, ls[0][3], w, False)
                    for i in range(e['start'], e['end'] + 1):
                        if i == e['untagged']:
                            continue
                        val = (int(e['niche_start']) + i - e['start']) & ((1 << w) - 1)
                        if self.need(st, cmp('eq', n, ci(val))):
                            ls.pop(0)
                            return Agg(ty, i, tuple(self.zst(x['ty']) for x in t['variants'][i]['fields']))
                    fs = t['variants'][e['untagged']]['fields']
                    return Agg(ty, e['untagged'], tuple(build(x['ty']) for x in fs))
            raise Unsupported('transmute to ' + k)
        return build(tt)

    # ------------------------------------------------------------- stepping
    def jump(self, st, bb):
        fr = st.top
        fr.bb = bb
        fr.i = 0
        st.fresh = True

    def step(self, st):
        """execute one statement or terminator; may raise Fork/Choose/Dead"""
        fr = st.top
        f = self.p.fns[fr.fn]
        stmts, term = f['blocks'][fr.bb]
        st.cpos = 0
        if fr.i < len(stmts):
            s = stmts[fr.i]
            k = s[0]
            if k == '=':
                dom.CURSRC[0] = (fr.fn, s[1])
                try:
                    v = self.rvalue(st, fr, s[3], s[4])
                except Unsupported as e:
                    v = self.havoc(st, s[4], e)
                except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
                    v = self.havoc(st, s[4], Unsupported('value of unexpected shape'))
                pl = s[2]
                if not pl[1]:
                    st.mem[('l', fr.uid, pl[0])] = v
                else:
                    self.store(st, self.lval(st, fr, pl), v)
            elif k == 'live' or k == 'dead':
                st.mem.pop(('l', fr.uid, s[2]), None)
            elif k == 'setd':
                p = self.lval(st, fr, s[2])
                v = self.load(st, p)
                if isinstance(v, Agg):
                    self.store(st, p, Agg(v.ty, s[3], v.f))
                else:
                    raise Unsupported('setdiscr')
            elif k == 'assume':
                c = self.operand(st, fr, s[2])
                if isinstance(c, N) and not st.assume(c, True):
                    raise Dead()
            elif k == 'copyno':
                self.copy_nonoverlapping(st, self.operand(st, fr, s[2]), self.operand(st, fr, s[3]), self.operand(st, fr, s[4]), None)
            fr.i += 1
            if st.chosen:
                st.chosen = []
            return
        dom.CURSRC[0] = (fr.fn, term[1])
        self.terminator(st, fr, f, term)
        if st.chosen:
            st.chosen = []

    def havoc(self, st, ty, e):
        key = str(e)
        fr = st.top
        f = self.p.fns[fr.fn]
        h = self.stats['havoc']
        h[key + ' in ' + f['name']] = h.get(key + ' in ' + f['name'], 0) + 1
        if self.opts.get('strict_havoc'):
            raise e
        return self.symbolic(st, ty, 'unknown')

    def terminator(self, st, fr, f, t):
        k = t[0]
        if k == 'goto':
            self.jump(st, t[2])
        elif k == 'switch':
            v = self.operand(st, fr, t[2], t[5])
            ty = self.T(t[5])
            if ty['k'] == 'bool':
                if v is UNDEF:
                    raise Unsupported('switch on undef')
                c = self.need(st, v)
                val = 1 if c else 0
                for s, b in t[3]:
                    if int(s) == val:
                        self.jump(st, b)
                        return
                self.jump(st, t[4])
                return
            if not isinstance(v, N):
                raise Unsupported('switch on %r' % (v,))
            for s, b in t[3]:
                d = int(s)
                if ty['k'] == 'int' and ty['s'] and d >> (ty['w'] - 1):
                    d -= 1 << ty['w']
                if self.need(st, cmp('eq', v, ci(d))):
                    self.jump(st, b)
                    return
            self.jump(st, t[4])
        elif k == 'return':
            self.do_return(st, fr)
        elif k == 'assert':
            c = self.operand(st, fr, t[2])
            exp = t[3]
            self.oblig('assert')
            kind = t[4]
            if not isinstance(c, N):
                raise Unsupported('assert on %r' % (c,))
            if self.need(st, c) == exp:
                self.jump(st, t[5])
            else:
                self.panic(st, {'bounds': 'index out of bounds', 'overflow': 'arithmetic overflow', 'divzero': 'division by zero',
                                'remzero': 'remainder by zero'}.get(kind[0], kind[0]))
        elif k == 'drop':
            if t[4] is None:
                self.jump(st, t[3])
            else:
                p = self.lval(st, fr, t[2])
                self.jump(st, t[3])
        elif k == 'call':
            self.call(st, fr, t)
        elif k == 'unreachable':
            self.event(st, 'unreachable', 'unreachable code reached')
            raise Dead()
        else:
            raise Dead()

    def panic(self, st, msg):
        if not st.flags.get('allow_panics'):
            self.event(st, 'panic', msg)
        raise Dead()

    def do_return(self, st, fr):
        v = st.mem.get(('l', fr.uid, 0), UNDEF)
        uid = fr.uid
        st.frames.pop()
        for key in [k for k in st.mem if k[1] == uid]:
            del st.mem[key]
        if not st.frames:
            st.fresh = True
            return
        if fr.dest is not None:
            if v is UNDEF and fr.destty is not None and self.sizeof(fr.destty) == 0:
                v = self.zst(fr.destty)
            self.store(st, fr.dest, v)
        c = st.top
        if fr.tgt is None:
            raise Dead()
        c.bb = fr.tgt
        c.i = 0
        st.fresh = True

    def push(self, st, fid, args, dest, tgt, destty):
        f = self.p.fns[fid]
        if 'blocks' not in f:
            raise Unsupported('no body: ' + f['name'])
        if len(st.frames) > 60:
            raise Unsupported('recursion depth')
        self.uid += 1
        fr = Frame()
        fr.uid, fr.fn, fr.bb, fr.i, fr.dest, fr.tgt = self.uid, fid, 0, 0, dest, tgt
        fr.visits = {}
        fr.call = None
        fr.destty = destty
        fr.tag = None
        argc = f['argc']
        if f.get('spread'):
            # rust-call ABI: the last argument is a tuple passed untupled
            sp = f['spread']
            a = args[:sp - 1]
            rest = args[sp - 1:]
            if len(rest) == 1 and isinstance(rest[0], Agg):
                a = a + [rest[0]]
            args = a
        elif len(args) != argc:
            if args and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == argc:
                args = args[:-1] + list(args[-1].f)
            else:
                raise Unsupported('arg count of ' + f['name'])
        elif 'closure' in f['def'] and args and isinstance(args[-1], Agg) and len(args[-1].f) == 1:
            # a closure of one argument called through the Fn traits
            a = args[-1]
            lt = f['locals'][argc]
            if a.ty != lt and (self.T(lt)['k'] != 'tuple' or a.ty is not None and self.T(a.ty)['k'] == 'tuple'):
                if a.ty is None or self.T(a.ty)['k'] == 'tuple':
                    args = args[:-1] + [a.f[0]]
        for i, a in enumerate(args):
            st.mem[('l', fr.uid, i + 1)] = a
        st.frames.append(fr)
        st.fresh = True
        if not self.quiet:
            fs = self.stats['fns']
            fs[fid] = fs.get(fid, 0) + 1

    def call(self, st, fr, t):
        callee, args, dest, tgt, dty = t[2], t[3], t[4], t[5], t[6]
        if callee[0] == 'unresolved':
            raise Unsupported('unresolved call ' + callee[1])
        vals = [self.operand(st, fr, a[0], a[1]) for a in args]
        tys = [a[1] for a in args]
        if callee[0] == 'ptr':
            v = self.operand(st, fr, callee[1])
            if isinstance(v, FnV):
                fid = v.inst
            else:
                raise Unsupported('indirect call')
        else:
            fid = callee[1]
        self.invoke(st, fr, fid, vals, tys, dest, tgt, dty)

    def invoke(self, st, fr, fid, vals, tys, dest, tgt, dty):
        f = self.p.fns[fid]
        name = f['def']
        if f.get('empty'):
            self.ret(st, fr, dest, tgt, self.zst(dty), dty)
            return
        m = MODELS.get(name)
        if m is None:
            for pre, mm in PREFIX:
                if pre(name):
                    m = mm
                    break
        try:
            if m is not None:
                r = m(self, st, fr, f, vals, tys, dty)
                if r is not NotImplemented:
                    if r is INVOKED:
                        # model pushed something itself
                        return
                    self.ret(st, fr, dest, tgt, r, dty)
                    return
            if f.get('kind') == 'Intrinsic' or ('blocks' not in f and f.get('intrinsic')):
                r = call_intrinsic(self, st, fr, f, vals, tys, dty)
                self.ret(st, fr, dest, tgt, r, dty)
                return
            if 'blocks' not in f:
                if self.T(dty)['k'] == 'never':
                    self.panic(st, 'panic in ' + name)
                raise Unsupported('no body: ' + f['name'])
            d = self.lval(st, fr, dest)
            if name.endswith(st.flags.get('opaque', ('::#',))) and self.T(dty)['k'] == 'float':
                xs = tuple(self.load(st, v) if isinstance(v, Ptr) else v for v in vals)
                if all(isinstance(x, N) for x in xs):
                    self.ret(st, fr, dest, tgt, dom._mk('opq', ('@' + name,) + xs, 'f', (-3.4e38, 3.4e38, False)), dty)
                    return
            sm = st.flags.get('summarize')
            if sm and self.T(dty)['k'] == 'float' and all(isinstance(v, N) for v in vals) and f['krate'] == 'embedded_audio_tools':
                r = self.summary(st, fid, vals, tys, dty)
                self.ret(st, fr, dest, tgt, r, dty)
                return
            self.push(st, fid, vals, d, tgt, dty)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, Unsupported) as e:
            if not isinstance(e, Unsupported):
                if self.opts.get('raise'):
                    raise
                e = Unsupported('argument of unexpected shape')
            if self.T(dty)['k'] == 'never':
                raise Dead()
            v = self.havoc(st, dty, e)
            self.ret(st, fr, dest, tgt, v, dty)

    def ret(self, st, fr, dest, tgt, v, dty):
        if tgt is None:
            raise Dead()
        self.store(st, self.lval(st, fr, dest), v)
        self.jump(st, tgt)

    def summary(self, st, fid, vals, tys, dty):
        """opaque application of a pure scalar function, with hull interval"""
        base = dom._mk('opq', (self.p.fns[fid]['def'],) + tuple(vals), 'f', None)
        if base.siv is not None:
            return base
        s = self.blank()
        s.flags = {'allow_panics': True}
        args = []
        for v, ty in zip(vals, tys):
            iv = st.iv(v)
            if v.op in ('cf', 'ci', 'cb'):
                args.append(v)
                continue
            a = fresh('arg', v.k, v.siv if v.k != 'f' else FTOP)
            if not s.refine(a, iv):
                args.append(v)
                continue
            args.append(a)
        self.push(s, fid, args, None, None, dty)
        res = []
        self.quiet += 1
        try:
            outs = self.run_collect(s, lambda z, v: res.append((z, v)))
        finally:
            self.quiet -= 1
        iv = None
        for z, v in res:
            if not isinstance(v, N):
                iv = FTOP
                break
            x = z.iv(v)
            iv = x if iv is None else iv_hull(iv, x, 'f')
        base.siv = iv or FTOP
        return base

    def run_collect(self, s, cb_):
        root = s.frames[0].uid
        work = [s]
        while work:
            st = work.pop()
            while True:
                fr = st.top
                f = self.p.fns[fr.fn]
                if len(st.frames) == 1 and fr.i >= len(f['blocks'][fr.bb][0]) and f['blocks'][fr.bb][1][0] == 'return':
                    cb_(st, st.mem.get(('l', fr.uid, 0), UNDEF))
                    break
                if not self.advance(st, work):
                    break

    def blank(self):
        s = St()
        s.frames = []
        s.mem = {}
        s.rgn = {}
        s.ref = {}
        s.facts = []
        s.decided = {}
        s.chosen = []
        s.cpos = 0
        s.trace = None
        s.nfork = 0
        s.flags = {}
        s.fresh = False
        s.ivc = {}
        s.eqs = []
        s.entc = {}
        return s

    def advance(self, st, work):
        """one step; returns False when the path ended; forks go to work"""
        self.stats['steps'] += 1
        if self.stats['steps'] > self.MAXSTEPS:
            raise Limit('step limit')
        if self.deadline and self.stats['steps'] & 255 == 0:
            import time
            if time.time() > self.deadline:
                raise Limit('time limit')
        try:
            self.step(st)
            return True
        except Fork as e:
            self.stats['forks'] += 1
            o = st.copy()
            c = e.cond
            a = st.assume(c, True)
            b = o.assume(c, False)
            if a and b:
                fr = st.top
                blk = self.p.fns[fr.fn]['blocks'][fr.bb]
                sp = blk[0][fr.i][1] if fr.i < len(blk[0]) else blk[1][1]
                l = '%s: %s' % (self.p.loc(sp), show(c, 5))
                st.trace = (l + ' is true', st.trace)
                o.trace = (l + ' is false', o.trace)
                st.nfork += 1
                o.nfork += 1
                work.append(o)
                return True
            if a:
                return True
            if b:
                self.assign(st, o)
                return True
            return False
        except Choose as e:
            for i in range(1, e.n):
                o = st.copy()
                o.chosen.append(i)
                o.nfork += 1
                o.trace = ('%s := choice %d' % (e.label, i), o.trace)
                work.append(o)
            st.chosen.append(0)
            st.nfork += 1
            st.trace = ('%s := choice 0' % e.label, st.trace)
            return True
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, Unsupported) as e:
            if not isinstance(e, Unsupported):
                if self.opts.get('raise'):
                    raise
                e = Unsupported('internal: %s' % e)
            fr = st.top
            f = self.p.fns[fr.fn]
            h = self.stats['havoc']
            key = 'PATH LOST: %s in %s' % (e, f['name'])
            h[key] = h.get(key, 0) + 1
            self.event(st, 'unsupported', str(e))
            return False
        except Dead:
            return False

    @staticmethod
    def assign(st, o):
        for s in St.__slots__:
            setattr(st, s, getattr(o, s))

    # ------------------------------------------------------------- running
    def run(self, work, ctx=None):
        out = []
        work = list(work)
        while work:
            st = work.pop()
            while True:
                if st.fresh:
                    if not st.frames:
                        self.stats['paths'] += 1
                        if ctx is not None:
                            out.append(('exit', st))
                        break
                    if ctx is not None:
                        c = ctx.classify(st)
                        if c:
                            out.append((c, st))
                            break
                    st.fresh = False
                    fr = st.top
                    if fr.i == 0:
                        heads = self.p.cfg(fr.fn)
                        h = heads.get(fr.bb)
                        if h is not None:
                            v = fr.visits.get(fr.bb)
                            v = (1, st.nfork) if v is None else (v[0] + 1, v[1])
                            fr.visits[fr.bb] = v
                            for g in heads:
                                if g != fr.bb and g in h[0]:
                                    fr.visits.pop(g, None)
                            lim = st.flags.get('bounded')
                            if lim is not None and not h[1] and self.p.fns[fr.fn]['krate'] != 'harness':
                                if v[0] > lim:
                                    self.event(st, 'unbounded-loop', 'loop without a fixed bound',
                                               'more than %d iterations possible' % lim)
                                    self.stats['paths'] += 1
                                    break
                            elif h[1] or v[0] > st.flags.get('unroll', 1 << 30) or (v[0] > (max(9, st.flags.get('unroll', 0)) if ctx is None else 2) and st.nfork - v[1] >= v[0] - 1):
                                res = self.fixpoint(st, h[0])
                                work.extend(res)
                                break
                            if v[0] > 30000:
                                raise Limit('loop bound')
                if not self.advance(st, work):
                    self.stats['paths'] += 1
                    break
        return out

    # ---------------------------------------------------------- fixpoints
    def fixpoint(self, st0, body):
        from loops import LoopInv
        fr = st0.top
        ctx = Ctx(fr.uid, fr.bb, body)
        self.stats['fixpoints'] += 1
        self.quiet += 1
        classes = {}
        k0 = LoopInv.key(self, st0)
        classes[k0] = LoopInv(self, st0)
        todo = [k0]
        n = 0
        try:
            while todo:
                key = todo.pop(0)
                n += 1
                self.stats['fixiters'] += 1
                if n > 400:
                    raise Limit('fixpoint does not converge')
                inv = classes[key]
                s = inv.materialize()
                outs = self.run([s], ctx)
                for kind, b in outs:
                    if kind != 'back':
                        continue
                    k = LoopInv.key(self, b)
                    if k not in classes:
                        classes[k] = LoopInv(self, b)
                        if k not in todo:
                            todo.append(k)
                    elif classes[k].absorb(b):
                        if k not in todo:
                            todo.append(k)
        finally:
            self.quiet -= 1
        res = []
        for inv in classes.values():
            s = inv.materialize()
            for kind, b in self.run([s], ctx):
                if kind == 'exit':
                    b.fresh = True
                    res.append(b)
        if 'unroll' in st0.flags and len(res) > 2:
            # coarse mode: one state per exit and shape
            groups = {}
            for b in res:
                t = b.top if b.frames else None
                k = (t and (t.bb, t.i), LoopInv.key(self, b))
                g = groups.get(k)
                if g is None:
                    groups[k] = [b, None]
                else:
                    if g[1] is None:
                        g[1] = LoopInv(self, g[0])
                    g[1].absorb(b)
            res = []
            for b, inv in groups.values():
                if inv is not None:
                    tr = b.trace
                    b = inv.materialize()
                    b.trace = tr
                    b.fresh = True
                res.append(b)
        return res

    # -------------------------------------------------------------- roots
    def analyse(self, root):
        self.root = root
        fid = self.p.roots[root]
        f = self.p.fns[fid]
        s = self.blank()
        names = dict((l, n) for l, n in f['dbg'])
        work = [s]
        # arguments may need choices
        done = []
        while work:
            s = work.pop()
            s.cpos = 0
            try:
                args = []
                for i in range(f['argc']):
                    args.append(self.symbolic(s, f['locals'][i + 1], names.get(i + 1, 'arg%d' % i)))
                s.chosen = []
                self.push(s, fid, args, None, None, None)
                done.append(s)
            except Choose as e:
                for i in range(e.n):
                    o = s.copy()
                    o.chosen.append(i)
                    o.trace = ('%s := choice %d' % (e.label, i), o.trace)
                    work.append(o)
        self.run(done)


def f_to(t):
    return t['to']

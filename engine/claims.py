"""Deciding the claims of the specification in an abstract state."""
import itertools
from fractions import Fraction
from dom import *
import dom
from build import *
import build


# ------------------------------------------------------------ renormalisation

class Contradiction(Exception):
    """two descriptions of the same integer exclude each other"""


def rebuild(st, root, subst=None):
    """Rebuild a value number with everything known in the state."""
    from models import mkclamp, fminmax
    memo = {}
    subst = subst or {}
    for a, b in st.eqs:
        if a.k == 'f':
            if a.op == 'cf' or b.op == 'cf':
                continue
            x, y = (a, b) if a.id > b.id else (b, a)
            if x not in subst and y not in deps(x, set()):
                subst[x] = y
    stk = [root]
    while stk:
        n = stk[-1]
        if n in memo:
            stk.pop()
            continue
        if n in subst:
            m = subst[n]
            if m in memo:
                memo[n] = memo[m]
                stk.pop()
            else:
                stk.append(m)
            continue
        kids = [x for x, _ in n.a[0]] if n.op == 'lin' else [x for x in n.a if isinstance(x, N)]
        todo = [x for x in kids if x not in memo]
        if todo:
            stk.extend(todo)
            continue
        stk.pop()
        memo[n] = one(st, n, memo, mkclamp, fminmax)
    return memo[root]


def deps(n, seen):
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'lin':
            st.extend(y for y, _ in x.a[0])
        else:
            st.extend(y for y in x.a if isinstance(y, N))
    return seen


def one(st, n, memo, mkclamp, fminmax):
    op, a = n.op, n.a
    if op in ('cf', 'ci', 'cb', 'at'):
        r = n
    else:
        k = lambda i: memo[a[i]]
        if op == 'lin':
            r = ci(a[1])
            for x, q in a[0]:
                r = iadd(r, iscale(memo[x], q))
        elif op == 'fadd':
            r = farith(st, 'Add', k(0), k(1))
        elif op == 'fsub':
            r = farith(st, 'Sub', k(0), k(1))
        elif op == 'fmul':
            r = farith(st, 'Mul', k(0), k(1))
        elif op == 'fdiv':
            r = farith(st, 'Div', k(0), k(1))
        elif op == 'fneg':
            r = fneg(k(0))
        elif op == 'fabs':
            x = k(0)
            X = st.iv(x)
            if X[0] >= 0 or st.truth(sgn(x)) is False:
                r = x
            elif X[1] <= 0 or st.truth(sgn(x)) is True:
                r = fneg(x)
            else:
                r = fabs(x)
        elif op == 'fcopysign':
            x, y = k(0), k(1)
            t = st.truth(sgn(y))
            X = st.iv(x)
            r = fop('fcopysign', x, y)
            if t is not None:
                m = x if X[0] >= 0 else fneg(x) if X[1] <= 0 else fabs(x)
                r = fneg(m) if t else m
        elif op == 'fclamp':
            r = mkclamp(st, k(0), k(1), k(2))
        elif op in ('fmin', 'fmax'):
            r = fminmax(st, op, k(0), k(1))
            if r.op == op and not st.iv(k(0))[2] and not st.iv(k(1))[2]:
                if st.truth(cmp('le', k(0), k(1))) is True:
                    r = k(0) if op == 'fmin' else k(1)
                elif st.truth(cmp('le', k(1), k(0))) is True:
                    r = k(1) if op == 'fmin' else k(0)
        elif op == 'frem':
            x, y = k(0), k(1)
            X, Y = st.iv(x), st.iv(y)
            if not X[2] and not Y[2] and X[0] <= X[1] and Y[0] > 0 and -Y[0] < X[0] and X[1] < Y[0]:
                r = x
            else:
                r = frem(x, y)
        elif op == 'i2f':
            r = i2f(st, k(0))
        elif op == 'ifl':
            r = ifl(st, k(0))
        elif op == 'f2i':
            r = f2i(st, k(0), a[1], a[2])
        elif op == 'wrap':
            r = wrap(st, k(0), a[1], a[2])
        elif op == 'idiv':
            r = idiv(st, k(0), k(1))
        elif op == 'irem':
            x, y = k(0), k(1)
            r = None
            if x.op == 'ci' and y.op == 'ci' and y.a[0]:
                r = ci(trem(x.a[0], y.a[0]))
            elif st.iv(y)[0] > 0:
                if st.le(ci(0), x) and st.lt(x, y):
                    r = x
                elif st.le(y, x) and st.lt(x, iadd(y, y)):
                    r = isub(x, y)
                elif st.le(x, ci(0)) and st.lt(ineg(x), y):
                    r = x
            if r is None:
                r = remnode(x, y)
        elif op == 'imul':
            r = imul(k(0), k(1))
        elif op == 'mln':
            x = k(0)
            X = st.iv(x)
            v = ln_mm(X[0]) if X[0] == X[1] and not X[2] and 0 < X[0] < INF else None
            r = cf(v) if v is not None else fop('mln', x)
        elif op == 'mexp':
            x = k(0)
            X = st.iv(x)
            r = cf(1.0) if X[0] == X[1] == 0.0 and not X[2] else fop('mexp', x)
        elif op == 'powi':
            x = k(0)
            r = fop('powi', x, a[1])
        elif op == 'bits':
            r = fbits(k(0), False)
        elif op == 'unbits':
            r = unbits(k(0))
            if r.op in ('fneg', 'fabs', 'fcopysign'):
                r = rebuild(st, r)
        elif n.k == 'b':
            t = st.truth(n)
            r = cb(t) if t is not None else n
            if t is None and op == 'cmp' and a[1].k != 'b':
                r = cmp(a[0], k(1), k(2))
                t = st.truth(r)
                r = cb(t) if t is not None else r
        else:
            na = tuple(memo[x] if isinstance(x, N) else x for x in a)
            r = n if all(x is y for x, y in zip(na, a)) else rawmk(op, na, n.k, n.siv)
    if r.op == 'ci' and op != 'ci':
        iv = st.iv(n)
        if not iv[0] <= r.a[0] <= iv[1]:
            raise Contradiction()
    if r.op not in ('cf', 'ci', 'cb'):
        iv = st.iv(n)
        i2 = st.iv(r) if r is not n else iv
        if r.k == 'i' and (iv[1] < i2[0] or i2[1] < iv[0]):
            raise Contradiction()
        if r is not n and n in st.ref and r.k == n.k and not st.refine(r, iv):
            raise Contradiction()
        for v in (iv, i2):
            if r.k == 'f':
                if v[0] == v[1] and not v[2]:
                    return cf(v[0])
            elif r.k == 'i' and v[0] == v[1]:
                return ci(v[0])
    return r


def rawmk(op, na, k, siv):
    if op == 'tab':
        return tabnode(na[0], na[1])
    n = dom._mk(op, na, k, siv)
    if n.siv is None:
        n.siv = siv
    return n


def sels(n):
    out = []
    for x in deps(n, set()):
        if x.op == 'sel':
            out.append(x)
    out.sort(key=lambda x: x.id)
    return out


def residue(x, n, t, q=1):
    """add q*x modulo n to the linear form t"""
    u, c = lin(x)
    t[None] = t.get(None, 0) + q * c
    for a, k in u.items():
        if a is n:
            continue
        if a.op == 'irem' and a.a[1] is n:
            residue(a.a[0], n, t, q * k)
        elif a.op == 'imul' and n in a.a:
            continue
        elif a.op == 'wrap' and n.op == 'ci' and n.a[0] and (1 << a.a[1]) % n.a[0] == 0:
            residue(a.a[0], n, t, q * k)
        else:
            t[a] = t.get(a, 0) + q * k


def modeq(st, p, q):
    """equal because congruent modulo n and less than n apart"""
    mods = {x.a[1] for y in (p, q) for x in deps(y, set()) if x.op == 'irem'}
    mods.update(ci(1 << x.a[1]) for y in (p, q) for x in deps(y, set()) if x.op == 'wrap')
    for n in sorted(mods, key=lambda x: x.id):
        t = {}
        residue(p, n, t)
        residue(q, n, t, -1)
        if n.op == 'ci' and n.a[0] > 0:
            z = all(v % n.a[0] == 0 for v in t.values())
        else:
            z = all(v == 0 for v in t.values())
        if not z:
            continue
        if st.lt(p, iadd(q, n)) and st.lt(q, iadd(p, n)):
            return True
    return False


def unify_sels(st, a, b):
    """reads of the same buffer content at provably equal indices"""
    s = sorted(set(sels(a)) | set(sels(b)), key=lambda x: x.id)
    sub = {}
    for i, x in enumerate(s):
        if x in sub:
            continue
        for y in s[i + 1:]:
            if y in sub or x.a[0] != y.a[0]:
                continue
            if st.truth(cmp('eq', x.a[1], y.a[1])) is True or modeq(st, x.a[1], y.a[1]):
                sub[y] = x
    return sub


# --------------------------------------------------- rational normal forms

class TooBig(Exception):
    pass


LIM = 6000


class Rat:
    def __init__(self, st, seed=7):
        self.st = st
        self.pe = PrimeEval(seed)
        self.memo = {}
        self.node = {}

    def atom(self, n):
        try:
            k = self.pe.ev(n)
        except Undefined:
            k = ('n', n.id)
        self.node.setdefault(k, n)
        return {((k, 1),): Fraction(1)}, {(): Fraction(1)}

    def get(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._get(n)
            self.memo[n] = r
        return r

    def _get(self, n):
        op, a = n.op, n.a
        one = {(): Fraction(1)}
        if op == 'cf':
            v = fval(n)
            if math.isnan(v) or math.isinf(v):
                return self.atom(n)
            return pconst(Fraction(v)), one
        if op in ('ci', 'cb'):
            return pconst(Fraction(a[0])), one
        if op == 'lin':
            p, q = pconst(Fraction(a[1])), one
            for x, c in a[0]:
                u, v = self.get(x)
                p, q = padd(pmul(p, v), pscale(pmul(u, q), c)), pmul(q, v)
            return p, q
        if op in ('fadd', 'fsub'):
            (p, q), (u, v) = self.get(a[0]), self.get(a[1])
            s = 1 if op == 'fadd' else -1
            if q == v:
                return padd(p, pscale(u, s)), q
            return padd(pmul(p, v), pscale(pmul(u, q), s)), pmul(q, v)
        if op in ('fmul', 'imul'):
            (p, q), (u, v) = self.get(a[0]), self.get(a[1])
            return pmul(p, u), pmul(q, v)
        if op == 'fdiv':
            (p, q), (u, v) = self.get(a[0]), self.get(a[1])
            return pmul(p, v), pmul(q, u)
        if op == 'fneg':
            p, q = self.get(a[0])
            return pscale(p, -1), q
        if op in ('i2f', 'b2i'):
            return self.get(a[0]) if op == 'i2f' else self.atom(n)
        if op == 'irem' and a[1].op == 'ci' and a[1].a[0] > 0:
            p, q = self.get(a[0])
            k = self.pe.div(a[0], a[1])
            self.node.setdefault(k, iop('idiv', a[0], a[1]))
            return padd(p, pscale(pmul({((k, 1),): Fraction(1)}, q), -a[1].a[0])), q
        if op == 'powi':
            p, q = self.get(a[0])
            r, s = one, one
            for _ in range(a[1]):
                r, s = pmul(r, p), pmul(s, q)
            return r, s
        return self.atom(n)


def pconst(c):
    return {(): c} if c else {}


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items(), key=lambda x: str(x[0])))


def pmul(p, q):
    if len(p) * len(q) > 400000:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIM:
        raise TooBig()
    return r


def rat_equal(st, a, b, tol):
    """same rational function up to relative rounding of the coefficients"""
    R = Rat(st)
    try:
        p, q = R.get(a)
        u, v = R.get(b)
        x = pmul(p, v)
        y = pmul(u, q)
    except TooBig:
        return None
    # per-monomial scale: sum of absolute contributions
    sx = absprod(p, v)
    sy = absprod(u, q)
    worst = 0
    for m in set(x) | set(y):
        d = abs(x.get(m, 0) - y.get(m, 0))
        if d == 0:
            continue
        s = sx.get(m, 0) + sy.get(m, 0)
        if d > s * tol:
            return False
    return True


def absprod(p, q):
    return pmul({m: abs(c) for m, c in p.items()}, {m: abs(c) for m, c in q.items()})


def rat_sign(st, n):
    """1 when the rational form is positive for all values of its atoms"""
    R = Rat(st)
    try:
        p, q = R.get(n)
    except TooBig:
        return None
    sg = []
    for poly in (p, q):
        if not poly:
            return 0
        s = set()
        strictp = False
        for m, c in poly.items():
            pos = True
            strict = True
            sign = 1 if c > 0 else -1
            for k, e in m:
                iv = st.iv(R.node[k])
                lo, hi = iv[0], iv[1]
                if R.node[k].k == 'f' and iv[2]:
                    return None
                if e % 2 == 0:
                    if lo <= 0 <= hi:
                        strict = False
                elif lo >= 0:
                    if lo == 0:
                        strict = False
                elif hi <= 0:
                    sign = -sign
                    if hi == 0:
                        strict = False
                else:
                    return None
            s.add(sign)
            strictp |= strict
        if len(s) != 1:
            return None
        sg.append((s.pop(), strictp))
    if not sg[1][1]:
        return None
    s = sg[0][0] * sg[1][0]
    if not sg[0][1]:
        return None
    return s


class Relaxed(Rat):
    """Shifts and truncations replaced by their source minus an error term."""

    def __init__(self, st):
        Rat.__init__(self, st)
        self.err = {}

    def minus(self, n, x, scale, hi):
        k = ('~', n.id)
        self.err[k] = (Fraction(0), Fraction(hi))
        p, q = self.get(x)
        return padd(pscale(p, scale), pmul({((k, 1),): Fraction(-1)}, q)), q

    def _get(self, n):
        if n.op == 'ishr' and n.a[1].op == 'ci':
            d = 1 << n.a[1].a[0]
            return self.minus(n, n.a[0], Fraction(1, d), Fraction(d - 1, d))
        if n.op == 'idiv' and n.a[1].op == 'ci' and n.a[1].a[0] > 0 and self.st.iv(n.a[0])[0] >= 0:
            d = n.a[1].a[0]
            return self.minus(n, n.a[0], Fraction(1, d), Fraction(d - 1, d))
        if n.op == 'irem':
            return self.atom(n)
        if n.op in ('f2i', 'ifl'):
            iv = self.st.iv(n.a[0])
            hi = 2.0 ** 31 if n.op == 'ifl' else 2.0 ** (n.a[1] - bool(n.a[2]))
            if not iv[2] and 0 <= iv[0] and iv[1] < hi:
                return self.minus(n, n.a[0], 1, 1)
        return Rat._get(self, n)


def rat_bounds(st, n, relaxed=False):
    """range over the reals of a polynomial value (multilinear corners, else
    interval evaluation of the normal form)"""
    R = Relaxed(st) if relaxed else Rat(st)
    try:
        p, q = R.get(n)
    except TooBig:
        return None
    if len(q) != 1:
        return None
    den = []
    denominators(n, set(), den, True)
    if not all(nonzero(st, d) for d in den):
        return None
    # one term below: divide term by term, negative powers allowed
    (qm, qc), = q.items()
    s = {}
    for m, c in p.items():
        e = dict(m)
        for k, v in qm:
            e[k] = e.get(k, 0) - v
        m = tuple(sorted(((k, v) for k, v in e.items() if v), key=str))
        s[m] = s.get(m, 0) + c / qc
    p = {m: c for m, c in s.items() if c}
    keys = sorted({k for m in p for k, _ in m}, key=str)
    ivs = {}
    for k in keys:
        if relaxed and k in R.err:
            ivs[k] = R.err[k]
            continue
        nd = R.node[k]
        iv = st.iv(nd)
        if nd.k == 'f' and iv[2]:
            return None
        if nd.k == 'f' and (math.isinf(iv[0]) or math.isinf(iv[1])):
            return None
        ivs[k] = (Fraction(iv[0]), Fraction(iv[1]))
    if all(e == 1 for m in p for _, e in m) and len(keys) <= 12:
        lo = hi = None
        for cs in itertools.product(*[ivs[k] for k in keys]):
            v = dict(zip(keys, cs))
            t = Fraction(0)
            for m, c in p.items():
                for k, _ in m:
                    c = c * v[k]
                t += c
            lo = t if lo is None or t < lo else lo
            hi = t if hi is None or t > hi else hi
        return lo, hi
    # linear objective refined by the linear facts is not attempted here
    lo = hi = Fraction(0)
    for m, c in p.items():
        a, b = c, c
        for k, e in m:
            l, h = ivs[k]
            if e < 0 and l <= 0 <= h:
                return None
            if e % 2 == 0 and l <= 0 <= h:
                l2, h2 = Fraction(0), max(l ** e, h ** e)
            else:
                l2, h2 = sorted((l ** e, h ** e))
            w = (a * l2, a * h2, b * l2, b * h2)
            a, b = min(w), max(w)
        lo += a
        hi += b
    return lo, hi


# -------------------------------------------------------------- case splits

def splits(st, nodes):
    """undecided conditions whose resolution simplifies the nodes"""
    out = []
    seen = set()
    at = set()
    for n in nodes:
        at |= deps(n, set())
    for c, v in st.decided.items():
        if c.op in ('and', 'or') and v == (c.op == 'or') and st.truth(c.a[0]) is None and st.truth(c.a[1]) is None:
            if any(x.op == 'at' and x in at for x in deps(c, set())):
                out.append(c.a[0])
    for n in nodes:
        for x in sorted(deps(n, set()), key=lambda y: y.id):
            if x in seen:
                continue
            seen.add(x)
            c = []
            if x.op == 'fclamp':
                c = [cmp('lt', x.a[0], x.a[1]), cmp('lt', x.a[2], x.a[0])]
            elif x.op == 'fabs':
                c = [cmp('lt', x.a[0], cf(0.0))]
            elif x.op in ('fmin', 'fmax'):
                c = [cmp('le', x.a[0], x.a[1]), cmp('le', x.a[1], x.a[0])]
            elif x.op == 'fcopysign':
                c = [sgn(x.a[1])]
            elif x.op == 'irem':
                if st.iv(x.a[1])[0] > 0:
                    c = [cmp('lt', x.a[0], x.a[1]), cmp('le', ci(0), x.a[0])]
            elif x.op == 'b2i':
                c = [x.a[0]]
            for y in c:
                if st.truth(y) is None:
                    out.append(y)
    return out


def selsplits(st, nodes):
    s = sorted({x for n in nodes for x in sels(n)}, key=lambda x: x.id)
    out = []
    for i, x in enumerate(s):
        for y in s[i + 1:]:
            if x.a[0] == y.a[0]:
                c = cmp('eq', x.a[1], y.a[1])
                if st.truth(c) is None:
                    out.append(c)
    return out


def remainders(st):
    """Relate remainders by the same modulus whose dividends differ by a
    constant: their difference is that constant plus a multiple of the
    modulus. True when no multiple is possible."""
    rs = {}
    for c in list(st.decided):
        for x in deps(c, set()):
            if x.op == 'irem' and st.iv(x.a[1])[0] > 0:
                rs.setdefault(x.a[1], set()).add(x)
    for n, xs in sorted(rs.items(), key=lambda p: p[0].id):
        xs = sorted(xs, key=lambda x: x.id)
        for i, x in enumerate(xs):
            for y in xs[i + 1:]:
                t = {}
                residue(x.a[0], n, t)
                residue(y.a[0], n, t, -1)
                c = t.pop(None, 0)
                if any(t.values()) or abs(c) > 8:
                    continue
                d = isub(x, y)
                ok = []
                for k in range(-2 - abs(c), 3 + abs(c)):
                    e = cmp('eq', d, iadd(ci(c), iscale(n, k)))
                    v = st.truth(e)
                    if v is None:
                        o = st.copy()
                        v = o.assume(e, True)
                    if v is True:
                        ok.append(e)
                        if len(ok) > 1:
                            break
                if not ok:
                    return True
                if len(ok) == 1 and st.truth(ok[0]) is None and not st.assume(ok[0], True):
                    return True
    return False


def reductions(st):
    """Remainders and quotients which by now have a known value. True on a
    contradiction."""
    xs = {x for c in list(st.decided) for x in deps(c, set()) if x.op in ('irem', 'idiv')}
    for x in sorted(xs, key=lambda x: x.id):
        r = rebuild(st, x)
        if r is not x and not st.assume(cmp('eq', x, r), True):
            return True
    return False


def infeasible(st):
    """re-propagate every decided condition"""
    if infeasible1(st):
        return True
    if reductions(st) or remainders(st) or infeasible1(st):
        return True
    for n in list(st.ref):
        if n.k == 'i' and n.op != 'lin' and not st.check({n: 1}):
            return True
        if n.op == 'lin':
            t, c = lin(n)
            l, h = st.ref[n]
            if st.entails_ge(t, c - h - 1) or st.entails_ge({k: -v for k, v in t.items()}, l - 1 - c):
                return True
    return False


def infeasible1(st):
    for _ in range(3):
        before = dict(st.ref)
        for c, v in list(st.decided.items()):
            if c.op in ('and', 'or'):
                if v == (c.op == 'or'):
                    # unit propagation
                    x, y = st.truth(c.a[0]), st.truth(c.a[1])
                    if x is (not v) and not st.assume(c.a[1], v) or y is (not v) and not st.assume(c.a[0], v):
                        return True
                continue
            d = st.decided.pop(c)
            t = st.truth(c)
            if t is not None:
                st.decided[c] = d
                if t != d:
                    return True
                continue
            if not st.assume(c, d):
                st.decided[c] = d
                return True
            st.decided[c] = d
        for n in list(st.ref):
            r = st.ref[n]
            if iv_empty(st.iv(n), n.k):
                return True
        if st.ref == before:
            break
    for c, v in list(st.decided.items()):
        if c.op == 'cmp':
            d = st.decided.pop(c)
            st.entc = {}
            try:
                c2 = cmp(c.a[0], rebuild(st, c.a[1]), rebuild(st, c.a[2])) if c.a[1].k != 'b' else rebuild(st, c)
            except Contradiction:
                return True
            finally:
                st.decided[c] = d
            if c2 is not c and (st.truth(c2) is (not d) or not st.assume(c2, d)):
                return True
            if c.a[0] == 'eq' and not d and c.a[1].k == 'i' and modeq(st, c.a[1], c.a[2]):
                return True
    return False


def factors(d, out):
    """factors of a denominator that have to differ from zero"""
    if d.op in ('fmul', 'imul'):
        factors(d.a[0], out)
        factors(d.a[1], out)
    elif d.op in ('fneg', 'powi', 'i2f', 'fdiv'):
        factors(d.a[0], out)
    elif d.op not in ('cf', 'ci') or d.op == 'cf' and fval(d) == 0 or d.op == 'ci' and d.a[0] == 0:
        out.append(d)


ARITH = ('lin', 'fadd', 'fsub', 'fmul', 'imul', 'fdiv', 'fneg', 'i2f', 'powi')


def denominators(n, seen, out, arith=False):
    """arith: only those that are not inside an atom of the normal form"""
    work = [n]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if arith and n.op not in ARITH:
            continue
        if n.op == 'fdiv':
            factors(n.a[1], out)
        for x in n.a:
            if isinstance(x, N):
                work.append(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, N):
                        work.append(y)
                    elif isinstance(y, tuple) and y and isinstance(y[0], N):
                        work.append(y[0])


def monic(R, d):
    try:
        p, q = R.get(d)
    except TooBig:
        return None
    if not p:
        return None
    k = max(p, key=str)
    c = p[k]
    return frozenset((m, v / c) for m, v in p.items())


def nonzero(st, d):
    iv = st.iv(d)
    if iv[0] > 0 or iv[1] < 0:
        return True
    if d.k == 'f' and st.truth(cmp('eq', d, cf(0.0))) is False:
        return True
    return rat_sign(st, d) in (1, -1) or rat_sign(st, farith(st, 'Sub', cf(0.0), d)) == 1


def walk(n, seen):
    work = [n]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        yield n
        for x in n.a:
            if isinstance(x, N):
                work.append(x)


def swamped(st, a, b):
    """an operation of only one of the two terms that loses the value of its
    operand to rounding, whatever the reals say: a huge constant added, a
    scaling out of the range of floats"""
    sa, sb = set(), set()
    for t, s in ((a, sa), (b, sb)):
        for n in walk(t, set()):
            if n.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                for c, x in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
                    if c.op != 'cf' or x.op in ('cf', 'i2f'):
                        continue
                    v = abs(fval(c))
                    if n.op in ('fadd', 'fsub'):
                        bad = v >= 65536.0 and v < INF and not (st.iv(x)[0] >= v / 65536.0 or st.iv(x)[1] <= -v / 65536.0)
                    else:
                        bad = v < INF and (v >= 1e24 or 0 < v <= 1e-24)
                    if bad:
                        s.add(n)
    for n in sa ^ sb:
        return n
    return None


def pole(st, a, b):
    """a denominator of only one of the two terms that may vanish: the terms
    agree as rational functions but not at its zeros"""
    da, db = [], []
    denominators(a, set(), da)
    denominators(b, set(), db)
    if not da and not db:
        return None
    R = Rat(st)
    ka = {d: monic(R, d) for d in da}
    kb = {d: monic(R, d) for d in db}
    for x, y in ((ka, kb), (kb, ka)):
        other = set(y.values())
        for d, k in x.items():
            if (k is None or k not in other) and d not in y and not nonzero(st, d):
                return d
    return None


def identical(st, a, b, tol):
    r = identical1(st, a, b, tol)
    if r in ('polynomial identity', 'rational normal form'):
        a2, b2 = rebuild(st, a), rebuild(st, b)
        d = pole(st, a2, b2)
        if d is not None:
            return a2, b2, d
        d = swamped(st, a2, b2)
        if d is not None:
            return a2, b2, d, 'over the reals, but rounding loses the operand of'
    return r


def identical1(st, a, b, tol):
    if a is b:
        return 'value number'
    sub = unify_sels(st, a, b)
    a2, b2 = rebuild(st, a, dict(sub)), rebuild(st, b, dict(sub))
    if a2 is b2:
        return 'normalised value number'
    sub = unify_sels(st, a2, b2)
    if sub:
        a2, b2 = rebuild(st, a2, dict(sub)), rebuild(st, b2, dict(sub))
        if a2 is b2:
            return 'normalised value number'
    # what the first pass learned may settle more in a second one
    a3, b3 = rebuild(st, a2), rebuild(st, b2)
    if a3 is not a2 or b3 is not b2:
        a2, b2 = a3, b3
        if a2 is b2:
            return 'normalised value number'
    if a2.k != 'f':
        if a2.k == 'i' and st.le(a2, b2) and st.le(b2, a2):
            return 'linear equality'
        return None
    try:
        ok = True
        for seed in (11, 12, 13):
            pe = PrimeEval(seed)
            if pe.ev(a2) != pe.ev(b2):
                ok = False
                break
        if ok:
            return 'polynomial identity'
    except Undefined:
        pass
    if rat_equal(st, a2, b2, tol):
        return 'rational normal form'
    return (a2, b2)


MAXSPLIT = 14


def check(ip, st, kind, vals, msg):
    from interp import Dead
    try:
        check1(ip, st, kind, vals, msg)
    except Contradiction:
        log = ip.claimlog.setdefault((ip.root, msg), {'proved': 0, 'failed': 0, 'how': {}})
        log['proved'] += 1
        log['how']['infeasible path'] = log['how'].get('infeasible path', 0) + 1
        raise Dead()


def check1(ip, st, kind, vals, msg):
    from interp import Fork, Dead, Unsupported
    if ip.quiet:
        if kind == 'claim' and not st.assume(vals[0], True):
            raise Dead()
        return
    ip.oblig(kind)
    log = ip.claimlog.setdefault((ip.root, msg), {'proved': 0, 'failed': 0, 'how': {}})
    if log['failed'] > 2:
        # already violated: no effort on further paths
        if kind == 'claim' and not st.assume(vals[0], True):
            raise Dead()
        return

    def ok(how):
        ip.stats['claims'] += 1
        log['proved'] += 1
        log['how'][how] = log['how'].get(how, 0) + 1

    def split(cs):
        k = st.flags.get('split', 0)
        if k >= MAXSPLIT or not cs:
            return
        st.flags['split'] = k + 1
        raise Fork(cs[0])

    def fail(detail):
        o = st.copy()
        if infeasible(o):
            ok('infeasible path')
            raise Dead()
        ip.stats['claims'] += 1
        log['failed'] += 1
        ip.event(st, 'claim', msg, detail)

    if kind == 'claim':
        c = vals[0]
        t = st.truth(c)
        if t is None:
            c2 = rebuild(st, c) if c.op != 'cb' else c
            t = st.truth(c2)
            if t is None and c2.op == 'cmp' and c2.a[0] == 'eq' and c2.a[1].k == 'i' and (
                    modeq(st, c2.a[1], c2.a[2]) or c.op == 'cmp' and modeq(st, c.a[1], c.a[2])):
                t = True
        if t is None:
            o = st.copy()
            if not o.assume(c, False) or infeasible(o):
                t = True
        if t is True:
            ok('entailed')
            st.flags['split'] = 0
            return
        if t is None:
            split(splits(st, [c]))
        st.flags['split'] = 0
        fail('%s  [%s]' % (show(c, 7), 'false' if t is False else 'not implied'))
        if not st.assume(c, True):
            raise Dead()
        return
    if kind in ('claim_eq', 'claim_same'):
        r = identical(st, vals[0], vals[1], Fraction(1, 50000))
        if kind == 'claim_same' and isinstance(r, str) and not r.endswith('value number'):
            # equal over the reals, but computed: not the same bits for all
            r = None
        if isinstance(r, str):
            ok(r)
            st.flags['split'] = 0
            return
        a2, b2 = r[:2] if r else (vals[0], vals[1])
        split(splits(st, [a2, b2]))
        split(selsplits(st, [a2, b2]))
        if r and len(r) == 4:
            st.flags['split'] = 0
            fail('equal %s %s: %s  differs from  %s' % (r[3], show(r[2], 7), show(a2, 9), show(b2, 9)))
            return
        if r and len(r) == 3:
            if st.flags.get('split', 0) < MAXSPLIT and r[2].k == 'f':
                c = cmp('eq', r[2], cf(0.0))
                if st.truth(c) is None:
                    split([c])
            st.flags['split'] = 0
            fail('equal except where %s is zero: %s  differs from  %s' % (show(r[2], 7), show(a2, 9), show(b2, 9)))
            return
        st.flags['split'] = 0
        fail('%s  differs from  %s' % (show(a2, 9), show(b2, 9)))
        return
    if kind == 'claim_in':
        x, lo, hi, tol = vals
        lo, hi, tol = st.iv(lo)[1], st.iv(hi)[0], fval(tol)
        iv = st.iv(x)
        if not iv[2] and lo - tol <= iv[0] and iv[1] <= hi + tol:
            ok('interval')
            return
        x2 = rebuild(st, x)
        iv = dom.iv_meet(iv, st.iv(x2), 'f')
        if not iv[2] and lo - tol <= iv[0] and iv[1] <= hi + tol:
            ok('interval')
            st.flags['split'] = 0
            return
        b = rat_bounds(st, x2)
        if b is not None and tol > 0 and lo <= b[0] and b[1] <= hi:
            ok('multilinear bound')
            st.flags['split'] = 0
            return
        b = rat_bounds(st, x2, True) if tol > 0 else None
        if b is not None and lo <= b[0] and b[1] <= hi:
            ok('multilinear bound, truncation errors as variables')
            st.flags['split'] = 0
            return
        split(splits(st, [x2]))
        st.flags['split'] = 0
        fail('%s has range %s' % (show(x2, 7), rng(iv)))
        return
    if kind == 'claim_pos':
        x2 = rebuild(st, vals[0])
        iv = st.iv(x2)
        if not iv[2] and iv[0] > 0 or rat_sign(st, x2) == 1:
            ok('sign of rational form')
            st.flags['split'] = 0
            return
        split(splits(st, [x2]))
        st.flags['split'] = 0
        fail('sign of %s is not positive' % show(x2, 8))
        return
    if kind == 'claim_close':
        a, b, tol = vals
        tol = fval(tol)
        d = rebuild(st, farith(st, 'Sub', a, b))
        iv = st.iv(d)
        if not iv[2] and -tol <= iv[0] and iv[1] <= tol:
            ok('interval')
            st.flags['split'] = 0
            return
        r = rat_bounds(st, d)
        if r is not None and -tol <= r[0] and r[1] <= tol:
            ok('multilinear bound')
            st.flags['split'] = 0
            return
        split(splits(st, [d]))
        st.flags['split'] = 0
        fail('%s is not within %g of %s' % (show(a, 7), tol, show(b, 7)))
        return
    raise Unsupported(kind)


def rng(iv):
    return '[%s, %s]%s' % (iv[0], iv[1], ' or NaN' if len(iv) > 2 and iv[2] else '')

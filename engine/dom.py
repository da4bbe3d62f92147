"""Abstract domains.

Scalars are *value numbers*: hash-consed DAG nodes (Miné's symbolic-constant
domain / global value numbering).  A node stands for the concrete machine value
computed by that operation.  Around the value numbers live
  * intervals          (floats with correct f32 rounding and a NaN flag, ints)
  * linear inequalities over integer (and exactly represented float) nodes
  * bit provenance     (which bit of which atom each bit of a word is)
  * algebraic meaning  (rational function over the reals, decided by
                        polynomial identity testing in a large prime field)
"""
import ctypes
import math
import struct
from fractions import Fraction

INF = math.inf
F32MAX = 3.4028234663852886e38
_cf = ctypes.c_float


def r32(x):
    return _cf(x).value


def f2b(x):
    return struct.unpack('<I', struct.pack('<f', x))[0] if not math.isnan(x) else 0x7fc00000


def b2f(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]


def next_up(x):
    if math.isinf(x):
        return x if x > 0 else -F32MAX
    if x == 0:
        return b2f(1)
    b = f2b(x)
    return b2f(b + 1) if x > 0 else b2f(b - 1)


def next_dn(x):
    return -next_up(-x)


class N:
    __slots__ = ('op', 'a', 'id', 'k', 'siv', '_bits', 'src', '_deps')

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]
CURSRC = [None]


def reset():
    _tab.clear()
    _cnt[0] = 0


def _mk(op, a, k, siv):
    key = (op, k) + tuple(x.id if isinstance(x, N) else ('c', x) for x in a)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.k = k
        _cnt[0] += 1
        n.id = _cnt[0]
        n.siv = siv
        n._bits = False
        n.src = CURSRC[0]
        n._deps = None
        _tab[key] = n
    return n


FTOP = (-INF, INF, True)


def ci(v):
    return _mk('ci', (int(v),), 'i', (int(v), int(v)))


def cf(x):
    b = f2b(x)
    if math.isnan(x):
        return _mk('cf', (0x7fc00000,), 'f', (INF, -INF, True))
    return _mk('cf', (b,), 'f', (x, x, False))


def cfbits(b):
    return cf(b2f(b))


def fval(n):
    return b2f(n.a[0])


TRUE = None
FALSE = None


def cb(v):
    return _mk('cb', (1 if v else 0,), 'b', (1 if v else 0, 1 if v else 0))


def is_const(n):
    return n.op in ('ci', 'cf', 'cb')


def cval(n):
    if n.op == 'cf':
        return fval(n)
    return n.a[0]


def fresh(name, k, iv):
    _cnt[0] += 1
    return _mk('at', (name, _cnt[0]), k, iv)


def show(n, d=5):
    if not isinstance(n, N):
        return repr(n)
    if n.op == 'cf':
        return repr(fval(n))
    if n.op in ('ci', 'cb'):
        return str(n.a[0])
    if n.op == 'at':
        return n.a[0]
    if d == 0:
        return '…'
    if n.op == 'lin':
        terms, c = n.a
        s = []
        for x, q in terms:
            t = show(x, d - 1)
            s.append(t if q == 1 else ('-' + t if q == -1 else '%s*%s' % (q, t)))
        if c:
            s.append(str(c))
        return '(' + ' + '.join(s) + ')'
    sym = {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'imul': '*', 'frem': '%', 'irem': '%', 'idiv': '/'}
    if n.op in sym:
        return '(%s %s %s)' % (show(n.a[0], d - 1), sym[n.op], show(n.a[1], d - 1))
    return '%s(%s)' % (n.op, ', '.join(show(x, d - 1) if isinstance(x, N) else str(x) for x in n.a))


# --------------------------------------------------------------- linear forms

def lin(n):
    """(dict atom->coef, const) of an integer node."""
    if n.op == 'ci':
        return {}, n.a[0]
    if n.op == 'lin':
        return dict(n.a[0]), n.a[1]
    return {n: 1}, 0


def from_lin(t, c):
    items = [(x, q) for x, q in t.items() if q != 0]
    if not items:
        return ci(c)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    # interned with ids
    key = ('lin', 'i') + tuple((x.id, q) for x, q in items) + (c,)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = 'lin'
        n.a = (tuple(items), c)
        n.k = 'i'
        _cnt[0] += 1
        n.id = _cnt[0]
        lo = hi = c
        for x, q in items:
            l, h = x.siv
            if q > 0:
                lo += q * l
                hi += q * h
            else:
                lo += q * h
                hi += q * l
        n.siv = (lo, hi)
        n._bits = False
        n.src = CURSRC[0]
        n._deps = None
        _tab[key] = n
    return n


def iadd(a, b):
    if a.op == 'ci' and b.op == 'ci':
        return ci(a.a[0] + b.a[0])
    t, c = lin(a)
    u, d = lin(b)
    for x, q in u.items():
        t[x] = t.get(x, 0) + q
    return from_lin(t, c + d)


def isub(a, b):
    if a.op == 'ci' and b.op == 'ci':
        return ci(a.a[0] - b.a[0])
    t, c = lin(a)
    u, d = lin(b)
    for x, q in u.items():
        t[x] = t.get(x, 0) - q
    return from_lin(t, c - d)


def iscale(a, k):
    t, c = lin(a)
    return from_lin({x: q * k for x, q in t.items()}, c * k)


def ineg(a):
    return iscale(a, -1)


def _mulb(a, b):
    c = [x * y for x in a for y in b]
    return (min(c), max(c))


def imul(a, b):
    if a.op == 'ci':
        return iscale(b, a.a[0])
    if b.op == 'ci':
        return iscale(a, b.a[0])
    if a.op == 'idiv' and a.a[1] is b:
        a, b = b, a
    if b.op == 'idiv' and b.a[1] is a and a.op != 'ci':
        # y * (x / y) = x - x % y
        return isub(b.a[0], iop('irem', b.a[0], a))
    for x, y in ((a, b), (b, a)):
        if x.op == 'lin' and any(u.op == 'idiv' and u.a[1] is y for u, _ in x.a[0]):
            r = iscale(y, x.a[1])
            for u, q in x.a[0]:
                r = iadd(r, iscale(imul(u, y), q))
            return r
    if a.id > b.id:
        a, b = b, a
    return _mk('imul', (a, b), 'i', _mulb(a.siv, b.siv))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


# ------------------------------------------------------------- node building

def iop(op, a, *rest):
    """Generic integer op node with interval from transfer()."""
    n = _mk(op, (a,) + rest, 'i', None)
    if n.siv is None:
        n.siv = transfer(n, lambda x: x.siv)
    return n


def fop(op, *args):
    n = _mk(op, args, 'f', None)
    if n.siv is None:
        n.siv = transfer(n, lambda x: x.siv)
    return n


def bop(op, *args):
    n = _mk(op, args, 'b', None)
    if n.siv is None:
        n.siv = (0, 1)
    return n


def fadd(a, b):
    if a.op == 'cf' and b.op == 'cf':
        return cf(r32(fval(a) + fval(b)))
    if a.id > b.id:
        a, b = b, a
    return fop('fadd', a, b)


def fsub(a, b):
    if a.op == 'cf' and b.op == 'cf':
        return cf(r32(fval(a) - fval(b)))
    return fop('fsub', a, b)


def fmul(a, b):
    if a.op == 'cf' and b.op == 'cf':
        return cf(_fmulc(fval(a), fval(b)))
    if a.op == 'cf' and fval(a) == 1.0:
        return b
    if b.op == 'cf' and fval(b) == 1.0:
        return a
    if a.op == 'cf' and fval(a) == -1.0:
        return fneg(b)
    if b.op == 'cf' and fval(b) == -1.0:
        return fneg(a)
    if a.id > b.id:
        a, b = b, a
    return fop('fmul', a, b)


def _fmulc(x, y):
    try:
        return r32(x * y)
    except OverflowError:
        return INF


def _fdivc(x, y):
    if math.isnan(x) or math.isnan(y):
        return math.nan
    if y == 0:
        if x == 0:
            return math.nan
        s = math.copysign(1, x) * math.copysign(1, y)
        return s * INF
    if math.isinf(x) and math.isinf(y):
        return math.nan
    return r32(x / y)


def fdiv(a, b):
    if a.op == 'cf' and b.op == 'cf':
        return cf(_fdivc(fval(a), fval(b)))
    if b.op == 'cf' and fval(b) == 1.0:
        return a
    if b.op == 'cf' and fval(b) == -1.0:
        return fneg(a)
    return fop('fdiv', a, b)


def frem(a, b):
    if a.op == 'cf' and b.op == 'cf':
        x, y = fval(a), fval(b)
        if math.isnan(x) or math.isnan(y) or math.isinf(x) or y == 0:
            return cf(math.nan)
        return cf(r32(math.fmod(x, y)))
    return fop('frem', a, b)


def fneg(a):
    if a.op == 'cf':
        return cf(-fval(a))
    if a.op == 'fneg':
        return a.a[0]
    return fop('fneg', a)


def fabs(a):
    if a.op == 'cf':
        return cf(abs(fval(a)))
    if a.op == 'fneg':
        a = a.a[0]
    if a.op == 'fabs':
        return a
    return fop('fabs', a)


def bnot(a):
    if a.op == 'cb':
        return cb(1 - a.a[0])
    if a.op == 'not':
        return a.a[0]
    return bop('not', a)


def band(a, b):
    if a.op == 'cb':
        return b if a.a[0] else a
    if b.op == 'cb':
        return a if b.a[0] else b
    if a is b:
        return a
    return bop('and', a, b)


def bor(a, b):
    if a.op == 'cb':
        return a if a.a[0] else b
    if b.op == 'cb':
        return b if b.a[0] else a
    if a is b:
        return a
    return bop('or', a, b)


def cmp(op, a, b):
    """op in lt, le, eq ; kinds equal."""
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        if isinstance(x, float) and (math.isnan(x) or math.isnan(y)):
            return cb(0)
        return cb({'lt': x < y, 'le': x <= y, 'eq': x == y}[op])
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    if a.k == 'i' and a is b:
        return cb(op != 'lt')
    if a.k == 'b' and op == 'eq':
        if b.op == 'cb':
            return a if b.a[0] else bnot(a)
        if a.op == 'cb':
            return b if a.a[0] else bnot(b)
    return bop('cmp', op, a, b)


# ------------------------------------------------------------ interval rules

def iv_empty(iv, k):
    if k == 'f':
        return iv[0] > iv[1] and not iv[2]
    return iv[0] > iv[1]


def iv_meet(x, y, k):
    lo = max(x[0], y[0])
    hi = min(x[1], y[1])
    if k == 'f':
        return (lo, hi, x[2] and y[2])
    return (lo, hi)


def iv_hull(x, y, k):
    lo = min(x[0], y[0])
    hi = max(x[1], y[1])
    if k == 'f':
        return (lo, hi, x[2] or y[2])
    return (lo, hi)


def iv_sub(x, y, k):
    """x included in y"""
    if k == 'f':
        return (x[0] > x[1] or (x[0] >= y[0] and x[1] <= y[1])) and (not x[2] or y[2])
    return x[0] >= y[0] and x[1] <= y[1]


def _noempty(v):
    return v[0] <= v[1]


def f_add(a, b, sgn=1):
    if sgn < 0:
        b = (-b[1], -b[0], b[2])
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, True)
    nan = a[2] or b[2] or (a[1] == INF and b[0] == -INF) or (a[0] == -INF and b[1] == INF)
    lo = a[0] + b[0]
    hi = a[1] + b[1]
    lo = -INF if math.isnan(lo) else r32(lo)
    hi = INF if math.isnan(hi) else r32(hi)
    return (lo, hi, nan)


def _m(x, y):
    if x == 0 or y == 0:
        return 0.0
    return r32(x * y)


def f_mul(a, b):
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, True)
    c = [_m(x, y) for x in a[:2] for y in b[:2]]
    ai = a[0] == -INF or a[1] == INF
    bi = b[0] == -INF or b[1] == INF
    nan = a[2] or b[2] or (ai and b[0] <= 0 <= b[1]) or (bi and a[0] <= 0 <= a[1])
    return (min(c), max(c), nan)


def f_div(a, b):
    if a[0] > a[1] or b[0] > b[1]:
        return (INF, -INF, True)
    ai = a[0] == -INF or a[1] == INF
    bi = b[0] == -INF or b[1] == INF
    nan = a[2] or b[2] or (ai and bi)
    if b[0] <= 0 <= b[1]:
        return (-INF, INF, nan or a[0] <= 0 <= a[1])
    c = []
    for x in a[:2]:
        for y in b[:2]:
            q = _fdivc(x, y)
            if math.isnan(q):
                q = 0.0
                c += [0.0, INF if x * y > 0 else -INF]
            else:
                c.append(q)
    return (min(c), max(c), nan)


TYR = {}


def ity(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def _rmono(fn, a, slop=1e-6):
    pass


def i2f_iv(l, h):
    def cv(n, up):
        if abs(n) <= 1 << 53:
            return r32(float(n))
        x = r32(float(n))
        return next_up(x) if up else next_dn(x)
    return (cv(l, False), cv(h, True), False)


def f2i_iv(a, w, s):
    lo, hi = ity(w, s)
    r = []
    if a[0] <= a[1]:
        for x in a[:2]:
            if x == INF:
                r.append(hi)
            elif x == -INF:
                r.append(lo)
            else:
                r.append(max(lo, min(hi, int(x))))
    if a[2]:
        r.append(0)
    if not r:
        return (1, 0)
    return (min(r), max(r))


def sqrt_mm(x):
    """micromath sqrt on a non-negative float"""
    return b2f((f2b(x) + 0x3f800000) >> 1)


def ln_mm(x):
    """micromath ln of a positive finite float, operation by operation"""
    if abs(r32(x - 1.0)) < 1.1920928955078125e-07:
        return 0.0
    less = x < 1.0
    w = b2f(0x7f000000 - f2b(x)) if less else x
    e = ((f2b(w) >> 23) & 0xff) - 127
    if e < 0:
        return None
    w = r32(w / b2f(f2b(w) & 0x7f800000))
    c = [r32(v) for v in (-1.7417939, 2.8212026, -1.4699568, 0.44717955, -0.056570851)]
    p = c[4]
    p = r32(c[3] + r32(p * w))
    p = r32(c[2] + r32(p * w))
    p = r32(c[1] + r32(p * w))
    p = r32(c[0] + r32(p * w))
    r = r32(r32(float(e) * r32(0.6931471805599453)) + p)
    return -r if less else r


def monomial(n, g):
    """(coefficient, {atom: exponent}) of a product of powers, else None.
    Every intermediate value must be a normal float."""
    op, a = n.op, n.a
    iv = g(n)
    if iv[2] or not (1e-30 < iv[0] and iv[1] < 1e30):
        return None
    if op == 'cf':
        return Fraction(fval(n)), {}
    if op in ('fmul', 'fdiv'):
        x, y = monomial(a[0], g), monomial(a[1], g)
        if x is None or y is None:
            return None
        s = 1 if op == 'fmul' else -1
        e = dict(x[1])
        for k, v in y[1].items():
            e[k] = e.get(k, 0) + s * v
            if e[k] == 0:
                del e[k]
        return x[0] * (y[0] if s > 0 else 1 / y[0]), e
    return Fraction(1), {n: 1}


def mono_order(a, b, g):
    """sign of a - b for two positive products of powers that differ by more
    than rounding, else None"""
    if a.op not in ('fmul', 'fdiv', 'cf') and b.op not in ('fmul', 'fdiv', 'cf'):
        return None
    x, y = monomial(a, g), monomial(b, g)
    if x is None or y is None:
        return None
    lo = hi = float(x[0] / y[0])
    e = dict(x[1])
    for k, v in y[1].items():
        e[k] = e.get(k, 0) - v
    for k, v in e.items():
        l, h = g(k)[:2]
        for _ in range(abs(v)):
            lo, hi = (lo * l, hi * h) if v > 0 else (lo / h, hi / l)
    if lo > 1.00001:
        return 1
    if hi < 0.99999:
        return -1
    return None


def transfer(n, g):
    """Interval of node n given intervals of its arguments."""
    op = n.op
    a = n.a
    if op == 'lin':
        lo = hi = a[1]
        for x, q in a[0]:
            l, h = g(x)
            if q > 0:
                lo += q * l
                hi += q * h
            else:
                lo += q * h
                hi += q * l
        return (lo, hi)
    if op == 'fadd':
        r = f_add(g(a[0]), g(a[1]))
        if a[0].op == 'fmul' and a[1].op == 'fmul':
            for t, x in (a[0].a, a[0].a[::-1]):
                for w, y in (a[1].a, a[1].a[::-1]):
                    if (w.op == 'fsub' and w.a[1] is t and w.a[0].op == 'cf' and fval(w.a[0]) == 1.0
                            or t.op == 'fsub' and t.a[1] is w and t.a[0].op == 'cf' and fval(t.a[0]) == 1.0):
                        # x * t + y * (1 - t) with 0 <= t <= 1 lies between x and y
                        T, X, Y = g(t), g(x), g(y)
                        if T[2] or X[2] or Y[2] or T[0] < 0 or T[1] > 1 or T[0] > T[1]:
                            continue
                        k = max(abs(X[0]), abs(X[1]), abs(Y[0]), abs(Y[1]))
                        if k < 1e30:
                            e = k * 2.0 ** -21 + 1e-37
                            lo, hi = min(X[0], Y[0]), max(X[1], Y[1])
                            # products and sums of non-negative terms stay non-negative
                            r = iv_meet(r, (0.0 if lo >= 0 else r32(lo - e), 0.0 if hi <= 0 else r32(hi + e), False), 'f')
        for x, m in ((a[0], a[1]), (a[1], a[0])):
            if m.op != 'fmul':
                continue
            for t, d in (m.a, m.a[::-1]):
                if d.op == 'fsub' and d.a[1] is x:
                    # x + (y - x) * t with 0 <= t <= 1 lies between x and y
                    T, X, Y = g(t), g(x), g(d.a[0])
                    if T[2] or X[2] or Y[2] or T[0] < 0 or T[1] > 1 or T[0] > T[1]:
                        continue
                    k = max(abs(X[0]), abs(X[1]), abs(Y[0]), abs(Y[1]))
                    if k < 1e30:
                        e = k * 2.0 ** -21 + 1e-37
                        lo, hi = min(X[0], Y[0]), max(X[1], Y[1])
                        # fl(y - x) >= -x for y >= 0, and rounding is monotone
                        r = iv_meet(r, (0.0 if lo >= 0 else r32(lo - e), 0.0 if hi <= 0 else r32(hi + e), False), 'f')
        return r
    if op == 'fsub':
        x, y = a
        X, Y = g(x), g(y)
        r = f_add(X, Y, -1)
        if y.op == 'i2f' and y.a[0].op == 'ifl' and y.a[0].a[0] is x and -2147483648.0 <= X[0] and X[1] <= 2147483648.0:
            # x - floor(x): exact for x >= 0 (Sterbenz), may round up to 1 below 0
            r = iv_meet(r, (0.0, 1.0 if X[0] < 0 else next_dn(1.0), X[2]), 'f')
        elif y.op == 'i2f' and y.a[0].op == 'lin' and -16777216.0 <= X[0] and X[1] <= 16777216.0:
            # x - (floor(x) + c): the integer converts exactly, rounding keeps integer bounds
            t, c = y.a[0].a
            if (len(t) == 1 and t[0][1] == 1 and t[0][0].op == 'ifl' and t[0][0].a[0] is x
                    and max(-X[0], X[1]) + abs(c) + 1 <= 1 << 24):
                r = iv_meet(r, (float(-c), float(1 - c), X[2]), 'f')
        return r
    if op == 'fmul':
        A = g(a[0])
        if a[0] is a[1]:
            m = f_mul(A, A)
            return (0.0 if A[0] <= 0 <= A[1] else min(_m(A[0], A[0]), _m(A[1], A[1])), m[1], A[2])
        return f_mul(A, g(a[1]))
    if op == 'fdiv':
        return f_div(g(a[0]), g(a[1]))
    if op == 'fneg':
        x = g(a[0])
        return (-x[1], -x[0], x[2])
    if op == 'fabs':
        x = g(a[0])
        if x[0] > x[1]:
            return x
        if x[0] >= 0:
            return x
        if x[1] <= 0:
            return (-x[1], -x[0], x[2])
        return (0.0, max(-x[0], x[1]), x[2])
    if op == 'frem':
        x, y = g(a[0]), g(a[1])
        nan = x[2] or y[2] or x[0] == -INF or x[1] == INF or (y[0] <= 0 <= y[1])
        if x[0] > x[1] or y[0] > y[1]:
            return (INF, -INF, True)
        m = max(abs(y[0]), abs(y[1]))
        if not math.isinf(m):
            m = next_dn(m)
        lo = 0.0 if x[0] >= 0 else -min(m, -x[0])
        hi = 0.0 if x[1] <= 0 else min(m, x[1])
        if y[0] == y[1] and 0 < m < INF and abs(x[0]) < 1e30 and abs(x[1]) < 1e30:
            # the remainder is exact, and increasing while the quotient stays
            c = Fraction(abs(y[0]))
            p, q = Fraction(x[0]), Fraction(x[1])
            if tdiv(p, c) == tdiv(q, c) and (p > 0 or q < 0):
                k = tdiv(p, c) * c
                lo, hi = max(lo, r32(float(p - k))), min(hi, r32(float(q - k)))
        return (lo, hi, nan)
    if op == 'i2f':
        return i2f_iv(*g(a[0]))
    if op == 'f2i':
        return f2i_iv(g(a[0]), a[1], a[2])
    if op == 'ifl':  # mathematical floor, saturating at +-2^31, NaN -> 0
        x = g(a[0])
        lo, hi = -(1 << 31), 1 << 31
        r = []
        if x[0] <= x[1]:
            for v in x[:2]:
                r.append(hi if v == INF else lo if v == -INF else max(lo, min(hi, math.floor(v))))
        if x[2]:
            r.append(0)
        return (min(r), max(r)) if r else (1, 0)
    if op == 'bits':
        x = g(a[0])
        if x[2] or x[0] > x[1]:
            return (0, 0xffffffff)
        if x[0] > 0:
            return (f2b(x[0]), f2b(x[1]))
        if x[1] < 0:
            return (f2b(x[1]), f2b(x[0]))
        if x[0] >= 0:
            # may be -0.0
            return (0, max(f2b(x[1]), 0x80000000))
        return (0, 0xffffffff)
    if op == 'unbits':
        l, h = g(a[0])
        if h <= 0x7f800000:
            return (b2f(l), b2f(h), False)
        if l >= 0x80000000 and h <= 0xff800000:
            return (b2f(h), b2f(l), False)
        bs = bits_of(a[0], 32)
        if bs is not None and bs[31] == 0 and h <= 0x7fffffff:
            return (0.0, INF, True)
        return FTOP
    if op == 'imul':
        return _mulb(g(a[0]), g(a[1]))
    if op == 'idiv':
        x, y = g(a[0]), g(a[1])
        if y[0] <= 0 <= y[1]:
            ys = [v for v in (y[0], -1, 1, y[1]) if v != 0 and y[0] <= v <= y[1]]
        else:
            ys = list(y)
        c = [tdiv(p, q) for p in x for q in ys] or [0]
        if x[0] <= 0 <= x[1]:
            c.append(0)
        return (min(c), max(c))
    if op == 'irem':
        x, y = g(a[0]), g(a[1])
        m = max(abs(y[0]), abs(y[1])) - 1
        if m < 0:
            m = 0
        lo = 0 if x[0] >= 0 else -min(m, -x[0])
        hi = 0 if x[1] <= 0 else min(m, x[1])
        if x[0] == x[1] and y[0] == y[1] and y[0] != 0:
            r = trem(x[0], y[0])
            return (r, r)
        return (lo, hi)
    if op == 'wrap':
        w, s = a[1], a[2]
        lo, hi = ity(w, s)
        x = g(a[0])
        m = 1 << w
        k1 = (x[0] - lo) // m
        k2 = (x[1] - lo) // m
        if k1 == k2:
            return (x[0] - k1 * m, x[1] - k1 * m)
        return (lo, hi)
    if op == 'ishr':
        x, k = g(a[0]), g(a[1])
        if k[0] < 0 or k[1] > 128:
            return (min(x[0], 0), max(x[1], 0))
        c = [v >> q for v in x for q in k]
        return (min(c), max(c))
    if op == 'ishl':
        x, k = g(a[0]), g(a[1])
        if k[0] < 0 or k[1] > 128:
            return ity(128, True)
        c = [v << q for v in x for q in k]
        return (min(c), max(c))
    if op == 'iand':
        x, y = g(a[0]), g(a[1])
        if x[0] >= 0 and y[0] >= 0:
            if x == y and x[0] == x[1]:
                return x
            # constant mask that keeps a whole prefix of bits
            if y[0] == y[1] and x[0] == x[1]:
                return (x[0] & y[0],) * 2
            return (0, min(x[1], y[1]))
        if x[0] >= 0:
            return (0, x[1])
        if y[0] >= 0:
            return (0, y[1])
        return (min(x[0], y[0]) * 2 - 1, max(x[1], y[1], 0))
    if op in ('ior', 'ixor'):
        x, y = g(a[0]), g(a[1])
        if x[0] >= 0 and y[0] >= 0:
            if x[0] == x[1] and y[0] == y[1]:
                v = (x[0] | y[0]) if op == 'ior' else (x[0] ^ y[0])
                return (v, v)
            h = (1 << max(x[1].bit_length(), y[1].bit_length())) - 1
            return (max(x[0], y[0]) if op == 'ior' else 0, h)
        m = max(abs(x[0]), abs(x[1]), abs(y[0]), abs(y[1])).bit_length()
        return (-(1 << m), (1 << m) - 1)
    if op == 'popcnt':
        return (0, a[1])
    if op == 'clz' or op == 'ctz':
        w = a[1]
        x = g(a[0])
        if op == 'clz' and x[0] >= 0:
            return (w - x[1].bit_length(), w - x[0].bit_length())
        return (0, w)
    if op == 'b2i':
        return g(a[0])
    if op == 'fmax':
        x, y = g(a[0]), g(a[1])
        if x[0] > x[1] or y[0] > y[1]:
            return iv_hull(x, y, 'f')
        lo, hi = max(x[0], y[0]), max(x[1], y[1])
        if x[2]:
            lo = min(lo, y[0])
        if y[2]:
            lo = min(lo, x[0])
        return (lo, hi, x[2] and y[2])
    if op == 'fmin':
        x, y = g(a[0]), g(a[1])
        if x[0] > x[1] or y[0] > y[1]:
            return iv_hull(x, y, 'f')
        lo, hi = min(x[0], y[0]), min(x[1], y[1])
        if x[2]:
            hi = max(hi, y[1])
        if y[2]:
            hi = max(hi, x[1])
        return (lo, hi, x[2] and y[2])
    if op == 'fclamp':
        x, l, h = g(a[0]), g(a[1]), g(a[2])
        if x[0] > x[1] or l[0] > l[1] or h[0] > h[1]:
            return x
        return (min(max(x[0], l[0]), h[1]), max(min(x[1], h[1]), l[0]), x[2])
    if op == 'fcopysign':
        x, y = g(a[0]), g(a[1])
        if x[0] > x[1]:
            return x
        m = max(abs(x[0]), abs(x[1]))
        lo = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
        if not y[2] and y[0] > 0:
            return (lo, m, x[2])
        if not y[2] and y[1] < 0:
            return (-m, -lo, x[2])
        return (-m, m, x[2])
    if op == 'ffloor':
        x = g(a[0])
        if x[0] > x[1]:
            return (0.0, 0.0, False)
        c = [-2147483648.0 if v < -2147483648.0 else 2147483648.0 if v >= 2147483648.0 else float(math.floor(v)) for v in x[:2]]
        if x[2]:
            c.append(0.0)
        return (min(c), max(c), False)
    if op == 'fround':   # std-like rounding ops: floor/ceil/trunc/round
        x = g(a[0])
        if x[0] > x[1]:
            return x
        return (x[0] if math.isinf(x[0]) else float(math.floor(x[0])),
                x[1] if math.isinf(x[1]) else float(math.ceil(x[1])), x[2])
    if op == 'powi':
        x, k = g(a[0]), a[1]
        if x[0] > x[1] or k < 0:
            return FTOP

        def pw(v):
            try:
                return v ** k if not math.isinf(v) else (INF if v > 0 or k % 2 == 0 else -INF)
            except OverflowError:
                return INF if v > 0 or k % 2 == 0 else -INF
        if k == 0:
            return (1.0, 1.0, False)
        p, q = pw(x[0]), pw(x[1])
        if k % 2 == 0:
            lo, hi = (0.0 if x[0] <= 0 <= x[1] else min(p, q)), max(p, q)
        else:
            lo, hi = p, q

        def sl(v, d):
            if v == 0 or math.isinf(v):
                return v
            return r32(v + d * (abs(v) * 1e-5 + 1e-44))
        lo2, hi2 = sl(lo, -1), sl(hi, 1)
        if lo >= 0:
            lo2 = max(lo2, 0.0)
        if hi2 > 1e38:
            hi2 = INF
        if lo2 < -1e38:
            lo2 = -INF
        return (lo2, hi2, x[2])
    if op == 'msqrt':
        x = g(a[0])
        if x[0] > x[1]:
            return (INF, -INF, True)
        nan = x[2] or x[0] < 0
        if x[1] < 0:
            return (INF, -INF, True)
        hi = sqrt_mm(x[1]) if x[1] != INF else 2.8e19
        lo = sqrt_mm(max(x[0], 0.0))
        if len(a) > 1 and a[1] and x[0] <= 0:
            hi = max(hi, 2.8e19)
        return (lo, hi, nan)
    if op == 'fsqrt':
        x = g(a[0])
        if x[0] > x[1] or x[1] < 0:
            return (INF, -INF, True)
        return (r32(math.sqrt(max(x[0], 0.0))), r32(math.sqrt(x[1])) if x[1] != INF else INF, x[2] or x[0] < 0)
    if op == 'powf':
        b, e = g(a[0]), g(a[1])
        if b[0] > b[1] or e[0] > e[1]:
            return FTOP
        nan = b[2] or e[2]
        if b[0] >= 0 and not nan and e[0] >= 0 and e[1] <= 1e4:
            lo, hi = 0.0, INF
            if b[1] <= 1.0:
                hi = 1.0
                if b[1] < 0.999 and e[0] > 0:
                    L = (math.log(b[1]) if b[1] > 0 else -87.0) + 0.13
                    if L < 0:
                        hi = min(1.0, math.exp(e[0] * L) * 1.01)
            if b[0] >= 1.0:
                lo = 1.0
            elif b[0] > 0:
                L = math.log(b[0]) - 0.13
                lo = math.exp(max(-700.0, e[1] * L)) * 0.99
            if hi != INF:
                hi = r32(hi)
            return (r32(lo), hi, False)
        if b[0] >= 0:
            return (0.0, INF, True)
        return FTOP
    if op == 'mexp':
        x = g(a[0])
        if x[0] > x[1]:
            return (0.0, INF, True)

        def ex(v):
            try:
                return r32(math.exp(v))
            except OverflowError:
                return INF
        lo = ex(x[0]) * 0.99
        hi = ex(x[1]) * 1.01
        lo = 0.0 if lo < 1e-36 else r32(lo)
        if x[0] >= 0:
            lo = max(lo, 1.0)
        hi = r32(hi)
        if x[1] <= 0:
            hi = min(hi, 1.0)
        return (lo, hi, x[2] or math.isinf(x[0]) or math.isinf(x[1]))
    if op == 'mln':
        x = g(a[0])
        if x[0] > x[1] or x[0] < 0 or x[1] == INF:
            return FTOP
        lo = -89.0 if x[0] < 1e-37 else math.log(x[0]) - 0.14
        hi = -87.0 if x[1] < 1e-37 else math.log(x[1]) + 0.14
        if x[0] >= 1.0:
            lo = max(lo, 0.0)
        if x[1] <= 1.0:
            hi = min(hi, 0.0)
        return (r32(lo), r32(hi), x[2])
    if op == 'tab':
        return a[0].hull(*g(a[1]))
    if op in ('sel', 'opq'):
        return n.siv or FTOP
    if n.k == 'f':
        return FTOP
    if n.k == 'b':
        return (0, 1)
    raise KeyError(op)


# --------------------------------------------------------------------- bits

def bits_of(n, w):
    """Bit provenance of a non-negative integer node, LSB first, length w,
    entries 0, 1, (node, i) or None when unknown."""
    b = n._bits
    if b is False:
        b = _bits(n)
        n._bits = b
    if b is None:
        return None
    if len(b) < w:
        return b + (0,) * (w - len(b))
    if any(x != 0 for x in b[w:]):
        return None
    return b[:w]


def _bits(n, rec=None, top=None):
    rec = rec or _bitsc
    op = n.op
    if op == 'ci':
        v = n.a[0]
        if v < 0:
            return None
        return tuple((v >> i) & 1 for i in range(v.bit_length()))
    if op == 'bits':
        return tuple((n, i) for i in range(32))
    if op == 'b2i':
        return ((n.a[0], 0),)
    lo, hi = n.siv
    if top is not None:
        hi = min(hi, top(n))
    if lo < 0:
        if op == 'lin':
            return None
        return None
    if op == 'lin':
        out = [0] * 160
        terms, c = n.a
        if c < 0:
            return None
        todo = []
        if c:
            todo.append(tuple((c >> i) & 1 for i in range(c.bit_length())))
        for x, q in terms:
            if q <= 0 or q & (q - 1):
                return None
            sh = q.bit_length() - 1
            xb = rec(x)
            if xb is None:
                return None
            todo.append((0,) * sh + xb)
        for b in todo:
            for i, v in enumerate(b):
                if v == 0:
                    continue
                if out[i] != 0:
                    return None
                out[i] = v
        return _trim(out)
    if op in ('iand', 'ior', 'ixor'):
        x, y = rec(n.a[0]), rec(n.a[1])
        if x is None and op == 'iand' and y is not None:
            x = (None,) * len(y)
        if y is None and op == 'iand' and x is not None:
            y = (None,) * len(x)
        if x is None or y is None:
            return None
        m = max(len(x), len(y))
        x = x + (0,) * (m - len(x))
        y = y + (0,) * (m - len(y))
        out = []
        for p, q in zip(x, y):
            if op == 'iand':
                r = 0 if (p == 0 or q == 0) else q if p == 1 else p if q == 1 else (p if p == q else None)
            elif op == 'ior':
                r = 1 if (p == 1 or q == 1) else q if p == 0 else p if q == 0 else (p if p == q else None)
            else:
                r = q if p == 0 else p if q == 0 else (0 if (p == q and p is not None) else (1 - p if q == 1 and p in (0, 1) else None))
            out.append(r)
        return _trim(out)
    if op == 'ishr':
        if n.a[1].op != 'ci':
            return None
        x = rec(n.a[0])
        if x is None:
            return None
        return x[n.a[1].a[0]:]
    if op == 'ishl':
        if n.a[1].op != 'ci':
            return None
        x = rec(n.a[0])
        if x is None:
            return None
        return (0,) * n.a[1].a[0] + x
    if op == 'wrap' and not n.a[2]:
        x = n.a[0]
        if x.op == 'lin' and x.a[1] >= 0:
            # coefficients are residues
            o = [tuple((x.a[1] >> i) & 1 for i in range(n.a[1]))]
            for y, q in x.a[0]:
                q %= 1 << n.a[1]
                b = rec(y) if q & (q - 1) == 0 else None
                if b is None:
                    return None
                o.append((0,) * (q.bit_length() - 1) + b if q else ())
            out = [0] * n.a[1]
            for b in o:
                for i, v in enumerate(b[:n.a[1]]):
                    if v != 0:
                        if out[i] != 0:
                            return None
                        out[i] = v
            return _trim(out)
        x = rec(x)
        if x is None:
            return None
        return _trim(list(x[:n.a[1]]))
    if op == 'idiv' and n.a[1].op == 'ci':
        v = n.a[1].a[0]
        if v > 0 and v & (v - 1) == 0 and n.a[0].siv[0] >= 0:
            x = rec(n.a[0])
            return None if x is None else x[v.bit_length() - 1:]
    if op == 'irem' and n.a[1].op == 'ci':
        v = n.a[1].a[0]
        if v > 0 and v & (v - 1) == 0 and n.a[0].siv[0] >= 0:
            x = rec(n.a[0])
            return None if x is None else _trim(list(x[:v.bit_length() - 1]))
    if hi < (1 << 128):
        return tuple((n, i) for i in range(hi.bit_length()))
    return None


def _bitsc(n):
    b = n._bits
    if b is False:
        b = _bits(n)
        n._bits = b
    return b


def _trim(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return tuple(v)


def from_bits_if_known(bits):
    """If the bit tuple is a constant or exactly the bits of one node, return it."""
    t = _trim(bits)
    if any(x is None for x in t):
        return None
    if all(x in (0, 1) for x in t):
        return ci(sum(v << i for i, v in enumerate(t)))
    f = t[0]
    if isinstance(f, tuple) and f[1] == 0 and f[0].k == 'i':
        nb = bits_of(f[0], len(t))
        if nb == t and _trim(_bitsc(f[0])) == t:
            return f[0]
    return None


# ------------------------------------------------------- algebraic evaluation

P = (1 << 61) - 1
MASK64 = (1 << 64) - 1


def _mix(*xs):
    h = 0x9E3779B97F4A7C15
    for x in xs:
        x = hash(x) & MASK64
        h ^= x
        h = (h * 0xBF58476D1CE4E5B9) & MASK64
        h ^= h >> 31
        h = (h * 0x94D049BB133111EB) & MASK64
        h ^= h >> 29
    return h


class Undefined(Exception):
    pass


class PrimeEval:
    """Evaluates nodes as rational functions over GF(P) at a pseudo-random
    point: atoms and opaque applications get random values (opaque
    applications by congruence on the values of their arguments)."""

    def __init__(self, seed, subst=None):
        self.seed = seed
        self.c = {}
        self.subst = subst or {}

    def ev(self, n):
        v = self.c.get(n)
        if v is None:
            v = self._ev(n)
            self.c[n] = v
        return v

    def _ev(self, n):
        if n in self.subst:
            return self.ev(self.subst[n])
        op = n.op
        a = n.a
        if op == 'cf':
            x = fval(n)
            if math.isnan(x) or math.isinf(x):
                return _mix(self.seed, 'sp', a[0]) % P
            f = Fraction(x)
            return f.numerator * pow(f.denominator, P - 2, P) % P
        if op in ('ci', 'cb'):
            return a[0] % P
        if op == 'at':
            return _mix(self.seed, 'at', n.id) % P
        ev = self.ev
        if op == 'lin':
            t = a[1]
            for x, q in a[0]:
                t += q * ev(x)
            return t % P
        if op == 'fadd':
            return (ev(a[0]) + ev(a[1])) % P
        if op == 'fsub':
            return (ev(a[0]) - ev(a[1])) % P
        if op in ('fmul', 'imul'):
            return ev(a[0]) * ev(a[1]) % P
        if op == 'fdiv':
            d = ev(a[1])
            if d == 0:
                raise Undefined()
            return ev(a[0]) * pow(d, P - 2, P) % P
        if op == 'fneg':
            return -ev(a[0]) % P
        if op in ('i2f', 'b2i'):
            return ev(a[0])
        if op == 'powi':
            return pow(ev(a[0]), a[1] % (P - 1), P)
        if op == 'irem':
            return (ev(a[0]) - ev(a[1]) * self.div(a[0], a[1])) % P
        if op == 'idiv':
            return self.div(a[0], a[1])
        if op == 'ishr' and a[1].op == 'ci' and a[0].siv[0] >= 0:
            return self.div(a[0], ci(1 << a[1].a[0]))
        if op in ('msqrt', 'fsqrt'):
            return _mix(self.seed, 'sqrt', ev(a[0])) % P
        if op == 'ffloor' or op == 'ifl':
            return _mix(self.seed, 'floor', ev(a[0])) % P
        return _mix(self.seed, op, *[ev(x) if isinstance(x, N) else ('c', x) for x in a]) % P

    def div(self, x, y):
        return _mix(self.seed, 'idiv', self.ev(x), self.ev(y)) % P


class RealEval:
    """Evaluates nodes in double precision at a sample point; library
    approximations are replaced by the functions they approximate."""

    def __init__(self, point, seed, subst=None, opaque=None):
        self.pt = point
        self.seed = seed
        self.c = {}
        self.subst = subst or {}
        self.opaque = opaque
        self.mag = {}

    def ev(self, n):
        v = self.c.get(n)
        if v is None:
            v = self._ev(n)
            self.c[n] = v
        return v

    def _ev(self, n):
        if n in self.subst:
            return self.ev(self.subst[n])
        op = n.op
        a = n.a
        if op == 'cf':
            return fval(n)
        if op in ('ci', 'cb'):
            return a[0]
        if op == 'at':
            return self.pt(n)
        ev = self.ev
        try:
            if op == 'lin':
                t = a[1]
                for x, q in a[0]:
                    t += q * ev(x)
                return t
            if op == 'fadd':
                return ev(a[0]) + ev(a[1])
            if op == 'fsub':
                return ev(a[0]) - ev(a[1])
            if op in ('fmul', 'imul'):
                return ev(a[0]) * ev(a[1])
            if op == 'fdiv':
                return ev(a[0]) / ev(a[1])
            if op == 'fneg':
                return -ev(a[0])
            if op == 'fabs':
                return abs(ev(a[0]))
            if op in ('i2f', 'b2i'):
                return ev(a[0])
            if op in ('msqrt', 'fsqrt'):
                return math.sqrt(ev(a[0]))
            if op == 'powi':
                return ev(a[0]) ** a[1]
            if op == 'powf':
                return ev(a[0]) ** ev(a[1])
            if op == 'mexp':
                return math.exp(ev(a[0]))
            if op == 'mln':
                return math.log(ev(a[0]))
            if op in ('ffloor', 'ifl'):
                return math.floor(ev(a[0]))
            if op == 'f2i':
                v = int(ev(a[0]))
                lo, hi = ity(a[1], a[2])
                return max(lo, min(hi, v))
            if op == 'frem':
                return math.fmod(ev(a[0]), ev(a[1]))
            if op == 'irem':
                return trem(int(ev(a[0])), int(ev(a[1])))
            if op == 'idiv':
                return tdiv(int(ev(a[0])), int(ev(a[1])))
            if op == 'fmax':
                return max(ev(a[0]), ev(a[1]))
            if op == 'fmin':
                return min(ev(a[0]), ev(a[1]))
            if op == 'wrap':
                lo, hi = ity(a[1], a[2])
                return (int(ev(a[0])) - lo) % (1 << a[1]) + lo
            if op == 'cmp':
                x, y = ev(a[1]), ev(a[2])
                return int({'lt': x < y, 'le': x <= y, 'eq': x == y}[a[0]])
            if op == 'not':
                return 1 - ev(a[0])
            if op == 'and':
                return ev(a[0]) & ev(a[1])
            if op == 'or':
                return ev(a[0]) | ev(a[1])
            if op == 'iand':
                return int(ev(a[0])) & int(ev(a[1]))
            if op == 'ior':
                return int(ev(a[0])) | int(ev(a[1]))
            if op == 'ixor':
                return int(ev(a[0])) ^ int(ev(a[1]))
            if op == 'ishr':
                return int(ev(a[0])) >> int(ev(a[1]))
            if op == 'ishl':
                return int(ev(a[0])) << int(ev(a[1]))
            if op == 'bits':
                return f2b(r32(ev(a[0])))
            if op == 'unbits':
                return b2f(int(ev(a[0])))
            if op == 'sel':
                h = _mix(self.seed, 'sel', a[0], round(float(ev(a[1])), 6))
                return (h % 20001 - 10000) / 10000.0
            if op == 'tab':
                t = a[0]
                i = int(ev(a[1]))
                return t.vals[i]
            if op == 'opq' and self.opaque:
                return self.opaque(n, [ev(x) for x in a[1:] if isinstance(x, N)])
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, IndexError):
            raise Undefined()
        h = _mix(self.seed, op, *[round(float(ev(x)), 6) if isinstance(x, N) else ('c', x) for x in a])
        return (h % 20001 - 10000) / 10000.0


def atoms_of(n, seen=None, out=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'at':
            out.add(x)
            continue
        if x.op == 'lin':
            st.extend(y for y, _ in x.a[0])
        else:
            st.extend(y for y in x.a if isinstance(y, N))
    return out


# ----------------------------------------------------------- linear reasoning
# A constraint is (terms: dict node->Fraction/int, const, strict) meaning
#   sum + const >= 0   (or > 0 when strict)

def fm_infeasible(cons, limit=500):
    """Fourier-Motzkin: is the conjunction unsatisfiable over the rationals?"""
    gcd = math.gcd
    cur = []
    for t, c, s in cons:
        # integer coefficients
        den = 1
        for v in t.values():
            if type(v) is not int:
                v = Fraction(v)
                den = den * v.denominator // gcd(den, v.denominator)
        if type(c) is not int:
            c = Fraction(c)
            den = den * c.denominator // gcd(den, c.denominator)
        cur.append(({k.id: int(v * den) for k, v in t.items() if v != 0}, int(c * den), s))
    cons = cur
    while True:
        seen = {}
        for t, c, s in cons:
            if not t:
                if c < 0 or (s and c == 0):
                    return True
                continue
            g = 0
            for v in t.values():
                g = gcd(g, v)
                if g == 1:
                    break
            if g > 1:
                d = gcd(g, c)
                if d == g:
                    t = {k: v // g for k, v in t.items()}
                    c //= g
                    g = 1
                    key = frozenset(t.items())
                else:
                    key = frozenset((k, v // g) for k, v in t.items())
            else:
                key = frozenset(t.items())
            o = seen.get(key)
            # compare c/g
            if o is None or c * o[3] < o[1] * g or (c * o[3] == o[1] * g and s and not o[2]):
                seen[key] = (t, c, s, g)
        cur = seen.values()
        if not cur:
            return False
        # opposite pairs decide quickly
        for key, (t, c, s, g) in seen.items():
            o = seen.get(frozenset((k, -v) for k, v in key))
            if o is not None:
                tot = c * o[3] + o[1] * g
                if tot < 0 or (tot == 0 and (s or o[2])):
                    return True
        cnt = {}
        for t, c, s, g in cur:
            for k, v in t.items():
                e = cnt.get(k)
                if e is None:
                    e = cnt[k] = [0, 0]
                e[0 if v > 0 else 1] += 1
        var = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1], k))
        pos, neg, rest = [], [], []
        for e in cur:
            v = e[0].get(var, 0)
            (pos if v > 0 else neg if v < 0 else rest).append(e)
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        rest = [e[:3] for e in rest]
        for p in pos:
            a = p[0][var]
            for q in neg:
                b = -q[0][var]
                t = {k: v * b for k, v in p[0].items()}
                for k, v in q[0].items():
                    w = t.get(k, 0) + v * a
                    if w:
                        t[k] = w
                    else:
                        del t[k]
                rest.append((t, p[1] * b + q[1] * a, p[2] or q[2]))
        cons = rest

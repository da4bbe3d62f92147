"""Construction of value numbers in a state (normalising with what is known)."""
from dom import *
import dom

EXACT = 1 << 24
_base = [0]


def newbase():
    _base[0] += 1
    return _base[0]


def canon(n):
    if n.op in ('lin', 'ior', 'iand', 'ixor', 'ishl', 'ishr', 'wrap', 'idiv', 'irem') and n.siv[0] >= 0 and n.siv[1] < (1 << 64):
        b = dom._bitsc(n)
        if b is not None:
            r = from_bits_if_known(b)
            if r is not None:
                return r
    return n


def arith(op, a, b):
    if op.startswith('Add'):
        return iadd(a, b)
    if op.startswith('Sub'):
        return isub(a, b)
    return imul(a, b)


def wrap(st, n, w, s):
    lo, hi = ity(w, s)
    if n.op == 'ci':
        return ci((n.a[0] - lo) % (1 << w) + lo)
    iv = st.iv(n) if st is not None else n.siv
    if lo <= iv[0] and iv[1] <= hi:
        return canon(n)
    if n.op == 'wrap' and n.a[1] >= w:
        return wrap(st, n.a[0], w, s)
    if n.op in ('lin', 'irem', 'idiv', 'imul') and st is not None:
        t, c = lin(n)
        if (iv[1] <= hi or st.entails_ge({k: -v for k, v in t.items()}, hi - c)) and \
           (iv[0] >= lo or st.entails_ge(t, c - lo)):
            return canon(n)
    # normalise modulo 2^w
    m = 1 << w
    t, c = lin(n)
    ch = True
    while ch:
        ch = False
        u, d = {}, c
        for x, q in t.items():
            if x.op == 'wrap' and x.a[1] >= w:
                v, e = lin(x.a[0])
                for y, p in v.items():
                    u[y] = u.get(y, 0) + q * p
                d += q * e
                ch = True
            else:
                u[x] = u.get(x, 0) + q
        t, c = u, d
    t = {x: ((q + m // 2) % m) - m // 2 for x, q in t.items()}
    n2 = from_lin(t, c % m if len(t) != 1 or c >= 0 or True else c)
    if n2.op == 'ci':
        return ci((n2.a[0] - lo) % m + lo)
    iv = st.iv(n2) if st is not None else n2.siv
    if lo <= iv[0] and iv[1] <= hi:
        return canon(n2)
    return canon(iop('wrap', n2, w, s))


def shr(st, a, b, w, s):
    if b.op == 'ci':
        k = b.a[0] % w
        if k == 0:
            return a
        if a.op == 'ci':
            return ci(a.a[0] >> k)
        iv = st.iv(a) if st is not None else a.siv
        if iv[0] >= 0 and iv[1] < (1 << k):
            return ci(0)
        return canon(iop('ishr', a, ci(k)))
    return iop('ishr', a, b)


def enum_int(ip, st, n, what, limit=70):
    """finite case split on the value of an integer node"""
    if n.op == 'ci':
        return n
    iv = st.iv(n)
    if iv[0] == iv[1]:
        return ci(iv[0])
    if iv[1] - iv[0] > limit:
        return n
    k = ip.choose(st, iv[1] - iv[0] + 1, what)
    from interp import Dead
    c = ci(iv[0] + k)
    if not st.assume(cmp('eq', n, c), True):
        raise Dead()
    return c


def iarith(ip, st, op, a, b, w, s):
    if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
        v = arith(op, a, b)
        if v.op == 'imul':
            v = mulfacts(st, v)
        return wrap(st, v, w, s)
    if op in ('Shl', 'ShlUnchecked'):
        b = enum_int(ip, st, b, 'shift amount')
        if b.op == 'ci':
            return wrap(st, iscale(a, 1 << (b.a[0] % w)), w, s)
        return wrap(st, iop('ishl', a, b), w, s)
    if op in ('Shr', 'ShrUnchecked'):
        b = enum_int(ip, st, b, 'shift amount')
        return shr(st, a, b, w, s)
    if op == 'Div':
        return idiv(st, a, b)
    if op == 'Rem':
        return irem(ip, st, a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        o = {'BitAnd': 'iand', 'BitOr': 'ior', 'BitXor': 'ixor'}[op]
        if a.op == 'ci' and b.op == 'ci':
            x, y = a.a[0], b.a[0]
            return ci(x & y if o == 'iand' else x | y if o == 'ior' else x ^ y)
        if a is b:
            return a if o != 'ixor' else ci(0)
        if a.op == 'ci':
            a, b = b, a
        if b.op == 'ci':
            v = b.a[0]
            m = (1 << w) - 1
            if o == 'iand' and v in (m, -1):
                return a
            if v == 0:
                return ci(0) if o == 'iand' else a
            if o == 'ixor' and v == m and not s:
                return canon(isub(ci(m), a))
            if o == 'iand' and v < 0 and s is True and a.siv[0] >= 0:
                b = ci(v & m)
                v = v & m
            low = (v & -v).bit_length() - 1
            if o == 'iand' and low > 0 and v > 0 and a.siv[0] >= 0 and a.siv[1] < (1 << v.bit_length()) and v == (1 << v.bit_length()) - (1 << low):
                return iscale(shr(st, a, ci(low), w, s), 1 << low)
        elif a.id > b.id:
            a, b = b, a
        return canon(iop(o, a, b))
    from interp import Unsupported
    raise Unsupported('int op ' + op)


def mulfacts(st, v):
    return v


def idiv(st, a, b):
    if a.op == 'ci' and b.op == 'ci' and b.a[0] != 0:
        return ci(tdiv(a.a[0], b.a[0]))
    if b.op == 'ci' and b.a[0] == 1:
        return a
    if b.op == 'ci' and b.a[0] > 0:
        k = b.a[0]
        t, c = lin(a)
        if all(q % k == 0 for q in t.values()) and c % k == 0:
            return from_lin({x: q // k for x, q in t.items()}, c // k)
    return canon(iop('idiv', a, b))


BIGI = 1 << 70


def irem(ip, st, a, b):
    if a.op == 'ci' and b.op == 'ci' and b.a[0] != 0:
        return ci(trem(a.a[0], b.a[0]))
    A, B = st.iv(a), st.iv(b)
    if B[0] <= 0 and st.lt(ci(0), b):
        # entailed by relations between variables: note it as a bound
        st.refine(b, (1, BIGI))
        B = st.iv(b)
    if A[0] < 0 and a.op != 'ci' and st.le(ci(0), a):
        st.refine(a, (0, BIGI))
        A = st.iv(a)
    if B[0] > 0:
        # drop multiples of b
        if A[0] >= 0 or st.le(ci(0), a):
            if A[1] < B[0] or st.lt(a, b):
                return a
            b2 = iadd(b, b)
            if st.lt(a, b2):
                # b <= a < 2b or a < b
                if ip.need(st, cmp('lt', a, b)):
                    return a
                r = isub(a, b)
                st.refine(r, (0, BIGI))
                return r
        elif A[1] <= 0 or st.le(a, ci(0)):
            if st.lt(ineg(a), b):
                return a
    return remnode(a, b)


def remnode(a, b):
    """remainder atom; the sign of the dividend is taken out, so that the
    remainders of x and -x are the same atom"""
    if a.op == 'lin' and a.a[0][0][1] < 0:
        return ineg(canon(iop('irem', ineg(a), b)))
    return canon(iop('irem', a, b))


def b2i(c):
    if c.op == 'cb':
        return ci(c.a[0])
    return iop('b2i', c)


def addr(ip, st, p):
    o = p.obj
    if o[0] == 'n':
        return o[1]
    n = dom._mk('at', ('addr', repr(o)), 'i', (4096, 1 << 47))
    if p.path and isinstance(p.path[-1], tuple):
        return iadd(n, iscale(p.path[-1][1], 4))
    return n


def tabnode(arr, i):
    n = dom._mk('tab', (arr, i), arr.kind, None)
    if n.siv is None:
        n.siv = arr.hull(*i.siv)
    return n


def selnode(base, i, iv=FTOP):
    return dom._mk('sel', (base, i), 'f', iv)


# ------------------------------------------------------------------- floats

def intof(st, n):
    """integer node k when n is exactly the float of k"""
    if n.op == 'i2f':
        k = n.a[0]
        iv = st.iv(k)
        if -EXACT <= iv[0] and iv[1] <= EXACT or k.op == 'ifl':
            return k
    if n.op == 'cf':
        v = fval(n)
        if v == v and abs(v) <= EXACT and v == int(v):
            return ci(int(v))
    return None


def farith(st, op, a, b):
    from interp import Unsupported
    if op in ('Add', 'Sub', 'Mul'):
        x = intof(st, a)
        y = intof(st, b) if x is not None else None
        if x is not None and y is not None and not (a.op == 'cf' and b.op == 'cf'):
            v = iadd(x, y) if op == 'Add' else isub(x, y) if op == 'Sub' else imul(x, y)
            iv = st.iv(v)
            if -EXACT <= iv[0] and iv[1] <= EXACT and not (op == 'Mul' and v.op == 'imul'):
                if op != 'Mul' or (iv[0] > 0 or iv[1] < 0 or True):
                    return i2f(st, v)
    if op == 'Add':
        return fadd(a, b)
    if op == 'Sub':
        return fsub(a, b)
    if op == 'Mul':
        return fmul(a, b)
    if op == 'Div':
        return fdiv(a, b)
    if op == 'Rem':
        return frem(a, b)
    raise Unsupported('float op ' + op)


def i2f(st, n):
    if n.op == 'ci':
        return cf(r32(float(n.a[0])))
    iv = st.iv(n)
    if iv[0] == iv[1]:
        return cf(r32(float(iv[0])))
    return fop('i2f', n)


def mm_floor(st, x):
    if x.op == 'cf':
        v = fval(x)
        if v != v:
            return cf(0.0)
        if abs(v) < 2147483648.0:
            return cf(float(math.floor(v)))
        return cf(-2147483648.0 if v < 0 else 2147483648.0)
    return fop('i2f', ifl(st, x))


def ifl(st, x):
    k = intof(st, x)
    if k is not None:
        return k
    if x.op == 'cf' and fval(x) == fval(x) and abs(fval(x)) < 2147483648.0:
        return ci(math.floor(fval(x)))
    iv = st.iv(x)
    if not iv[2] and iv[0] <= iv[1] and abs(iv[0]) < 2147483648.0 and abs(iv[1]) < 2147483648.0:
        l, h = math.floor(iv[0]), math.floor(iv[1])
        if l == h:
            return ci(l)
    # floor(x - floor-free integer part): floor(i2f(k) + y) is not simplified
    return iop('ifl', x)


def f2i(st, x, w, s):
    lo, hi = ity(w, s)
    if x.op == 'cf':
        v = fval(x)
        if v != v:
            return ci(0)
        if math.isinf(v):
            return ci(hi if v > 0 else lo)
        return ci(max(lo, min(hi, int(v))))
    if x.op == 'i2f':
        k = x.a[0]
        iv = st.iv(k)
        if (k.op == 'ifl' or (-EXACT <= iv[0] and iv[1] <= EXACT)) and lo <= iv[0] and iv[1] <= hi:
            return k
    iv = st.iv(x)
    if not iv[2] and iv[0] >= 0.0 and iv[1] < 2147483648.0 and iv[1] < hi + 1:
        return ifl(st, x)
    if not iv[2] and iv[0] > -1.0 and not s and iv[1] < 1.0:
        return ci(0)
    return iop('f2i', x, w, s)


def fbits(v, signed, st=None):
    if v.op == 'cf':
        b = v.a[0]
        n = ci(b)
    elif v.op == 'unbits':
        n = v.a[0]
    elif v.op == 'fabs':
        n = canon(iop('iand', fbits(v.a[0], False), ci(0x7fffffff)))
    else:
        n = iop('bits', v)
    if signed:
        return wrap(None, n, 32, True)
    return n


def unbits(n):
    if n.op == 'ci':
        return cf(b2f(n.a[0] & 0xffffffff)) if not _isnanbits(n.a[0]) else cf(math.nan)
    if n.op == 'wrap' and n.a[1] == 32:
        n2 = n.a[0]
        if n2.siv[0] >= 0 and n2.siv[1] < (1 << 32):
            n = n2
    if n.op == 'bits':
        return n.a[0]
    if n.op == 'ixor' and n.a[1].op == 'ci' and n.a[1].a[0] == 0x80000000 and n.a[0].op == 'bits':
        return fneg(n.a[0].a[0])
    if n.siv[0] >= 0:
        b = bits_of(n, 32)
        if b is not None and isinstance(b[0], tuple) and b[0][0].op == 'bits':
            src = b[0][0]
            if all(b[i] == (src, i) for i in range(31)):
                t = b[31]
                x = src.a[0]
                if t == (src, 31):
                    return x
                if t == 0:
                    return fabs(x)
                if t == 1:
                    return fneg(fabs(x))
                if isinstance(t, tuple) and t[0].op == 'bits' and t[1] == 31:
                    return fop('fcopysign', x, t[0].a[0])
    return fop('unbits', n)


def _isnanbits(v):
    v &= 0xffffffff
    return (v & 0x7f800000) == 0x7f800000 and v & 0x7fffff


# --------------------------------------------------------------- comparisons

def bittest(p):
    n, i = p
    if n.k == 'b':
        return n
    if n.op == 'bits' and i == 31:
        return sgn(n.a[0])
    return bop('bit', n, i)


def sgn(x):
    if x.op == 'cf':
        return cb(x.a[0] >> 31)
    if x.op == 'fneg':
        return bnot(sgn(x.a[0]))
    if x.op == 'fabs':
        return cb(0)
    return bop('sgn', x)


def ncmp(st, op, a, b):
    if a.k == 'f':
        if a is b and op in ('eq', 'le'):
            return bnot(isnan(a))
        if a is b and op == 'lt':
            return cb(0)
        x, y = intof(st, a), intof(st, b)
        if x is not None and y is not None:
            return cmp(op, x, y)
        return cmp(op, a, b)
    if a.k == 'i':
        if op == 'eq':
            if a.op == 'ci':
                a, b = b, a
            if b.op == 'ci' and a.siv[0] >= 0 and a.op != 'at':
                bs = dom._bitsc(a)
                if bs is not None and None not in bs:
                    u = [i for i, v in enumerate(bs) if isinstance(v, tuple)]
                    if len(u) <= 1:
                        rest = sum((1 << i) for i, v in enumerate(bs) if v == 1)
                        d = b.a[0] - rest
                        if not u:
                            return cb(d == 0)
                        if d == 0:
                            return bnot(bittest(bs[u[0]]))
                        if d == 1 << u[0]:
                            return bittest(bs[u[0]])
                        return cb(0)
        if op == 'lt' and b.op == 'ci' and b.a[0] == 0 or op == 'le' and b.op == 'ci' and b.a[0] == -1:
            t = signbit(a)
            if t is not None:
                return t
        if op == 'le' and a.op == 'ci' and a.a[0] == 0 or op == 'lt' and a.op == 'ci' and a.a[0] == -1:
            t = signbit(b)
            if t is not None:
                return bnot(t)
        # comparison of bits with constants: order of non-negative floats
    return cmp(op, a, b)


def signbit(a):
    if a.op == 'wrap' and a.a[2] and a.a[0].siv[0] >= 0:
        bs = dom._bitsc(a.a[0])
        w = a.a[1]
        if bs is not None and len(bs) <= w:
            v = bs[w - 1] if len(bs) == w else 0
            if v in (0, 1):
                return cb(v)
            if isinstance(v, tuple):
                return bittest(v)
    return None


def isnan(x):
    if x.op == 'cf':
        v = fval(x)
        return cb(v != v)
    if x.op in ('fneg', 'fabs'):
        return isnan(x.a[0])
    if x.op == 'i2f':
        return cb(0)
    return bop('isnan', x)

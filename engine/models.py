"""Models: specification primitives, compiler intrinsics and the library
functions whose bit-level implementation is not worth interpreting."""
import math
import re
from dom import *
import dom
from build import *


class _Invoked:
    pass


INVOKED = _Invoked()


def _i():
    import interp
    return interp


def unit(ip, dty):
    return ip.zst(dty)


# ------------------------------------------------------------- specification

def destname(ip, st, fr):
    f = ip.p.fns[fr.fn]
    t = f['blocks'][fr.bb][1]
    try:
        l = t[4][0]
        for x, n in f['dbg']:
            if x == l:
                return n
    except Exception:
        pass
    return 'v'


def m_any(ip, st, fr, f, vals, tys, dty):
    return ip.symbolic(st, dty, destname(ip, st, fr))


def m_again(ip, st, fr, f, vals, tys, dty):
    return fresh('again', 'b', (0, 1))


def m_assume(ip, st, fr, f, vals, tys, dty):
    if not st.assume(vals[0], True):
        raise _i().Dead()
    return unit(ip, dty)


def cstr(ip, v):
    try:
        g = ip.p.allocs[v.obj[1]]['alloc']['b']
        n = v.meta.a[0]
        off = v.obj[2]
        return bytes.fromhex(g[2 * off:2 * (off + n)]).decode()
    except Exception:
        return '?'


def m_claim(kind):
    def go(ip, st, fr, f, vals, tys, dty):
        import claims
        msg = cstr(ip, vals[-1])
        claims.check(ip, st, kind, vals[:-1], msg)
        return unit(ip, dty)
    return go


def m_region(ip, st, fr, f, vals, tys, dty):
    n = vals[0]
    iv = FTOP
    if len(vals) == 3:
        iv = (fval(vals[1]), fval(vals[2]), False)
    rid = ip.new_region(st, n, destname(ip, st, fr), iv)
    return _i().Ptr(('r', rid), (('x', ci(0)),), n)


def reg_of(ip, st, v):
    if not isinstance(v, _i().Ptr) or v.obj[0] != 'r':
        raise _i().Unsupported('not a buffer')
    return v.obj[1], st.rgn[v.obj[1]], v.path[-1][1] if v.path else ci(0)


def m_peek(ip, st, fr, f, vals, tys, dty):
    rid, r, off = reg_of(ip, st, vals[0])
    i = iadd(off, vals[1])
    ok = band(cmp('le', ci(0), i), cmp('lt', i, r.len))
    if not ip.need(st, ok):
        ip.event(st, 'bad-spec', 'peek outside the buffer')
        raise _i().Dead()
    return ip.rcontent(st, r, i)


def m_counter(attr):
    def go(ip, st, fr, f, vals, tys, dty):
        rid, r, off = reg_of(ip, st, vals[0])
        return getattr(r, attr)
    return go


def m_allow(ip, st, fr, f, vals, tys, dty):
    st.flags['allow_panics'] = True
    return unit(ip, dty)


def m_unroll(ip, st, fr, f, vals, tys, dty):
    st.flags['unroll'] = vals[0].a[0]
    return unit(ip, dty)


def m_bounded(ip, st, fr, f, vals, tys, dty):
    st.flags['bounded'] = vals[0].a[0]
    return unit(ip, dty)


def m_pick(ip, st, fr, f, vals, tys, dty):
    lo, hi = vals[0].a[0], vals[1].a[0]
    return ci(lo + ip.choose(st, hi - lo, 'pick'))


def m_volatile(ip, st, fr, f, vals, tys, dty):
    st.flags['volatile_only'] = True
    return ip.zst(dty)


def m_opaque(ip, st, fr, f, vals, tys, dty):
    st.flags['opaque'] = st.flags.get('opaque', ()) + ('::' + cstr(ip, vals[0]),)
    return unit(ip, dty)


def m_summ(ip, st, fr, f, vals, tys, dty):
    st.flags['summarize'] = cval(vals[0]) == 1
    return unit(ip, dty)


def m_same(ip, st, fr, f, vals, tys, dty):
    """pointer identity: same buffer and element"""
    a, b = vals
    return ip.ptrcmp(st, 'Eq', _i().Ptr(a.obj, a.path), _i().Ptr(b.obj, b.path))


def m_within(ip, st, fr, f, vals, tys, dty):
    """the slice lies inside its buffer"""
    a = vals[0]
    if a.obj[0] != 'r':
        return cb(0)
    rid, r, off = reg_of(ip, st, a)
    return band(cmp('le', ci(0), off), band(cmp('le', ci(0), a.meta), cmp('le', iadd(off, a.meta), r.len)))


H = 'harness::intr::'
MODELS = {
    H + 'any': m_any, H + 'again': m_again, H + 'assume': m_assume,
    H + 'region': m_region, H + 'region_in': m_region, H + 'peek': m_peek,
    H + 'writes': m_counter('writes'), H + 'reads': m_counter('reads'),
    H + 'last_write': m_counter('lastw'), H + 'last_read': m_counter('lastr'),
    H + 'allow_panics': m_allow, H + 'unroll': m_unroll, H + 'bounded': m_bounded, H + 'opaque': m_opaque, H + 'volatile_only': m_volatile, H + 'pick': m_pick, H + 'summarize': m_summ,
    H + 'same_ptr': m_same, H + 'within': m_within,
}
for _k in ('claim', 'claim_eq', 'claim_in', 'claim_pos', 'claim_close', 'claim_same'):
    MODELS[H + _k] = m_claim(_k)


# --------------------------------------------------------------- float library

def unF(v):
    I = _i()
    while isinstance(v, I.Agg):
        v = v.f[0]
    return v


def wrapF(ip, dty, v):
    return ip.wrapinto(v, dty)


def guard(ip, st, ok, what):
    if not ip.need(st, ok):
        ip.panic(st, what)


def poszero(st, x):
    """x cannot be -0.0 (x is known to be >= 0)"""
    op = x.op
    if op == 'cf':
        return x.a[0] != 0x80000000
    iv = st.iv(x)
    if iv[0] > 0:
        return True
    if st.truth(sgn(x)) is False:
        return True
    if op == 'fsub':
        y, z = x.a
        return not (may_zero(st, y) and may_zero(st, z)) or poszero(st, y)
    if op == 'fadd':
        y, z = x.a
        return not (may_zero(st, y) and may_zero(st, z)) or poszero(st, y) or poszero(st, z)
    if op in ('fmul', 'fdiv'):
        y, z = x.a
        if y is z:
            return True
        Y, Z = st.iv(y), st.iv(z)
        return Y[0] >= 0 and Z[0] >= 0 and poszero(st, y) and poszero(st, z)
    if op in ('fabs', 'msqrt', 'mexp', 'i2f'):
        return True
    if op == 'fclamp':
        return all(poszero(st, y) for y in x.a if st.iv(y)[0] >= 0) and st.iv(x.a[0])[0] >= 0
    return False


def may_zero(st, x):
    iv = st.iv(x)
    return iv[0] <= 0 <= iv[1]


def f_sqrt(ip, st, x):
    if x.op == 'cf' and fval(x) >= 0 and x.a[0] != 0x80000000:
        return cf(sqrt_mm(fval(x)))
    if ip.need(st, ncmp(st, 'le', cf(0.0), x)):
        return fop('msqrt', x, 0 if poszero(st, x) else 1)
    return cf(math.nan)


def f_exp(ip, st, x):
    if x.op == 'cf':
        v = fval(x)
        if v == 0:
            return cf(1.0)
        if v == -INF:
            return cf(0.0)
        if v == INF:
            return cf(INF)
    iv = st.iv(x)
    if iv[0] == iv[1] and not iv[2] and iv[0] in (0.0, INF, -INF):
        return cf({0.0: 1.0, INF: INF}.get(iv[0], 0.0))
    if iv[2] or (iv[0] <= 90.0 and iv[1] >= 88.0):
        guard(ip, st, bor(ncmp(st, 'lt', x, cf(88.0)), ncmp(st, 'lt', cf(90.0), x)), 'micromath exp: exponent overflow')
    return fop('mexp', x)


def f_lnnode(ip, st, x):
    """value of ln for x with a clear sign bit (or NaN)"""
    if x.op == 'cf' and abs(fval(x) - 1.0) < 1.1920929e-07:
        return cf(0.0)
    iv = st.iv(x)
    if iv[0] == iv[1] and not iv[2] and 0 < iv[0] < INF:
        v = ln_mm(iv[0])
        if v is not None:
            return cf(v)
    return fop('mln', x)


def f_ln(ip, st, x):
    if not (x.op == 'cf' and fval(x) > 0):
        guard(ip, st, bor(ncmp(st, 'le', cf(1.0), x), bor(bnot(sgn(x)), isnan(x))), 'micromath ln of a negative number')
        if st.iv(x)[0] < 0:
            pass
    return f_lnnode(ip, st, x)


def f_powf(ip, st, b, n):
    if ip.need(st, ncmp(st, 'le', cf(0.0), b)):
        l = f_ln(ip, st, b)
        if l.op == 'cf' and fval(l) == 0.0:
            iv = st.iv(n)
            if not iv[2] and iv[0] != -INF and iv[1] != INF:
                return cf(1.0)
        return f_exp(ip, st, farith(st, 'Mul', n, l))
    # NaN or negative base
    if n.op == 'cf' and not fval(n).is_integer():
        return cf(math.nan)
    return fop('pown', b, n)


def f_powi(ip, st, x, n):
    k = n.a[0] if n.op == 'ci' else None
    if k is None:
        raise _i().Unsupported('powi with a variable exponent')
    if k == 0:
        return cf(1.0)
    if k < 0:
        return fdiv(cf(1.0), fop('powi', x, -k) if k != -1 else x)
    if k == 1:
        return x
    if x.op == 'cf':
        v = fval(x)
        if v == 0:
            return x
        r = 1.0
        b, m = v, k
        while True:
            if m & 1:
                r = r32(r * b)
            m >>= 1
            if m == 0:
                break
            b = r32(b * b)
        if 1e-30 < abs(r) < 1e30:
            return cf(r)
    return fop('powi', x, k)


def mm(name):
    def go(ip, st, fr, f, vals, tys, dty):
        v = [unF(x) for x in vals]
        if any(not isinstance(x, N) for x in v):
            return NotImplemented
        if name == 'floor':
            r = mm_floor(st, v[0])
        elif name == 'sqrt':
            r = f_sqrt(ip, st, v[0])
        elif name == 'powf':
            r = f_powf(ip, st, v[0], v[1])
        elif name == 'exp':
            r = f_exp(ip, st, v[0])
        elif name == 'ln':
            r = f_ln(ip, st, v[0])
        elif name == 'log10':
            r = farith(st, 'Mul', f_ln(ip, st, v[0]), cf(0.4342944920063019))
        elif name == 'powi':
            r = f_powi(ip, st, v[0], v[1])
        elif name == 'abs':
            r = fabs(v[0])
        elif name == 'copysign':
            r = fop('fcopysign', v[0], v[1])
        elif name == 'rem_euclid':
            return NotImplemented
        else:
            return NotImplemented
        return wrapF(ip, dty, r)
    return go


_MM = {n: mm(n) for n in ('floor', 'sqrt', 'powf', 'exp', 'ln', 'log10', 'powi', 'abs')}
_re1 = re.compile(r'^<f32 as [\w:]*F32Ext>::(\w+)$')
_re2 = re.compile(r'^micromath::float::\w+::<impl micromath::float::F32>::(\w+)$')


def mm_pre(name):
    m = _re1.match(name) or _re2.match(name)
    return bool(m) and m.group(1) in _MM


def mm_model(ip, st, fr, f, vals, tys, dty):
    name = f['def']
    m = _re1.match(name) or _re2.match(name)
    return _MM[m.group(1)](ip, st, fr, f, vals, tys, dty)


def m_clamp(ip, st, fr, f, vals, tys, dty):
    x, lo, hi = vals
    guard(ip, st, ncmp(st, 'le', lo, hi), 'clamp: min > max, or either was NaN')
    return mkclamp(st, x, lo, hi)


def mkclamp(st, x, lo, hi):
    if x.op == 'cf' and lo.op == 'cf' and hi.op == 'cf':
        v = fval(x)
        if v < fval(lo):
            return lo
        if v > fval(hi):
            return hi
        return x
    X, L, Hh = st.iv(x), st.iv(lo), st.iv(hi)
    if not X[2] and X[0] <= X[1]:
        if X[1] < L[0]:
            return lo
        if X[0] > Hh[1]:
            return hi
    if X[0] >= L[1] and X[1] <= Hh[0]:
        return x
    if not X[2] and not L[2] and not Hh[2]:
        l, h = st.truth(cmp('le', lo, x)), st.truth(cmp('le', x, hi))
        if l and h:
            return x
        if st.truth(cmp('lt', x, lo)):
            return lo
        if st.truth(cmp('lt', hi, x)):
            return hi
    return fop('fclamp', x, lo, hi)


def m_minmax(op):
    def go(ip, st, fr, f, vals, tys, dty):
        return fminmax(st, op, vals[0], vals[1])
    return go


def fminmax(st, op, a, b):
    A, B = st.iv(a), st.iv(b)
    if not A[2] and not B[2] and A[0] <= A[1] and B[0] <= B[1]:
        if A[1] < B[0]:
            return a if op == 'fmin' else b
        if B[1] < A[0]:
            return b if op == 'fmin' else a
        if a is b:
            return a
    if a.op == 'cf' and fval(a) != fval(a):
        return b
    if b.op == 'cf' and fval(b) != fval(b):
        return a
    if a.id > b.id:
        a, b = b, a
    return fop(op, a, b)


def m_undef(ip, st, fr, f, vals, tys, dty):
    return _i().UNDEF


def m_panic(ip, st, fr, f, vals, tys, dty):
    msg = 'panic'
    try:
        if vals and isinstance(vals[0], _i().Ptr) and vals[0].meta is not None:
            msg = 'panic: ' + cstr(ip, vals[0])
    except Exception:
        pass
    ip.panic(st, msg)


def is_fmt(name):
    return name.startswith('core::fmt::') or '::fmt::Arguments' in name or 'core::fmt::' in name and ' as ' not in name


def is_panic(name):
    return name.startswith('core::panicking::') or name.endswith('::slice_index_fail') or \
        name.startswith('core::result::unwrap_failed') or name.startswith('core::option::unwrap_failed') or \
        name.startswith('core::option::expect_failed') or 'panic_const' in name or '_overflow_panic' in name


PREFIX = [
    (mm_pre, mm_model),
    (is_panic, m_panic),
    (is_fmt, m_undef),
]
def m_classify(ip, st, fr, f, vals, tys, dty):
    """variants Nan, Infinite, Zero, Subnormal, Normal"""
    x = vals[0]
    if not isinstance(x, N):
        return NotImplemented
    a = fabs(x)
    if ip.need(st, isnan(x)):
        v = 0
    elif ip.need(st, ncmp(st, 'eq', x, cf(0.0))):
        v = 2
    elif ip.need(st, ncmp(st, 'lt', cf(3.4028234663852886e38), a)):
        v = 1
    elif ip.need(st, ncmp(st, 'lt', a, cf(1.1754943508222875e-38))):
        v = 3
    else:
        v = 4
    return _i().Agg(dty, v, ())


MODELS['core::f32::<impl f32>::classify'] = m_classify
MODELS['core::f32::<impl f32>::clamp'] = m_clamp
MODELS['core::f32::<impl f32>::min'] = m_minmax('fmin')
MODELS['core::f32::<impl f32>::max'] = m_minmax('fmax')


# ------------------------------------------------------------------ intrinsics

def _w(ip, ty):
    t = ip.T(ty)
    return t['w'], t['s']


def _retw(ip, dty):
    return _w(ip, dty)


def call_intrinsic(ip, st, fr, f, vals, tys, dty):
    I = _i()
    n = f['def'].rsplit('::', 1)[-1]
    if n in ('volatile_load', 'unaligned_volatile_load', 'read_via_copy'):
        ip.volatile = n != 'read_via_copy'
        try:
            return ip.load(st, vals[0], dty)
        finally:
            ip.volatile = False
    if n in ('volatile_store', 'unaligned_volatile_store', 'write_via_move'):
        ip.volatile = n != 'write_via_move'
        try:
            ip.store(st, vals[0], vals[1])
        finally:
            ip.volatile = False
        return ip.zst(dty)
    if n in ('offset', 'arith_offset'):
        return ip.ptradd(st, vals[0], vals[1], tys[0])
    if n in ('ptr_offset_from', 'ptr_offset_from_unsigned'):
        a, b = vals
        if a.obj == b.obj:
            x = a.path[-1][1] if a.path and isinstance(a.path[-1], tuple) else ci(0)
            y = b.path[-1][1] if b.path and isinstance(b.path[-1], tuple) else ci(0)
            return isub(x, y)
        raise I.Unsupported('ptr_offset_from')
    if n == 'transmute':
        return ip.transmute_val(vals[0], tys[0], dty, st)
    if n in ('size_of', 'size_of_val', 'min_align_of', 'align_of', 'pref_align_of'):
        g = f['gargs'][0][1]
        if 'align' in n:
            return ci(ip.T(g)['layout']['align'])
        if n == 'size_of_val':
            raise I.Unsupported(n)
        return ci(ip.sizeof(g))
    if n in ('integer_max', 'integer_min'):
        x, y = vals
        if not isinstance(x, N) or not isinstance(y, N):
            raise I.Unsupported(n)
        if ip.need(st, ncmp(st, 'le', x, y)):
            return y if n == 'integer_max' else x
        return x if n == 'integer_max' else y
    if n in ('fabsf32', 'fabs'):
        return fabs(vals[0])
    if n == 'copysignf32' or n == 'copysign':
        return fop('fcopysign', vals[0], vals[1])
    if n in ('minnumf32', 'minimum_number_nsz_f32', 'minnum', 'minimum_number_nsz'):
        return fminmax(st, 'fmin', vals[0], vals[1])
    if n in ('maxnumf32', 'maximum_number_nsz_f32', 'maxnum', 'maximum_number_nsz'):
        return fminmax(st, 'fmax', vals[0], vals[1])
    if n in ('floorf32', 'ceilf32', 'truncf32', 'round_ties_even_f32', 'roundf32', 'rintf32'):
        if vals[0].op == 'cf':
            v = fval(vals[0])
            if v == v and not math.isinf(v):
                return cf(float({'floorf32': math.floor, 'ceilf32': math.ceil, 'truncf32': math.trunc,
                                 'roundf32': lambda q: math.copysign(math.floor(abs(q) + 0.5), q)}.get(n, round)(v)))
        return fop('fround', vals[0], n)
    if n == 'sqrtf32':
        return fop('fsqrt', vals[0])
    if n in ('fmaf32', 'fmuladdf32'):
        return fadd(fmul(vals[0], vals[1]), vals[2])
    if n in ('fadd_algebraic', 'fsub_algebraic', 'fmul_algebraic', 'fdiv_algebraic'):
        return farith(st, n[1:4].capitalize(), vals[0], vals[1])
    if n == 'powif32':
        return f_powi(ip, st, vals[0], vals[1])
    if n.startswith('wrapping_') or n.startswith('unchecked_'):
        w, s = _w(ip, tys[0])
        o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'shl': 'Shl', 'shr': 'Shr', 'div': 'Div', 'rem': 'Rem'}[n.rsplit('_', 1)[1]]
        if not all(isinstance(v, N) for v in vals):
            raise I.Unsupported(n)
        if n[0] == 'u':
            if o in ('Add', 'Sub', 'Mul'):
                lo, hi = ity(w, s)
                v = arith(o, vals[0], vals[1])
                ok = band(cmp('le', ci(lo), v), cmp('le', v, ci(hi)))
            elif o in ('Shl', 'Shr'):
                ok = band(cmp('le', ci(0), vals[1]), cmp('lt', vals[1], ci(w)))
            else:
                ok = bnot(cmp('eq', vals[1], ci(0)))
            if not ip.need(st, ok):
                ip.event(st, 'ub', 'overflow of unchecked arithmetic')
                raise I.Dead()
        return iarith(ip, st, o, vals[0], vals[1], w, s)
    if n in ('saturating_add', 'saturating_sub'):
        w, s = _w(ip, tys[0])
        lo, hi = ity(w, s)
        v = iadd(vals[0], vals[1]) if n.endswith('add') else isub(vals[0], vals[1])
        if not ip.need(st, cmp('le', ci(lo), v)):
            return ci(lo)
        if not ip.need(st, cmp('le', v, ci(hi))):
            return ci(hi)
        return canon(v)
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        w, s = _w(ip, tys[0])
        lo, hi = ity(w, s)
        v = arith({'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[0]], vals[0], vals[1])
        ok = band(cmp('le', ci(lo), v), cmp('le', v, ci(hi)))
        if ip.need(st, ok):
            return I.Agg(dty, 0, (canon(v), cb(0)))
        return I.Agg(dty, 0, (wrap(st, v, w, s), cb(1)))
    if n == 'exact_div':
        return idiv(st, vals[0], vals[1])
    if n == 'ctpop':
        if vals[0].op == 'ci':
            return ci(bin(vals[0].a[0]).count('1'))
        return iop('popcnt', vals[0], _w(ip, tys[0])[0])
    if n in ('ctlz', 'ctlz_nonzero'):
        w = _w(ip, tys[0])[0]
        if vals[0].op == 'ci':
            return ci(w - vals[0].a[0].bit_length())
        return iop('clz', vals[0], w)
    if n in ('cttz', 'cttz_nonzero'):
        w = _w(ip, tys[0])[0]
        if vals[0].op == 'ci':
            v = vals[0].a[0]
            return ci(w if v == 0 else (v & -v).bit_length() - 1)
        return iop('ctz', vals[0], w)
    if n == 'bswap':
        w = _w(ip, tys[0])[0]
        acc = ci(0)
        for i in range(w // 8):
            b = wrap(st, shr(st, vals[0], ci(8 * i), w, False), 8, False)
            acc = iadd(acc, iscale(b, 1 << (w - 8 - 8 * i)))
        return canon(acc)
    if n in ('rotate_left', 'rotate_right'):
        w = _w(ip, tys[0])[0]
        k = vals[1]
        if k.op != 'ci':
            raise I.Unsupported('rotate')
        k = k.a[0] % w
        if n == 'rotate_right':
            k = (w - k) % w
        if k == 0:
            return vals[0]
        hi = wrap(st, iscale(vals[0], 1 << k), w, False)
        lo = shr(st, vals[0], ci(w - k), w, False)
        return canon(iadd(hi, lo))
    if n in ('black_box', 'likely', 'unlikely', 'ptr_mask', 'select_unpredictable'):
        if n == 'select_unpredictable':
            return vals[1] if ip.need(st, vals[0]) else vals[2]
        return vals[0]
    if n == 'cold_path':
        return ip.zst(dty)
    if n == 'assume':
        if not ip.need(st, vals[0]):
            ip.event(st, 'ub', 'assume of a false condition')
            raise I.Dead()
        return ip.zst(dty)
    if n in ('abort', 'unreachable'):
        if n == 'unreachable':
            ip.event(st, 'unreachable', 'unreachable_unchecked reached')
            raise I.Dead()
        ip.panic(st, 'abort')
    if n in ('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'forget', 'assert_unsafe_precondition'):
        return ip.zst(dty)
    if n in ('ub_checks', 'contract_checks', 'overflow_checks'):
        return cb(0 if n != 'overflow_checks' else 1)
    if n == 'needs_drop':
        return cb(0)
    if n == 'ptr_metadata':
        return vals[0].meta
    if n == 'aggregate_raw_ptr':
        p, m = vals
        path = p.path
        if isinstance(m, N):
            if not (path and isinstance(path[-1], tuple)) and p.obj[0] != 'n':
                path = path + (('x', ci(0)),)
            return I.Ptr(p.obj, path, m)
        return I.Ptr(p.obj, p.path)
    if n in ('slice_get_unchecked',):
        p, i = vals
        meta = p.meta
        if meta is not None:
            guard_ub(ip, st, band(cmp('le', ci(0), i), cmp('lt', i, meta)), 'get_unchecked outside slice')
        return ip.elem(p, i)
    if n in ('copy_nonoverlapping', 'copy'):
        ip.copy_nonoverlapping(st, vals[0], vals[1], vals[2])
        return ip.zst(dty)
    if n == 'typed_swap_nonoverlapping':
        a, b = ip.load(st, vals[0]), ip.load(st, vals[1])
        ip.store(st, vals[0], b)
        ip.store(st, vals[1], a)
        return ip.zst(dty)
    if n == 'raw_eq':
        return rawequal(ip, st, ip.load(st, vals[0]), ip.load(st, vals[1]))
    if n == 'three_way_compare':
        a, b = vals
        if ip.need(st, ncmp(st, 'lt', a, b)):
            v = 0
        elif ip.need(st, ncmp(st, 'eq', a, b)):
            v = 1
        else:
            v = 2
        return I.Agg(dty, v, ())
    if n == 'discriminant_value':
        v = ip.load(st, vals[0])
        t = ip.T(v.ty)
        return ci(int(t['variants'][v.v]['discr']))
    raise I.Unsupported('intrinsic ' + n)


def rawequal(ip, st, a, b):
    I = _i()
    if isinstance(a, I.Arr) and isinstance(b, I.Arr) and len(a.e) == len(b.e):
        r = cb(1)
        for x, y in zip(a.e, b.e):
            r = band(r, rawequal(ip, st, x, y))
        return r
    if isinstance(a, N) and isinstance(b, N) and a.k == b.k and a.k in 'ib':
        return cmp('eq', a, b)
    raise I.Unsupported('raw_eq')


def guard_ub(ip, st, ok, what):
    ip.oblig('bounds')
    if not ip.need(st, ok):
        ip.event(st, 'out-of-bounds', what)
        raise _i().Dead()

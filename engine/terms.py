"""Hash-consed value terms with a canonical (normal) form.

The abstract domain of the analysis: every value computed by the analysed source
is represented by a term of a value graph.  Arithmetic is kept as polynomials over
atoms with rational exponents, booleans in negation normal form, tensor views as
composed index specifications; two pieces of code that compute the same value by
re-ordering, renaming, extracting helpers or re-associating produce the same term.
Nothing is ever evaluated numerically and no solver is involved.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'args', 'id', 'prov', 'hsh')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_TABLE = {}
_LIST = []
PROV = [None]          # current provenance, set by the interpreter: (file,line,func)
RANKS = {}             # term id -> rank (declared)


def _key(a):
    if isinstance(a, T):
        return ('T', a.id)
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    return (type(a).__name__, a)


def _q(f):
    return f.numerator if f.denominator == 1 else f


def mk(op, *args):
    if op == 'poly':
        k = (op, tuple([(tuple([(a.id, e) for a, e in m]), c) for m, c in args]))
    else:
        k = (op, tuple([('T', a.id) if type(a) is T else _key(a) for a in args]))
    t = _TABLE.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_LIST)
        t.prov = PROV[0]
        _LIST.append(t)
        _TABLE[k] = t
    elif t.prov is None and PROV[0] is not None:
        t.prov = PROV[0]
    return t


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk('undef')


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v:
            return mk('sym', 'nan')
        if v == float('inf'):
            return mk('sym', 'inf')
        if v == float('-inf'):
            return p_scale(mk('sym', 'inf'), -1)
        v = Fraction(repr(v))
    if isinstance(v, complex):
        return add(num(v.real), mul(num(v.imag), J))
    return mk('num', Fraction(v))


def sym(name):
    return mk('sym', name)


J = mk('J')
E = mk('sym', 'e')
PI = mk('sym', 'pi')
ZERO = num(0)
ONE = num(1)


def isnum(t):
    return t.op == 'num'


def isconst(t):
    return t.op == 'const'


def pyval(t):
    """python value of a constant term or raises"""
    if t.op == 'const':
        return t.args[0]
    if t.op == 'num':
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    raise ValueError('not a constant: %s' % show(t))


# ---------------------------------------------------------------- polynomials
# poly: dict  mono -> Fraction ;  mono: tuple of (atom, Fraction exp) sorted by atom id

def to_poly(t):
    if t.op == 'num':
        return {(): _q(t.args[0])} if t.args[0] else {}
    if t.op == 'poly':
        return {m: c for m, c in t.args}
    if t.op == 'const' and isinstance(t.args[0], bool):
        return {(): int(t.args[0])} if t.args[0] else {}
    if is_bool(t):
        return {((mk('ite', t, ONE, ZERO), 1),): 1}
    if t.op == 'pow1':           # should not happen
        raise AssertionError
    return {((t, 1),): 1}


def _mono_key(m):
    return tuple([(a.id, e) for a, e in m])


def _aid(ae):
    return ae[0].id


def from_poly(p):
    p = {m: (c if type(c) is int else _q(c)) for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    # broadcasting carriers: zeros tensors vanish inside sums
    if len(p) > 1:
        q = {m: c for m, c in p.items()
             if not any(a.op == 'zeros' for a, e in m)}
        if q and len(q) < len(p):
            rest = [a for m in q for a, e in m]
            wide = {m: c for m, c in p.items() if m not in q and
                    any(a.op == 'zeros' and _widens(a, rest) for a, e in m)}
            if not wide:
                return from_poly(q)
            if len(wide) + len(q) < len(p):
                return from_poly({**q, **wide})
    items = tuple(sorted(p.items(), key=lambda mc: _mono_key(mc[0])))
    return mk('poly', *items)


def _widens(z, rest):
    """the tensor of zeros or ones z has an axis that none of the other operands has (it serves to broadcast them)"""
    sz = shape_of(z)
    if sz is None:
        return False
    rest = [x for x in rest if x.op not in ('zeros', 'ones', 'num') and rank(x) != 0]
    ss = [shape_of(x) for x in rest]
    if not ss or any(x is None for x in ss):
        return False
    for k, d in enumerate(reversed(sz)):
        if d is not ONE or k >= max(map(len, ss)):
            have = [x[-1 - k] for x in ss if k < len(x)]
            if not have or d is not ONE and all(x is ONE for x in have):
                return True
    return False


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _isqrt_exact(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def _factor(n):
    fs = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            fs[d] = fs.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        fs[n] = fs.get(n, 0) + 1
    return fs


def num_pow(q, e):
    """q**e, q Fraction>0, e Fraction -> (coeff, mono dict)"""
    if e.denominator == 1:
        return Fraction(q) ** int(e), {}
    mono = {}
    coeff = 1
    parts = {}
    for n, s in ((q.numerator, 1), (q.denominator, -1)):
        for pfac, k in _factor(n).items():
            parts[pfac] = parts.get(pfac, 0) + s * k
    for pfac, k in parts.items():
        ex = e * k
        fl = ex.numerator // ex.denominator
        coeff *= Fraction(pfac) ** fl
        r = ex - fl
        if r:
            mono[num(pfac)] = r
    return coeff, mono


def _norm_mono(d):
    """dict atom->exp  ->  (coeff, mono tuple, extra_poly or None); merges powers, J, numbers"""
    coeff = 1
    out = {}
    pows = {}
    extra = None
    for a, e in d.items():
        if not e:
            continue
        if a is J:
            if e.denominator != 1:
                out[a] = e
                continue
            k = int(e) % 4
            if k == 1:
                out[J] = 1
            elif k == 2:
                coeff = -coeff
            elif k == 3:
                coeff = -coeff
                out[J] = 1
        elif a.op == 'num':
            c, m = num_pow(a.args[0], e)
            coeff *= c
            for x, r in m.items():
                out[x] = out.get(x, 0) + r
        elif a.op == 'pow':
            base, ex = a.args
            pows[base] = padd(pows.get(base, {}), to_poly(ex), e)
        elif a.op == 'ones':
            pass
        elif a.op == 'ite' and e > 0 and e != 1 and isnum(a.args[1]) and isnum(a.args[2]) \
                and {a.args[1].args[0], a.args[2].args[0]} <= {0, 1}:
            out[a] = 1
        else:
            out[a] = out.get(a, 0) + e
    # renormalise numeric radicals that overflow 1
    for a in [x for x in out if x.op == 'num']:
        e = out[a]
        if e >= 1 or e < 0:
            c, m = num_pow(a.args[0], e)
            coeff *= c
            del out[a]
            for x, r in m.items():
                out[x] = out.get(x, 0) + r
    if not out and not pows and any(a.op == 'ones' for a in d):
        o = next(a for a in d if a.op == 'ones')
        out[o] = 1
    else:
        for o in d:
            if o.op == 'ones' and _widens(o, [a for a in out if a is not o] + list(pows)):
                out[o] = 1
    for base, ex in pows.items():
        t = powt(base, from_poly(ex))
        tp = to_poly(t)
        if len(tp) == 1:
            (m, c), = tp.items()
            coeff *= c
            for x, r in m:
                out[x] = out.get(x, 0) + r
        elif not tp:
            return 0, (), None
        else:
            extra = tp if extra is None else pmul(extra, tp)
    mono = tuple(sorted([(a, _q(e)) for a, e in out.items() if e], key=_aid))
    return coeff, mono, extra


_needs = ('pow', 'num', 'ones')


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                mono, c, extra = m2, c1 * c2, None
            elif not m2:
                mono, c, extra = m1, c1 * c2, None
            else:
                d = dict(m1)
                special = any(a is J or a.op in _needs for a in d)
                for a, e in m2:
                    if a in d:
                        d[a] += e
                        if a.op == 'ite':
                            special = True
                    else:
                        d[a] = e
                    if a is J or a.op in _needs:
                        special = True
                if special:
                    cc, mono, extra = _norm_mono(d)
                    c = c1 * c2 * cc
                else:
                    mono = tuple(sorted([(a, _q(e)) for a, e in d.items() if e], key=_aid))
                    c, extra = c1 * c2, None
            # a sum atom whose exponent became a positive integer is expanded
            big = [(a, e) for a, e in mono if a.op == 'poly' and e > 0 and e.denominator == 1]
            if big:
                rest = tuple((a, e) for a, e in mono if not (a.op == 'poly' and e > 0 and e.denominator == 1))
                acc = {rest: c}
                for a, e in big:
                    for _ in range(int(e)):
                        acc = pmul(acc, to_poly(a))
                if extra:
                    acc = pmul(acc, extra)
                r = padd(r, acc)
            elif extra:
                r = padd(r, pmul({mono: c}, extra))
            else:
                v = r.get(mono, 0) + c
                if v:
                    r[mono] = v
                else:
                    r.pop(mono, None)
    return r


def add(*ts):
    p = {}
    for t in ts:
        p = padd(p, to_poly(t))
    return from_poly(p)


def sub(a, b):
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def p_scale(a, k):
    return from_poly({m: c * k for m, c in to_poly(a).items()})


EXPAND_LIMIT = 4000


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    p, q = to_poly(a), to_poly(b)
    for u, v in ((p, q), (q, p)):
        if len(u) > 1 and len(v) == 1:
            (m, c), = v.items()
            if any(x.op == 'poly' for x, e in m):
                lc, common, prim = _content(u)
                first = sorted(prim.items(), key=lambda mc: _mono_key(mc[0]))[0][1]
                if first < 0:
                    prim = {mm: -cc for mm, cc in prim.items()}
                    lc = -lc
                pt = from_poly(prim)
                if any(x is pt for x, e in m):
                    d = dict(m)
                    d[pt] += 1
                    for x, e in common.items():
                        d[x] = d.get(x, 0) + e
                    k, mono, extra = _norm_mono(d)
                    return from_poly(pmul(_expand_poly(mono, k * lc * c), extra or {(): 1}))
    if len(p) * len(q) > EXPAND_LIMIT:
        # too large to expand: keep as product atoms
        d = {}
        for t in (a, b):
            for x, e in (_as_single(t)):
                d[x] = d.get(x, 0) + e
        c, m, ex = _norm_mono(d)
        return from_poly({m: c})
    return from_poly(pmul(p, q))


def _as_single(t):
    p = to_poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return list(m) + ([(num(c), 1)] if c != 1 else [])
    return [(t, 1)]


def _content(p):
    """split poly into (coeff, monomial dict, primitive poly)"""
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    # common monomial
    common = None
    for m, c in items:
        d = {a: e for a, e in m if a.op != 'pow'}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items()
                      if a in d and (e > 0) == (d[a] > 0)}
            common = {a: (e) for a, e in common.items()}
        if not common:
            break
    common = {a: e for a, e in (common or {}).items() if e and a is not J}
    lead = items[0][1]
    q = {}
    for m, c in items:
        d = dict(m)
        for a, e in common.items():
            d[a] = d[a] - e
        mono = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
        q[mono] = q.get(mono, 0) + Fraction(c) / abs(lead)
    return abs(lead), common, q


def powt(a, b):
    """a ** b"""
    if b.op == 'num':
        e = b.args[0]
        return _pow_rat(a, e)
    if a is ONE:
        return ONE
    eb = to_poly(b)
    # a = base^x  ->  base^(x*b)
    if a.op == 'pow':
        return powt(a.args[0], mul(a.args[1], b))
    pa = to_poly(a)
    cst = eb.get((), 0)
    rest = from_poly({m: c for m, c in eb.items() if m})
    # c^(log_b...) simplification: e^(log x) = x ; 10^(k*log x/log 10)=x^k
    lin = _log_exponent(a, rest)
    if lin is not None:
        r = lin
    elif len(pa) == 1 and a.op == 'poly':
        (m, c), = pa.items()
        r = ONE
        if c != 1:
            if c > 0:
                r = mk('pow', num(c), rest)
                for at, e in m:
                    r = mul(r, powt(at, p_scale(rest, e)))
            else:
                r = mk('pow', a, rest)
        else:
            for at, e in m:
                r = mul(r, powt(at, p_scale(rest, e)))
    else:
        r = mk('pow', a, rest)
    if cst:
        r = mul(r, _pow_rat(a, cst))
    return r


def _log_exponent(base, ex):
    """base**ex where ex = c * log(x) [* 1/log(base)]; returns x**c"""
    p = to_poly(ex)
    if len(p) != 1:
        return None
    (m, c), = p.items()
    logs = [(a, e) for a, e in m if a.op == 'log' and e == 1]
    if base is E:
        if len(m) == 1 and len(logs) == 1:
            return _pow_rat(logs[0][0].args[0], c)
        return None
    lb = log(base)
    d = dict(m)
    if d.get(lb) == -1 and len(m) == 2 and len(logs) == 1 and logs[0][0] is not lb:
        return _pow_rat(logs[0][0].args[0], c)
    return None


def _pow_rat(a, e):
    e = _q(Fraction(e))
    if e == 0:
        return ONE
    if e == 1:
        return a if not is_bool(a) else from_poly(to_poly(a))
    p = to_poly(a)
    if not p:
        if e > 0:
            return ZERO
        return mk('div0')
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        coeff = 1
        if e.denominator == 1:
            coeff = Fraction(c) ** int(e)
            for at, ex in m:
                d[at] = ex * e
        else:
            # even integer powers under a root must not be cancelled (|x|)
            if any(at is J for at, ex in m) or c < 0 or \
               any(ex.denominator == 1 and int(ex) % 2 == 0 and not _nonneg(at) for at, ex in m):
                if len(m) == 1 and c > 0 and m[0][0] is not J:
                    at, ex = m[0]
                    if (e * ex).denominator == 1 and (e*ex) == 1:
                        cc, mm = num_pow(c, e)
                        mm = dict(mm); mm[absv(at)] = 1
                        k, mono, extra = _norm_mono(mm)
                        return from_poly({mono: k * cc})
                return from_poly({((a, e),): 1})
            cc, mm = num_pow(c, e)
            coeff = cc
            d.update(mm)
            for at, ex in m:
                d[at] = d.get(at, 0) + ex * e
        k, mono, extra = _norm_mono(d)
        r = {mono: k * coeff}
        big = [(x, ex) for x, ex in mono if x.op == 'poly' and ex > 0 and ex.denominator == 1]
        if big:
            return _expand_mono(mono, k * coeff, extra)
        if extra:
            r = pmul(r, extra)
        return from_poly(r)
    if e.denominator == 1 and 0 < e <= 4 and len(p) ** int(e) <= EXPAND_LIMIT:
        r = {(): 1}
        for _ in range(int(e)):
            r = pmul(r, p)
        return from_poly(r)
    c, common, q = _content(p)
    if e.denominator != 1 and common:
        # only pull out known non-negative factors from roots
        keep = {x: ex for x, ex in common.items() if _nonneg(x)}
        if keep != common:
            # put back
            back = {x: ex for x, ex in common.items() if x not in keep}
            q = pmul(q, {tuple(sorted(back.items(), key=lambda ae: ae[0].id)): 1})
            common = keep
    if e.denominator == 1 and int(e) % 2 == 0 or e.denominator == 1:
        # sign-normalise
        first = sorted(q.items(), key=lambda mc: _mono_key(mc[0]))[0][1]
        if first < 0:
            q = {m: -x for m, x in q.items()}
            sgn = -1 if int(e) % 2 else 1
        else:
            sgn = 1
    else:
        sgn = 1
    cc, mm = num_pow(c, e)
    d = dict(mm)
    for x, ex in common.items():
        d[x] = d.get(x, 0) + ex * e
    prim = from_poly(q)
    if prim.op == 'poly':
        d[prim] = d.get(prim, 0) + e
        k, mono, extra = _norm_mono(d)
        return from_poly(pmul({mono: k * cc * sgn}, extra or {(): 1}))
    k, mono, extra = _norm_mono(d)
    return mul(from_poly({mono: k * cc * sgn}), _pow_rat(prim, e))


def _expand_poly(mono, coeff):
    return to_poly(_expand_mono(mono, coeff, None))


def _expand_mono(mono, coeff, extra):
    acc = {tuple((a, e) for a, e in mono if not (a.op == 'poly' and e > 0 and e.denominator == 1)): coeff}
    for a, e in mono:
        if a.op == 'poly' and e > 0 and e.denominator == 1:
            for _ in range(int(e)):
                acc = pmul(acc, to_poly(a))
    if extra:
        acc = pmul(acc, extra)
    return from_poly(acc)


def _nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('abs', 'pow', 'dim'):
        return True
    if t is PI or t is E:
        return True
    if t.op == 'log' and isnum(t.args[0]):
        return t.args[0].args[0] >= 1
    return False


def div(a, b):
    return mul(a, _pow_rat(b, -1))


def log(a):
    p = to_poly(a)
    if a is ONE:
        return ZERO
    if a is E:
        return ONE
    if a.op == 'pow':
        return mul(a.args[1], log(a.args[0]))
    if len(p) == 1 and (a.op == 'poly'):
        (m, c), = p.items()
        if c > 0:
            r = ZERO
            if c != 1:
                r = log(num(c))
            for at, e in m:
                r = add(r, p_scale(log(at), e))
            return r
        return mk('log', a)
    if a.op == 'num' and a.args[0] > 0:
        q = a.args[0]
        if q.denominator > 1 and q.numerator < q.denominator or q.denominator > 1:
            # log(p/q) = log p - log q over primes
            pass
        r = {}
        parts = {}
        for n, s in ((q.numerator, 1), (q.denominator, -1)):
            for f, k in _factor(n).items():
                parts[f] = parts.get(f, 0) + s * k
        for f, k in parts.items():
            if k:
                r[((mk('log', num(f)), 1),)] = Fraction(k)
        # collapse log 2 + log 5 pairs into log 10 for canonical log10
        return _log10_canon(r)
    return mk('log', a)


LOG10 = None


def _log10_canon(r):
    l2 = ((mk('log', num(2)), 1),)
    l5 = ((mk('log', num(5)), 1),)
    l10 = ((mk('log', num(10)), 1),)
    # express log 5 as log 10 - log 2
    if l5 in r:
        c = r.pop(l5)
        r[l10] = r.get(l10, 0) + c
        r[l2] = r.get(l2, 0) - c
    return from_poly(r)


def log10(a):
    return div(log(a), log(num(10)))


def _leading_neg(t):
    p = to_poly(t)
    if not p:
        return False
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    return items[0][1] < 0


_ODD = ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'sign')
_EVEN = ('cos', 'cosh')


def unary(op, a):
    if op in _ODD:
        if a is ZERO:
            return ZERO
        if _leading_neg(a):
            return neg(mk(op, neg(a)))
    if op in _EVEN:
        if a is ZERO:
            return ONE
        if _leading_neg(a):
            return mk(op, neg(a))
    return mk(op, a)


def absv(a):
    if isnum(a):
        return num(abs(a.args[0]))
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if m and (abs(c) != 1):
            return p_scale(absv(from_poly({m: 1})), abs(c))
    if _leading_neg(a):
        a = neg(a)
    if _nonneg(a):
        return a
    if a.op == 'abs':
        return a
    return mk('abs', a)


def minmax(op, ts):
    s = set()
    for t in ts:
        if t.op == op:
            s.update(t.args)
        else:
            s.add(t)
    nums = [t for t in s if isnum(t)]
    if len(nums) > 1:
        f = max if op == 'max' else min
        k = f(nums, key=lambda t: t.args[0])
        s -= set(nums)
        s.add(k)
    if len(s) == 1:
        return s.pop()
    # max(a,b) = -min(-a,-b): canonical: use 'min' only
    if op == 'max':
        return neg(minmax('min', [neg(t) for t in s]))
    if len(s) == 2 and any(isnum(t) for t in s):
        p, t = sorted(s, key=lambda t: not isnum(t))
        z = neg(t) if t.op == 'poly' and len(t.args) == 1 else None
        if z is not None and z.op == 'min' and len(z.args) == 2 and any(isnum(y) for y in z.args):
            # limits in either order: min(p, max(-q, z)) = max(-q, min(p, z)) for -q <= p
            q, z = sorted(z.args, key=lambda y: not isnum(y))
            m = neg(z)
            if p.args[0] + q.args[0] >= 0 and (p.args[0] < q.args[0] or p is q and m.id < z.id):
                return neg(mk('min', *sorted((q, neg(mk('min', *sorted((p, m))))))))
    return mk('min', *sorted(s))


def cplx(re, im):
    # recognise e^{ix}
    pr, pi_ = to_poly(re), to_poly(im)
    if len(pr) == 1 and len(pi_) == 1:
        (mr, cr), = pr.items()
        (mi, ci), = pi_.items()
        cosr = [a for a, e in mr if a.op == 'cos' and e == 1]
        for a in cosr:
            s = mk('sin', a.args[0])
            rest_r = tuple(x for x in mr if x[0] is not a)
            rest_i = tuple(x for x in mi if x[0] is not s)
            if len(rest_i) < len(mi) and rest_r == rest_i and abs(cr) == abs(ci):
                x = a.args[0]
                if cr == -ci:
                    x = neg(x)
                return mul(from_poly({rest_r: cr}), powt(E, mul(J, x)))
    return add(re, mul(J, im))


# ---------------------------------------------------------------- booleans
_BOOL_OPS = {'not', 'and', 'or', 'gt0', 'eq0', 'eq', 'is', 'isinstance', 'in', 'boolsym',
             'bern', 'isnan', 'any', 'all', 'bview', 'hasattr', 'iteb', 'truthy', 'haskey', 'booltensor'}


def is_bool(t):
    if t.op == 'const':
        return isinstance(t.args[0], bool)
    if t.op in ('index', 'transpose', 'tile', 'bcast', 'reshape', 'gather', 'fill'):
        k = t.args[1] if t.op == 'fill' else t.args[0]
        return isinstance(k, T) and is_bool(k)
    return t.op in _BOOL_OPS


def bnot(a):
    a = as_bool(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return bor(*[bnot(x) for x in a.args])
    if a.op == 'or':
        return band(*[bnot(x) for x in a.args])
    return mk('not', a)


BOOLEAN = set()          # symbols of boolean tensors


def as_bool(t):
    if is_bool(t):
        return t
    if t.op == 'const':
        return const(bool(t.args[0]))
    if t.op == 'num':
        return const(bool(t.args[0]))
    if t.op in ('list', 'tuple'):
        return const(len(t.args) > 0)
    if t.op == 'ite':
        a, b = as_bool(t.args[1]), as_bool(t.args[2])
        return bor(band(t.args[0], a), band(bnot(t.args[0]), b))
    if t.op in ('sym', 'attr', 'call', 'item'):
        return mk('truthy', t)
    return mk('truthy', t)


def band(*ts):
    s = set()
    for t in ts:
        t = as_bool(t)
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        if t.op == 'and':
            s.update(t.args)
        else:
            s.add(t)
    for t in s:
        if bnot(t) in s:
            return FALSE
    # absorption
    for t in list(s):
        if t.op == 'or' and any(x in s for x in t.args):
            s.discard(t)
        elif t.op == 'or':
            rem = [x for x in t.args if bnot(x) not in s]
            if len(rem) < len(t.args):
                s.discard(t)
                return band(*(list(s) + [bor(*rem)]))
    if not s:
        return TRUE
    if len(s) == 1:
        return s.pop()
    return mk('and', *sorted(s))


def bor(*ts):
    s = set()
    for t in ts:
        t = as_bool(t)
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        if t.op == 'or':
            s.update(t.args)
        else:
            s.add(t)
    for t in s:
        if bnot(t) in s:
            return TRUE
    for t in list(s):
        if t.op == 'and' and any(x in s for x in t.args):
            s.discard(t)
        elif t.op == 'and':
            rem = [x for x in t.args if bnot(x) not in s]
            if len(rem) < len(t.args):
                s.discard(t)
                return bor(*(list(s) + [band(*rem)]))
    if not s:
        return FALSE
    if len(s) == 1:
        return s.pop()
    return mk('or', *sorted(s))


def _uniform(x):
    while x.op in ('at', 'index'):
        x = x.args[0]
    return x.op == 'rand' and x.args[0] is const('uniform')


def gt0(t):
    """t > 0"""
    if isnum(t):
        return const(t.args[0] > 0)
    p = to_poly(t)
    if not p:
        return FALSE
    if len(p) <= 2 and any(m for m in p) and all(not m or len(m) == 1 and m[0][1] == 1 and _uniform(m[0][0]) for m in p):
        # draws of [0, 1)
        k = p.get((), 0)
        c = [x for m, x in p.items() if m]
        if len(c) == 1:
            if c[0] < 0 and k <= 0 or c[0] > 0 and k <= -c[0]:
                return FALSE
            if c[0] < 0 and k >= -c[0] or c[0] > 0 and k > 0:
                return TRUE
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    # scale by non-constant leading coefficient
    lead = next((c for m, c in items if m), None)
    if lead is not None and abs(lead) != 1:
        t = p_scale(t, 1 / abs(Fraction(lead)))
    # boolean lifted into arithmetic:  cast(b) > 0
    return mk('gt0', t)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return bnot(gt0(sub(a, b)))


def _is_numeric(t):
    return t.op in ('num', 'poly', 'pow', 'dim', 'abs', 'min', 'log', 'sin', 'cos')


def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and (y.op in ('num', 'poly', 'list', 'tuple')):
            if not (isinstance(x.args[0], bool)):
                return FALSE
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] == b.args[0])
    if isnum(a) and isnum(b):
        return const(a.args[0] == b.args[0])
    if a.op == 'const' or b.op == 'const':
        for x, y in ((a, b), (b, a)):
            if x is TRUE and is_bool(y):
                return y
            if x is FALSE and is_bool(y):
                return bnot(y)
            if y.op == 'ite':
                return bor(band(y.args[0], eq(x, y.args[1])), band(bnot(y.args[0]), eq(x, y.args[2])))
        return mk('eq', *sorted((a, b)))
    if is_bool(a) and is_bool(b):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    d = sub(a, b)
    if d is ZERO:
        return TRUE
    if isnum(d):
        return FALSE
    p = to_poly(d)
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = next((c for m, c in items if m), 1)
    return mk('eq0', p_scale(d, 1 / Fraction(lead)))


def ite(c, a, b):
    c = as_bool(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if is_bool(a) and is_bool(b):
        return bor(band(c, a), band(bnot(c), b))
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a is b:
        return a
    if c.op == 'eq0' and isnum(b) and not is_bool(a) and a.op in ('sym', 'attr') and c.args[0].op == 'poly' and \
            rank(a) == 0:
        # x == k ? x : k
        d = sub(a, b)
        if c.args[0] is d or c.args[0] is neg(d):
            return b
    return mk('ite', c, a, b)


def _assume(t, c, v):
    while t.op == 'ite' and t.args[0] is c:
        t = t.args[1] if v else t.args[2]
    return t


# ---------------------------------------------------------------- views
FULL = ('s', None, None, None)
NEW = ('n',)
ELL = ('e',)


SHAPES = {}            # term id -> tuple of dimension terms
_NOSHAPE = {}
_VERSION = [0]


def declare_shape(t, dims):
    SHAPES[t.id] = tuple(dims)
    RANKS[t.id] = len(dims)
    for d in dims:
        if d.op == 'sym':
            RANKS.setdefault(d.id, 0)
            SHAPES.setdefault(d.id, ())
    _VERSION[0] += 1


def declare_rank(t, r):
    RANKS[t.id] = r
    if r == 0:
        SHAPES[t.id] = ()
    _VERSION[0] += 1


def rank(t):
    r = RANKS.get(t.id)
    if r is not None:
        return r
    s = shape_of(t)
    if s is None:
        return None
    RANKS[t.id] = len(s)
    return len(s)


def shape_of(t):
    s = SHAPES.get(t.id)
    if s is not None:
        return s
    r = RANKS.get(t.id)
    if r is None and _NOSHAPE.get(t.id) == _VERSION[0]:
        return None
    s = _shape(t)
    if s is None and r is not None:
        s = tuple(mk('dim', t, num(i)) for i in range(r))
    if s is None:
        _NOSHAPE[t.id] = _VERSION[0]
    else:
        SHAPES[t.id] = s
    return s


def _bdim(a, b):
    if a is b or b is ONE:
        return a
    if a is ONE:
        return b
    if isnum(a):
        return a
    if isnum(b):
        return b
    if a.op == 'dim' and b.op != 'dim':
        return b
    if b.op == 'dim' and a.op != 'dim':
        return a
    return min(a, b)


def broadcast_shapes(ss):
    out = ()
    for s in ss:
        if s is None:
            return None
        if len(s) > len(out):
            out, s = s, out
        k = len(out) - len(s)
        out = out[:k] + tuple(_bdim(x, y) for x, y in zip(out[k:], s))
    return out


def shape_value(sh):
    """dimension terms of a shape-valued term, or None"""
    if sh.op in ('list', 'tuple'):
        return tuple(sh.args)
    if sh.op == 'shape':
        return shape_of(sh.args[0])
    if sh.op == 'shapecat' or sh.op == 'concat' and sh.args[0].op == 'list' and sh.args[1] in (ZERO, num(-1)):
        out = ()
        for x in sh.args if sh.op == 'shapecat' else sh.args[0].args:
            v = shape_value(x)
            if v is None:
                return None
            out += v
        return out
    if sh.op in ('ones', 'zeros'):
        v = shape_value(sh.args[0])
        if v and len(v) == 1 and isnum(v[0]):
            return (ONE if sh.op == 'ones' else ZERO,) * int(v[0].args[0])
        return None
    if isnum(sh) or sh.op in ('dim',):
        return (sh,)
    if sh.op == 'sym' and RANKS.get(sh.id) == 0:
        return (sh,)
    return None


_ELEMWISE = ('uf', 'not', 'and', 'or', 'gt0', 'eq0', 'eq', 'ite', 'pow', 'log', 'sin', 'cos', 'tan', 'atan', 'asin',
             'acos', 'atan2', 'abs', 'min', 'floor', 'ceil', 'real', 'imag', 'angle', 'conj', 'mod', 'j1',
             'floordiv', 'toint', 'wrap360', 'sign', 'truthy', 'stop_gradient', 'sinh', 'cosh', 'tanh', 'fmod',
             'round', 'isnan', 'occ', 'sinc')


def _axis(ax, r):
    if isnum(ax):
        return int(ax.args[0]) % r if r else int(ax.args[0])
    return None


def _shape(t):
    op = t.op
    if op in ('num', 'J', 'const', 'dim', 'slen', 'undef', 'size', 'len', 'rank', 'isinstance', 'hasattr', 'is', 'in',
              'str', 'cat', 'tv', 'bv', 'ix', 'at', 'sumk', 'maxk', 'anyk', 'sel', 'path', 'format'):
        return ()
    if op == 'sym' and t.args[0] in ('pi', 'e', 'c', 'inf', 'nan'):
        return ()
    if op == 'poly':
        ss = []
        for m, c in t.args:
            for a, e in m:
                k = shape_of(a)
                if k is None:
                    return None
                ss.append(k)
        return broadcast_shapes(ss)
    if op in _ELEMWISE:
        return broadcast_shapes([shape_of(a) for a in t.args if isinstance(a, T)])
    if op == 'index':
        s = shape_of(t.args[0])
        if s is None:
            return None
        spec = t.args[1]
        if ELL in spec:
            k = spec.index(ELL)
            used = sum(1 for it in spec if it[0] in ('s', 'i', 'a'))
            spec = spec[:k] + (FULL,) * max(len(s) - used, 0) + spec[k + 1:]
        out = []
        i = 0
        for it in spec:
            if it[0] == 'n':
                out.append(ONE)
                continue
            if i >= len(s):
                return None
            d = s[i]
            i += 1
            if it == FULL:
                out.append(d)
            elif it[0] == 's':
                out.append(_slice_len(d, it))
            elif it[0] == 'i':
                k = shape_of(it[1])
                if k is None:
                    continue
                out.extend(k)
            else:
                k = shape_of(it[1])
                if k is None:
                    return None
                out.extend(k)
        return tuple(out) + s[i:]
    if op == 'transpose':
        s = shape_of(t.args[0])
        if s is None:
            return None
        if t.args[1] is NONE:
            return s[::-1]
        if t.args[1].op == 'list' and all(isnum(a) for a in t.args[1].args) and len(t.args[1].args) == len(s):
            return tuple(s[int(a.args[0])] for a in t.args[1].args)
        return tuple(mk('dim', t, num(i)) for i in range(len(s)))
    if op == 'mT':
        s = shape_of(t.args[0])
        return None if s is None or len(s) < 2 else s[:-2] + (s[-1], s[-2])
    if op in ('sort', 'argsort', 'roll', 'op:cumsum', 'cumsum', 'op:cholesky', 'op:sqrtm', 'op:reverse',
              'op:scan', 'op:random_shuffle', 'op:tensor_scatter_nd_update'):
        return shape_of(t.args[0])
    if op == 'tile':
        s, m = shape_of(t.args[0]), shape_value(t.args[1])
        if m is None:
            return None
        if s is None:
            return None
        if len(s) != len(m):
            return None
        return tuple(d if k is ONE else (k if d is ONE else mul(d, k)) for d, k in zip(s, m))
    if op in ('list', 'tuple'):
        if not t.args:
            return (ZERO,)
        ss = [shape_of(a) for a in t.args]
        k = broadcast_shapes(ss)
        return None if k is None else (num(len(t.args)),) + k
    if op == 'range':
        n = sub(t.args[1], t.args[0]) if t.args[2] is ONE else mk('dim', t, ZERO)
        return (n,)
    if op == 'eye':
        b = shape_value(t.args[2]) if t.args[2] is not NONE else ()
        return None if b is None else b + (t.args[0], t.args[1])
    if op == 'matmul':
        a, b = shape_of(t.args[0]), shape_of(t.args[1])
        if a is None or b is None or len(a) < 2 or len(b) < 2:
            return None
        k = broadcast_shapes([a[:-2], b[:-2]])
        return k + (a[-2], b[-1])
    if op == 'gather' and isnum(t.args[3]):
        a, i = shape_of(t.args[0]), shape_of(t.args[1])
        if a is None or i is None:
            return None
        bd = int(t.args[3].args[0])
        ax = _axis(t.args[2], len(a))
        if ax is None:
            return None
        return a[:ax] + i[bd:] + a[ax + 1:]
    if op == 'stack':
        k = broadcast_shapes([shape_of(a) for a in t.args[0].args])
        if k is None:
            return None
        ax = _axis(t.args[1], len(k) + 1)
        if ax is None:
            return None
        return k[:ax] + (num(len(t.args[0].args)),) + k[ax:]
    if op == 'concat':
        if t.args[0].op != 'list':
            return None
        ss = [shape_of(a) for a in t.args[0].args]
        known = [x for x in ss if x is not None]
        if not known:
            return None
        ax = _axis(t.args[1], len(known[0]))
        if ax is None or len(known) < len(ss):
            return tuple(mk('dim', t, num(i)) for i in range(len(known[0])))
        return tuple(add(*[x[i] for x in ss]) if i == ax else known[0][i] for i in range(len(known[0])))
    if op in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_mean', 'any', 'all', 'reduce_prod'):
        s = shape_of(t.args[0])
        ax = t.args[1]
        if ax is NONE:
            return ()
        if s is None:
            return None
        if isnum(ax):
            k = {int(ax.args[0]) % len(s) if s else 0}
        elif ax.op in ('list', 'tuple') and all(isnum(a) for a in ax.args):
            k = {int(a.args[0]) % len(s) for a in ax.args}
        else:
            return None
        return tuple(d for i, d in enumerate(s) if i not in k)
    if op == 'rand':
        return shape_value(t.args[1])
    if op in ('zeros', 'ones', 'fill', 'bcast', 'reshape'):
        sh = shape_value(t.args[0] if op in ('zeros', 'ones', 'fill') else t.args[1])
        if op == 'reshape' and sh is not None and num(-1) in sh:
            sh = _infer_minus1(shape_of(t.args[0]), sh)
        return sh
    if op == 'scatter_nd':
        return shape_value(t.args[2])
    if op == 'truthy':
        return shape_of(t.args[0])
    return None


def _infer_minus1(s, sh):
    """reshape target with its -1 resolved"""
    k = [i for i, d in enumerate(sh) if d is num(-1)]
    if s is None or len(k) != 1:
        return tuple(d if d is not num(-1) else mk('rdim', mk('list', *(s or ())), mk('list', *sh)) for d in sh)
    r = ONE
    for d in s:
        r = mul(r, d)
    for d in sh:
        if d is not num(-1):
            r = div(r, d)
    return sh[:k[0]] + (r,) + sh[k[0] + 1:]


def _slice_len(d, it):
    a, b, c = it[1:]
    if c is not None and c is not ONE:
        if isnum(d) and all(v is None or isnum(v) for v in (a, b, c)):
            return num(len(range(int(d.args[0]))[slice(*[None if v is None else int(v.args[0]) for v in (a, b, c)])]))
        if c is num(-1) and a is None and b is None:
            return d
        return mk('slen', d, *(NONE if v is None else v for v in (a, b, c)))
    if isnum(d) and all(v is None or isnum(v) for v in (a, b)):
        return num(len(range(int(d.args[0]))[slice(*[None if v is None else int(v.args[0]) for v in (a, b)])]))

    def absol(v):
        return add(d, v) if isnum(v) and v.args[0] < 0 else v
    lo = ZERO if a is None else absol(a)
    hi = d if b is None else absol(b)
    return sub(hi, lo)


def index(x, spec):
    """x[spec]; spec: tuple of items ('s',a,b,c)|('i',T)|('n',)|('e',)"""
    spec = tuple(spec)
    r = rank(x)
    if ELL in spec and r is not None:
        k = spec.index(ELL)
        used = sum(1 for it in spec if it[0] in ('s', 'i', 'a'))
        fill = max(r - used, 0)
        spec = spec[:k] + (FULL,) * fill + spec[k + 1:]
    while spec and (spec[-1] == FULL or spec[-1] == ELL):
        if spec[-1] == FULL and ELL in spec[:-1]:
            break
        spec = spec[:-1]
    if not spec or spec == (ELL,):
        return x
    if r == 0 and all(it[0] in 'ne' for it in spec):
        # broadcasting of a scalar
        return x
    if isnum(x):
        return x
    if x.op in ('list', 'tuple') and spec[0][0] in ('i', 's'):
        it = spec[0]
        try:
            if it[0] == 'i' and isnum(it[1]):
                return index(x.args[int(pyval(it[1]))], spec[1:])
            if it[0] == 's':
                sl = slice(*[None if v is None else int(pyval(v)) for v in it[1:]])
                sel = x.args[sl]
                if len(spec) > 1:
                    sel = tuple(_new_axes(s, spec[1:]) for s in sel)
                return mk('list', *sel)
        except (ValueError, IndexError):
            pass
    if x.op == 'shape' and len(spec) == 1 and spec[0][0] == 'i' and isnum(spec[0][1]):
        return dim(x.args[0], spec[0][1])
    if x.op == 'ite':
        # index commutes with selection when the condition has the same rank or is scalar
        c = x.args[0]
        rc = rank(c)
        if rc is not None and rc == 0:
            return ite(c, index(x.args[1], spec), index(x.args[2], spec))
    # push through elementwise structure
    if x.op in _UNARY_EL or _sliced_alike(x, spec):
        y = _push_view(x, lambda a: index(a, spec))
        if y is not None:
            return y
    if x.op == 'index':
        c = _compose(x.args[1], spec)
        if c is not None:
            return index(x.args[0], c)
    return mk('index', x, spec)


def _new_axes(x, spec):
    """index of an element of a literal tensor: a scalar becomes a literal tensor of size one"""
    if rank(x) == 0 and all(it[0] in 'ne' for it in spec):
        for it in spec:
            if it[0] == 'n':
                x = mk('list', x)
        return x
    return index(x, spec)


def _sliced_alike(x, spec):
    """no operand of the elementwise operation x is broadcast along an axis that spec touches"""
    if ELL in spec:
        return False
    ops = [a for m, c in x.args for a, e in m] if x.op == 'poly' else [a for a in x.args if isinstance(a, T)]
    ops = {a.id: a for a in ops if rank(a) != 0}
    if len(ops) <= 1:
        return True
    touched, k = [], 0
    for it in spec:
        if it[0] in 'ne':
            continue
        if it != FULL:
            touched.append(k)
        k += 1
    if not touched:
        return True
    shapes = [shape_of(a) for a in ops.values()]
    if any(z is None for z in shapes):
        return False
    return all(len({z[k].id for z in shapes if k < len(z)}) <= 1 for k in touched)


_UNARY_EL = ('log', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'abs', 'not', 'gt0', 'eq0', 'floor', 'ceil',
             'wrap360', 'conj', 'real', 'imag', 'angle', 'toint', 'j1', 'sign')


def _push_view(x, f, allnew=False):
    """push a view function inside elementwise operations when ranks agree"""
    if x.op == 'poly':
        atoms = [a for m, c in x.args for a, e in m]
        ranks = [rank(a) for a in atoms]
        known = [r for r in ranks if r is not None and r > 0]
        nz = [a for a, r in zip(atoms, ranks) if r != 0]
        uniq = {a.id for a in nz}
        if len(uniq) <= 1 or (len(set(known)) == 1 and all(r is not None for r in ranks)):
            p = {}
            for m, c in x.args:
                t = num(c)
                for a, e in m:
                    b = a if rank(a) == 0 else f(a)
                    t = mul(t, _pow_rat(b, e))
                p = padd(p, to_poly(t))
            return from_poly(p)
        return None
    if x.op in _UNARY_EL:
        a = f(x.args[0])
        return rebuild(x.op, (a,))
    if x.op == 'pow':
        b, e = x.args
        if rank(b) == 0:
            return powt(b, f(e))
        return None
    if x.op in ('and', 'or', 'ite', 'min', 'atan2', 'mod'):
        ranks = [rank(a) for a in x.args]
        known = {r for r in ranks if r is not None and r > 0}
        if all(r is not None for r in ranks) and len(known) == 1:
            return rebuild(x.op, tuple(a if rank(a) == 0 else f(a) for a in x.args))
        return None
    return None


def _compose(s1, s2):
    """spec of x[s1][s2] as a single spec, or None"""
    if ELL in s1 or ELL in s2:
        # only handle trailing additions of newaxis:  (...,n)(...,n)
        if s1[0] == ELL and s2[0] == ELL and all(it[0] == 'n' for it in s1[1:]) \
                and all(it[0] == 'n' for it in s2[1:]):
            return s1 + s2[1:]
        return None
    out = []
    i = 0
    s1 = list(s1)
    pend = []

    def emit_ints():
        nonlocal i
        while i < len(s1) and s1[i][0] == 'i':
            out.append(s1[i])
            i += 1
    for it in s2:
        if it[0] == 'n':
            out.append(NEW)
            continue
        emit_ints()
        cur = s1[i] if i < len(s1) else FULL
        i += 1
        if it == FULL:
            out.append(cur)
        elif it[0] == 'i':
            if cur == FULL:
                out.append(it)
            elif cur == NEW:
                continue
            else:
                return None
        elif it[0] == 's':
            if cur == FULL:
                out.append(it)
            else:
                return None
        else:
            return None
    while i < len(s1):
        out.append(s1[i])
        i += 1
    return tuple(out)


def expand_dims(x, ax):
    if not isnum(ax):
        if ax.op in ('list', 'tuple') and len(ax.args) == 1:
            ax = ax.args[0]
        else:
            return mk('expand_dims', x, ax)
    k = int(ax.args[0])
    r = rank(x)
    if k < 0 and r is not None and r > 0:
        k = r + 1 + k
    if k >= 0:
        return index(x, (FULL,) * k + (NEW,))
    return index(x, (ELL, NEW) + (FULL,) * (-k - 1))


def transpose(x, perm):
    if perm is NONE:
        return mk('transpose', x, NONE)
    if perm.op in ('list', 'tuple') and all(isnum(p) for p in perm.args):
        p = [int(a.args[0]) for a in perm.args]
        if p == sorted(p):
            return x
        if rank(x) == 0:
            return x
        y = _push_view(x, lambda a: transpose(a, perm))
        if y is not None:
            return y
        if x.op == 'transpose' and x.args[1].op == 'list':
            q = [int(a.args[0]) for a in x.args[1].args]
            if len(q) == len(p):
                return transpose(x.args[0], mk('list', *[num(q[k]) for k in p]))
        r = len(p)
        t = mk('transpose', x, mk('list', *[num(k) for k in p]))
        RANKS.setdefault(t.id, r)
        return t
    return mk('transpose', x, perm)


def dim(x, i):
    """size of axis i of x"""
    sh = shape_of(x)
    if isnum(i):
        k = int(i.args[0])
        if sh is not None and -len(sh) <= k < len(sh):
            return sh[k]
        return mk('dim', x, num(k))
    return mk('dim', x, i)


def reduce(op, x, axis):
    """reduce_* with canonical axis (non-negative where rank known)"""
    r = rank(x)
    if axis.op in ('list', 'tuple'):
        if len(axis.args) == 1:
            axis = axis.args[0]
        elif r is not None and all(isnum(a) for a in axis.args):
            axis = mk('list', *sorted((num(int(a.args[0]) + (r if a.args[0] < 0 else 0)) for a in axis.args),
                                      key=lambda t: t.args[0]))
        elif all(isnum(a) for a in axis.args):
            axis = mk('list', *sorted(axis.args, key=lambda t: t.args[0]))
    if isnum(axis) and axis.args[0] < 0 and r is not None:
        axis = num(int(axis.args[0]) + r)
    if op in ('reduce_sum', 'reduce_mean'):
        p = to_poly(x)
        if len(p) == 1 and x.op == 'poly':
            (m, c), = p.items()
            sc = tuple((a, e) for a, e in m if rank(a) == 0)
            ns = tuple((a, e) for a, e in m if rank(a) != 0)
            if ns and (c != 1 or sc):
                return mul(from_poly({sc: c}), reduce(op, from_poly({ns: 1}), axis))
    if op in ('reduce_max', 'reduce_min') and x.op == 'list' and (axis is NONE) and \
            all(rank(a) == 0 or a.op in ('sym', 'item', 'attr') for a in x.args):
        return minmax('max' if op == 'reduce_max' else 'min', list(x.args))
    return mk(op, x, axis)


def concat(items, axis):
    r = None
    for a in items:
        k = rank(a)
        if k is not None:
            r = k
            break
    if isnum(axis) and axis.args[0] < 0 and r:
        axis = num(int(axis.args[0]) + r)
    if isnum(axis) and axis.args[0] == 0 and all(a.op in ('list', 'tuple') for a in items):
        return mk('list', *[x for a in items for x in a.args])
    if axis is ZERO or axis is num(-1):
        items = [mk('list', *([ZERO if a.op == 'zeros' else ONE] * int(a.args[0].args[0].args[0])))
                 if a.op in ('zeros', 'ones') and a.args[0].op == 'list' and len(a.args[0].args) == 1
                 and isnum(a.args[0].args[0]) else a for a in items]
        if all(a.op in ('list', 'tuple') for a in items) and all(rank(a) == 1 for a in items):
            return mk('list', *[x for a in items for x in a.args])
    flat = []
    for a in items:
        if a.op == 'concat' and a.args[1] is axis:
            flat.extend(a.args[0].args)
        else:
            flat.append(a)
    if len(flat) == 1:
        return flat[0]
    return mk('concat', mk('list', *flat), axis)


def stack(items, axis):
    r = None
    for a in items:
        k = rank(a)
        if k is not None and k > 0:
            r = k
            break
    if isnum(axis):
        k = int(axis.args[0])
        if all(rank(a) == 0 for a in items) and k in (0, -1):
            return mk('list', *items)
        if k < 0 and r is not None:
            k = r + 1 + k
        ax = num(k)
    else:
        ax = axis
    t = mk('stack', mk('list', *items), ax)
    if r is not None:
        RANKS.setdefault(t.id, r + 1)
    return t


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, args):
    if op == 'poly':
        p = {}
        for m, c in args:
            t = num(c)
            for a, e in m:
                t = mul(t, _pow_rat(a, e))
            p = padd(p, to_poly(t))
        return from_poly(p)
    if op == 'sel':
        if isnum(args[0]) and args[0].args[0].denominator == 1 and 0 <= args[0].args[0] < len(args) - 1:
            return args[1 + int(args[0].args[0])]
        if len(args) > 1 and all(a is args[1] for a in args[2:]):
            return args[1]
        return mk(op, *args)
    if op == 'pow':
        return powt(*args)
    if op == 'log':
        return log(*args)
    if op in ('sin', 'cos', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'cosh', 'sign'):
        return unary(op, *args)
    if op == 'abs':
        return absv(*args)
    if op == 'min':
        return minmax('min', list(args))
    if op == 'not':
        return bnot(*args)
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    if op == 'gt0':
        return gt0(*args)
    if op == 'eq0':
        return eq(args[0], ZERO)
    if op == 'eq':
        return eq(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'index':
        return index(*args)
    if op == 'transpose':
        return transpose(*args)
    if op == 'dim':
        return dim(*args)
    if op in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_mean', 'reduce_prod'):
        return reduce(op, *args)
    if op == 'concat':
        return concat(list(args[0].args), args[1])
    if op == 'stack':
        return stack(list(args[0].args), args[1])
    if op == 'truthy':
        return as_bool(args[0])
    return mk(op, *args)


def subst(t, mapping, memo=None):
    """replace terms by terms, re-normalising"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in mapping:
            r = mapping[x]
        elif not x.args:
            r = x
        else:
            na = tuple(go(a) for a in x.args)
            r = x if na == x.args else rebuild(x.op, na)
        memo[x.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


# ---------------------------------------------------------------- printing
def _fs(f):
    if f.denominator == 1:
        return str(f.numerator)
    d = f.denominator
    while d % 10 == 0:
        d //= 10
    fl = float(f)
    return repr(fl) if Fraction(repr(fl)) == f else '%d/%d' % (f.numerator, f.denominator)


def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth < 0:
        return '…'
    d = depth - 1
    if t.op == 'num':
        return _fs(t.args[0])
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'const':
        return repr(t.args[0])
    if t.op == 'J':
        return '1j'
    if t.op == 'poly':
        ps = []
        for m, c in t.args:
            fs = []
            for a, e in m:
                s = show(a, d)
                if a.op == 'poly':
                    s = '(' + s + ')'
                if e != 1:
                    s += '^' + _fs(e)
                fs.append(s)
            if c != 1 or not fs:
                fs.insert(0, _fs(c))
            ps.append('*'.join(fs))
        return ' + '.join(ps)
    if t.op == 'pow':
        return '(%s)**(%s)' % (show(t.args[0], d), show(t.args[1], d))
    if t.op == 'index':
        def si(it):
            if it[0] == 's':
                return ':'.join('' if v is None else show(v, d) for v in it[1:3]) if it != FULL else ':'
            if it[0] == 'n':
                return 'None'
            if it[0] == 'e':
                return '...'
            return show(it[1], d)
        return show(t.args[0], d) + '[' + ','.join(si(i) for i in t.args[1]) + ']'
    if t.op == 'gt0':
        return '(%s > 0)' % show(t.args[0], d)
    if t.op == 'eq0':
        return '(%s == 0)' % show(t.args[0], d)
    if t.op == 'eq':
        return '(%s == %s)' % (show(t.args[0], d), show(t.args[1], d))
    if t.op in ('list', 'tuple'):
        return '[' + ', '.join(show(a, d) for a in t.args) + ']'
    return '%s(%s)' % (t.op, ', '.join(show(a, d) for a in t.args))

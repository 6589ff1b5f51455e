"""Pointwise denotation of tensor terms.

`elt(t, idx)` rewrites a tensor term into the scalar term found at the index
tuple `idx` (index terms may be free index variables).  Views, transposes,
broadcasts, stacking, gathering, matrix products and reductions all disappear
into index arithmetic and bound sums, so every way of writing the same tensor
computation denotes the same scalar term.
"""
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, num, const, ZERO, ONE, NONE, FULL, NEW, ELL, isnum, rank, shape_of, rebuild,
                    add, sub, mul, eq, ite, gt0, shape_value)

_memo = {}
_height = {}
_tv = [0]
PREFIX = 8            # constant-length prefixes of concatenations up to this size are written out
EXPLICIT = 4          # constant-length reductions up to this size are written out


class NoDenotation(Exception):
    pass


def ix(k):
    return mk('ix', k)


_BINDERS = ('sumk', 'maxk', 'mink', 'prodk', 'anyk', 'allk', 'lam')


def height(t):
    """largest bound-variable number in t"""
    if isinstance(t, tuple):
        return max([height(x) for x in t], default=0)
    if not isinstance(t, T):
        return 0
    h = _height.get(t.id)
    if h is None:
        if t.op == 'bv':
            h = t.args[0]
        else:
            h = max([height(x) for x in t.args], default=0)
        _height[t.id] = h
    return h


def fresh():
    _tv[0] += 1
    return mk('tv', _tv[0])


def bind(vs, body):
    """rename temporaries to canonical bound variables (levels counted from the leaves)"""
    h = height(body)
    mp = {}
    for i, v in enumerate(vs):
        mp[v] = mk('bv', h + 1 + i)
    return [mp[v] for v in vs], tm.subst(body, mp)


def contains(t, v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return any(contains(x, v, memo) for x in t)
    if not isinstance(t, T):
        return False
    if t is v:
        return True
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = any(contains(x, v, memo) for x in t.args)
    return r


def summation(n, v, body):
    """Σ_{v<n} body with linearity"""
    p = tm.to_poly(body)
    out = ZERO
    memo = {}
    groups = {}
    for m, c in p.items():
        inner = tuple((a, e) for a, e in m if contains(a, v, memo))
        outer = tuple((a, e) for a, e in m if not contains(a, v, memo))
        groups.setdefault(outer, {})
        groups[outer][inner] = groups[outer].get(inner, 0) + c
    for outer, inn in groups.items():
        o = tm.from_poly({outer: Fraction(1)})
        cst = inn.pop((), None)
        if cst:
            out = add(out, mul(mul(num(cst), n), o))
        for m, c in inn.items():
            sel = _selected(n, v, m)
            if sel is not None:
                for x in sel:
                    out = add(out, mul(mul(o, num(c)), x))
                continue
            b = tm.from_poly({m: Fraction(1)})
            (bv,), bb = bind([v], b)
            out = add(out, mul(mul(o, num(c)), mk('sumk', bv, n, bb)))
    return out


def _selected(n, v, m):
    """terms of Σ_v of a product containing an indicator of a single v or of a short constant range"""
    for a, e in m:
        if a.op != 'ite' or e != 1:
            continue
        c, x, y = a.args
        if y is not ZERO and x is not ZERO:
            continue
        pos = y is ZERO
        hits = None
        if c.op == 'eq0' and pos:
            p = dict(tm.to_poly(c.args[0]))
            cv = p.pop(((v, Fraction(1)),), None)
            if cv is None or any(contains(q, v) for mm in p for q, _ in mm):
                continue
            w = tm.from_poly({mm: Fraction(-k) / cv for mm, k in p.items()})
            if w.op in ('ix', 'tv', 'bv') or isnum(w) and w.args[0].denominator == 1 and w.args[0] >= 0:
                hits = [w]
        elif c.op == 'gt0':
            p = dict(tm.to_poly(c.args[0]))
            cv = p.pop(((v, Fraction(1)),), None)
            k = p.pop((), Fraction(0))
            if p or cv not in (1, -1):
                continue
            if cv == 1 and not pos and -k == int(-k):      # zero when v > -k
                hits = [num(i) for i in range(int(-k) + 1)] if -k < 16 else None
            elif cv == -1 and pos and k == int(k):         # non-zero when v < k
                hits = [num(i) for i in range(int(k))] if k <= 16 else None
        if hits is None or isnum(n) and any(isnum(h) and h.args[0] >= n.args[0] for h in hits):
            continue
        rest = mul(tm.from_poly({tuple(q for q in m if q[0] is not a): Fraction(1)}), x if pos else y)
        return [recanon(tm.subst(rest, {v: h})) for h in hits]
    return None


def lam(t):
    """closed form of a whole tensor argument of an opaque operator"""
    r = rank(t)
    if r is None:
        return mk(t.op, *[lam_arg(a) for a in t.args]) if t.args else t
    if r == 0:
        return elt(t, ())
    vs = [fresh() for _ in range(r)]
    bvs, body = bind(vs, elt(t, tuple(vs)))
    sh = shape_of(t)
    return mk('lam', mk('list', *bvs), mk('list', *[lowdim(d) for d in sh]), body)


def lowdim(d):
    return d


def lam_arg(a):
    if isinstance(a, T):
        if a.op in ('list', 'tuple') and not a.args:
            return a
        if a.op == 'list' and all(isnum(x) or x.op == 'const' for x in a.args):
            return a
        if a.op in ('list', 'tuple') and a.args and a.args[0].op == 'const':
            return mk('list', a.args[0], *[lam_arg(x) for x in a.args[1:]])
        return lam(a)
    if isinstance(a, tuple):
        return tuple(lam_arg(x) for x in a)
    return a


def align(t, idx):
    """index of a broadcast operand (right aligned, unit axes ignored)"""
    s = shape_of(t)
    if s is None:
        raise NoDenotation(t)
    if len(s) > len(idx):
        # more axes than the result: ill-formed broadcast
        raise NoDenotation(t)
    sub_ = idx[len(idx) - len(s):]
    return tuple(ZERO if d is ONE else i for d, i in zip(s, sub_))


def el(t, idx):
    return elt(t, align(t, idx))


_EL = set(tm._ELEMWISE)


def elt(t, idx):
    key = (t.id, tuple(i.id for i in idx))
    r = _memo.get(key)
    if r is None:
        old = tm.PROV[0]
        tm.PROV[0] = t.prov
        try:
            r = _elt(t, tuple(idx))
        finally:
            tm.PROV[0] = old
        _memo[key] = r
    return r


def _const(i):
    return isnum(i) and i.args[0].denominator == 1


def _pick(items, i):
    if _const(i):
        k = int(i.args[0])
        if -len(items) <= k < len(items):
            return items[k]
    if items and all(x is items[0] for x in items):
        return items[0]
    return None


def _elt(t, idx):
    op = t.op
    if op in ('num', 'const', 'J', 'ix', 'tv', 'bv', 'dim'):
        return t
    if op == 'sym':
        r = mk('at', t, *idx) if idx else t
        if t in tm.BOOLEAN:
            return ite(mk('truthy', r), ONE, ZERO)
        return r
    if op == 'poly':
        p = {}
        for m, c in t.args:
            x = num(c)
            for a, e in m:
                x = mul(x, tm._pow_rat(el(a, idx), e))
            p = tm.padd(p, tm.to_poly(x))
        return tm.from_poly(p)
    if op in _EL:
        return rebuild(op, tuple(el(a, idx) if isinstance(a, T) else a for a in t.args))
    if op == 'index':
        x, spec = t.args
        s = shape_of(x)
        if s is None:
            raise NoDenotation(t)
        if ELL in spec:
            k = spec.index(ELL)
            used = sum(1 for it in spec if it[0] in ('s', 'i', 'a'))
            spec = spec[:k] + (FULL,) * max(len(s) - used, 0) + spec[k + 1:]
        inner = []
        j = 0
        for it in spec:
            if it[0] == 'n':
                j += 1
                continue
            d = s[len(inner)] if len(inner) < len(s) else None
            if d is None:
                raise NoDenotation(t)
            if it == FULL:
                inner.append(idx[j])
                j += 1
            elif it[0] == 's':
                a, b, c = it[1:]
                step = ONE if c is None else c
                if step is ONE:
                    st = ZERO if a is None else (add(d, a) if isnum(a) and a.args[0] < 0 else a)
                elif isnum(step) and step.args[0] < 0:
                    st = sub(d, ONE) if a is None else (add(d, a) if isnum(a) and a.args[0] < 0 else a)
                else:
                    st = ZERO if a is None else a
                inner.append(add(st, mul(step, idx[j])))
                j += 1
            elif it[0] == 'i':
                k = it[1]
                if rank(k):
                    n = rank(k)
                    inner.append(elt(k, idx[j:j + n]))
                    j += n
                    continue
                k = elt(k, ()) if rank(k) == 0 else k
                if isnum(k) and k.args[0] < 0:
                    k = add(d, k)
                inner.append(k)
            else:
                n = rank(it[1])
                inner.append(elt(it[1], idx[j:j + n]))
                j += n
        rest = len(s) - len(inner)
        inner += list(idx[j:j + rest])
        inner = [ZERO if d is ONE else i for d, i in zip(s, inner)]
        return elt(x, tuple(inner))
    if op in ('list', 'tuple', 'stack', 'concat') and not idx:
        raise NoDenotation('a list used as a number', t)
    if op in ('list', 'tuple'):
        return _sel(list(t.args), idx[0], idx[1:])
    if op == 'stack':
        items = list(t.args[0].args)
        ax = int(t.args[1].args[0]) % len(idx)
        rest = idx[:ax] + idx[ax + 1:]
        return _sel(items, idx[ax], rest)
    if op == 'concat':
        items = list(t.args[0].args)
        ax = int(t.args[1].args[0]) % len(idx)
        k = idx[ax]
        sizes = [shape_of(x)[ax] for x in items]
        keep = [i for i, n in enumerate(sizes) if n is not ZERO] or [0]
        items, sizes = [items[i] for i in keep], [sizes[i] for i in keep]
        off = ZERO
        conds = []
        for x, n in zip(items[:-1], sizes):
            off2 = add(off, n)
            conds.append((gt0(sub(off2, k)), x, off))
            off = off2
        pos = lambda x, o, k=k: elt(x, idx[:ax] + (ZERO if shape_of(x)[ax] is ONE else sub(k, o),) + idx[ax + 1:])
        # a short prefix of constant length is written out element by element
        pre, j = [], 0
        while not isnum(k) and j < len(items) and isnum(sizes[j]) and len(pre) + sizes[j].args[0] <= PREFIX:
            o = num(len(pre))
            pre += [pos(items[j], o, add(o, num(i))) for i in range(int(sizes[j].args[0]))]
            j += 1
        if j == len(items):
            return _ssel(pre, k)
        r = pos(items[-1], off)
        if pre:
            conds = [(gt0(sub(num(len(pre)), k)), None, pre)] + conds[j:]
        for c, x, o in reversed(conds):
            if x is None:
                r = ite(c, _ssel(o, k), r)
                continue
            if c is tm.TRUE:
                r = pos(x, o)
            elif c is tm.FALSE:
                continue
            else:
                r = ite(c, pos(x, o), r)
        return r
    if op == 'transpose':
        x = t.args[0]
        if t.args[1] is NONE:
            return elt(x, idx[::-1])
        perm = [int(a.args[0]) for a in t.args[1].args]
        inner = [None] * len(perm)
        for k, pk in enumerate(perm):
            inner[pk] = idx[k]
        return elt(x, tuple(inner))
    if op == 'mT':
        return elt(t.args[0], idx[:-2] + (idx[-1], idx[-2]))
    if op in ('reduce_sum', 'reduce_mean', 'reduce_max', 'reduce_min', 'reduce_prod', 'any', 'all'):
        x, ax = t.args
        s = shape_of(x)
        if s is None:
            raise NoDenotation(t)
        if ax is NONE:
            axes = list(range(len(s)))
        elif isnum(ax):
            axes = [int(ax.args[0]) % max(len(s), 1)]
        else:
            axes = sorted(int(a.args[0]) % len(s) for a in ax.args)
        return _reduce(op, x, s, axes, list(idx))
    if op == 'matmul':
        a, b = t.args
        sa, sb = shape_of(a), shape_of(b)
        if sa is None or sb is None:
            raise NoDenotation(t)
        n = tm._bdim(sa[-1], sb[-2])
        bi, i, j = idx[:-2], idx[-2], idx[-1]

        def body(k):
            return mul(elt(a, _bat(sa, bi) + (ZERO if sa[-2] is ONE else i, ZERO if sa[-1] is ONE else k)),
                       elt(b, _bat(sb, bi) + (ZERO if sb[-2] is ONE else k, ZERO if sb[-1] is ONE else j)))
        return _sum(n, body)
    if op == 'gather':
        x, i, ax, bd = t.args
        s = shape_of(x)
        bd = int(bd.args[0])
        ax = int(ax.args[0]) % len(s)
        ri = rank(i)
        k = elt(i, idx[:bd] + idx[ax:ax + ri - bd])
        if isnum(k) and k.args[0] < 0:
            k = add(s[ax], k)
        return elt(x, idx[:ax] + (k,) + idx[ax + ri - bd:])
    if op in ('argsort', 'sort'):
        x, ax, d = t.args
        ax = int(ax.args[0]) % len(idx)
        v = fresh()
        body = elt(x, idx[:ax] + (v,) + idx[ax + 1:])
        (bv,), bb = bind([v], body)
        k = mk('sortpos', d, bv, bb, idx[ax])
        if op == 'argsort':
            return k
        return elt(x, idx[:ax] + (k,) + idx[ax + 1:])
    if op == 'range':
        return add(t.args[0], mul(t.args[2], idx[0]))
    if op == 'eye':
        return ite(eq(idx[-2], idx[-1]), ONE, ZERO)
    if op == 'zeros':
        return ZERO
    if op == 'ones':
        return ONE
    if op == 'fill':
        return elt(t.args[1], ())
    if op == 'bcast':
        return el(t.args[0], idx)
    if op == 'tile':
        s = shape_of(t.args[0])
        m = shape_value(t.args[1])
        return elt(t.args[0], tuple(ZERO if d is ONE else (i if k is ONE else imod(i, d))
                                    for d, k, i in zip(s, m, idx)))
    if op == 'reshape':
        s, o = shape_of(t.args[0]), shape_of(t)
        if s is not None and o is not None:
            for a, d in enumerate(o):
                if isnum(d) and 1 < d.args[0] <= PREFIX and not isnum(idx[a]) and not any(d is e for e in s):
                    # a short axis that does not exist in the argument
                    return _ssel([elt(t, idx[:a] + (num(i),) + idx[a + 1:]) for i in range(int(d.args[0]))], idx[a])
            r = _reshape(s, o, idx)
            if r is not None:
                return elt(t.args[0], r)
    if op in ('op:reverse',):
        pass
    if op in ('op:cumsum',):
        pass
    if op == 'scatter_nd':
        ind, up, _ = t.args
        si = shape_of(ind)
        if si is not None and len(si) == 2 and isnum(si[1]):
            k = int(si[1].args[0])

            def body(j):
                c = tm.band(*[eq(idx[i], elt(ind, (j, num(i)))) for i in range(k)])
                return ite(c, el(up, (j,) + idx[k:]), ZERO)
            return _sum(si[0], body)
    if op == 'rand':
        r = mk('rand', t.args[0], mk('list', *(shape_of(t) or (t.args[1],))), *[lam_arg(a) for a in t.args[2:]])
        return mk('at', r, *idx) if idx else r
    # opaque operator
    h = mk(op, *[lam_arg(a) for a in t.args])
    if not idx:
        return h
    return mk('at', h, *idx)


def _bat(s, bi):
    n = len(s) - 2
    return tuple(ZERO if d is ONE else i for d, i in zip(s[:-2], bi[len(bi) - n:] if n else ()))


def _ssel(vals, k):
    x = _pick(vals, k)
    return x if x is not None else mk('sel', k, *vals)


def _sel(items, k, rest):
    x = _pick(items, k)
    if x is not None:
        return el(x, rest)
    vals = [el(x, rest) for x in items]
    x = _pick(vals, k)
    if x is not None:
        return x
    return mk('sel', k, *vals)


def _sum(n, f):
    if isnum(n) and n.args[0] <= EXPLICIT:
        r = ZERO
        for k in range(int(n.args[0])):
            r = add(r, f(num(k)))
        return r
    v = fresh()
    return summation(n, v, f(v))


def _reduce(op, x, s, axes, idx):
    """idx: indices of the remaining axes"""
    def full(vals):
        it = iter(idx)
        return elt(x, tuple(ZERO if False else (vals[i] if i in vals else next(it)) for i in range(len(s))))

    def go(axs, vals):
        if not axs:
            return full(vals)
        a, rest = axs[0], axs[1:]
        n = s[a]
        f = lambda k: go(rest, {**vals, a: k})
        if op in ('reduce_sum', 'reduce_mean'):
            return _sum(n, f)
        if isnum(n) and n.args[0] <= EXPLICIT and n.args[0] > 0:
            vs = [f(num(k)) for k in range(int(n.args[0]))]
            if op == 'reduce_max':
                return tm.minmax('max', vs)
            if op == 'reduce_min':
                return tm.minmax('min', vs)
            if op == 'any':
                return tm.bor(*vs)
            if op == 'all':
                return tm.band(*vs)
            r = ONE
            for v in vs:
                r = mul(r, v)
            return r
        v = fresh()
        body = f(v)
        sign = None
        if op == 'reduce_max':
            # max f = -min(-f)
            (bv,), bb = bind([v], tm.neg(body))
            return tm.neg(_ext(bv, n, bb))
        if op == 'reduce_min':
            (bv,), bb = bind([v], body)
            return _ext(bv, n, bb)
        if op == 'all':
            (bv,), bb = bind([v], tm.bnot(tm.as_bool(body)))
            return tm.bnot(mk('anyk', bv, n, bb))
        if op == 'any':
            (bv,), bb = bind([v], tm.as_bool(body))
            return mk('anyk', bv, n, bb)
        (bv,), bb = bind([v], body)
        return mk({'reduce_prod': 'prodk'}[op], bv, n, bb)
    r = go(axes, {})
    if op == 'reduce_mean':
        for a in axes:
            r = tm.div(r, s[a])
    return r


def _ext(bv, n, body):
    if not contains(body, bv):
        return body
    return mk('mink', bv, n, body)


def imod(a, b, rng=None):
    """a mod b for an index expression; rng: extent of each index variable"""
    if isnum(a) and isnum(b):
        return num(a.args[0] % b.args[0])
    p = tm.to_poly(a)
    q = {}
    for m, c in p.items():
        if tm.from_poly({m: c}) is not b and not _divisible(m, c, b):
            q[m] = c
    r = tm.from_poly(q)
    if _below(r, b, rng):
        return r
    return mk('mod', r, b)


def idiv(a, b, rng=None):
    if b is ONE:
        return a
    if isnum(a) and isnum(b):
        return num(a.args[0] // b.args[0])
    p = tm.to_poly(a)
    q, r = {}, {}
    for m, c in p.items():
        (q if _divisible(m, c, b) else r)[m] = c
    rest = tm.from_poly(r)
    quo = tm.div(tm.from_poly(q), b) if q else ZERO
    if _below(rest, b, rng):
        return quo
    return mk('floordiv', a, b)


def _below(t, b, rng):
    """0 <= t < b"""
    if t is ZERO:
        return True
    if isnum(t):
        return isnum(b) and 0 <= t.args[0] < b.args[0]
    d = (rng or {}).get(t.id)
    if d is None:
        return False
    return d is b or (isnum(d) and isnum(b) and d.args[0] <= b.args[0])


def _divisible(m, c, b):
    bp = tm.to_poly(b)
    if len(bp) != 1:
        return False
    (bm, bc), = bp.items()
    d = dict(m)
    if not bm:
        return bool(m) and (Fraction(c) / bc).denominator == 1
    return all(d.get(a, 0) >= e for a, e in bm)


def _reshape(s, o, idx):
    """input index for a reshape from shape s to shape o at output index idx"""
    s, o, idx = list(s), list(o), list(idx)
    pre = []
    # drop unit axes
    src = [(i, d) for i, d in enumerate(s) if d is not ONE]
    dst = [(idx[i], d) for i, d in enumerate(o) if d is not ONE]
    out = {i: ZERO for i, d in enumerate(s)}
    while src and dst and src[0][1] is dst[0][1]:
        out[src[0][0]] = dst[0][0]
        src.pop(0)
        dst.pop(0)
    while src and dst and src[-1][1] is dst[-1][1]:
        out[src[-1][0]] = dst[-1][0]
        src.pop()
        dst.pop()
    if src or dst:
        if not src:
            return None
        flat = ZERO
        rng = {i.id: d for i, d in dst}
        for i, d in dst:
            flat = add(mul(flat, d), i)
        for k in range(len(src) - 1, -1, -1):
            i, d = src[k]
            if k == 0:
                out[i] = flat
            else:
                out[i] = imod(flat, d, rng)
                flat = idiv(flat, d, rng)
    return tuple(out[i] for i in range(len(s)))


def denote(t, rank_=None):
    """scalar denotation at symbolic indices: list of (index tuple, scalar)"""
    s = shape_of(t)
    if s is None:
        raise NoDenotation(t)
    import itertools
    axes = []
    for k, d in enumerate(s):
        if isnum(d) and d.args[0] <= EXPLICIT:
            axes.append([num(i) for i in range(int(d.args[0]))])
        else:
            axes.append([ix(k)])
    return [(i, elt(t, i)) for i in itertools.product(*axes)]


def _direct(x):
    st = list(x.args)
    while st:
        a = st.pop()
        if isinstance(a, tuple):
            st.extend(a)
        elif isinstance(a, T):
            yield a


def culprits(t, limit=8):
    """innermost terms without a shape (diagnostics)"""
    out = []
    for x in tm.subterms(t):
        if shape_of(x) is None and all(shape_of(a) is not None for a in _direct(x)):
            out.append(x)
    return out[:limit]


_recanon = {}


def recanon(t):
    """restore canonical bound variables and linear sums after a substitution"""
    return _rc(t, {})


def _rc(t, env):
    if isinstance(t, tuple):
        return tuple(_rc(x, env) for x in t)
    if not isinstance(t, T) or height(t) == 0:
        return t
    if t.op == 'bv':
        return env.get(t, t)
    from .compare import free_bvs
    key = None
    if not free_bvs(t):
        env = {}
        key = t.id
        r = _recanon.get(key)
        if r is not None:
            return r
    if t.op in ('sumk', 'mink', 'anyk', 'prodk'):
        v = fresh()
        body = _rc(t.args[2], {**env, t.args[0]: v})
        n = _rc(t.args[1], env)
        if t.op == 'sumk':
            r = summation(n, v, body)
        elif t.op == 'mink' and not contains(body, v):
            r = body
        elif t.op == 'anyk' and body.op == 'const':
            r = body
        else:
            (bv,), bb = bind([v], body)
            r = mk(t.op, bv, n, bb)
    elif t.op == 'lam':
        vs = [fresh() for _ in t.args[0].args]
        body = _rc(t.args[2], {**env, **dict(zip(t.args[0].args, vs))})
        bvs, bb = bind(vs, body)
        r = mk('lam', mk('list', *bvs), _rc(t.args[1], env), bb)
    elif t.op == 'sortpos':
        v = fresh()
        body = _rc(t.args[2], {**env, t.args[1]: v})
        (bv,), bb = bind([v], body)
        r = mk('sortpos', t.args[0], bv, bb, _rc(t.args[3], env))
    else:
        r = rebuild(t.op, tuple(_rc(a, env) for a in t.args))
    if key is not None:
        _recanon[key] = r
    return r

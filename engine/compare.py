"""Equivalence of two denotations (code side, specification side).

Both sides are normal forms of the same term language; equality is decided by
syntactic identity after
  * canonical naming of random draws (by what each draw feeds),
  * cofactor splitting on selection conditions that both sides share,
  * cross-multiplication of denominators,
  * congruence (descending into equal operators).
Purely structural rewriting: no evaluation, no search over inputs, no solver.
(A fingerprint of two rational forms is only used to skip a hopeless expansion.)
"""
import decimal
import hashlib
from fractions import Fraction
from . import terms as tm
from .pw import recanon
from .terms import T, mk, num, const, TRUE, FALSE, ZERO, ONE, isnum

BUDGET = 4000


class Draws:
    @staticmethod
    def collect(t):
        return sorted([x for x in tm.subterms(t) if x.op == 'rand'], key=lambda x: x.id)


def canon_draws(t):
    """rename the draws of a (tuple-)term canonically"""
    ds = Draws.collect(t)
    if not ds:
        return t
    cls = {}
    for d in ds:
        k = (d.args[0].id, d.args[1].id, tuple(a.id for a in d.args[2:-1]))
        cls.setdefault(k, []).append(d)
    mp = {}
    for k, l in cls.items():
        if len(l) == 1:
            mp[l[0]] = mk('rand', *l[0].args[:-1], const('draw'))
    anon = {d: mk('rand', *d.args[:-1], const('other')) for d in ds}
    for k, l in cls.items():
        if len(l) == 1:
            continue
        sig = []
        for d in l:
            m = dict(anon)
            m[d] = mk('rand', *d.args[:-1], const('this'))
            sig.append((tm.subst(t, m).id, d.args[-1].args[0], d))
        sig.sort(key=lambda x: (x[0], x[1]))
        for i, (_, _, d) in enumerate(sig):
            mp[d] = mk('rand', *d.args[:-1], const('draw%d' % i))
    return tm.subst(t, mp)


def enclosing(t, d):
    """ids of the subterms of t that contain d"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return any([go(y) for y in x])
        if not isinstance(x, tm.T):
            return False
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = x is d or any([go(y) for y in x.args])
        return r
    go(t)
    return {k for k, v in memo.items() if v}


def pair_draws(a, b):
    """rename the draws of two output tuples, pairing draws of one distribution and shape by what they feed:
    the more outputs two draws influence in the same way, the likelier they are the same draw"""
    da, db = Draws.collect(a), Draws.collect(b)
    key = lambda d: (d.args[0].id, d.args[1].id, tuple(x.id for x in d.args[2:-1]))
    ma, mb = {}, {}

    def sigs(t, l, ds):
        anon = {d: mk('rand', *d.args[:-1], const('other')) for d in ds}
        out, uses = {}, {}
        for d in l:
            m = dict(anon)
            m[d] = this = mk('rand', *d.args[:-1], const('this'))
            r = tm.subst(t, m)
            out[d] = [x.id for x in r.args]
            uses[d] = enclosing(r, this)
        base = [x.id for x in tm.subst(t, anon).args]
        return out, base, uses
    for k in {key(d) for d in da} | {key(d) for d in db}:
        la, lb = [d for d in da if key(d) == k], [d for d in db if key(d) == k]
        if len(la) == len(lb) == 1:
            ma[la[0]] = mb[lb[0]] = mk('rand', *la[0].args[:-1], const('draw'))
            continue
        sa, base_a, use_a = sigs(a, la, da)
        sb, base_b, use_b = sigs(b, lb, db)
        score = []
        for i, x in enumerate(la):
            for j, y in enumerate(lb):
                same = sum(1 for p, q in zip(sa[x], sb[y]) if p == q)
                # outputs fed by neither / by both
                feeds = sum(1 for p, q, u, v in zip(sa[x], sb[y], base_a, base_b) if (p == u) == (q == v))
                # terms around the draw that occur in both
                common = len(use_a[x] & use_b[y])
                score.append((-same, -common, -feeds, abs(i - j), i, j))
        ua, ub = set(), set()
        n = 0
        for _, _, _, _, i, j in sorted(score):
            if i in ua or j in ub:
                continue
            ua.add(i)
            ub.add(j)
            ma[la[i]] = mb[lb[j]] = mk('rand', *la[i].args[:-1], const('pair%d' % n))
            n += 1
        for i, d in enumerate(la):
            if i not in ua:
                ma[d] = mk('rand', *d.args[:-1], const('code%d' % i))
        for j, d in enumerate(lb):
            if j not in ub:
                mb[d] = mk('rand', *d.args[:-1], const('spec%d' % j))
    return tm.subst(a, ma), tm.subst(b, mb)


_BINDERS = ('sumk', 'mink', 'anyk', 'prodk', 'lam', 'sortpos')
_BIND = ('sumk', 'mink', 'anyk', 'lam', 'prodk', 'sortpos', 'scan')


def conditions(t, out=None, seen=None):
    """atomic selection conditions of t that mention no bound variable"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            _atoms(x.args[0], out)
            st.extend(x.args)
        elif tm.is_bool(x) and x.op != 'const' and x.op in ('and', 'or', 'not'):
            _atoms(x, out)
            st.extend(x.args)
        else:
            st.extend(x.args)
    return out


def _atoms(c, out):
    if c.op in ('and', 'or', 'not'):
        for a in c.args:
            _atoms(a, out)
    elif c.op != 'const':
        out[c] = out.get(c, 0) + 1


def has_bv(t):
    from .pw import height
    return height(t) > 0 and _free_bv(t)


_fb = {}


def _free_bv(t):
    """free bound variables of t"""
    return bool(free_bvs(t))


def free_bvs(t):
    if isinstance(t, tuple):
        r = frozenset()
        for x in t:
            r |= free_bvs(x)
        return r
    if not isinstance(t, T):
        return frozenset()
    r = _fb.get(t.id)
    if r is None:
        if t.op == 'bv':
            r = frozenset((t,))
        else:
            r = frozenset()
            for a in t.args:
                r |= free_bvs(a)
            if t.op in ('sumk', 'mink', 'anyk', 'prodk', 'sortpos'):
                r -= {x for x in t.args if isinstance(x, T) and x.op == 'bv'} if t.op != 'sortpos' else {t.args[1]}
            elif t.op == 'lam':
                r -= set(t.args[0].args)
        _fb[t.id] = r
    return r


def _selects(t, v):
    """the body distinguishes single values of the bound variable"""
    for x in tm.subterms(t):
        if x.op == 'sel' and v in free_bvs(x.args[0]):
            return True
        if x.op in ('eq0', 'gt0', 'eq') and v in free_bvs(x):
            return True
    return False


EXCLUSIVE = []     # (tensor, tensor, map from the index of the first to that of the second): never both true


def _excluded(c, d):
    if c.op != 'truthy' or d.op != 'truthy':
        return False
    c, d = c.args[0], d.args[0]
    if c.op != 'at' or d.op != 'at':
        return False
    for a, b, f in EXCLUSIVE:
        for x, y in ((c, d), (d, c)):
            if x.args[0] is a and y.args[0] is b and f(x.args[1:]) == y.args[1:]:
                return True
    return False


class Facts:
    """a conjunction of literals, with cheap contradiction tests"""
    def __init__(self, lits=()):
        self.lits = tuple(lits)

    def add(self, c, v):
        f = Facts(self.lits + ((c, v),))
        return f

    def feasible(self, c, v):
        for d, w in self.lits:
            if v and w and _excluded(c, d):
                return False
            if d is c:
                if w is not v and w != v:
                    return False
            if d.op == 'gt0' and c.op == 'gt0' and v and w:
                s = tm.add(d.args[0], c.args[0])
                if isnum(s) and s.args[0] <= 0:
                    return False
            if d.op == 'gt0' and c.op == 'gt0' and v and not w:
                # c>0 and d<=0: infeasible when c <= d
                s = tm.sub(c.args[0], d.args[0])
                if isnum(s) and s.args[0] <= 0:
                    return False
            if d.op == 'gt0' and c.op == 'gt0' and not v and w:
                s = tm.sub(d.args[0], c.args[0])
                if isnum(s) and s.args[0] <= 0:
                    return False
            if d.op == 'gt0' and c.op == 'gt0' and not v and not w:
                # c<=0 and d<=0: c+d<=0
                s = tm.add(d.args[0], c.args[0])
                if isnum(s) and s.args[0] > 0:
                    return False
            for x, y, vx, vy in ((d, c, w, v), (c, d, v, w)):
                if x.op == 'eq0' and y.op == 'gt0' and vx and vy:
                    for k in (1, -1):
                        p = tm.p_scale(x.args[0], Fraction(k))
                        s = tm.sub(y.args[0], p)
                        if isnum(s) and s.args[0] <= 0:
                            return False
            if d.op == 'eq' and c.op == 'eq' and v and w and d is not c:
                da, ca = set(d.args), set(c.args)
                common = da & ca
                rest = (da | ca) - common
                if common and len(rest) == 2 and all(x.op in ('const', 'num') for x in rest):
                    return False
            if d.op == 'eq0' and c.op == 'eq0' and v and w:
                for k in (1, -1):
                    s = tm.sub(c.args[0], tm.p_scale(d.args[0], Fraction(k)))
                    if isnum(s) and s.args[0] != 0:
                        return False
        return True

    def implied(self, c):
        """value of c forced by the facts, or None"""
        if not self.feasible(c, True):
            return False
        if not self.feasible(c, False):
            return True
        return None


def under(t, facts):
    """t with every condition decided by the facts replaced by its value"""
    F = Facts(facts)
    for _ in range(4):
        m = {}
        given = dict(facts)
        for c in conditions(t):
            if _free_bv(c):
                continue
            v = given.get(c)
            if v is None:
                v = F.implied(c)
            if v is not None:
                m[c] = const(v)
        if not m:
            return t
        t = recanon(tm.subst(t, m))
    return t


_D = decimal.Context(prec=45, Emax=10 ** 9, Emin=-10 ** 9)
_FP = {}


def _atom_value(key):
    h = int(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest(), 16)
    return _D.divide(decimal.Decimal(h + 1), decimal.Decimal(1 << 64)), decimal.Decimal(0)


def _cmul(x, y):
    (a, b), (c, d) = x, y
    if not b and not d:
        return _D.multiply(a, c), b
    return (_D.subtract(_D.multiply(a, c), _D.multiply(b, d)), _D.add(_D.multiply(a, d), _D.multiply(b, c)))


def _cinv(x):
    a, b = x
    n = _D.add(_D.multiply(a, a), _D.multiply(b, b))
    return _D.divide(a, n), _D.divide(_D.minus(b), n)


def _cpow(x, e):
    e = Fraction(e)
    if e.denominator == 1:
        n = abs(e.numerator)
        r = (decimal.Decimal(1), decimal.Decimal(0))
        while n:
            if n & 1:
                r = _cmul(r, x)
            x = _cmul(x, x)
            n >>= 1
        return _cinv(r) if e < 0 else r
    if x[1] or x[0] <= 0:
        raise ArithmeticError
    return _D.power(x[0], _D.divide(decimal.Decimal(e.numerator), decimal.Decimal(e.denominator))), x[1]


def fingerprint(t):
    """value of the rational form t at one fixed point of its atoms"""
    r = _FP.get(t.id)
    if r is not None:
        return r
    if t.op == 'num':
        q = Fraction(t.args[0])
        r = _D.divide(decimal.Decimal(q.numerator), decimal.Decimal(q.denominator)), decimal.Decimal(0)
    elif t.op == 'J':
        r = decimal.Decimal(0), decimal.Decimal(1)
    elif t.op == 'poly':
        re = im = decimal.Decimal(0)
        for m, c in t.args:
            q = Fraction(c)
            v = _D.divide(decimal.Decimal(q.numerator), decimal.Decimal(q.denominator)), decimal.Decimal(0)
            for a, e in m:
                v = _cmul(v, _cpow(fingerprint(a), e))
            re, im = _D.add(re, v[0]), _D.add(im, v[1])
        r = re, im
    elif t.op == 'pow':
        b, e = fingerprint(t.args[0]), fingerprint(t.args[1])
        if b[1] or e[1] or b[0] <= 0:
            r = _atom_value((t.op, t.id))
        else:
            r = _D.power(b[0], e[0]), e[1]
    elif t.op in ('sin', 'cos'):
        x = _atom_value(('angle', t.args[0].id))[0]
        n = _D.add(1, _D.multiply(x, x))
        r = (_D.divide(_D.multiply(2, x), n) if t.op == 'sin' else _D.divide(_D.subtract(1, _D.multiply(x, x)), n),
             decimal.Decimal(0))
    else:
        r = _atom_value((t.op, t.id))
    _FP[t.id] = r
    return r


def hopeless(a, b):
    """the two rational forms differ at some point: expanding them cannot make them equal"""
    try:
        x, y = fingerprint(a), fingerprint(b)
    except (ArithmeticError, RecursionError):
        return False
    d = max(abs(_D.subtract(x[0], y[0])), abs(_D.subtract(x[1], y[1])))
    n = max(abs(v) for v in x + y)
    return d > n * decimal.Decimal('1e-15')


class Diff:
    def __init__(self, a, b, path, facts):
        self.a, self.b, self.path, self.facts = a, b, path, facts


def _only_zero(c):
    """the index that c (index < 1, or index equal to 0) says is zero"""
    if c.op == 'eq0' and c.args[0].op == 'ix':
        return c.args[0]
    if c.op == 'gt0':
        k = tm.sub(tm.ONE, c.args[0])
        if k.op == 'ix':
            return k
    return None


class Prover:
    def __init__(self, budget=BUDGET):
        self.n = budget
        self.memo = {}
        self.diff = None

    def prove(self, a, b, facts=None, path=()):
        facts = facts or Facts()
        if a is b:
            return True
        key = (a.id, b.id, tuple((c.id, v) for c, v in facts.lits))
        r = self.memo.get(key)
        if r is not None:
            return r
        self.n -= 1
        if self.n < 0:
            return False
        r = self._prove(a, b, facts, path)
        self.memo[key] = r
        return r

    def _prove(self, a, b, facts, path):
        ca, cb = conditions(a), conditions(b)
        allc = dict(ca)
        for c, k in cb.items():
            allc[c] = allc.get(c, 0) + k
        cand = [c for c in allc if not _free_bv(c) and c not in dict(facts.lits)]
        if cand:
            # outermost / most shared first
            top = [x.args[0] for x in (a, b) if x.op == 'ite']
            topat = {}
            for t in top:
                _atoms(t, topat)
            cand.sort(key=lambda c: (_only_zero(c) is None, c not in topat, -((c in ca) + (c in cb)), -allc[c], c.id))
            c = cand[0]
            forced = facts.implied(c)
            ok = True
            for v in (True, False):
                if forced is not None and v != forced:
                    continue
                m = {c: const(v)}
                k = _only_zero(c) if v else None
                if k is not None:
                    m[k] = ZERO
                a2, b2 = recanon(tm.subst(a, m)), recanon(tm.subst(b, m))
                if not self.prove(a2, b2, facts.add(c, v), path):
                    ok = False
                    break
            return ok
        if self.algebra(a, b, facts, path):
            return True
        if self.congruent(a, b, facts, path):
            return True
        if self.diff is None:
            self.diff = Diff(a, b, path, facts)
        return False

    def algebra(self, a, b, facts, path):
        """a-b vanishes after clearing denominators of sums"""
        if not (_arith(a) or _arith(b)):
            return False
        if hopeless(a, b):
            return False
        d = tm.sub(a, b)
        for _ in range(6):
            if d is ZERO:
                return True
            den = {}
            for m, c in tm.to_poly(d).items():
                for x, e in m:
                    if x.op == 'poly' and e < 0:
                        den[x] = min(den.get(x, 0), e)
            if not den:
                return False
            mult = {}
            x, e = sorted(den.items(), key=lambda xe: xe[0].id)[0]
            f = tm._pow_rat(x, -e)
            p = {}
            tot = ZERO
            for m, c in tm.to_poly(d).items():
                mono = dict(m)
                ex = mono.get(x, Fraction(0)) - e
                mono.pop(x, None)
                rest = tm.from_poly({tuple(sorted(mono.items(), key=lambda ae: ae[0].id)): c})
                tot = tm.add(tot, tm.mul(rest, tm._pow_rat(x, ex)))
            if tot is d:
                return False
            d = tot
        return d is ZERO

    def congruent(self, a, b, facts, path):
        if a.op != b.op:
            return False
        if a.op == 'poly':
            return self.polymatch(a, b, facts, path)
        if a.op in _BINDERS:
            return self.binder(a, b, facts, path)
        if a.op in ('and', 'or', 'min'):
            return self.setmatch(list(a.args), list(b.args), facts, path)
        if len(a.args) != len(b.args):
            return False
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            if isinstance(x, T) and isinstance(y, T):
                if not self.prove(x, y, facts, path + ('%s#%d' % (a.op, i),)):
                    return False
            elif isinstance(x, tuple) or isinstance(y, tuple):
                if x != y:
                    return False
            elif x != y:
                return False
        return True

    def binder(self, a, b, facts, path):
        """both bodies at the same arbitrary index"""
        if a.op == 'lam':
            va, vb = a.args[0].args, b.args[0].args
            if len(va) != len(vb):
                return False
            if not self.prove(a.args[1], b.args[1], facts, path):
                return False
        elif a.op == 'sortpos':
            va, vb = (a.args[1],), (b.args[1],)
            if a.args[0] is not b.args[0] or not self.prove(a.args[3], b.args[3], facts, path):
                return False
        else:
            va, vb = (a.args[0],), (b.args[0],)
            if not self.prove(a.args[1], b.args[1], facts, path):
                return False
        n = sum(1 for x in path if x[:1] == '\u00a7')
        sizes = a.args[1].args if a.op == 'lam' else (a.args[3] if a.op == 'sortpos' else a.args[1],)
        dom = []
        for i, (v, w) in enumerate(zip(va, vb)):
            if i < len(sizes) and isinstance(sizes[i], T) and isnum(sizes[i]) and 0 < sizes[i].args[0] <= 8 and \
                    (_selects(a.args[2], v) or _selects(b.args[2], w)):
                dom.append([num(k) for k in range(int(sizes[i].args[0]))])
            else:
                dom.append([mk('ix', 'k%d' % (n + i))])
        import itertools
        for sk in itertools.product(*dom):
            x = recanon(tm.subst(a.args[2], dict(zip(va, sk))))
            y = recanon(tm.subst(b.args[2], dict(zip(vb, sk))))
            if not self.prove(x, y, facts, path + ('\u00a7',) * len(va) + (a.op,)):
                return False
        return True

    def setmatch(self, xs, ys, facts, path):
        xs2 = [x for x in xs if x not in ys]
        ys2 = [y for y in ys if y not in xs]
        if len(xs2) != len(ys2):
            return False
        for x in xs2:
            for y in ys2:
                if y.op == x.op and Prover(200).prove(x, y, facts):
                    ys2.remove(y)
                    break
            else:
                if self.diff is None and len(ys2) == 1:
                    self.prove(x, ys2[0], facts, path)
                return False
        return True

    def polymatch(self, a, b, facts, path):
        p, q = tm.to_poly(a), tm.to_poly(b)
        left = {m: c for m, c in p.items() if q.get(m) != c}
        right = {m: c for m, c in q.items() if p.get(m) != c}
        if len(left) != len(right):
            if self.diff is None:
                self.diff = Diff(tm.from_poly(left), tm.from_poly(right), path, facts)
            return False
        rs = list(right.items())
        for m, c in sorted(left.items(), key=lambda mc: tm._mono_key(mc[0])):
            hit = None
            same = [(m2, c2) for m2, c2 in rs if c2 == c]
            for m2, c2 in same:
                P = Prover(min(300, max(self.n, 0)))
                if P.monomatch(m, m2, facts, path):
                    hit = (m2, c2)
                    break
            if hit is None:
                if self.diff is None:
                    if len(same) == 1:
                        self.monomatch(m, same[0][0], facts, path)
                    if self.diff is None:
                        self.diff = Diff(tm.from_poly(left), tm.from_poly(right), path, facts)
                return False
            rs.remove(hit)
        return True

    def monomatch(self, m1, m2, facts, path):
        d1 = {a: e for a, e in m1 if dict(m2).get(a) != e}
        d2 = {a: e for a, e in m2 if dict(m1).get(a) != e}
        if len(d1) != len(d2):
            return False
        r = list(d2.items())
        for a, e in d1.items():
            opts = [(b, f) for b, f in r if f == e and b.op == a.op]
            for b, f in opts:
                if self.prove(a, b, facts, path):
                    r.remove((b, f))
                    break
            else:
                return False
        return True


def _arith(t):
    return t.op in ('poly', 'num', 'pow') or not tm.is_bool(t) and t.op not in ('const', 'list', 'tuple', 'lam')


def equal(a, b, facts=()):
    p = Prover()
    if p.prove(a, b, Facts(facts)):
        return True, None
    return False, p.diff or Diff(a, b, (), Facts())


def smallest(a, b, limit=400):
    """descend to the smallest pair of differing sub-terms (for the report)"""
    path = []
    for _ in range(limit):
        if a.op != b.op:
            return a, b
        if a.op == 'poly':
            p, q = tm.to_poly(a), tm.to_poly(b)
            l = {m: c for m, c in p.items() if q.get(m) != c}
            r = {m: c for m, c in q.items() if p.get(m) != c}
            if len(l) == 1 and len(r) == 1:
                (m1, c1), = l.items()
                (m2, c2), = r.items()
                x1 = [x for x in m1 if x not in m2]
                x2 = [x for x in m2 if x not in m1]
                if c1 == c2 and len(x1) == 1 and len(x2) == 1 and x1[0][1] == x2[0][1]:
                    a, b = x1[0][0], x2[0][0]
                    continue
            if l or r:
                return tm.from_poly(l), tm.from_poly(r)
            return a, b
        ar = [(x, y) for x, y in zip(a.args, b.args) if isinstance(x, T) and isinstance(y, T) and x is not y]
        if a.op in ('and', 'or', 'min'):
            l = [x for x in a.args if x not in b.args]
            r = [x for x in b.args if x not in a.args]
            if len(l) == 1 and len(r) == 1:
                a, b = l[0], r[0]
                continue
            return a, b
        if len(ar) == 1 and len(a.args) == len(b.args):
            a, b = ar[0]
            continue
        if ar and len(a.args) == len(b.args) and a.op in ('ite', 'list', 'at', 'sumk', 'sel', 'lam', 'mink'):
            a, b = ar[0] if a.op != 'ite' else ar[-1]
            continue
        return a, b
    return a, b

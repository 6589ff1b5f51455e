"""Other spellings of the same value, tried only when two values could not be proved equal.

* min, max and abs that only one of the two values uses become selections;
* selections inside a bound body (minimum over an axis, ...) are moved to the top of the body.
Every rewriting is an identity over the reals, so a proof of the rewritten values is a proof of the original ones.
"""
from . import terms as tm
from .terms import T, mk, const, num, isnum
from .pw import rebuild, height
from .compare import conditions, free_bvs, has_bv

LIFT = 4            # conditions moved out of one body
_BINDERS = ('sumk', 'mink', 'anyk', 'prodk')


def normalise(a, b):
    """(a', b') or None when nothing changes"""
    sa, sb = list(tm.subterms(a)), list(tm.subterms(b))
    ia, ib = {x.id for x in sa}, {x.id for x in sb}
    cond = {x for x in sa + sb if x.op == 'gt0'}
    ea = {x for x in sa if _expandable(x) and x.id not in ib}
    eb = {x for x in sb if _expandable(x) and x.id not in ia}
    a2, b2 = _walk(a, ea, cond, {}), _walk(b, eb, cond, {})
    return None if a2 is a and b2 is b else (a2, b2)


def _expandable(x):
    return x.op == 'abs' or x.op == 'min' and len(x.args) == 2 and not any(isnum(y) for y in x.args)


def _walk(t, expand, cond, memo):
    if isinstance(t, tuple):
        return tuple(_walk(x, expand, cond, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t.id)
    if r is None:
        args = tuple(_walk(x, expand, cond, memo) for x in t.args)
        r = t if all(x is y for x, y in zip(args, t.args)) else rebuild(t.op, args)
        if t in expand and r.op == t.op:
            r = _select(r, cond)
        if r.op in _BINDERS and height(r):
            body = _lift(r.args[2], r.args[0], LIFT)
            if body is not r.args[2]:
                r = rebuild(r.op, r.args[:2] + (body,))
        if r.op == 'sortpos' and height(r):
            body = _lift(r.args[2], r.args[1], LIFT)
            if body is not r.args[2]:
                r = rebuild(r.op, r.args[:2] + (body,) + r.args[3:])
        memo[t.id] = r
    return r


def _select(x, cond):
    """min(u,v) and |u| as a selection; the condition is the one the other value uses, if it uses one"""
    u, v = x.args if x.op == 'min' else (tm.neg(x.args[0]), x.args[0])
    # min(u, v) = v if u > v else u;    |w| = w if w > 0 else -w
    if x.op == 'abs':
        c, d = tm.gt0(v), tm.gt0(u)
        return tm.ite(d, u, v) if d in cond and c not in cond else tm.ite(c, v, u)
    c, d = tm.gt0(tm.sub(u, v)), tm.gt0(tm.sub(v, u))
    return tm.ite(d, u, v) if d in cond and c not in cond else tm.ite(c, v, u)


def _lift(body, v, n):
    """body as a tree of selections on the conditions that mention v, in a fixed order"""
    if n == 0:
        return body
    first = tm.gt0(tm.sub(tm.ONE, v))
    cs = sorted((c for c in conditions(body) if v in free_bvs(c) and not _inner(body, c, v)),
                key=lambda c: (c is not first, c.id))
    if not cs:
        return body
    c = cs[0]
    # v < 1: v is 0
    y = tm.subst(body, {v: tm.ZERO}) if c is first else tm.subst(body, {c: const(True)})
    y, z = (_lift(x, v, n - 1) for x in (y, tm.subst(body, {c: const(False)})))
    return mk('ite', c, y, z) if y is not z else y


def _inner(body, c, v):
    """c depends on a variable that is bound inside body"""
    return any(x is not v and x not in free_bvs(body) for x in free_bvs(c))

"""Meaning of TensorFlow / NumPy / math / Sionna-library operations over terms."""
import os
import ast
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, const, num, sym, NONE, TRUE, FALSE, PI, E, J, ZERO, ONE, RANKS, FULL, NEW, ELL,
                    band, bor, bnot, as_bool, ite, eq, isnum, isconst, is_bool, rank)

INF = sym('inf')

_ALIAS = {
    'math.pow': 'pow', 'power': 'pow', 'radians': 'deg2rad', 'asin': 'asin', 'arcsin': 'asin', 'arccos': 'acos',
    'arctan': 'atan', 'arctan2': 'atan2', 'absolute': 'abs', 'fabs': 'abs', 'sum': 'reduce_sum',
    'max': 'reduce_max', 'min': 'reduce_min', 'mean': 'reduce_mean', 'prod': 'reduce_prod', 'amax': 'reduce_max',
    'amin': 'reduce_min', 'concatenate': 'concat', 'true_divide': 'divide', 'deg_2_rad': 'deg2rad',
    'rad_2_deg': 'rad2deg', 'degrees': 'rad2deg', 'clip': 'clip_by_value', 'mod': 'floormod',
    'floor_mod': 'floormod', 'neg': 'negative', 'mul': 'multiply', 'sub': 'subtract', 'arange': 'range',
    'any': 'reduce_any', 'all': 'reduce_all', 'conjugate': 'conj', 'full': 'fill',
}

# parameter order of operators whose arguments may be positional
_SIG = {
    'expand_dims': ('input', 'axis'), 'reduce_sum': ('x', 'axis', 'keepdims'),
    'reduce_max': ('x', 'axis', 'keepdims'), 'reduce_min': ('x', 'axis', 'keepdims'),
    'reduce_mean': ('x', 'axis', 'keepdims'), 'reduce_prod': ('x', 'axis', 'keepdims'),
    'reduce_any': ('x', 'axis', 'keepdims'), 'reduce_all': ('x', 'axis', 'keepdims'),
    'concat': ('values', 'axis'), 'stack': ('values', 'axis'), 'where': ('condition', 'x', 'y'),
    'transpose': ('a', 'perm'), 'reshape': ('tensor', 'shape'), 'tile': ('input', 'multiples'),
    'gather': ('params', 'indices', 'validate_indices', 'axis', 'batch_dims'),
    'squeeze': ('input', 'axis'), 'sort': ('values', 'axis', 'direction'),
    'argsort': ('values', 'axis', 'direction', 'stable'), 'clip_by_value': ('t', 'lo', 'hi'),
    'matmul': ('a', 'b', 'transpose_a', 'transpose_b', 'adjoint_a', 'adjoint_b'),
    'zeros': ('shape', 'dtype'), 'ones': ('shape', 'dtype'), 'fill': ('dims', 'value'),
    'zeros_like': ('input', 'dtype'), 'ones_like': ('input', 'dtype'),
    'constant': ('value', 'dtype', 'shape'), 'cast': ('x', 'dtype'), 'convert_to_tensor': ('value', 'dtype'),
    'range': ('start', 'limit', 'delta', 'dtype'), 'linspace': ('start', 'stop', 'num'),
    'eye': ('num_rows', 'num_columns', 'batch_shape', 'dtype'), 'scatter_nd': ('indices', 'updates', 'shape'),
    'broadcast_to': ('input', 'shape'), 'roll': ('input', 'shift', 'axis'), 'shape': ('input',),
    'rank': ('input',), 'cholesky': ('input',), 'insert_dims': ('tensor', 'num_dims', 'axis'),
    'expand_to_rank': ('tensor', 'target_rank', 'axis'), 'flatten_last_dims': ('tensor', 'num_dims'),
    'flatten_dims': ('tensor', 'num_dims', 'axis'),
    'split_dim': ('tensor', 'shape', 'axis'), 'tensor_scatter_nd_update': ('tensor', 'indices', 'updates'),
    'unstack': ('value', 'num', 'axis'), 'split': ('value', 'n', 'axis'), 'einsum': None,
}

_ELEM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'sign',
          'real', 'imag', 'angle', 'conj', 'bessel_j1', 'sinc', 'is_nan', 'isnan'}


_PRELUDE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')


class Model:
    builtins = {'len', 'range', 'enumerate', 'zip', 'isinstance', 'str', 'int', 'float', 'round', 'abs', 'min',
                'max', 'sum', 'list', 'tuple', 'dict', 'set', 'print', 'getattr', 'setattr', 'hasattr', 'map',
                'filter', 'sorted', 'reversed', 'any', 'all', 'bool', 'type', 'super', 'complex', 'format',
                'property', 'staticmethod', 'classmethod', 'ValueError', 'TypeError', 'AssertionError',
                'NotImplementedError', 'RuntimeError', 'Exception', 'KeyError', 'object', 'callable', 'open',
                'pow', 'divmod', 'repr', 'frozenset', 'iter', 'next', 'id', 'vars', 'slice', 'locals',
                'NotImplemented', 'IndexError', 'AttributeError', 'UserWarning', 'DeprecationWarning', 'uf'}

    def __init__(self, eng):
        self.eng = eng
        self.notnone = set()
        self.tensors = set()
        self.complex_syms = set()
        self._cplx_memo = {}

    # ---------------------------------------------------------------- constants
    def ext_const(self, p):
        last = p.split('.')[-1]
        if last in ('pi', 'PI') and p.split('.')[0] in ('math', 'numpy', 'np', 'sionna', 'tensorflow'):
            return PI
        if last == 'SPEED_OF_LIGHT':
            return num(299792458)
        if last in ('inf',) and p.split('.')[0] in ('math', 'numpy'):
            return INF
        if last == 'newaxis':
            return NONE
        if last == 'e' and p.split('.')[0] in ('math', 'numpy'):
            return E
        return None

    # ---------------------------------------------------------------- strings / paths
    def is_str(self, t):
        return (t.op == 'const' and isinstance(t.args[0], str)) or t.op in ('cat', 'str', 'format') or \
            (t.op == 'ite' and (self.is_str(t.args[1]) or self.is_str(t.args[2])))

    def to_str(self, t):
        if t.op == 'const':
            return const(str(t.args[0]))
        if isnum(t):
            return const(str(tm.pyval(t)))
        if self.is_str(t):
            return t
        return mk('str', t)

    def cat(self, parts):
        for i, p in enumerate(parts):
            if p.op == 'ite' and self.is_str(p):
                return ite(p.args[0], self.cat(parts[:i] + [p.args[1]] + parts[i + 1:]),
                           self.cat(parts[:i] + [p.args[2]] + parts[i + 1:]))
        flat = []
        for p in parts:
            ps = p.args if p.op == 'cat' else (p,)
            for q in ps:
                if q.op == 'const':
                    q = const(str(q.args[0]))
                    if q.args[0] == '':
                        continue
                if flat and flat[-1].op == 'const' and q.op == 'const':
                    flat[-1] = const(flat[-1].args[0] + q.args[0])
                else:
                    flat.append(q)
        if not flat:
            return const('')
        if len(flat) == 1:
            return flat[0]
        return mk('cat', *flat)

    def percent(self, a, b, st):
        items = self.eng.iterate(b, st) if not isinstance(b, T) else [b]
        if items is None:
            items = [b]
        out, s, i = [], a.args[0], 0
        while True:
            k = s.find('%', i)
            if k < 0:
                out.append(const(s[i:]))
                break
            out.append(const(s[i:k]))
            if s[k + 1] == '%':
                out.append(const('%'))
            else:
                if not items:
                    break
                out.append(self.to_str(self.eng.term(items.pop(0), st)))
            i = k + 2
        return self.cat(out)

    def strformat(self, s, args, kwargs, st):
        out, pos, i = [], 0, 0
        import string
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(const(lit))
            if field is None:
                continue
            if field == '':
                v = args[pos]
                pos += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kwargs[field]
            out.append(self.to_str(self.eng.term(v, st)))
        return self.cat(out)

    def is_path(self, t):
        return t.op == 'path'

    def joinpath(self, *ps):
        flat = []
        for p in ps:
            flat.extend(p.args if p.op == 'path' else (p,))
        return mk('path', *flat)

    contents = {}       # data files whose contents are given: name -> parsed JSON

    def content(self, v, st):
        from .interp import Cell
        eng = self.eng
        if isinstance(v, dict):
            return eng.alloc(st, Cell('dict', items={k: self.content(x, st) for k, x in v.items()}))
        if isinstance(v, list):
            return eng.new_list(st, [self.content(x, st) for x in v])
        if v is True or v is False:
            return TRUE if v else FALSE
        return const(v) if isinstance(v, str) or v is None else num(Fraction(v))

    # ---------------------------------------------------------------- mappings
    def item(self, base, k):
        if isinstance(k, str):
            k = const(k)
        if base.op == 'mapdict':
            return tm.subst(base.args[2], {base.args[1]: k})
        t = mk('item', base, k)
        if base.op == 'json':
            RANKS.setdefault(t.id, 0)
        return t

    def mapdict(self, base0, key, val, prev):
        if val is self.item(base0, key):
            return base0
        if base0.op == 'mapdict':
            v2 = val
            return mk('mapdict', base0.args[0], key, v2)
        return mk('mapdict', base0, key, val)

    # ---------------------------------------------------------------- elementwise over literal tensors
    def elementwise(self, f, a):
        if a.op == 'list':
            return mk('list', *[self.elementwise(f, x) for x in a.args])
        return f(a)

    def _depth(self, t):
        d = 0
        while t.op == 'list' and t.args:
            d += 1
            t = t.args[0]
        return d

    def elementwise2(self, f, a, b):
        la, lb = a.op == 'list', b.op == 'list'
        if not la and not lb:
            return f(a, b)
        if la and lb:
            da, db = self._depth(a), self._depth(b)
            if da > db:
                return mk('list', *[self.elementwise2(f, x, b) for x in a.args])
            if db > da:
                return mk('list', *[self.elementwise2(f, a, x) for x in b.args])
            n, k = len(a.args), len(b.args)
            if n == k:
                return mk('list', *[self.elementwise2(f, x, y) for x, y in zip(a.args, b.args)])
            if n == 1:
                return mk('list', *[self.elementwise2(f, a.args[0], y) for y in b.args])
            if k == 1:
                return mk('list', *[self.elementwise2(f, x, b.args[0]) for x in a.args])
            return mk('shape_mismatch', a, b)
        if la:
            if rank(b) == 0 or rank(b) is None and b.op in ('sym', 'attr', 'item'):
                return mk('list', *[self.elementwise2(f, x, b) for x in a.args])
            return f(a, b)
        if rank(a) == 0 or rank(a) is None and a.op in ('sym', 'attr', 'item'):
            return mk('list', *[self.elementwise2(f, a, x) for x in b.args])
        return f(a, b)

    # ---------------------------------------------------------------- shapes
    def misfit(self, name, b, g, st):
        """why the operator fails on operands of these shapes, None if it works or the shapes are unknown"""
        def sh(x):
            s = None if x.op in ('num', 'const') else tm.shape_of(x)
            return s or None

        def axes(ax, r):
            axs = list(ax.args) if ax.op in ('list', 'tuple') else [ax]
            if any(isnum(a) and not -r <= a.args[0] < r for a in axs):
                return 'axis %s of a tensor of rank %d' % (tm.show(ax, 3), r)
        if name in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_mean', 'reduce_prod', 'reduce_any', 'reduce_all',
                    'sort', 'argsort') and 'axis' in b:
            s = sh(g('x' if name[0] == 'r' else 'values'))
            return s and axes(g('axis'), len(s))
        if name in ('expand_dims', 'insert_dims') and 'axis' in b and name[0] == 'e':
            s = sh(g('input'))
            return s and axes(g('axis'), len(s) + 1)
        if name == 'squeeze' and 'axis' in b:
            s, ax = sh(g('input')), g('axis')
            if s and isnum(ax):
                bad = axes(ax, len(s))
                if not bad and isnum(s[int(ax.args[0])]) and s[int(ax.args[0])] is not ONE:
                    bad = 'axis %s of size %s' % (tm.show(ax, 3), tm.show(s[int(ax.args[0])], 3))
                return bad
        if name == 'transpose' and 'perm' in b:
            s, p = sh(g('a')), g('perm')
            if s and p.op in ('list', 'tuple') and all(isnum(a) for a in p.args):
                p = [int(a.args[0]) for a in p.args]
                if sorted(k % len(s) for k in p) != list(range(len(s))):
                    return 'permutation %s of %d axes' % (p, len(s))
        if name == 'tile':
            s, m = sh(g('input')), g('multiples')
            if s and m.op in ('list', 'tuple') and len(m.args) != len(s):
                return '%d multiples for a tensor of rank %d' % (len(m.args), len(s))
        if name in ('concat', 'stack') and 'values' in b:
            it = self.eng.iterate(b['values'], st)
            if it is None:
                return None
            ss = [sh(x) for x in (self.eng.term(v, st) for v in it) if not self._shapeish(x) and x.op != 'shape']
            ss = [x for x in ss if x]
            ax = g('axis', ZERO)
            if not ss or not isnum(ax):
                return None
            if len({len(x) for x in ss}) > 1:
                return 'operands of ranks %s' % ', '.join(str(len(x)) for x in ss)
            bad = axes(ax, len(ss[0]) + (name == 'stack'))
            if bad:
                return bad
            k = int(ax.args[0]) % len(ss[0]) if name == 'concat' else None
            for i in range(len(ss[0])):
                d = {x[i] for x in ss if isnum(x[i])}
                if i != k and len(d) > 1:
                    return 'axis %d has the sizes %s' % (i, ', '.join(sorted(tm.show(x, 3) for x in d)))
        if name == 'matmul' and 'a' in b and 'b' in b:
            s, t = sh(g('a')), sh(g('b'))
            if s and t and len(s) > 1 and len(t) > 1:
                p = s[-2 if any(b.get(f) is TRUE for f in ('transpose_a', 'adjoint_a')) else -1]
                q = t[-1 if any(b.get(f) is TRUE for f in ('transpose_b', 'adjoint_b')) else -2]
                if isnum(p) and isnum(q) and p is not q:
                    return 'product of %s columns and %s rows' % (tm.show(p, 3), tm.show(q, 3))

    def clash(self, x, y):
        """why two tensors cannot be combined element by element"""
        if any(a.op in ('num', 'const', 'list', 'tuple', 'shape', 'shapecat') for a in (x, y)):
            return None
        s, t = tm.shape_of(x), tm.shape_of(y)
        for p, q in zip(reversed(s or ()), reversed(t or ())):
            if p is not q and p is not ONE and q is not ONE and \
                    (isnum(p) and isnum(q) or p.op == q.op == 'sym'):
                return 'operands of the shapes %s and %s' % (tm.show(mk('list', *s), 3), tm.show(mk('list', *t), 3))

    def shape(self, x):
        r = rank(x)
        if r is not None:
            return mk('list', *[tm.dim(x, num(i)) for i in range(r)])
        if x.op in ('zeros', 'ones', 'fill'):
            return x.args[0]
        if x.op in ('rand',):
            return x.args[1]
        return mk('shape', x)

    def static_shape(self, x):
        """value of the attribute .shape: behaves like a tuple"""
        from .interp import TupleV
        t = self.shape(x)
        return TupleV(list(t.args)) if t.op == 'list' else t

    def concat_shape(self, *xs):
        flat = []
        for x in xs:
            for p in (x.args if x.op == 'shapecat' else (x,)):
                if flat and flat[-1].op == 'list' and p.op == 'list':
                    flat[-1] = mk('list', *(flat[-1].args + p.args))
                elif p.op == 'list' and not p.args:
                    continue
                else:
                    flat.append(p)
        if len(flat) == 1:
            return flat[0]
        return mk('shapecat', *flat)

    def unpack(self, t, i, n):
        if t.op == 'shape':
            return tm.dim(t.args[0], num(i))
        return mk('item', t, num(i)) if t.op not in ('poly',) else tm.index(t, (('i', num(i)),))

    # ---------------------------------------------------------------- indexing
    def getindex(self, o, sl, st, fid, m):
        eng = self.eng
        elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        spec = []
        key_only = len(elts) == 1 and not isinstance(elts[0], ast.Slice)
        for e in elts:
            if isinstance(e, ast.Slice):
                v = []
                for x in (e.lower, e.upper, e.step):
                    if x is None:
                        v.append(None)
                    else:
                        y = eng.term(eng.eval(x, st, fid, m), st)
                        v.append(None if y is NONE else y)
                if v[0] is ZERO:
                    v[0] = None
                if v[2] is ONE:
                    v[2] = None
                spec.append(('s',) + tuple(v))
                continue
            k = eng.eval(e, st, fid, m)
            if isinstance(k, T):
                if k.op == 'ellipsis':
                    spec.append(ELL)
                    continue
                if k is NONE:
                    spec.append(NEW)
                    continue
                if k.op == 'slice':
                    spec.append(('s',) + tuple(None if x is NONE else x for x in k.args))
                    continue
                if k.op == 'const' and isinstance(k.args[0], str) or (key_only and self.is_str(k)):
                    return self.item(o, k)
                if key_only and o.op in ('item', 'fn', 'json', 'dict') and o.op != 'item':
                    return self.item(o, k)
                spec.append(('i', k))
            else:
                kt = eng.term(k, st)
                if isinstance(k, (type(None),)):
                    spec.append(NEW)
                elif kt.op == 'list' and len(elts) == 1 and not isinstance(k, eng.__class__):
                    # tuple index evaluated as a value
                    from .interp import TupleV
                    if isinstance(k, TupleV):
                        for x in kt.args:
                            spec.append(NEW if x is NONE else ELL if x.op == 'ellipsis' else
                                        (('s',) + tuple(None if y is NONE else y for y in x.args))
                                        if x.op == 'slice' else ('i', x))
                    else:
                        spec.append(('a', kt))
                else:
                    spec.append(('a', kt))
        return tm.index(o, tuple(spec))

    # ---------------------------------------------------------------- attributes of terms
    def attr(self, o, name, st):
        from .interp import Bound
        if name in ('numpy', 'copy', 'item', 'tolist'):
            return Bound(o, lambda a, k, s: o)
        if name == 'shape':
            return self.static_shape(o)
        if name == 'rank' and o.op in ('shape', 'list', 'shapecat'):
            if o.op == 'list':
                return num(len(o.args))
            if o.op == 'shape':
                return mk('rank', o.args[0])
            return mk('len', o)
        if name == 'ndim':
            return self.rank_of(o)
        if name == 'dtype':
            return mk('dtype', o)
        if name == 'T':
            return self.mT(o) if rank(o) == 2 else mk('T', o)
        if name == 'real':
            return mk('real', o) if o.op != 'dtype' else o
        if name == 'imag':
            return mk('imag', o)
        if name in ('as_list',):
            return Bound(o, lambda a, k, s: o)
        if name == 'astype':
            return Bound(o, lambda a, k, s: o)
        if name == 'joinpath':
            return Bound(o, lambda a, k, s: self.joinpath(o, *[self.eng.term(x, s) for x in a]))
        if name == 'format' and o.op == 'const':
            return Bound(o, lambda a, k, s: self.strformat(o.args[0], a, k, s))
        if name in ('get_shape',):
            return Bound(o, lambda a, k, s: self.static_shape(o))
        if o.op == 'const' and isinstance(o.args[0], str):
            def strm(a, k, s):
                av = [self.eng.term(x, s) for x in a]
                if name == 'join':
                    parts = []
                    it = self.eng.iterate(a[0], s)
                    for i, x in enumerate(it):
                        if i:
                            parts.append(o)
                        parts.append(self.eng.term(x, s))
                    return self.cat(parts)
                if all(x.op in ('const', 'num') for x in av):
                    try:
                        r = getattr(o.args[0], name)(*[tm.pyval(x) for x in av])
                        if isinstance(r, (str, bool)):
                            return const(r)
                        if isinstance(r, int):
                            return num(r)
                        if isinstance(r, list):
                            return self.eng.new_list(s, [const(x) for x in r])
                    except Exception:
                        pass
                return mk('mcall', o, const(name), *av)
            return Bound(o, strm)
        if name in ('lower', 'upper', 'strip', 'casefold'):
            return Bound(o, lambda a, k, s: mk('mcall', o, const(name)))
        if o.op == 'path' and name in ('open', 'read_text', 'read_bytes', 'resolve', 'absolute', 'as_posix'):
            return Bound(o, lambda a, k, s: o)
        if name in ('read', 'close', 'readlines'):
            return Bound(o, lambda a, k, s: o)
        if name in ('sum', 'max', 'min', 'mean', 'any', 'all', 'reshape', 'transpose', 'astype', 'squeeze'):
            return Bound(o, lambda a, k, s: self.extcall('numpy.' + name, [o] + list(a), k, s, None))
        if o.op == 'sym':
            t = sym(o.args[0] + '.' + name)
            return t
        return mk('attr', o, const(name))

    def container_attr(self, r, c, name, st):
        from .interp import Bound, TupleV, Cell, RangeV, Ref, Unsupported
        eng = self.eng
        kind = c.kind

        def b(f):
            return Bound(r, f)
        if kind in ('list', 'set'):
            if name in ('append', 'add'):
                def app(a, k, s):
                    eng.cell(s, r).items.append(a[0])
                    return NONE
                return b(app)
            if name == 'extend':
                def ext(a, k, s):
                    it = eng.iterate(a[0], s)
                    if it is None:
                        from .interp import Unsupported
                        raise Unsupported('extend with symbolic list')
                    eng.cell(s, r).items.extend(it)
                    return NONE
                return b(ext)
            if name == 'insert':
                def ins(a, k, s):
                    eng.cell(s, r).items.insert(int(tm.pyval(a[0])), a[1])
                    return NONE
                return b(ins)
            if name == 'pop':
                def pop(a, k, s):
                    return eng.cell(s, r).items.pop(int(tm.pyval(a[0])) if a else -1)
                return b(pop)
            if name == 'copy':
                return b(lambda a, k, s: eng.new_list(s, eng.cell(s, r).items))
            if name == 'reverse':
                def rev(a, k, s):
                    eng.cell(s, r).items.reverse()
                    return NONE
                return b(rev)
            if name == 'index':
                def idx(a, k, s):
                    x = eng.term(a[0], s)
                    for i, y in enumerate(eng.cell(s, r).items):
                        e = eq(x, eng.term(y, s))
                        if e is TRUE:
                            return num(i)
                        if e is not FALSE:
                            break
                    return mk('indexof', eng.term(r, s), x)
                return b(idx)
        if kind == 'dict':
            if name == 'items':
                return b(lambda a, k, s: RangeV([TupleV([eng._keyval(x) if not isinstance(x, T) else x, v])
                                                 for x, v in eng.cell(s, r).items.items()]))
            if name == 'keys':
                return b(lambda a, k, s: RangeV([eng._keyval(x) if not isinstance(x, T) else x
                                                 for x in eng.cell(s, r).items]))
            if name == 'values':
                return b(lambda a, k, s: RangeV(list(eng.cell(s, r).items.values())))
            if name == 'get':
                def get(a, k, s):
                    return eng.dict_get(eng.cell(s, r), eng.dkey(a[0], s), s, a[1] if len(a) > 1 else NONE)
                return b(get)
            if name == 'update':
                def upd(a, k, s):
                    cc = eng.cell(s, r)
                    for x in a:
                        if isinstance(x, Ref):
                            eng.overlay(cc, eng.cell(s, x))
                        else:
                            for y in eng.iterate(x, s):
                                key, v = eng.iterate(y, s)
                                eng.dict_set(cc, eng.dkey(key, s), v)
                    eng.overlay(cc, Cell('dict', items=k))
                    return NONE
                return b(upd)
            if name == 'copy':
                return b(lambda a, k, s: eng.alloc(s, Cell('dict', items=dict(eng.cell(s, r).items))))
            if name == 'setdefault':
                def sd(a, k, s):
                    cc, key = eng.cell(s, r), eng.dkey(a[0], s)
                    v = eng.dict_get(cc, key, s, a[1] if len(a) > 1 else NONE)
                    eng.dict_set(cc, key, v)
                    return v
                return b(sd)
            if name == 'pop':
                def pop(a, k, s):
                    cc, key = eng.cell(s, r), eng.dkey(a[0], s)
                    if isinstance(key, T) or any(isinstance(x, T) for x in cc.items):
                        raise Unsupported('removal of a symbolic key')
                    v = eng.dict_get(cc, key, s, a[1] if len(a) > 1 else None)
                    cc.items.pop(key, None)
                    return v
                return b(pop)
            if name == 'clear':
                return b(lambda a, k, s: (eng.cell(s, r).items.clear(), NONE)[1])
        if kind == 'symdict':
            if name in ('items', 'keys', 'values'):
                return b(lambda a, k, s: ('dictview', r, name))
            if name == 'get':
                return b(lambda a, k, s: eng.cell(s, r).items.get(eng.term(a[0], s)) or
                         self.item(eng.cell(s, r).base, eng.term(a[0], s)))
            if name == 'copy':
                return b(lambda a, k, s: eng.alloc(s, eng.cell(s, r).copy()))
            if name == 'update':
                return b(lambda a, k, s: ([eng.overlay(eng.cell(s, r), eng.cell(s, x)) for x in a] +
                                          [eng.overlay(eng.cell(s, r), Cell('dict', items=k))], NONE)[1])
            raise Unsupported('method %s of a symbolic mapping' % name)
        if name in ('sort', 'clear', 'remove', 'discard', 'popitem', 'pop', 'insert', 'update', 'setdefault', 'fill',
                    'put', 'resize', 'itemset', 'difference_update', 'intersection_update') and kind != 'obj':
            raise Unsupported('method %s of a %s' % (name, kind))
        t = eng.term(r, st)
        return self.attr(t, name, st)

    # ---------------------------------------------------------------- calls on terms
    def termcall(self, f, args, kwargs, st, node):
        av = [self.eng.term(a, st) for a in args] + \
            [mk('list', const(k), self.eng.term(v, st)) for k, v in sorted(kwargs.items())]
        return mk('call', f, *av)

    def builtin_hasattr(self, o, k, st, own=False):
        """hasattr(o, k), or whether the own dictionary of o has k"""
        from .interp import Ref, Cls
        eng = self.eng
        if isinstance(o, Ref):
            c = eng.cell(st, o)
            if c.kind == 'obj':
                if k in c.attrs:
                    return eng._present(c.attrs[k])
                if not own:
                    v = eng.class_attr(c.cls, k, st)
                    if v is not None:
                        return eng._present(v)
                    if c.cls.lookup(k)[0]:
                        return TRUE
                if c.name is None:
                    return FALSE
                return mk('hasattr', c.name, const(k))
        if isinstance(o, Cls):
            f = st.frames.get(('cls', o), {})
            if k in f:
                return eng._present(f[k])
            if own:
                return const(k in o.members or k in o.props)
            v = eng.class_attr(o, k, st)
            if v is not None:
                return eng._present(v)
            return const(bool(o.lookup(k)[0]))
        return mk('hasattr', eng.term(o, st), const(k))

    def occurrence(self, t, st):
        n = st.counters.get(t.id, 0)
        st.counters[t.id] = n + 1
        return mk('occ', t, num(n)) if n else t

    # ---------------------------------------------------------------- random
    def rand(self, kind, shape, st, extra=()):
        # every draw gets its own number; comparisons rename draws by what they feed
        n = st.counters.get('rand', 0)
        st.counters['rand'] = n + 1
        return mk('rand', const(kind), shape, mk('list', *extra), num(n))

    def random_call(self, path, a, kw, st, node):
        eng = self.eng
        name = path.split('.')[-1]
        order = {'uniform': ('shape', 'minval', 'maxval', 'dtype', 'seed'),
                 'normal': ('shape', 'mean', 'stddev', 'dtype', 'seed'),
                 'laplace': ('shape', 'dtype')}.get(name)
        if '.Generator' in path or 'np_rng' in path or path.startswith('numpy.random'):
            order = {'uniform': ('minval', 'maxval', 'shape'), 'normal': ('mean', 'stddev', 'shape')}.get(name)
        if order is None:
            order = ()
        b = dict(zip(order, a))
        b.update(kw)
        if 'size' in b:
            b['shape'] = b.pop('size')
        if 'low' in b:
            b['minval'] = b.pop('low')
        if 'high' in b:
            b['maxval'] = b.pop('high')
        dt = b.get('dtype')
        shape = eng.term(b.get('shape', NONE), st)
        isint = self._is_int_dtype(dt)
        self.log_dtype('random.' + name, dt, node)
        eng.rng_events.append((path, tm.PROV[0]))
        if name == 'uniform':
            lo = eng.term(b.get('minval', ZERO), st)
            hi = eng.term(b.get('maxval', ONE), st)
            if isint:
                return self.rand('uniformint', shape, st, (lo, hi))
            u = self.rand('uniform', shape, st)
            return mk('fill', shape, lo) if lo is hi else tm.add(lo, tm.mul(tm.sub(hi, lo), u))
        if name == 'normal':
            mu = eng.term(b.get('mean', ZERO), st)
            sd = eng.term(b.get('stddev', ONE), st)
            z = self.rand('normal', shape, st)
            return mk('fill', shape, mu) if sd is ZERO else tm.add(mu, tm.mul(sd, z))
        extra = [mk('list', const(k), eng.term(v, st)) for k, v in sorted(b.items()) if k not in ('dtype', 'seed', 'shape')]
        return self.rand(name, shape, st, tuple(extra))

    def _dtype_name(self, d):
        from .interp import Ext
        if d is None:
            return None
        if isinstance(d, Ext):
            return d.path.split('.')[-1]
        if isinstance(d, T):
            if d.op == 'sym':
                return d.args[0]
            if d is NONE:
                return None
            if d.op == 'fn':
                return d.args[0].args[0].split('.')[-1]
            if d.op == 'ite':
                x, y = self._dtype_name(d.args[1]), self._dtype_name(d.args[2])
                return 'rdtype' if 'rdtype' in (x, y) else x
            if d.op == 'item':
                return self._dtype_name(d.args[1])
            if d.op == 'const' and isinstance(d.args[0], str):
                return d.args[0]
            if d.op == 'dtype':
                return 'inherit'
            if d.op == 'attr':
                return self._dtype_name(d.args[1])
        return '?'

    def _is_int_dtype(self, d):
        n = self._dtype_name(d)
        return n is not None and n.startswith(('int', 'uint'))

    def log_dtype(self, op, dt, node):
        self.eng.dtype_events.append((op, self._dtype_name(dt), tm.PROV[0],
                                      self.eng.stack[-1][1] if self.eng.stack else None))

    # ---------------------------------------------------------------- linear algebra
    def mT(self, x):
        if x.op == 'mT':
            return x.args[0]
        p = tm.to_poly(x)
        if len(p) == 1 and x.op == 'poly':
            (m, c), = p.items()
            if c != 1:
                return tm.p_scale(self.mT(tm.from_poly({m: Fraction(1)})), c)
        t = mk('mT', x)
        if rank(x) is not None:
            RANKS.setdefault(t.id, rank(x))
        return t

    def matmul(self, a, b):
        k = Fraction(1)
        out = []
        for x in (a, b):
            p = tm.to_poly(x)
            if len(p) == 1 and x.op == 'poly':
                (m, c), = p.items()
                if c != 1:
                    k *= c
                    x = tm.from_poly({m: Fraction(1)})
            out.append(x)
        t = mk('matmul', *out)
        ra, rb = rank(a), rank(b)
        if ra is not None and rb is not None:
            RANKS.setdefault(t.id, max(ra, rb))
        return tm.p_scale(t, k) if k != 1 else t

    # ---------------------------------------------------------------- external calls
    def extcall(self, path, args, kwargs, st, node):
        eng = self.eng
        if path.startswith('builtins.'):
            return self.builtin(path[9:], args, kwargs, st, node)
        parts = path.split('.')
        last = parts[-1]
        root = parts[0]
        if 'random' in parts[:-1] or 'tf_rng' in parts or 'np_rng' in parts or 'py_rng' in parts:
            if last == 'set_seed':
                eng.effect(st, 'extcall', const(path), node)
                return NONE
            return self.random_call(path, args, kwargs, st, node)
        if root in ('importlib_resources', 'importlib') and last == 'files':
            return mk('path', eng.term(args[0], st))
        if path in ('os.path.join',):
            return self.joinpath(*[eng.term(a, st) for a in args])
        if root in ('importlib_resources', 'importlib') and last in ('open_text', 'read_text', 'open_binary', 'path'):
            return self.joinpath(mk('path', eng.term(args[0], st)), *[eng.term(a, st) for a in args[1:2]])
        if root in ('importlib_resources', 'importlib') and last == 'as_file':
            return args[0]
        if root == 'pathlib' and last in ('Path', 'PurePath'):
            a = [eng.term(x, st) for x in args]
            return a[0] if len(a) == 1 and a[0].op == 'path' else self.joinpath(*a)
        if root == 'json' and last in ('load', 'loads'):
            from .interp import Cell
            f = eng.term(args[0], st)
            if f.op == 'path' and f.args[-1].op == 'const' and f.args[-1].args[0] in self.contents:
                return self.content(self.contents[f.args[-1].args[0]], st)
            return eng.alloc(st, Cell('symdict', base=mk('json', f), items={}))
        if last == 'wraps':
            return args[0]
        if root == 'warnings':
            eng.effect(st, 'warn', mk('list', *[eng.term(a, st) for a in args[:1]]), node)
            return NONE
        if root == 'tensorflow' and last in ('function',):
            return args[0] if args else NONE
        if root in ('tensorflow', 'numpy', 'math', 'cmath', 'sionna') or last in _SIG:
            return self.tensor_op(path, last, args, kwargs, st, node)
        av = [eng.term(a, st) for a in args] + \
            [mk('list', const(k), eng.term(v, st)) for k, v in sorted(kwargs.items())]
        return mk('ext:' + path, *av)

    def tensor_op(self, path, last, args, kwargs, st, node):
        eng = self.eng
        name = _ALIAS.get(last, last)
        term = lambda v: eng.term(v, st)
        kw = dict(kwargs)
        kw.pop('name', None)
        sig = _SIG.get(name)
        if sig:
            b = {}
            for k, v in zip(sig, args):
                b[k] = v
            alias = {'input_tensor': 'x', 'input': sig[0], 'a_min': 'lo', 'a_max': 'hi', 'clip_value_min': 'lo',
                     'clip_value_max': 'hi', 'keep_dims': 'keepdims', 'x': 'x', 'a': sig[0], 'values': sig[0],
                     'tensor': sig[0], 'value': 'value', 'multiples': 'multiples', 'N': 'num_rows', 'reps': 'multiples',
                     'axes': 'perm' if name == 'transpose' else 'axes', 'newshape': 'shape'}
            for k, v in kw.items():
                if k not in sig:
                    k2 = alias.get(k, k)
                    b[k2 if k2 in sig else k] = v
                else:
                    b[k] = v
            g = lambda k, d=NONE: term(b[k]) if k in b else d
            bad = self.misfit(name, b, g, st)
            if bad:
                eng.effect(st, 'error', const('%s: %s' % (last, bad)), node)
        if name in ('constant', 'convert_to_tensor', 'array', 'asarray', 'identity', 'Variable', 'stop_gradient_',
                    'float32', 'float64', 'ensure_shape', 'as_tensor', 'float16', 'complex64', 'complex128'):
            v = args[0] if args else kw.get('value', kw.get('input', kw.get('object')))
            t = term(v)
            if name in ('constant', 'Variable', 'convert_to_tensor'):
                d = kw.get('dtype', args[1] if len(args) > 1 else None)
                self.log_dtype('constant', d, node) if name == 'constant' else None
                if self._is_int_dtype(d):
                    t = self.elementwise(self.toint, t)
            if name == 'array' and isinstance(v, (type(None),)):
                return t
            if name in ('array', 'asarray') and t.op == 'list':
                from .interp import Cell, _unlist
                return eng.alloc(st, Cell('nd', items=_unlist(t)))
            if sig and 'shape' in b:
                return tm.mk('bcast', t, g('shape'))
            return t
        if name == 'cast':
            x = g('x')
            d = b.get('dtype')
            self.log_dtype('cast', d, node)
            if self._is_int_dtype(d):
                return self.elementwise(self.toint, x)
            n = self._dtype_name(d)
            if n == 'bool':
                return as_bool(x) if x.op != 'list' else x
            if is_bool(x):
                return tm.from_poly(tm.to_poly(x))
            return x
        if name in ('zeros', 'ones'):
            sh = g('shape')
            self.log_dtype(name, b.get('dtype'), node)
            if self._dtype_name(b.get('dtype')) == 'bool':
                return mk('fill', sh, FALSE if name == 'zeros' else TRUE)
            if path.startswith('numpy') and self._concrete_shape(sh):
                from .interp import Cell
                z = ZERO if name == 'zeros' else ONE
                return eng.alloc(st, Cell('nd', items=self._full(self._concrete_shape(sh), z)))
            if sh.op == 'list' and not sh.args:
                return ZERO if name == 'zeros' else ONE
            return mk(name, sh)
        if name == 'zeros_like':
            return FALSE if self._dtype_name(b.get('dtype')) == 'bool' else ZERO
        if name == 'ones_like':
            return TRUE if self._dtype_name(b.get('dtype')) == 'bool' else ONE
        if name == 'fill':
            v = g('value') if 'value' in b else term(args[1])
            t = mk('fill', g('dims') if 'dims' in b else term(b.get('shape')), v)
            return t
        if name in ('add', 'subtract', 'multiply', 'divide', 'pow', 'maximum', 'minimum', 'atan2', 'floormod',
                    'complex', 'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal',
                    'logical_and', 'logical_or', 'logical_xor', 'floordiv', 'fmod', 'isclose') \
                or name == 'divide_no_nan':
            vals = [term(a) for a in args] + [term(v) for k, v in kw.items() if k not in ('dtype', 'rel_tol', 'abs_tol')]
            if len(vals) < 2:
                from .interp import Unsupported
                raise Unsupported('operator %s with %d operands' % (name, len(vals)))
            bad = self.clash(vals[0], vals[1])
            if bad:
                eng.effect(st, 'error', const('%s: %s' % (last, bad)), node)
            if name == 'complex':
                if 'real' in kw or 'imag' in kw:
                    re = term(kw.get('real', args[0] if args else None))
                    im = term(kw['imag']) if 'imag' in kw else vals[1]
                    return tm.cplx(re, im)
                return self.elementwise2(tm.cplx, vals[0], vals[1])
            if name == 'divide_no_nan':
                return ite(eq(vals[1], ZERO), ZERO, tm.div(vals[0], vals[1]))
            if name == 'logical_and':
                return band(*vals)
            if name == 'logical_or':
                return bor(*vals)
            if name == 'logical_xor':
                return bor(band(vals[0], bnot(vals[1])), band(bnot(vals[0]), vals[1]))
            fn = {'add': tm.add, 'subtract': tm.sub, 'multiply': tm.mul, 'divide': tm.div, 'pow': tm.powt,
                  'maximum': lambda a, b_: tm.minmax('max', [a, b_]),
                  'minimum': lambda a, b_: tm.minmax('min', [a, b_]),
                  'atan2': lambda a, b_: mk('atan2', a, b_), 'floormod': self.floormod,
                  'less': tm.lt, 'less_equal': tm.le, 'greater': lambda a, b_: tm.lt(b_, a),
                  'greater_equal': lambda a, b_: tm.le(b_, a), 'equal': eq,
                  'not_equal': lambda a, b_: bnot(eq(a, b_)), 'floordiv': lambda a, b_: mk('floordiv', a, b_),
                  'fmod': lambda a, b_: mk('fmod', a, b_), 'isclose': lambda a, b_: mk('eq', *sorted((a, b_)))}[name]
            return st.simp(r) if is_bool(r := self.elementwise2(fn, vals[0], vals[1])) and not isconst(r) else r
        if name == 'add_n':
            it = eng.iterate(args[0], st)
            r = ZERO
            for x in it:
                r = tm.add(r, term(x))
            return r
        if name == 'logical_not':
            return bnot(as_bool(term(args[0] if args else next(iter(kw.values())))))
        if name in ('square',):
            return self.elementwise(lambda a: tm.powt(a, num(2)), self._one(args, kw, st))
        if name == 'sqrt':
            return self.elementwise(lambda a: tm._pow_rat(a, Fraction(1, 2)), self._one(args, kw, st))
        if name == 'rsqrt':
            return self.elementwise(lambda a: tm._pow_rat(a, Fraction(-1, 2)), self._one(args, kw, st))
        if name in ('reciprocal',):
            return self.elementwise(lambda a: tm._pow_rat(a, Fraction(-1)), self._one(args, kw, st))
        if name == 'exp':
            return self.elementwise(lambda a: tm.powt(E, a), self._one(args, kw, st))
        if name == 'log':
            if len(args) == 2 and path.startswith('math'):
                return tm.div(tm.log(term(args[0])), tm.log(term(args[1])))
            return self.elementwise(tm.log, self._one(args, kw, st))
        if name == 'log10':
            return self.elementwise(tm.log10, self._one(args, kw, st))
        if name == 'log2':
            return self.elementwise(lambda a: tm.div(tm.log(a), tm.log(num(2))), self._one(args, kw, st))
        if name == 'negative':
            return self.elementwise(tm.neg, self._one(args, kw, st))
        if name == 'abs':
            return self.elementwise(tm.absv, self._one(args, kw, st))
        if name == 'deg2rad':
            return tm.mul(self._one(args, kw, st), tm.div(PI, num(180)))
        if name == 'rad2deg':
            return tm.mul(self._one(args, kw, st), tm.div(num(180), PI))
        if name == 'wrap_angle_0_360':
            return self.wrap360(self._one(args, kw, st))
        if name in ('to_degrees',):
            return tm.mul(self._one(args, kw, st), tm.div(num(180), PI))
        if name in _ELEM1 and (name not in ('real', 'imag', 'conj') or True):
            nm = {'bessel_j1': 'j1', 'is_nan': 'isnan'}.get(name, name)
            x = self._one(args, kw, st)
            if nm == 'real' and not self._maybe_complex(x):
                return x
            if nm in ('sin', 'cos', 'tan', 'asin', 'atan', 'sinh', 'cosh', 'tanh', 'sign'):
                return self.elementwise(lambda a: tm.unary(nm, a), x)
            return self.elementwise(lambda a: mk(nm, a), x)
        if name == 'round':
            return mk('round', self._one(args, kw, st))
        if name == 'expand_dims':
            return tm.expand_dims(term(b.get('input', b.get('x'))), g('axis', ZERO))
        if name == 'insert_dims':
            x = g('tensor')
            n, ax = g('num_dims'), g('axis', num(-1))
            if isnum(n):
                for _ in range(int(tm.pyval(n))):
                    x = tm.expand_dims(x, ax)
                return x
            return mk('insert_dims', x, n, ax)
        if name == 'expand_to_rank':
            x = term(args[0] if args else kw['tensor'])
            n = term(args[1] if len(args) > 1 else kw['target_rank'])
            ax = term(args[2] if len(args) > 2 else kw.get('axis', num(-1)))
            if rank(x) is not None and isnum(n) and isnum(ax):
                k = int(n.args[0]) - rank(x)
                if k > 0 and rank(x) == 0:
                    return mk('fill', mk('list', *[ONE] * k), x)
                for _ in range(k):
                    x = tm.expand_dims(x, ax)
                return x
        if name in ('reduce_sum', 'reduce_max', 'reduce_min', 'reduce_mean', 'reduce_prod', 'reduce_any', 'reduce_all'):
            x, ax = g('x'), g('axis')
            kd = g('keepdims', FALSE)
            op = {'reduce_any': 'any', 'reduce_all': 'all'}.get(name, name)
            if path.startswith(('math', 'numpy')) is False and x.op == 'list' and ax is NONE and name in (
                    'reduce_max', 'reduce_min'):
                return tm.minmax('max' if name == 'reduce_max' else 'min', list(x.args))
            if x.op == 'list' and name == 'reduce_sum' and (ax is NONE or ax is ZERO) and self._depth(x) == 1:
                r = ZERO
                for y in x.args:
                    r = tm.add(r, y)
                return r
            if op in ('any', 'all'):
                r = mk(op, x, ax)
                if rank(x) is not None and isnum(ax):
                    r = mk(op, x, num(int(ax.args[0]) % rank(x)))
            else:
                r = tm.reduce(op, x, ax)
            if kd is TRUE:
                axs = [ax] if ax.op != 'list' else list(ax.args)
                if all(isnum(a) for a in axs):
                    rr = rank(x)
                    ks = [int(a.args[0]) for a in axs]
                    if rr is not None:
                        ks = [k % rr for k in ks]
                    if all(k >= 0 for k in ks):
                        for k in sorted(ks):
                            r = tm.expand_dims(r, num(k))
                        return r
                    if len(ks) == 1:
                        return tm.expand_dims(r, num(ks[0]))
                return mk('keepdims', r, ax)
            return r
        if name == 'concat':
            vals = b.get('values')
            it = eng.iterate(vals, st)
            if it is None:
                return mk('concat', term(vals), g('axis', ZERO))
            its = [term(x) for x in it]
            if any(self._shapeish(x) for x in its):
                its = [mk('list', *([ONE] * int(x.args[0].args[0].args[0]))) if x.op == 'ones' and
                       x.args[0].op == 'list' and len(x.args[0].args) == 1 and isnum(x.args[0].args[0]) else x
                       for x in its]
                return self.concat_shape(*its)
            return tm.concat(its, g('axis', ZERO))
        if name == 'stack':
            it = eng.iterate(b.get('values'), st)
            if it is None:
                return mk('stack', g('values'), g('axis', ZERO))
            return tm.stack([term(x) for x in it], g('axis', ZERO))
        if name == 'where':
            if 'x' not in b and 'y' not in b:
                return mk('where1', g('condition'))
            c = as_bool(g('condition'))
            return ite(c, g('x'), g('y'))
        if name == 'clip_by_value':
            if 't' not in b:
                b['t'] = b.get('x', args[0] if args else None)
            return tm.minmax('min', [tm.minmax('max', [term(b['t']), g('lo')]), g('hi')])
        if name == 'transpose':
            return tm.transpose(term(b.get('a', b.get('x'))), g('perm'))
        if name == 'matrix_transpose':
            return self.mT(self._one(args, kw, st))
        if name == 'reshape':
            x, sh = term(b.get('tensor', b.get('a'))), g('shape')
            r = self._concrete_reshape(x, sh)
            if r is not None:
                return r
            return self.reshape(x, sh)
        if name in ('flatten_last_dims', 'flatten_dims', 'split_dim'):
            x = g('tensor')
            ax = g('axis', NONE)
            n = g('num_dims', num(2)) if name != 'split_dim' else ONE
            sh = g('shape') if name == 'split_dim' else None
            r = rank(x)
            if r is not None and isnum(n) and (isnum(ax) or name == 'flatten_last_dims') and (sh is None or sh.op == 'list'):
                n = int(n.args[0])
                a = r - n if name == 'flatten_last_dims' else int(ax.args[0]) % r
                d = [tm.dim(x, num(i)) for i in range(r)]
                if name == 'split_dim':
                    mid = list(sh.args)
                    if num(-1) in mid:
                        k = ONE
                        for v in mid:
                            k = k if v is num(-1) else tm.mul(k, v)
                        mid = [tm.div(d[a], k) if v is num(-1) else v for v in mid]
                else:
                    mid = [ONE]
                    for v in d[a:a + n]:
                        mid = [tm.mul(mid[0], v)]
                to = mk('list', *(d[:a] + mid + d[a + n:]))
                c = self._concrete_reshape(x, to)
                return c if c is not None else self.reshape(x, to)
        if name == 'tile':
            x, mlt = g('input'), g('multiples')
            if mlt.op == 'list' and all(a is ONE for a in mlt.args):
                return x
            return mk('tile', x, mlt)
        if name == 'broadcast_to':
            return mk('bcast', g('input'), g('shape'))
        if name == 'gather':
            x, i = g('params'), g('indices')
            ax, bd = g('axis'), g('batch_dims', ZERO)
            if ax is NONE:
                ax = bd
            if isnum(ax) and ax.args[0] < 0 and rank(x) is not None:
                ax = num(int(ax.args[0]) + rank(x))
            if x.op == 'list' and ax is ZERO and bd is ZERO:
                if i.op == 'list' and all(isnum(k) for k in i.args):
                    try:
                        return mk('list', *[x.args[int(tm.pyval(k))] for k in i.args])
                    except IndexError:
                        pass
                if isnum(i):
                    return x.args[int(tm.pyval(i))]
            if isnum(i) and isnum(ax) and bd is ZERO:
                return tm.index(x, (FULL,) * int(ax.args[0]) + (('i', i),))
            if i.op == 'list' and all(isnum(k) for k in i.args) and isnum(ax) and bd is ZERO:
                # constant selection of a contiguous slice
                ks = [int(k.args[0]) for k in i.args]
            t = mk('gather', x, i, ax, bd)
            rx, ri = rank(x), rank(i)
            if rx is not None and ri is not None and isnum(bd):
                RANKS.setdefault(t.id, rx + ri - 1 - int(bd.args[0]))
            return t
        if name == 'squeeze':
            x = term(b.get('input', b.get('x', b.get('tensor'))))
            ax = g('axis')
            return self.squeeze(x, ax)
        if name == 'sort':
            x = g('values')
            ax = g('axis', num(-1))
            d = g('direction', const('ASCENDING'))
            if isnum(ax) and rank(x) is not None:
                ax = num(int(ax.args[0]) % rank(x))
            return mk('sort', x, ax, d)
        if name == 'argsort':
            x = g('values')
            ax = g('axis', num(-1))
            d = g('direction', const('ASCENDING'))
            if isnum(ax) and rank(x) is not None:
                ax = num(int(ax.args[0]) % rank(x))
            t = mk('argsort', x, ax, d)
            if rank(x) is not None:
                RANKS.setdefault(t.id, rank(x))
            return t
        if name in ('matmul', 'dot'):
            x, y = g('a') if 'a' in b else term(args[0]), g('b') if 'b' in b else term(args[1])
            for fl in ('transpose_a', 'adjoint_a'):
                if b.get(fl) is TRUE:
                    x = self.mT(x) if fl == 'transpose_a' else self.mT(mk('conj', x))
            for fl in ('transpose_b', 'adjoint_b'):
                if b.get(fl) is TRUE:
                    y = self.mT(y) if fl == 'transpose_b' else self.mT(mk('conj', y))
            return self.matmul(x, y)
        if name == 'eye':
            t = mk('eye', g('num_rows'), g('num_columns') if 'num_columns' in b and g('num_columns') is not NONE
                   else g('num_rows'), g('batch_shape'))
            bs = g('batch_shape')
            if bs.op == 'list':
                RANKS.setdefault(t.id, len(bs.args) + 2)
            return t
        if name == 'scatter_nd':
            ix, up, sh = g('indices'), g('updates'), g('shape')
            r = self._scatter(ix, up, sh)
            return r if r is not None else mk('scatter_nd', ix, up, sh)
        if name == 'shape':
            return self.shape(g('input'))
        if name in ('rank', 'ndim'):
            return self.rank_of(g('input'))
        if name == 'size':
            return mk('size', self._one(args, kw, st))
        if name == 'range':
            a = [term(x) for x in args if not self._is_dtype(x)]
            kk = {k: term(v) for k, v in kw.items() if k != 'dtype'}
            if 'limit' in kk or 'start' in kk:
                start = kk.get('start', a[0] if a else ZERO)
                limit = kk.get('limit', a[1] if len(a) > 1 else (a[0] if 'start' in kk and a else None))
                if limit is None:
                    start, limit = ZERO, start
                if 'start' not in kk and len(a) == 0:
                    start = ZERO
                delta = kk.get('delta', a[2] if len(a) > 2 else ONE)
            elif len(a) == 1:
                start, limit, delta = ZERO, a[0], ONE
            else:
                start, limit = a[0], a[1]
                delta = a[2] if len(a) > 2 else kk.get('delta', ONE)
            if all(isnum(x) and x.args[0].denominator == 1 for x in (start, limit, delta)):
                r = list(range(int(tm.pyval(start)), int(tm.pyval(limit)), int(tm.pyval(delta))))
                if len(r) <= 4096:
                    return mk('list', *[num(i) for i in r])
            t = mk('range', start, limit, delta)
            RANKS.setdefault(t.id, 1)
            return t
        if name == 'roll':
            x = g('input')
            if x.op == 'list' and isnum(g('shift')) and (g('axis') in (ZERO, NONE, num(-1))) and x.args:
                k = int(tm.pyval(g('shift'))) % len(x.args)
                return mk('list', *(x.args[-k:] + x.args[:-k])) if k else x
            if not (isnum(g('axis')) and x.op != 'list'):
                return mk('roll', g('input'), g('shift'), g('axis'))
        if name == 'stop_gradient':
            return self._one(args, kw, st)
        if name == 'unstack':
            x = g('value')
            n = g('num')
            ax = g('axis', ZERO)
            size = self._axis_size(x, ax)
            if isnum(n):
                size = int(n.args[0])
            if size is not None and isnum(ax):
                return eng.new_list(st, [self._slice(x, ax, ('i', num(i))) for i in range(size)])
            return mk('unstack', x, n, ax)
        if name == 'split':
            x, n, ax = g('value'), g('n'), g('axis', ZERO)
            if n is NONE and 'num_or_size_splits' in b:
                n = term(b['num_or_size_splits'])
            size = self._axis_size(x, ax)
            if isnum(n) and size is not None and size % int(n.args[0]) == 0:
                k = size // int(n.args[0])
                sizes = [k] * int(n.args[0])
            elif n.op == 'list' and all(isnum(v) for v in n.args):
                sizes = [int(v.args[0]) for v in n.args]
                if sizes.count(-1) == 1 and size is not None:
                    sizes[sizes.index(-1)] = size - sum(v for v in sizes if v >= 0)
            else:
                sizes = [-1]
            if min(sizes) >= 0 and isnum(ax):
                out, lo = [], 0
                for k in sizes:
                    out.append(self._slice(x, ax, ('s', num(lo), num(lo + k), None)))
                    lo += k
                return eng.new_list(st, out)
            return mk('split', x, n, ax)
        if name == 'norm' and set(kw) <= {'axis', 'keepdims', 'ord', 'tensor', 'x'}:
            x = self._one(args, kw, st)
            o = args[1] if len(args) > 1 else kw.get('ord')
            o = NONE if o is None else term(o)
            ax = kw.get('axis', args[2] if len(args) > 2 else None)
            if (o is NONE or o is num(2) or o is const('euclidean')) and isinstance(ax, T) and isnum(ax):
                sq = self.tensor_op('tensorflow.abs', 'abs', [x], {}, st, node) if self._maybe_complex(x) else x
                sq = self.elementwise(lambda a: tm.powt(a, num(2)), sq)
                k2 = {k: v for k, v in kw.items() if k == 'keepdims'}
                r = self.tensor_op('tensorflow.reduce_sum', 'reduce_sum', [sq, ax], k2, st, node)
                return self.elementwise(lambda a: tm._pow_rat(a, Fraction(1, 2)), term(r))
        if name == 'reduce_euclidean_norm':
            return self.tensor_op('tensorflow.norm', 'norm', args[:1], dict(
                kw, axis=kw.get('axis', args[1] if len(args) > 1 else NONE)), st, node)
        if name == 'matvec':
            x, y = (term(v) for v in (args[:2] if len(args) > 1 else [*args, *[kw[k] for k in ('a', 'b') if k in kw]]))
            k2 = {k: v for k, v in kw.items() if k in ('transpose_a', 'adjoint_a')}
            r = self.tensor_op('tensorflow.matmul', 'matmul', [x, tm.expand_dims(y, num(-1))], k2, st, node)
            return self.squeeze(term(r), num(-1))
        if name == 'repeat':
            x = self._one(args, kw, st)
            n = term(kw.get('repeats', args[1] if len(args) > 1 else None))
            ax = kw.get('axis', args[2] if len(args) > 2 else None)
            if isinstance(ax, T) and isnum(ax) and rank(x) is not None and self._axis_size(x, ax) == 1:
                k = int(ax.args[0]) % rank(x)
                return mk('tile', x, mk('list', *[n if i == k else ONE for i in range(rank(x))]))
        if name == 'einsum':
            r = self._einsum(args, st, node)
            if r is not None:
                return r
        if name in ('polyval',):
            cs = eng.iterate(args[0], st)
            if cs is not None:
                x, r = term(args[1]), ZERO
                for c in cs:
                    r = self.elementwise2(tm.add, self.elementwise2(tm.mul, r, x), term(c))
                return r
        if name == 'hypot' and len(args) == 2:
            q = [self.elementwise(lambda a: tm.powt(a, num(2)), term(a)) for a in args]
            return self.elementwise(lambda a: tm._pow_rat(a, Fraction(1, 2)), self.elementwise2(tm.add, *q))
        if name == 'squared_difference' and len(args) == 2:
            return self.elementwise(lambda a: tm.powt(a, num(2)), self.elementwise2(tm.sub, *[term(a) for a in args]))
        if name == 'cond' and path.startswith('tensorflow'):
            c = as_bool(term(args[0] if args else kw['pred']))
            fs = [*args[1:], *[kw[k] for k in ('true_fn', 'false_fn') if k in kw]]
            c = st.simp(c)
            if c in (TRUE, FALSE):
                return eng.call(fs[0 if c is TRUE else 1], [], {}, st)
            return ite(c, term(eng.call(fs[0], [], {}, st)), term(eng.call(fs[1], [], {}, st)))
        if name == 'one_hot' and len(args) >= 2 and not kw:
            i, n = term(args[0]), term(args[1])
            if isnum(i) and isnum(n):
                return mk('list', *[ONE if k == int(i.args[0]) else ZERO for k in range(int(n.args[0]))])
        if name in ('assert_less', 'assert_equal', 'assert_greater', 'assert_less_equal', 'assert_greater_equal',
                    'assert_positive', 'Assert'):
            v = [term(a) for a in args]
            c = {'assert_less': lambda: tm.lt(v[0], v[1]), 'assert_equal': lambda: eq(v[0], v[1]),
                 'assert_greater': lambda: tm.lt(v[1], v[0]), 'assert_less_equal': lambda: tm.le(v[0], v[1]),
                 'assert_greater_equal': lambda: tm.le(v[1], v[0]), 'assert_positive': lambda: tm.gt0(v[0]),
                 'Assert': lambda: as_bool(v[0])}[name]()
            eng.effect(st, 'reject', bnot(c), node)
            return NONE
        if name == 'print':
            return NONE
        pre = eng.load_spec(_PRELUDE)
        if any(isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name for n in pre.tree.body):
            kk = {k: v for k, v in kw.items() if k not in ('dtype', 'name')}
            for a, b2 in (('a', None), ('input', 'x'), ('m', 'x'), ('arr', 'x'), ('values', 'xs'), ('tensors', 'xs')):
                if a in kk and b2 and b2 not in kk:
                    kk[b2] = kk.pop(a)
            return eng.call(eng.module_lookup(pre, name, st), list(args), kk, st)
        # generic operator
        vals = [term(a) for a in args]
        vals += [mk('list', const(k), term(v)) for k, v in sorted(kw.items()) if k not in ('dtype', 'name')]
        return mk('op:' + name, *vals)

    # ---------------------------------------------------------------- helpers
    def _axis_size(self, x, ax):
        from . import pw
        try:
            s = pw.shape_of(x)
        except Exception:
            return None
        if s is None or not isnum(ax) or not -len(s) <= int(ax.args[0]) < len(s):
            return None
        d = s[int(ax.args[0])]
        return int(d.args[0]) if isnum(d) else None

    def _slice(self, x, ax, sel):
        k = int(ax.args[0])
        if k >= 0:
            return tm.index(x, (FULL,) * k + (sel,))
        return tm.index(x, (ELL, sel) + (FULL,) * (-k - 1))

    def _einsum(self, args, st, node):
        eq_ = self.eng.term(args[0], st)
        if eq_.op != 'const' or '...' in eq_.args[0]:
            return None
        ops, _, out = eq_.args[0].replace(' ', '').partition('->')
        ops = ops.split(',')
        ts = [self.eng.term(a, st) for a in args[1:]]
        if len(ops) != len(ts) or '->' not in eq_.args[0] or any(
                len(set(o)) != len(o) or rank(t) != len(o) for o, t in zip(ops, ts)):
            return None
        labels = list(out) + [c for c in dict.fromkeys(''.join(ops)) if c not in out]
        if any(c not in ''.join(ops) for c in out):
            return None
        r = None
        for o, t in zip(ops, ts):
            perm = [o.index(c) for c in labels if c in o]
            if perm != list(range(len(o))):
                t = tm.transpose(t, mk('list', *[num(i) for i in perm]))
            t = tm.index(t, tuple(FULL if c in o else NEW for c in labels))
            r = t if r is None else self.elementwise2(tm.mul, r, t)
        n = len(labels) - len(out)
        if n:
            r = tm.reduce('reduce_sum', r, mk('list', *[num(len(out) + i) for i in range(n)]) if n > 1
                          else num(len(out)))
        return r

    def _is_dtype(self, x):
        from .interp import Ext
        return isinstance(x, Ext) or (isinstance(x, T) and x.op == 'sym' and x.args[0] in ('rdtype', 'cdtype'))

    def rank_of(self, x):
        r = rank(x)
        return num(r) if r is not None else mk('rank', x)

    def _one(self, args, kw, st):
        if args:
            return self.eng.term(args[0], st)
        for k in ('x', 'input', 'a', 'value', 'tensor', 'angle', 'input_tensor'):
            if k in kw:
                return self.eng.term(kw[k], st)
        from .interp import Unsupported
        raise Unsupported('operator without operand')

    def _maybe_complex(self, x):
        """may the value have an imaginary part?  Inputs are real unless declared complex."""
        m = self._cplx_memo
        st = [x]
        seen = set()
        while st:
            y = st.pop()
            if isinstance(y, tuple):
                st.extend(y)
                continue
            if not isinstance(y, T) or y.id in seen:
                continue
            seen.add(y.id)
            if m.get(y.id) is False:
                continue
            if y is tm.J or y in self.complex_syms or y.op in ('call', 'mcall', 'ext', 'attr') or y.op.startswith('op:') and \
                    y.op not in ('op:cholesky', 'op:sqrtm'):
                return True
            st.extend(y.args)
        for i in seen:
            m[i] = False
        return False

    def toint(self, x):
        if isnum(x):
            f = x.args[0]
            return num(int(f)) if f.denominator != 1 else x
        if is_bool(x):
            return tm.from_poly(tm.to_poly(x))
        if x.op in ('item', 'dim', 'sym', 'toint', 'round', 'len', 'rank', 'attr', 'range', 'argsort', 'ceil', 'floor'):
            return x
        if x.op == 'ite' and all(y.op in ('num', 'item', 'dim', 'sym') for y in x.args[1:]):
            return x
        if x.op == 'rand' and x.args[0].args[0] == 'uniformint':
            return x
        if x.op == 'poly' and all(c.denominator == 1 and all(e > 0 and e.denominator == 1 and
                                  self.toint(a) is a for a, e in m) for m, c in x.args):
            return x
        if x.op == 'min' and all(self.toint(y) is y for y in x.args):
            return x
        return mk('toint', x)

    def floormod(self, a, b):
        if isnum(a) and isnum(b) and b.args[0]:
            return num(a.args[0] % b.args[0])
        if b is num(360):
            return self.wrap360(a)
        return mk('mod', a, b)

    def wrap360(self, a):
        # periodic: reduce the constant part modulo 360, idempotent
        p = tm.to_poly(a)
        c = p.get((), Fraction(0))
        q = {m: v for m, v in p.items() if m}
        if c:
            q[()] = c % 360
            if not q[()]:
                del q[()]
        a = tm.from_poly(q)
        if a.op == 'wrap360':
            return a
        if isnum(a):
            return num(a.args[0] % 360)
        return mk('wrap360', a)

    def squeeze(self, x, ax):
        r = rank(x)
        if ax is NONE:
            return mk('squeeze', x)
        axs = list(ax.args) if ax.op == 'list' else [ax]
        if all(isnum(a) for a in axs):
            ks = [int(a.args[0]) for a in axs]
            if r is not None:
                ks = sorted(k % r for k in ks)
            if all(k >= 0 for k in ks):
                spec = []
                for i in range(max(ks) + 1):
                    spec.append(('i', ZERO) if i in ks else FULL)
                return tm.index(x, tuple(spec))
            if len(ks) == 1:
                return tm.index(x, (ELL, ('i', ZERO)) + (FULL,) * (-ks[0] - 1))
        return mk('squeeze', x, ax)

    def _shapeish(self, x):
        return x.op in ('shape', 'shapecat') or (x.op == 'index' and x.args[0].op in ('shape', 'shapecat')) or \
            (x.op == 'list' and any(y.op == 'dim' for y in x.args))

    def reshape(self, x, sh):
        if sh.op == 'list':
            # reshape(x, shape(x) + [1,...]) is the insertion of trailing axes
            r = rank(x)
            if r is not None and len(sh.args) >= r and all(sh.args[i] is tm.dim(x, num(i)) for i in range(r)) and \
                    all(a is ONE for a in sh.args[r:]):
                return tm.index(x, (FULL,) * r + (NEW,) * (len(sh.args) - r))
            if r is not None:
                # only insertion of unit axes
                spec, i, ok = [], 0, True
                for a in sh.args:
                    if i < r and a is tm.dim(x, num(i)):
                        spec.append(FULL)
                        i += 1
                    elif a is ONE:
                        spec.append(NEW)
                    else:
                        ok = False
                        break
                if ok and i == r:
                    return tm.index(x, tuple(spec))
        if sh.op == 'shapecat' and len(sh.args) == 2 and sh.args[0].op == 'shape' and sh.args[0].args[0] is x and \
                sh.args[1].op == 'list' and all(a is ONE for a in sh.args[1].args):
            return tm.index(x, (ELL,) + (NEW,) * len(sh.args[1].args))
        if x.op == 'reshape':
            x = x.args[0]
        return mk('reshape', x, sh)

    def _concrete_shape(self, sh):
        if sh.op == 'list' and sh.args and all(isnum(a) and a.args[0].denominator == 1 for a in sh.args):
            return [int(a.args[0]) for a in sh.args]
        if isnum(sh) and sh.args[0].denominator == 1:
            return [int(sh.args[0])]
        return None

    def _full(self, shape, v):
        if len(shape) == 1:
            return [v] * shape[0]
        return [self._full(shape[1:], v) for _ in range(shape[0])]

    def _flatten(self, x):
        if x.op == 'list':
            out = []
            for y in x.args:
                out.extend(self._flatten(y))
            return out
        return [x]

    def _concrete_reshape(self, x, sh):
        if x.op != 'list':
            return None
        s = self._concrete_shape(sh)
        if s is None or any(rank(a) not in (0, None) for a in self._flatten(x)):
            return None
        flat = self._flatten(x)
        if s.count(-1) == 1:
            k = 1
            for v in s:
                if v != -1:
                    k *= v
            if k == 0 or len(flat) % k:
                return None
            s = [len(flat) // k if v == -1 else v for v in s]
        n = 1
        for v in s:
            n *= v
        if n != len(flat) or n == 0:
            return None

        def build(lst, dims):
            if len(dims) == 1:
                return mk('list', *lst)
            k = len(lst) // dims[0]
            return mk('list', *[build(lst[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])])
        return build(flat, s)

    def _scatter(self, ix, up, sh):
        s = self._concrete_shape(sh)
        if s is None or ix.op != 'list' or up.op != 'list':
            return None
        try:
            arr = self._full(s, ZERO)
            for i, u in zip(ix.args, up.args):
                ks = [int(tm.pyval(k)) for k in (i.args if i.op == 'list' else [i])]
                a = arr
                for k in ks[:-1]:
                    a = a[k]
                a[ks[-1]] = tm.add(a[ks[-1]], u)
        except (ValueError, IndexError, TypeError):
            return None

        def tl(a):
            return mk('list', *[tl(x) if isinstance(x, list) else x for x in a])
        return tl(arr)

    # ---------------------------------------------------------------- python builtins
    def builtin(self, name, args, kwargs, st, node):
        eng = self.eng
        from .interp import TupleV, RangeV, Ref, Cls, Ext, Unsupported, Cell, Func, Bound
        term = lambda v: eng.term(v, st)
        if name == 'len':
            it = eng.iterate(args[0], st)
            if it is not None:
                return num(len(it))
            x = term(args[0])
            if x.op == 'shape':
                return self.rank_of(x.args[0])
            return mk('len', x)
        if name == 'range':
            v = [term(a) for a in args]
            if all(isnum(x) for x in v):
                return RangeV([num(i) for i in range(*[int(tm.pyval(x)) for x in v])])
            return mk('pyrange', *v)
        if name == 'enumerate':
            it = eng.iterate(args[0], st)
            if it is None:
                raise Unsupported('enumerate over a symbolic iterable')
            s0 = int(tm.pyval(args[1] if len(args) > 1 else kwargs.get('start', ZERO)))
            return RangeV([TupleV([num(i + s0), x]) for i, x in enumerate(it)])
        if name == 'zip':
            its = [eng.iterate(a, st) for a in args]
            if any(i is None for i in its):
                raise Unsupported('zip over a symbolic iterable')
            return RangeV([TupleV(list(x)) for x in zip(*its)])
        if name == 'reversed':
            return RangeV(list(reversed(eng.iterate(args[0], st))))
        if name in ('list', 'tuple', 'set', 'frozenset'):
            if not args:
                return eng.new_list(st, []) if name == 'list' else TupleV([])
            it = eng.iterate(args[0], st)
            if it is None:
                if isinstance(args[0], tuple):
                    return args[0]
                return term(args[0])
            if name in ('set', 'frozenset'):
                return eng.alloc(st, Cell('set', items=it))
            return eng.new_list(st, it) if name == 'list' else TupleV(it)
        if name == 'dict':
            d = {}
            if args:
                it = args[0]
                if isinstance(it, Ref) and eng.cell(st, it).kind == 'symdict':
                    return eng.alloc(st, eng.cell(st, it).copy())
                if isinstance(it, Ref) and eng.cell(st, it).kind == 'dict':
                    d.update(eng.cell(st, it).items)
                else:
                    for x in eng.iterate(it, st):
                        k, v = eng.iterate(x, st)
                        d[eng.pykey(k)] = v
            d.update(kwargs)
            return eng.alloc(st, Cell('dict', items=d))
        if name == 'map':
            it = [eng.iterate(a, st) for a in args[1:]]
            if any(i is None for i in it):
                raise Unsupported('map over a symbolic iterable')
            return RangeV([eng.call(args[0], list(x), {}, st) for x in zip(*it)])
        if name == 'sorted':
            it = eng.iterate(args[0], st)
            ks = [term(x) for x in it]
            if all(k.op in ('num', 'const') for k in ks) and 'key' not in kwargs:
                o = sorted(zip([tm.pyval(k) for k in ks], it), key=lambda p: p[0])
                r = [x for _, x in o]
                if kwargs.get('reverse') is TRUE:
                    r.reverse()
                return eng.new_list(st, r)
            raise Unsupported('sorted of symbolic values')
        if name == 'isinstance':
            return self.isinstance_(args[0], args[1], st)
        if name == 'str':
            return self.to_str(term(args[0])) if args else const('')
        if name == 'int':
            x = term(args[0])
            if x.op == 'const' and isinstance(x.args[0], str):
                try:
                    return num(int(x.args[0]))
                except ValueError:
                    pass
            return self.toint(x)
        if name == 'float':
            x = term(args[0])
            if x.op == 'const' and isinstance(x.args[0], str):
                try:
                    return num(float(x.args[0]))
                except ValueError:
                    return x
            return x
        if name == 'bool':
            return as_bool(term(args[0])) if args else FALSE
        if name == 'complex':
            return tm.cplx(term(args[0]), term(args[1]) if len(args) > 1 else ZERO)
        if name == 'round':
            x = term(args[0])
            if len(args) > 1 and args[1] is not NONE:
                return mk('round', x, term(args[1]))
            if isnum(x):
                return num(round(x.args[0]))
            return mk('round', x)
        if name == 'abs':
            return tm.absv(term(args[0]))
        if name in ('min', 'max'):
            if len(args) == 1:
                it = eng.iterate(args[0], st)
                if it is None:
                    return mk('reduce_' + name, term(args[0]), NONE)
                return tm.minmax(name, [term(x) for x in it])
            return tm.minmax(name, [term(x) for x in args])
        if name == 'sum':
            it = eng.iterate(args[0], st)
            if it is None:
                return mk('reduce_sum', term(args[0]), ZERO)
            r = term(args[1]) if len(args) > 1 else ZERO
            for x in it:
                r = self.elementwise2(tm.add, r, term(x))
            return r
        if name == 'pow':
            return tm.powt(term(args[0]), term(args[1]))
        if name in ('any', 'all'):
            it = eng.iterate(args[0], st)
            if it is None:
                return mk(name, term(args[0]), NONE)
            return (bor if name == 'any' else band)(*[as_bool(term(x)) for x in it])
        if name == 'print':
            return NONE
        if name == 'getattr':
            k = eng.pykey(term(args[1]))
            if not isinstance(k, str):
                raise Unsupported('getattr with a symbolic name')
            return eng.getattr(args[0], k, st)
        if name == 'setattr':
            k = eng.pykey(term(args[1]))
            if not isinstance(k, str):
                raise Unsupported('setattr with a symbolic name')
            eng.setattr(args[0], k, args[2], st)
            return NONE
        if name == 'hasattr':
            k = eng.pykey(term(args[1]))
            return self.builtin_hasattr(args[0], k, st)
        if name == 'callable':
            return const(isinstance(args[0], (Func, Bound, Cls, Ext)))
        if name == 'type':
            if isinstance(args[0], Ref) and eng.cell(st, args[0]).kind == 'obj':
                return eng.cell(st, args[0]).cls
            return mk('type', term(args[0]))
        if name == 'open':
            return term(args[0])
        if name == 'slice':
            v = [term(a) for a in args]
            if len(v) == 1:
                v = [NONE, v[0], NONE]
            return mk('slice', *(v + [NONE] * (3 - len(v))))
        if name.endswith(('Error', 'Exception', 'Warning')):
            return mk('exc', const(name))
        if name == 'super':
            raise Unsupported('super with arguments')
        if name == 'property':
            return ('propcall', args[0])
        if name in ('staticmethod', 'classmethod'):
            return args[0]
        if name == 'format':
            return self.to_str(term(args[0]))
        if name == 'divmod':
            a, b = term(args[0]), term(args[1])
            if isnum(a) and isnum(b) and b.args[0]:
                return TupleV([num(a.args[0] // b.args[0]), num(a.args[0] % b.args[0])])
            return TupleV([mk('floordiv', a, b), mk('mod', a, b)])
        if name == 'uf':
            return mk('uf', *[term(a) for a in args])
        if name in ('iter',):
            return args[0]
        raise Unsupported('builtin %s' % name)

    def isinstance_(self, v, cls, st):
        from .interp import TupleV, Ref, Cls, Ext
        eng = self.eng
        cl = cls.items if isinstance(cls, TupleV) else [cls]
        res = []
        for c in cl:
            cname = c.name if isinstance(c, Cls) else (c.path.split('.')[-1] if isinstance(c, Ext) else str(c))
            if isinstance(v, Ref) and eng.cell(st, v).kind == 'obj':
                res.append(const(eng.cell(st, v).cls.subclass_of(cname)))
            elif isinstance(v, Ref):
                res.append(const(eng.cell(st, v).kind == cname))
            elif isinstance(v, TupleV):
                res.append(const(cname == 'tuple'))
            elif isinstance(v, T):
                if v.op == 'num':
                    isint = v.args[0].denominator == 1
                    res.append(const((cname == 'int' and isint) or (cname == 'float' and not isint)))
                elif v.op == 'const':
                    res.append(const(type(v.args[0]).__name__ == cname or (cname == 'int' and isinstance(v.args[0], bool))))
                elif v.op == 'ite':
                    res.append(ite(v.args[0], self.isinstance_(v.args[1], c, st), self.isinstance_(v.args[2], c, st)))
                else:
                    res.append(st.simp(mk('isinstance', v, const(cname))))
            else:
                res.append(FALSE)
        return bor(*res)

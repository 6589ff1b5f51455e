"""Abstract interpreter over the Python syntax tree.

Every function of the analysed package is interpreted over the term domain of
terms.py: assignments build value-graph terms, branches are merged with gated
selections, calls to functions/methods of the package are inlined through the
class hierarchy, calls to TensorFlow/NumPy/Sionna become operators (tfmodel.py).
No analysed code is executed.
"""
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import (T, mk, const, num, sym, PI, NONE, TRUE, FALSE, UNDEF, PROV, RANKS,
                    band, bor, bnot, as_bool, ite, eq, isnum, isconst, is_bool)


class Unsupported(Exception):
    """The source uses a construct this analysis cannot interpret (=> no answer)."""


class AnchorMissing(Exception):
    """A public entry point named by a property does not exist any more."""


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class Cell:
    """heap cell: kind obj/list/dict/symdict/nd/set"""
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'name', 'base')

    def __init__(self, kind, cls=None, attrs=None, items=None, name=None, base=None):
        self.kind, self.cls, self.name, self.base = kind, cls, name, base
        self.attrs = {} if attrs is None else attrs
        self.items = [] if items is None else items

    def copy(self):
        it = self.items
        if isinstance(it, list):
            it = [list(x) if isinstance(x, list) else x for x in it]
        elif isinstance(it, dict):
            it = dict(it)
        return Cell(self.kind, self.cls, dict(self.attrs), it, self.name, self.base)


class Func:
    def __init__(self, node, module, frame=None, cls=None, qual=None):
        self.node, self.module, self.frame, self.cls = node, module, frame, cls
        self.qual = qual or getattr(node, 'name', '<lambda>')


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Cls:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.members = {}
        self.props = {}
        self.setters = {}
        self.static = set()
        self.clsm = set()
        self.cached = set()

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        return [b for c in self.mro() for b in c.bases if isinstance(b, Ext)]

    def lookup(self, name):
        for c in self.mro():
            if name in c.setters and name not in c.props and name not in c.members:
                continue
            if name in c.props:
                return 'prop', c.props[name], c
            if name in c.members:
                return 'member', c.members[name], c
        return None, None, None

    def subclass_of(self, name):
        return any(c.name == name for c in self.mro()) or any(
            b.path.split('.')[-1] == name for b in self.ext_bases())


class Ext:
    """external dotted name (module, class or function)"""
    def __init__(self, path):
        self.path = path


class TupleV:
    def __init__(self, items):
        self.items = list(items)


class SuperV:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ModV:
    def __init__(self, module):
        self.module = module


class RangeV:
    def __init__(self, items):
        self.items = items


class State:
    def __init__(self):
        self.heap = {}
        self.frames = {}
        self.pc = ()              # tuple of (tag, cond) tag 'b' branch / 'a' assumption
        self.effects = []
        self.counters = {}
        self.lits = frozenset()

    def copy(self):
        s = State()
        s.heap = {k: v.copy() for k, v in self.heap.items()}
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc = self.pc
        s.effects = list(self.effects)
        s.counters = dict(self.counters)
        s.lits = self.lits
        return s

    def become(self, o):
        self.heap, self.frames, self.pc, self.effects, self.counters, self.lits = \
            o.heap, o.frames, o.pc, o.effects, o.counters, o.lits

    def assume(self, tag, c):
        self.pc = self.pc + ((tag, c),)
        ls = set(self.lits)
        ls.add(c)
        if c.op == 'and':
            ls.update(c.args)
        self.lits = frozenset(ls)

    def cond(self):
        return band(*[c for t, c in self.pc if t == 'b'])

    def simp(self, c):
        """c with every atom decided by the assumptions replaced by its value"""
        c = as_bool(c)
        if isconst(c):
            return c
        if c in self.lits:
            return TRUE
        if bnot(c) in self.lits:
            return FALSE
        if c.op == 'and':
            if any(bnot(x) in self.lits for x in c.args):
                return FALSE
            return band(*[self.simp(x) for x in c.args])
        if c.op == 'or':
            if any(x in self.lits for x in c.args):
                return TRUE
            return bor(*[self.simp(x) for x in c.args])
        if c.op == 'not':
            return bnot(self.simp(c.args[0]))
        if c.op in ('gt0', 'eq0', 'eq'):
            v = self.implied(c)
            if v is not None:
                return TRUE if v else FALSE
        return c

    def implied(self, c):
        from .compare import Facts
        key = (self.lits, c)
        r = _IMPLIED.get(key, 0)
        if r == 0:
            f = Facts([(x.args[0], False) if x.op == 'not' else (x, True) for x in self.lits])
            r = _IMPLIED[key] = f.implied(c)
        return r


_IMPLIED = {}


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.ns = None
        self.frame = None


class Effect:
    __slots__ = ('kind', 'cond', 'data', 'prov')

    def __init__(self, kind, cond, data, prov):
        self.kind, self.cond, self.data, self.prov = kind, cond, data, prov


class Engine:
    MAXDEPTH = 60

    def __init__(self, pkgdir, pkgname='OpenNTN', alias=('sionna.phy.channel.tr38811',), specdir=None):
        self.pkgdir, self.pkgname, self.alias = pkgdir, pkgname, alias
        self.modules = {}
        self.specdir = specdir
        self.nid = 0
        self.depth = 0
        self.stack = []
        self.types = {}           # (clsname, attr) -> clsname
        self.attr_ranks = {}      # (clsname, attr) -> rank
        self.opaque = {}          # qualname -> (result clsname or None)
        self.analysed = {}        # qualname -> file:line of functions interpreted
        self.callsites = 0
        self.branches = 0
        self.dtype_events = []
        self.rng_events = []
        self.errors = []          # operations that fail whenever they are reached: (condition, what, where)
        self.loops = 0
        self.root = State()
        from . import tfmodel
        self.tf = tfmodel.Model(self)
        for fn in sorted(os.listdir(pkgdir)):
            if fn.endswith('.py'):
                self._parse(fn[:-3], os.path.join(pkgdir, fn))
        for m in list(self.modules.values()):
            self._define(m)

    # ------------------------------------------------------------ loading
    def _parse(self, name, path):
        src = open(path).read()
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Unsupported('syntax error in %s: %s' % (path, e))
        self.modules[name] = Module(name, path, tree, src)

    def load_spec(self, path):
        name = 'spec:' + os.path.basename(path)[:-3]
        if name not in self.modules:
            self._parse(name, path)
            self._define(self.modules[name])
            self._run_module(self.modules[name])
        return self.modules[name]

    def _define(self, m):
        """namespace of a module, lazily executed"""
        m.ns = {}

    def _run_module(self, m):
        if m.frame is not None:
            return
        st = self.root
        fid = self._newid()
        st.frames[fid] = {}
        m.frame = fid
        old = PROV[0]
        body = [s for s in m.tree.body]
        saved = self.stack
        self.stack = [(m, None, None)]
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Assign,
                              ast.AnnAssign, ast.AugAssign, ast.If, ast.For, ast.Expr, ast.Try)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.ImportFrom):
                    # imports are resolved lazily (cyclic packages)
                    for al in s.names:
                        st.frames[fid][al.asname or al.name] = ('lazy', s, al.name)
                    continue
                self.exec_block([s], st, fid, m)
        self.stack = saved
        PROV[0] = old

    def _newid(self):
        self.nid += 1
        return self.nid

    def module_lookup(self, m, name, st):
        self._run_module(m)
        fr = st.frames.get(m.frame)
        if fr is None:
            fr = st.frames[m.frame] = dict(self.root.frames[m.frame])
        if name in fr:
            v = fr[name]
            if isinstance(v, tuple) and v and v[0] == 'lazy':
                v = self.resolve_from(m, v[1], v[2], st)
                fr[name] = v
                self.root.frames[m.frame][name] = v
            return v
        return None

    def resolve_from(self, m, node, name, st):
        mod = node.module or ''
        if node.level == 0 and mod.startswith('specs.') and self.specdir:
            sm = self.load_spec(os.path.join(self.specdir, mod[6:] + '.py'))
            return self._need(self.module_lookup(sm, name, st), name, mod)
        if node.level == 0 and mod in self.alias:
            return self._pkg_name(name, st)
        for a in self.alias + (self.pkgname,):
            if node.level == 0 and mod.startswith(a + '.'):
                sub = mod[len(a) + 1:]
                if sub in self.modules:
                    return self._need(self.module_lookup(self.modules[sub], name, st), name, sub)
                return Ext(mod + '.' + name)
        if node.level == 1 or (node.level == 0 and mod == self.pkgname):
            if not mod or mod == self.pkgname:
                return self._pkg_name(name, st)
            if mod in self.modules:
                return self._need(self.module_lookup(self.modules[mod], name, st), name, mod)
            return Ext(self.pkgname + '.' + mod + '.' + name)
        path = (('.' * node.level) + mod + '.' + name).lstrip('.')
        k = self.tf.ext_const(path)
        return k if k is not None else Ext(path)

    def _need(self, v, name, mod):
        if v is None:
            raise Unsupported("name '%s' is not defined in module %s" % (name, mod))
        return v

    def _pkg_name(self, name, st):
        if name in self.modules:
            v = None
            if '__init__' in self.modules:
                v = self.module_lookup(self.modules['__init__'], name, st)
            return v if v is not None else ModV(self.modules[name])
        if '__init__' in self.modules:
            v = self.module_lookup(self.modules['__init__'], name, st)
            if v is not None:
                return v
        # exported anywhere?
        if os.path.isdir(os.path.join(self.pkgdir, name)):
            return Ext(self.pkgname + '.' + name)
        raise Unsupported("package %s exports no '%s'" % (self.pkgname, name))

    def get_class(self, name, st=None):
        st = st or self.root
        for m in self.modules.values():
            if m.name.startswith('spec:'):
                continue
            for s in m.tree.body:
                if isinstance(s, ast.ClassDef) and s.name == name:
                    return self.module_lookup(m, name, st)
        raise AnchorMissing("class %s not found in the package" % name)

    def get_func(self, modname, name, st=None):
        if modname not in self.modules:
            raise AnchorMissing('module %s not found' % modname)
        v = self.module_lookup(self.modules[modname], name, st or self.root)
        if v is None:
            raise AnchorMissing('%s.%s not found' % (modname, name))
        return v

    # ------------------------------------------------------------ heap helpers
    def alloc(self, st, cell):
        r = Ref(self._newid())
        st.heap[r.id] = cell
        return r

    def cell(self, st, r):
        c = st.heap.get(r.id)
        if c is None:
            c = self.root.heap.get(r.id)
            if c is None:
                raise Unsupported('dangling reference')
            c = c.copy()
            st.heap[r.id] = c
        return c

    def new_list(self, st, items):
        return self.alloc(st, Cell('list', items=list(items)))

    def symobj(self, st, name, clsname, **attrs):
        """symbolic (lazily initialised) instance of a package class"""
        cls = self.get_class(clsname, st) if isinstance(clsname, str) else clsname
        return self.alloc(st, Cell('obj', cls=cls, name=sym(name) if isinstance(name, str) else name,
                                   attrs=dict(attrs)))

    # ------------------------------------------------------------ conversion to terms
    def term(self, v, st):
        if isinstance(v, T):
            return v
        if isinstance(v, TupleV):
            return mk('list', *[self.term(x, st) for x in v.items])
        if isinstance(v, RangeV):
            return mk('list', *[self.term(x, st) for x in v.items])
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if c.kind in ('list', 'set'):
                return mk('list', *[self.term(x, st) for x in c.items])
            if c.kind == 'nd':
                return self._nd_term(c.items)
            if c.kind == 'dict':
                ks = sorted(c.items.items(), key=lambda kv: str(kv[0]))
                return mk('dict', *[mk('list', const(str(k)), self.term(x, st)) for k, x in ks])
            if c.kind == 'symdict':
                return c.base
            if c.kind == 'obj':
                if c.name is not None and not c.attrs:
                    return mk('obj', c.name)
                if c.name is not None:
                    base = c.name
                else:
                    base = const(c.cls.name)
                at = []
                for k in sorted(c.attrs):
                    x = c.attrs[k]
                    if isinstance(x, (T, Ref, TupleV)):
                        if isinstance(x, Ref) and x == v:
                            continue
                        at.append(mk('list', const(k), self.term(x, st)))
                return mk('obj', base, *at)
        if isinstance(v, (Func, Bound, Cls, Ext, ModV, SuperV)):
            return mk('fn', const(self.fn_name(v)))
        if v is None:
            return NONE
        raise Unsupported('cannot represent value %r' % (v,))

    def _nd_term(self, items):
        return mk('list', *[self._nd_term(x) if isinstance(x, list) else x for x in items])

    def fn_name(self, v):
        if isinstance(v, Func):
            return v.qual
        if isinstance(v, Bound):
            return self.fn_name(v.func) if isinstance(v.func, Func) else str(v.func)
        if isinstance(v, Cls):
            return v.name
        if isinstance(v, Ext):
            return v.path
        return type(v).__name__

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, s1, s2, out):
        if a is b:
            return a
        if isinstance(a, tuple) and a and a[0] == 'lazy':
            return b
        if isinstance(b, tuple) and b and b[0] == 'lazy':
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            ca, cb = self.cell(s1, a), self.cell(s2, b)
            if ca.kind == cb.kind == 'list' and len(ca.items) == len(cb.items):
                return self.alloc(out, Cell('list', items=[self.merge_val(c, x, y, s1, s2, out)
                                                           for x, y in zip(ca.items, cb.items)]))
            if ca.kind == cb.kind == 'symdict' and not ca.items and not cb.items:
                return self.alloc(out, Cell('symdict', base=ite(c, ca.base, cb.base), items={}))
            if ca.kind == cb.kind == 'obj' and ca.cls is cb.cls:
                n = Cell('obj', cls=ca.cls)
                for k in set(ca.attrs) | set(cb.attrs):
                    n.attrs[k] = self.merge_val(c, ca.attrs.get(k, UNDEF), cb.attrs.get(k, UNDEF), s1, s2, out)
                if ca.name is not None and ca.name is cb.name:
                    n.name = ca.name
                return self.alloc(out, n)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_val(c, x, y, s1, s2, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, (Func, Bound, Ext, Cls)) and isinstance(b, (Func, Bound, Ext, Cls)):
            if self._same_callable(a, b):
                return a
            return ('choice', c, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, (Func, Bound, Ext, Cls)) or \
                isinstance(b, (Func, Bound, Ext, Cls)):
            if (isinstance(a, T) and a is UNDEF):
                return b
            if (isinstance(b, T) and b is UNDEF):
                return a
            return ('choice', c, a, b)
        return ite(c, self.term(a, s1), self.term(b, s2))

    def _same_callable(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Func):
            return a.node is b.node
        if isinstance(a, Bound):
            return a.obj == b.obj and (a.func is b.func or (isinstance(a.func, Func) and isinstance(b.func, Func)
                                                             and a.func.node is b.func.node))
        if isinstance(a, Ext):
            return a.path == b.path
        return a is b

    def merge(self, c, s1, s2, base):
        """state valid after a branch: s1 under c, s2 under not c"""
        out = State()
        out.heap = {}
        for i in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(i), s2.heap.get(i)
            if a is None or b is None:
                out.heap[i] = a or b
                continue
            if a.kind != b.kind:
                if {a.kind, b.kind} == {'dict', 'symdict'} and not (a if a.kind == 'dict' else b).items:
                    # entries of an empty mapping are never read where it is still empty
                    out.heap[i] = (a if a.kind == 'symdict' else b).copy()
                    continue
                if {a.kind, b.kind} - {'list', 'nd'}:
                    raise Unsupported('container of two kinds after a branch')
            if a.kind == 'obj':
                n = a.copy()
                for k in set(a.attrs) | set(b.attrs):
                    x = a.attrs.get(k)
                    y = b.attrs.get(k)
                    if x is None and y is not None:
                        x = self._absent_attr(a, k)
                    if y is None and x is not None:
                        y = self._absent_attr(b, k)
                    n.attrs[k] = self.merge_val(c, x, y, s1, s2, out)
                out.heap[i] = n
            elif a.kind in ('list', 'nd'):
                if len(a.items) == len(b.items):
                    n = a.copy()
                    n.items = self._merge_items(c, a.items, b.items, s1, s2, out)
                    out.heap[i] = n
                else:
                    n = Cell('symlist', base=ite(c, mk('list', *[self.term(x, s1) for x in a.items]),
                                                 mk('list', *[self.term(x, s2) for x in b.items])))
                    out.heap[i] = n
            elif a.kind == 'dict':
                n = a.copy()
                for k in set(a.items) | set(b.items):
                    n.items[k] = self.merge_val(c, a.items.get(k, UNDEF), b.items.get(k, UNDEF), s1, s2, out)
                out.heap[i] = n
            elif a.kind == 'symdict':
                n = a.copy()
                for k in set(a.items) | set(b.items):
                    n.items[k] = self.merge_val(c, a.items.get(k, self.tf.item(a.base, k)),
                                                b.items.get(k, self.tf.item(b.base, k)), s1, s2, out)
                n.base = ite(c, a.base, b.base)
                out.heap[i] = n
            else:
                out.heap[i] = a
        for i in set(s1.frames) | set(s2.frames):
            a, b = s1.frames.get(i), s2.frames.get(i)
            if a is None or b is None:
                r = self.root.frames.get(i)
                if isinstance(i, tuple) and i[0] == 'memo':
                    continue
                if isinstance(i, tuple):
                    r = {}
                if r is None or (a or b) is r:
                    out.frames[i] = a or b
                    continue
                a, b = a or r, b or r
            f = {}
            if isinstance(i, tuple):
                out.frames[i] = self._merge_side(i, c, a, b, s1, s2, out)
                continue
            for k in set(a) | set(b):
                if k[0] == '§':
                    f[k] = a.get(k, b.get(k))
                    continue
                f[k] = self.merge_val(c, a.get(k, UNDEF), b.get(k, UNDEF), s1, s2, out)
            out.frames[i] = f
        n = len(base.effects)
        out.effects = s1.effects + s2.effects[n:]
        out.pc = base.pc
        out.lits = base.lits
        out.counters = dict(s1.counters)
        for k, v in s2.counters.items():
            out.counters[k] = max(v, out.counters.get(k, 0))
        return out

    def _merge_side(self, i, c, a, b, s1, s2, out):
        """class attributes assigned at run time and memoized results"""
        f = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if i[0] == 'memo':
                if x is not None and y is not None:
                    f[k] = (self.merge_val(c, x[0], y[0], s1, s2, out), x[1])
                continue
            d = i[1].members.get(k, UNDEF)
            f[k] = self.merge_val(c, d if x is None else x, d if y is None else y, s1, s2, out)
        return f

    def _absent_attr(self, cell, k):
        if cell.name is not None:
            return self.lazy_attr_term(cell, k)
        return UNDEF

    def _merge_items(self, c, a, b, s1, s2, out):
        r = []
        for x, y in zip(a, b):
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                r.append(self._merge_items(c, x, y, s1, s2, out))
            elif isinstance(x, list) or isinstance(y, list):
                raise Unsupported('merge of ragged arrays')
            else:
                r.append(self.merge_val(c, x, y, s1, s2, out))
        return r

    def lazy_attr_term(self, cell, k):
        t = mk('attr', cell.name, const(k)) if cell.name.op != 'sym' else sym(cell.name.args[0] + '.' + k)
        for c in cell.cls.mro():
            if (c.name, k) in self.attr_ranks:
                RANKS[t.id] = self.attr_ranks[(c.name, k)]
        return t

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fid, m):
        """returns list of exits (kind, value, state); at most one 'fall' (the same st object)"""
        exits = []
        for i, s in enumerate(stmts):
            try:
                r = self.exec_stmt(s, st, fid, m)
            except Dead:
                r = []
            fall = None
            for e in r:
                if e[0] == 'fall':
                    fall = e[2]
                else:
                    exits.append(e)
            if fall is None:
                if not r and exits:
                    tgt = exits[-1][2].effects
                    ids = set(map(id, tgt))
                    tgt.extend(x for x in st.effects if id(x) not in ids)
                return exits
            if fall is not st:
                st.become(fall)
        exits.append(('fall', None, st))
        return exits

    def setprov(self, node, m):
        if m is None or m.name.startswith('spec:'):
            PROV[0] = None
        else:
            fn = self.stack[-1][1] if self.stack else None
            PROV[0] = (os.path.basename(m.path), getattr(node, 'lineno', 0), fn)

    def exec_stmt(self, s, st, fid, m):
        self.setprov(s, m)
        F = ('fall', None, st)
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.eval(s.value, st, fid, m)
            return [F]
        if isinstance(s, ast.Assign):
            v = self.eval(s.value, st, fid, m)
            for t in s.targets:
                self.assign(t, v, st, fid, m)
            return [F]
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, st, fid, m), st, fid, m)
            return [F]
        if isinstance(s, ast.AugAssign):
            cur = self.eval(_load(s.target), st, fid, m)
            v = self.eval(s.value, st, fid, m)
            if isinstance(cur, Ref):
                c = self.cell(st, cur)
                if c.kind == 'list' and isinstance(s.op, ast.Add):
                    c.items.extend(self.iterate(v, st))
                    return [F]
                if c.kind == 'nd':
                    r = self.binop(s.op, self.term(cur, st), self.term(v, st))
                    c.items = _unlist(r)
                    return [F]
            self.assign(s.target, self.binop_v(s.op, cur, v, st), st, fid, m)
            return [F]
        if isinstance(s, ast.Return):
            v = NONE if s.value is None else self.eval(s.value, st, fid, m)
            return [('ret', v, st)]
        if isinstance(s, ast.If):
            return self.exec_if(s, st, fid, m)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.exec_for(s, st, fid, m)
        if isinstance(s, ast.While):
            return self.exec_while(s, st, fid, m)
        if isinstance(s, ast.Assert):
            c = st.simp(as_bool(self.term(self.eval(s.test, st, fid, m), st)))
            self.effect(st, 'reject', bnot(c), s)
            if c is FALSE:
                return []
            if not isconst(c):
                st.assume('a', c)
            return [F]
        if isinstance(s, ast.Raise):
            self.effect(st, 'reject', TRUE, s)
            return []
        if isinstance(s, ast.FunctionDef):
            f = Func(s, m, frame=fid, qual=s.name)
            defaults = self.eval_defaults(s.args, st, fid, m)
            f.defaults = defaults
            st.frames[fid][s.name] = f
            return [F]
        if isinstance(s, ast.ClassDef):
            st.frames[fid][s.name] = self.make_class(s, st, fid, m)
            return [F]
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.Nonlocal):
                self._frame_meta(st, fid).update(s.names)
            if isinstance(s, ast.Global):
                st.frames[fid]['§global'] = st.frames[fid].get('§global', frozenset()) | frozenset(s.names)
            return [F]
        if isinstance(s, ast.Import):
            for al in s.names:
                if al.asname:
                    st.frames[fid][al.asname] = self.import_ext(al.name, st)
                else:
                    st.frames[fid][al.name.split('.')[0]] = self.import_ext(al.name.split('.')[0], st)
            return [F]
        if isinstance(s, ast.ImportFrom):
            for al in s.names:
                st.frames[fid][al.asname or al.name] = self.resolve_from(m, s, al.name, st)
            return [F]
        if isinstance(s, ast.With):
            for it in s.items:
                v = self.eval(it.context_expr, st, fid, m)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st, fid, m)
            return self.exec_block(s.body, st, fid, m)
        if isinstance(s, ast.Try):
            return self.exec_try(s, st, fid, m)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.frames[fid].pop(t.id, None)
            return [F]
        if isinstance(s, ast.Break):
            return [('brk', None, st)]
        if isinstance(s, ast.Continue):
            return [('cont', None, st)]
        raise Unsupported('statement %s at %s:%s' % (type(s).__name__, m.name, s.lineno))

    def _frame_meta(self, st, fid):
        return st.frames[fid].setdefault('§nonlocal', set())

    def import_ext(self, name, st):
        for a in self.alias + (self.pkgname,):
            if name.startswith(a + '.') and name[len(a) + 1:] in self.modules:
                return ModV(self.modules[name[len(a) + 1:]])
        return Ext(name)

    def effect(self, st, kind, data, node):
        if kind == 'reject':
            c = band(st.cond(), data)
            if c is FALSE:
                return
            st.effects.append(Effect('reject', c, None, PROV[0]))
        else:
            st.effects.append(Effect(kind, st.cond(), data, PROV[0]))
            if kind == 'error':
                self.errors.append((st.cond(), data.args[0], PROV[0]))

    def exec_if(self, s, st, fid, m):
        c = st.simp(as_bool(self.term(self.eval(s.test, st, fid, m), st)))
        if c is TRUE:
            return self.exec_block(s.body, st, fid, m)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fid, m)
        self.branches += 1
        base = st
        s1, s2 = st.copy(), st.copy()
        s1.assume('b', c)
        s2.assume('b', bnot(c))
        e1 = self.exec_block(s.body, s1, fid, m)
        e2 = self.exec_block(s.orelse, s2, fid, m)
        out = [e for e in e1 + e2 if e[0] != 'fall']
        f1 = next((e[2] for e in e1 if e[0] == 'fall'), None)
        f2 = next((e[2] for e in e2 if e[0] == 'fall'), None)
        if f1 is not None and f2 is not None:
            out.append(('fall', None, self.merge(c, f1, f2, base)))
        elif f1 is not None:
            self._carry_effects(f1, e2, base)
            out.append(('fall', None, f1))
        elif f2 is not None:
            self._carry_effects(f2, e1, base)
            out.append(('fall', None, f2))
        else:
            # both branches ended; effects of raising branches are kept by the engine
            pass
        self._lost_effects(out, s1, s2, e1, e2, base)
        return out

    def _carry_effects(self, keep, other_exits, base):
        # effects (rejections) of a branch that raised must not be lost; branches that
        # returned carry their own effects in their exit state
        if not other_exits:
            pass

    def _lost_effects(self, out, s1, s2, e1, e2, base):
        n = len(base.effects)
        for s, e, other in ((s1, e1, e2), (s2, e2, e1)):
            if not e:                        # this branch always raises
                extra = s.effects[n:]
                self.dead_effects(extra, out, base)

    def dead_effects(self, extra, out, base):
        if out:
            tgt = out[-1][2]
            tgt.effects.extend(extra)
        else:
            base.effects.extend(extra)
            self.pending_dead = list(extra)

    def exec_try(self, s, st, fid, m):
        base = st.copy()
        n = len(st.effects)
        ex = self.exec_block(s.body, st, fid, m)
        fall = next((e[2] for e in ex if e[0] == 'fall'), None)
        rej = []
        src = fall or (ex[0][2] if ex else st)
        for e in src.effects[n:]:
            if e.kind == 'reject':
                rej.append(e)
        if s.handlers and rej:
            src.effects = [e for e in src.effects if e not in rej]
            c = bor(*[e.cond for e in rej])
            h = base.copy()
            h.assume('b', c)
            hx = self.exec_block(s.handlers[0].body, h, fid, m)
            hf = next((e[2] for e in hx if e[0] == 'fall'), None)
            out = [e for e in ex + hx if e[0] != 'fall']
            if fall is not None and hf is not None:
                f = self.merge(c, hf, fall, base)
                out.append(('fall', None, f))
            elif fall is not None or hf is not None:
                f = fall or hf
                if not hx:
                    f.effects.extend(h.effects[len(base.effects):])
                out.append(('fall', None, f))
            ex = out
        fall = next((e[2] for e in ex if e[0] == 'fall'), None)
        if fall is not None and (s.orelse or s.finalbody):
            ex = [e for e in ex if e[0] != 'fall'] + self.exec_block(s.orelse + s.finalbody, fall, fid, m)
        return ex

    def iterate(self, v, st):
        """concrete python list of values, or None if the iterable is symbolic"""
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, RangeV):
            return list(v.items)
        if isinstance(v, Ref):
            c = self.cell(st, v)
            if c.kind in ('list', 'set'):
                return list(c.items)
            if c.kind == 'dict':
                return [self._keyval(k) for k in c.items]
            if c.kind == 'nd':
                return [self._nd_term(x) if isinstance(x, list) else x for x in c.items]
            return None
        if isinstance(v, T):
            if v.op in ('list', 'tuple'):
                return list(v.args)
            if v.op == 'const' and isinstance(v.args[0], str):
                return [const(ch) for ch in v.args[0]]
            return None
        return None

    def dkey(self, k, st):
        """dictionary key of a value: Python constants and tuples of them, terms otherwise"""
        if isinstance(k, T):
            p = self.pykey(k)
            return k if p is None else p
        if isinstance(k, (TupleV, RangeV)):
            ks = tuple(self.dkey(x, st) for x in k.items)
            if not any(isinstance(x, T) for x in ks):
                return ks
        return self.term(k, st)

    def dfind(self, c, key, st):
        """entries of a dictionary that a key may denote, latest first: [(condition, value)]"""
        if key in c.items and not any(isinstance(k, T) for k in c.items) and not isinstance(key, T):
            return [(self._present(c.items[key]), self._given(c.items[key]))]
        out = []
        kv = self._keyval(key)
        for k, v in reversed(list(c.items.items())):
            if type(k) is type(key) and k == key:
                e = TRUE
            elif not isinstance(k, T) and not isinstance(key, T):
                e = FALSE
            else:
                e = st.simp(self.host_eq(kv, self._keyval(k), st))
            e = band(e, self._present(v))
            if e is FALSE:
                continue
            out.append((e, self._given(v)))
            if e is TRUE:
                break
        return out

    def _present(self, v):
        if v is UNDEF:
            return FALSE
        if isinstance(v, T) and v.op == 'ite':
            if not any(_has_undef(x) for x in v.args[1:]):
                return TRUE
            a, b = self._present(v.args[1]), self._present(v.args[2])
            if a is TRUE and b is TRUE:
                return TRUE
            return bor(band(v.args[0], a), band(bnot(v.args[0]), b))
        return TRUE

    def _given(self, v):
        if isinstance(v, T) and v.op == 'ite':
            if v.args[1] is UNDEF:
                return self._given(v.args[2])
            if v.args[2] is UNDEF:
                return self._given(v.args[1])
        return v

    def dict_get(self, c, key, st, default=None):
        """d[key] (default None: a missing key is an error) or d.get(key, default)"""
        f = self.dfind(c, key, st)
        if default is None:
            missing = band(*[bnot(e) for e, v in f])
            if missing is TRUE:
                if isinstance(key, T):
                    self.effect(st, 'reject', TRUE, None)
                else:
                    self.effect(st, 'error', const('missing key %r' % (key,)), None)
                return UNDEF
            if missing is not FALSE:
                self.effect(st, 'reject', missing, None)
            val = f[-1][1]
            f = f[:-1]
        else:
            val = default
        for e, v in reversed(f):
            val = v if e is TRUE else self.merge_val(e, v, val, st, st, st)
        return val

    def dict_set(self, c, key, v):
        c.items.pop(key, None)
        c.items[key] = v

    def _keyval(self, k):
        if isinstance(k, T):
            return k
        if isinstance(k, tuple):
            return TupleV([self._keyval(x) for x in k])
        return num(k) if isinstance(k, (int, float)) and not isinstance(k, bool) else const(k)

    def exec_for(self, s, st, fid, m):
        it = self.eval(s.iter, st, fid, m)
        items = self.iterate(it, st)
        self.loops += 1
        if items is None:
            return self.symbolic_for(s, it, st, fid, m)
        return self._unroll(s, [lambda st2, x=x: x for x in items], st, fid, m)

    def _unroll(self, s, gens, st, fid, m):
        out, broke = [], []
        cur = st
        for g in gens:
            self.assign(s.target, g(cur), cur, fid, m)
            ex = self.exec_block(s.body, cur, fid, m)
            falls = [e[2] for e in ex if e[0] in ('fall', 'cont')]
            broke += [e[2] for e in ex if e[0] == 'brk']
            out += [e for e in ex if e[0] == 'ret']
            if not falls:
                cur = None
                break
            cur = self._join_states(falls, st)
        ends = broke + ([cur] if cur is not None else [])
        if cur is not None and s.orelse:
            ex = self.exec_block(s.orelse, cur, fid, m)
            out += [e for e in ex if e[0] == 'ret']
        if ends:
            out.append(('fall', None, self._join_states(ends, st)))
        return out

    def _join_states(self, states, base):
        """join states ordered by execution using their path conditions"""
        if len(states) == 1:
            return states[0]
        cur = states[-1]
        for s in reversed(states[:-1]):
            k = _common(s.pc, cur.pc)
            c = band(*[x for t, x in s.pc[k:] if t == 'b'])
            b = State()
            b.pc = s.pc[:k]
            b.lits = frozenset(x for t, x in b.pc) | frozenset(
                y for t, x in b.pc if x.op == 'and' for y in x.args)
            b.effects = _common_list(s.effects, cur.effects)
            cur = self.merge(c, s, cur, b)
        return cur

    def exec_while(self, s, st, fid, m):
        out = []
        broke = []
        cur = st
        for _ in range(400):
            c = cur.simp(as_bool(self.term(self.eval(s.test, cur, fid, m), cur)))
            if c is FALSE:
                broke.append(cur)
                return out + [('fall', None, self._join_states(broke, st))]
            if c is not TRUE:
                raise Unsupported('while loop with a symbolic condition at %s:%d' % (m.name, s.lineno))
            ex = self.exec_block(s.body, cur, fid, m)
            falls = [e[2] for e in ex if e[0] in ('fall', 'cont')]
            broke += [e[2] for e in ex if e[0] == 'brk']
            out += [e for e in ex if e[0] == 'ret']
            if not falls:
                if broke:
                    out.append(('fall', None, self._join_states(broke, st)))
                return out
            cur = self._join_states(falls, st)
        raise Unsupported('while loop bound')

    def symbolic_for(self, s, it, st, fid, m):
        """loop over the keys/items of a symbolic mapping that only rewrites entries"""
        d = None
        mode = 'keys'
        if isinstance(it, Ref) and self.cell(st, it).kind == 'symdict':
            d = it
        elif isinstance(it, tuple) and it[0] == 'dictview':
            d, mode = it[1], it[2]
        if d is None:
            return self.havoc_for(s, it, st, fid, m)
        key = sym('§k')
        base0 = self.cell(st, d).base
        v = self.tf.item(base0, key)
        tgt = {'keys': key, 'items': TupleV([key, v]), 'values': v}[mode]
        self.assign(s.target, tgt, st, fid, m)
        ids = {i for i, c in st.heap.items() if c.kind == 'symdict'}
        n = len(st.effects)
        ex = self.exec_block(s.body, st, fid, m)
        falls = [e[2] for e in ex if e[0] in ('fall', 'cont')]
        if any(e[0] not in ('fall', 'cont') for e in ex) or not falls:
            raise Unsupported('loop over a symbolic mapping with early exit at %s:%d' % (m.name, s.lineno))
        cur = self._join_states(falls, st)
        for i in list(cur.heap):
            c = cur.heap[i]
            if c.kind == 'symdict' and key in c.items:
                val = c.items.pop(key)
                c.base = self.tf.mapdict(base0, key, self.term(val, cur), c.base)
            elif c.kind == 'dict' and key in c.items:
                val = c.items.pop(key)
                nb = self.tf.mapdict(base0, key, self.term(val, cur), None)
                cur.heap[i] = Cell('symdict', base=nb, items={})
        return [('fall', None, cur)]

    def havoc_for(self, s, it, st, fid, m):
        raise Unsupported('loop over a symbolic iterable at %s:%d (%s)' % (
            m.name, s.lineno, self.term(it, st) if not isinstance(it, tuple) else it[0]))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, fid, m):
        if isinstance(t, ast.Name):
            f = st.frames[fid]
            if t.id in f.get('§global', ()):
                self._run_module(m)
                if m.frame not in st.frames:
                    st.frames[m.frame] = dict(self.root.frames[m.frame])
                st.frames[m.frame][t.id] = v
                return
            if t.id in f.get('§nonlocal', ()):
                p = f.get('§parent')
                while p is not None:
                    if t.id in st.frames[p]:
                        st.frames[p][t.id] = v
                        return
                    p = st.frames[p].get('§parent')
            f[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            items = self.iterate(v, st)
            if items is None:
                tv = self.term(v, st)
                if star is not None:
                    raise Unsupported('starred unpacking of a symbolic value')
                if tv.op == 'ite' and tv.args[1].op == 'list' and tv.args[2].op == 'list':
                    items = [ite(tv.args[0], a, b) for a, b in zip(tv.args[1].args, tv.args[2].args)]
                else:
                    items = [self.tf.unpack(tv, i, n) for i in range(n)]
            if star is not None:
                k = len(items) - (n - 1)
                mid = items[star:star + k]
                items = items[:star] + [self.new_list(st, mid)] + items[star + k:]
            if len(items) != n:
                self.effect(st, 'error', const('unpack %d values into %d targets' % (len(items), n)), t)
                items = (items + [UNDEF] * n)[:n]
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid, m)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fid, m)
            self.setattr(o, t.attr, v, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fid, m)
            self.setitem(o, t.slice, v, st, fid, m)
            return
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid, m)
        raise Unsupported('assignment target')

    def class_attr(self, cls, name, st):
        """class attribute assigned at run time"""
        for k in cls.mro():
            f = st.frames.get(('cls', k))
            if f is not None and name in f:
                return f[name]
            if name in k.members or name in k.props:
                return None
        return None

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if c.kind == 'obj':
                for k in c.cls.mro():
                    if name in k.setters:
                        self.call_func(k.setters[name], [o, v], {}, st)
                        return
                    if name in k.props:
                        self.effect(st, 'error', const('assignment to read-only property ' + name), None)
                        return
                c.attrs[name] = v
                return
        if isinstance(o, T):
            self.effect(st, 'extset', mk('list', o, const(name), self.term(v, st)), None)
            return
        if isinstance(o, Ext):
            self.effect(st, 'extset', mk('list', const(o.path), const(name), self.term(v, st)), None)
            return
        if isinstance(o, Cls):
            st.frames.setdefault(('cls', o), {})[name] = v
            return
        if isinstance(o, ModV):
            self._run_module(o.module)
            st.frames.setdefault(o.module.frame, dict(self.root.frames[o.module.frame]))[name] = v
            return
        raise Unsupported('setattr on %r' % (o,))

    def pykey(self, k):
        if isinstance(k, T):
            if k.op == 'const':
                return k.args[0]
            if k.op == 'num':
                return tm.pyval(k)
        return None

    def overlay(self, dst, src):
        """dst.update(src); tables have the same keys (T02), so a table hides all entries of an earlier one"""
        if src.kind == 'symdict':
            if dst.kind == 'dict' and dst.items:
                raise Unsupported('table added to a mapping with entries')
            dst.kind, dst.base, dst.items = 'symdict', src.base, dict(src.items)
        elif src.kind != 'dict' or dst.kind not in ('dict', 'symdict'):
            raise Unsupported('update of a %s by a %s' % (dst.kind, src.kind))
        else:
            for k, v in src.items.items():
                if dst.kind == 'dict':
                    self.dict_set(dst, k, v)
                else:
                    dst.items[k if isinstance(k, T) else const(k)] = v

    def setitem(self, o, sl, v, st, fid, m):
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if c.kind == 'dict':
                self.dict_set(c, self.dkey(self.eval(sl, st, fid, m), st), v)
                return
            if c.kind == 'symdict':
                k = self.term(self.eval(sl, st, fid, m), st)
                c.items[k] = v
                return
            if c.kind in ('list', 'nd'):
                if isinstance(sl, ast.Slice):
                    a = [None if x is None else self.pykey(self.eval(x, st, fid, m)) for x in
                         (sl.lower, sl.upper, sl.step)]
                    vals = self.iterate(v, st)
                    if vals is None:
                        raise Unsupported('slice assignment of a symbolic value')
                    if c.kind == 'nd':
                        vals = [_unlist(self.term(x, st)) for x in vals]
                        idx = range(len(c.items))[slice(*a)]
                        if len(vals) == 1 and len(idx) > 1:
                            vals = vals * len(idx)
                        if len(idx) != len(vals):
                            self.effect(st, 'error', const('shape mismatch in array assignment'), None)
                            return
                        for i, x in zip(idx, vals):
                            c.items[i] = list(x) if isinstance(x, list) else x
                    else:
                        c.items[slice(*a)] = vals
                    return
                k = self.eval(sl, st, fid, m)
                if isinstance(k, TupleV) and c.kind == 'nd':
                    ks = [self.pykey(self.term(x, st)) for x in k.items]
                    tgt = c.items
                    for x in ks[:-1]:
                        tgt = tgt[x]
                    tgt[ks[-1]] = self.term(v, st)
                    return
                pk = self.pykey(k)
                if pk is None or not isinstance(pk, int):
                    raise Unsupported('array store with a symbolic index')
                if not -len(c.items) <= pk < len(c.items):
                    self.effect(st, 'error', const('index out of range'), None)
                    return
                if c.kind == 'nd':
                    x = _unlist(self.term(v, st))
                    if isinstance(c.items[pk], list) and not isinstance(x, list):
                        x = [x] * len(c.items[pk])
                    c.items[pk] = x
                else:
                    c.items[pk] = v
                return
        if isinstance(o, T):
            self.effect(st, 'extset', mk('list', o, self.term(self.eval(sl, st, fid, m), st), self.term(v, st)), None)
            return
        raise Unsupported('item assignment')

    # ------------------------------------------------------------ classes / functions
    def make_class(self, node, st, fid, m):
        bases = []
        for b in node.bases:
            try:
                bases.append(self.eval(b, st, fid, m))
            except Unsupported:
                bases.append(Ext('unknown'))
        c = Cls(node.name, m, node, bases)
        cf = self._newid()
        st.frames[cf] = {'§parent': fid}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(s, m, frame=fid, cls=c, qual=node.name + '.' + s.name)
                f.defaults = self.eval_defaults(s.args, st, cf, m)
                kind = 'plain'
                for d in s.decorator_list:
                    dn = ast.unparse(d)
                    if dn == 'property' or dn.endswith('cached_property'):
                        kind = 'prop'
                        if dn != 'property':
                            c.cached.add(s.name)
                    elif dn.endswith('.setter'):
                        kind = 'setter'
                    elif dn == 'staticmethod':
                        c.static.add(s.name)
                    elif dn == 'classmethod':
                        c.clsm.add(s.name)
                if kind == 'prop':
                    c.props[s.name] = f
                elif kind == 'setter':
                    c.setters[s.name] = f
                else:
                    c.members[s.name] = f
                    st.frames[cf][s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                self.exec_stmt(s, st, cf, m)
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    if isinstance(t, ast.Name) and t.id in st.frames[cf]:
                        v = st.frames[cf][t.id]
                        if isinstance(v, tuple) and v and v[0] == 'propcall':
                            c.props[t.id] = v[1]
                        else:
                            c.members[t.id] = v
        return c

    def eval_defaults(self, a, st, fid, m):
        pos = [self.eval(d, st, fid, m) for d in a.defaults]
        kw = [None if d is None else self.eval(d, st, fid, m) for d in a.kw_defaults]
        return pos, kw

    def _memoized(self, f):
        x = getattr(f.node, '_memoized', None)
        if x is None:
            x = False
            for d in getattr(f.node, 'decorator_list', ()):
                n = ast.unparse(d).split('(')[0].split('.')[-1]
                x = x or n in ('lru_cache', 'cache')
            f.node._memoized = x
        return x

    def _memo_key(self, v):
        if isinstance(v, T):
            return v.id
        if isinstance(v, Ref):
            return ('ref', v.id)
        if isinstance(v, TupleV):
            return tuple(self._memo_key(x) for x in v.items)
        if isinstance(v, (Func, Cls, Ext, Bound)):
            return self.fn_name(v)
        if v is None:
            return None
        raise Unsupported('memoized call with %r' % (v,))

    def call_func(self, f, args, kwargs, st, node=None):
        if self._memoized(f):
            key = (tuple(self._memo_key(x) for x in args), tuple((k, self._memo_key(x)) for k, x in sorted(kwargs.items())))
            fr = st.frames.setdefault(('memo', f.node), {})
            if key in fr:
                return fr[key][0]
            v = self._call_func(f, args, kwargs, st, node)
            st.frames.setdefault(('memo', f.node), {})[key] = (v, (args, kwargs))
            return v
        return self._call_func(f, args, kwargs, st, node)

    def _call_func(self, f, args, kwargs, st, node=None):
        """inline a package function"""
        if self.depth > self.MAXDEPTH:
            raise Unsupported('call depth exceeded at %s' % f.qual)
        self.callsites += 1
        if f.module is not None and not f.module.name.startswith('spec:'):
            self.analysed.setdefault(f.module.name + '.' + f.qual,
                                     '%s:%d' % (os.path.basename(f.module.path), f.node.lineno))
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos, kwd = getattr(f, 'defaults', ([], []))
        rest = list(args)
        for i, n in enumerate(names):
            if rest:
                env[n] = rest.pop(0)
        if a.vararg:
            env[a.vararg.arg] = TupleV(rest)
            rest = []
        bad = None
        if rest:
            bad = 'too many positional arguments'
        kw = dict(kwargs)
        for n in list(kw):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in env:
                    bad = 'multiple values for argument %s' % n
                env[n] = kw.pop(n)
        if a.kwarg:
            r = Ref(self._newid())
            st.heap[r.id] = Cell('dict', items=dict(kw))
            env[a.kwarg.arg] = r
            kw = {}
        if kw:
            bad = 'unexpected keyword argument %s' % ', '.join(sorted(kw))
        k = len(names) - len(pos)
        for i, n in enumerate(names):
            if n not in env:
                if i >= k:
                    env[n] = pos[i - k]
                else:
                    bad = 'missing argument %s' % n
                    env[n] = UNDEF
        for x, d in zip(a.kwonlyargs, kwd):
            if x.arg not in env:
                if d is None:
                    bad = 'missing keyword argument %s' % x.arg
                    env[x.arg] = UNDEF
                else:
                    env[x.arg] = d
        if bad:
            self.effect(st, 'error', const('call of %s: %s' % (f.qual, bad)), node)
        fid = self._newid()
        env['§parent'] = f.frame
        st.frames[fid] = env
        self.depth += 1
        saved_prov = PROV[0]
        self.stack.append((f.module, f.qual, f.cls))
        base_pc, base_lits = st.pc, st.lits
        if isinstance(f.node, ast.Lambda):
            v = self.eval(f.node.body, st, fid, f.module)
            self.stack.pop()
            self.depth -= 1
            PROV[0] = saved_prov
            return v
        env['§cls'] = f.cls
        if names and f.cls is not None:
            env['§self'] = env.get(names[0])
        work = st.copy()
        exits = self.exec_block(f.node.body, work, fid, f.module)
        self.stack.pop()
        self.depth -= 1
        PROV[0] = saved_prov
        rets = []
        for k_, v, s in exits:
            if k_ == 'ret':
                rets.append((v, s))
            elif k_ == 'fall':
                rets.append((NONE, s))
        if not rets:
            # always raises
            st.effects[:] = work.effects if len(work.effects) >= len(st.effects) else st.effects
            raise Dead()
        v, s = self._join_rets(rets, base_pc, base_lits)
        # keep assertions as assumptions, drop branch literals of the callee unless everything else raised
        st.become(s)
        if not self._closure_alive(f):
            st.frames.pop(fid, None)
        return v

    def _closure_alive(self, f):
        if isinstance(f.node, ast.Lambda):
            return True
        x = getattr(f.node, '_hasclosure', None)
        if x is None:
            x = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(f.node) if n is not f.node)
            f.node._hasclosure = x
        return x

    def _join_rets(self, rets, base_pc, base_lits):
        v, s = rets[-1]
        for v2, s2 in reversed(rets[:-1]):
            k = len(base_pc)
            c = band(*[x for t, x in s2.pc[k:] if t == 'b'])
            b = State()
            b.pc, b.lits = base_pc, base_lits
            b.effects = _common_list(s2.effects, s.effects)
            out = self.merge(c, s2, s, b)
            v = self.merge_val(c, v2, v, s2, s, out)
            s = out
        if len(rets) == 1:
            # assumptions established by assertions / raising guards remain valid
            pass
        return v, s

    def instantiate(self, cls, args, kwargs, st, node=None):
        r = self.alloc(st, Cell('obj', cls=cls))
        kind, f, owner = cls.lookup('__init__')
        if f is not None:
            self.call_func(f, [r] + list(args), kwargs, st, node)
        elif cls.ext_bases():
            self.ext_init(r, args, kwargs, st)
        elif args or kwargs:
            dc = [s for c in cls.mro() for s in c.node.body if isinstance(s, ast.AnnAssign)]
            c = self.cell(st, r)
            for s, v in zip(dc, args):
                c.attrs[s.target.id] = v
            for k, v in kwargs.items():
                c.attrs[k] = v
        return r

    def ext_init(self, obj, args, kwargs, st):
        c = self.cell(st, obj)
        p = kwargs.get('precision', args[0] if args else NONE)
        c.attrs['§precision'] = p

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs, st, node=None):
        if isinstance(f, tuple) and f[0] == 'choice':
            _, c, a, b = f
            c = st.simp(c)
            if c is TRUE:
                return self.call(a, args, kwargs, st, node)
            if c is FALSE:
                return self.call(b, args, kwargs, st, node)
            s1, s2 = st.copy(), st.copy()
            s1.assume('b', c)
            s2.assume('b', bnot(c))
            v1 = self.call(a, args, kwargs, s1, node)
            v2 = self.call(b, args, kwargs, s2, node)
            out = self.merge(c, s1, s2, st)
            v = self.merge_val(c, v1, v2, s1, s2, out)
            st.become(out)
            return v
        if isinstance(f, Func):
            if f.qual in self.opaque or (f.module and (f.module.name + '.' + f.qual) in self.opaque):
                return self.opaque_call(f, args, kwargs, st)
            return self.call_func(f, args, kwargs, st, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call(f.func, [f.obj] + list(args), kwargs, st, node)
            return f.func(args, kwargs, st)
        if isinstance(f, Cls):
            if f.name in self.opaque:
                return self.opaque_new(f, args, kwargs, st)
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, Ref):
            c = self.cell(st, f)
            if c.kind == 'obj':
                kind, g, owner = c.cls.lookup('__call__')
                if g is None and c.cls.ext_bases():
                    kind, g, owner = c.cls.lookup('call')
                if g is None:
                    raise Unsupported('object of class %s is not callable' % c.cls.name)
                return self.call(g, [f] + list(args), kwargs, st, node)
        if isinstance(f, Ext):
            return self.tf.extcall(f.path, args, kwargs, st, node)
        if isinstance(f, T):
            return self.tf.termcall(f, args, kwargs, st, node)
        if callable(f):
            return f(args, kwargs, st)
        raise Unsupported('call of %r' % (f,))

    def opaque_call(self, f, args, kwargs, st):
        key = f.qual if f.qual in self.opaque else f.module.name + '.' + f.qual
        res = self.opaque[key]
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        b = {}
        for n, v in zip(names, args):
            b[n] = v
        b.update(kwargs)
        t = mk('call', const(f.qual), *[mk('list', const(n), self.term(b[n], st)) for n in sorted(b)])
        t = self.tf.occurrence(t, st)
        self.effect(st, 'call', t, None)
        return self._opaque_result(t, res, st)

    def _opaque_result(self, t, res, st):
        if res is None:
            return t
        if isinstance(res, tuple):
            return TupleV([self._opaque_result(mk('item', t, num(i)), r, st) for i, r in enumerate(res)])
        return self.symobj(st, t, res)

    def opaque_new(self, cls, args, kwargs, st):
        kind, f, owner = cls.lookup('__init__')
        names = [x.arg for x in f.node.args.args][1:] if f is not None else []
        b = dict(zip(names, args))
        b.update(kwargs)
        if f is not None:
            k = len(names) - len(f.defaults[0])
            for i, n in enumerate(names):
                if n not in b and i >= k:
                    b[n] = f.defaults[0][i - k]
        t = mk('new', const(cls.name), *[mk('list', const(n), self.term(b[n], st)) for n in sorted(b)])
        return self.symobj(st, t, cls)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st):
        if isinstance(o, tuple) and o and o[0] == 'choice':
            _, c, a, b = o
            x, y = self.getattr(a, name, st), self.getattr(b, name, st)
            return self.merge_val(c, x, y, st, st, st)
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if c.kind == 'obj':
                if name == '__class__':
                    return c.cls
                if name == '__dict__':
                    return ('objdict', o)
                if name in c.attrs:
                    return c.attrs[name]
                v = self.class_attr(c.cls, name, st)
                if v is not None:
                    return v
                kind, f, owner = c.cls.lookup(name)
                if kind == 'prop':
                    v = self.call(f, [o], {}, st)
                    if name in owner.cached:
                        self.cell(st, o).attrs[name] = v
                    return v
                if kind == 'member':
                    if isinstance(f, Func):
                        if name in owner.static:
                            return f
                        if name in owner.clsm:
                            return Bound(c.cls, f)
                        return Bound(o, f)
                    return f
                if name in ('rdtype', 'cdtype', 'precision', '_rdtype', '_cdtype', '_precision') and \
                        (c.cls.ext_bases() or c.name is not None):
                    return sym(name.lstrip('_'))
                if c.name is not None:
                    key = next(((k.name, name) for k in c.cls.mro() if (k.name, name) in self.types), None)
                    if key is not None:
                        v = self.symobj(st, self.lazy_attr_term(c, name), self.types[key])
                        c.attrs[name] = v
                        return v
                    return self.lazy_attr_term(c, name)
                if c.cls.ext_bases():
                    if name == 'precision':
                        return sym('precision')
                self.effect(st, 'error', const('attribute %s.%s is read but never set' % (c.cls.name, name)), None)
                return mk('undefattr', const(c.cls.name), const(name))
            return self.tf.container_attr(o, c, name, st)
        if isinstance(o, SuperV):
            mro = self.cell(st, o.obj).cls.mro() if isinstance(o.obj, Ref) else o.cls.mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.props:
                    return self.call(c.props[name], [o.obj], {}, st)
                if name in c.members:
                    return Bound(o.obj, c.members[name])
            if name == '__init__':
                return Bound(o.obj, lambda args, kw, s: (self.ext_init(o.obj, args, kw, s), NONE)[1])
            return Bound(o.obj, lambda args, kw, s: mk('supercall', const(name)))
        if isinstance(o, TupleV) and name in ('rank', 'ndims'):
            return num(len(o.items))
        if isinstance(o, TupleV) and name == 'as_list':
            return Bound(o, lambda args, kw, s: self.new_list(s, list(o.items)))
        if isinstance(o, ModV):
            v = self.module_lookup(o.module, name, st)
            if v is None:
                raise Unsupported('module %s has no %s' % (o.module.name, name))
            return v
        if isinstance(o, Cls):
            v = self.class_attr(o, name, st)
            if v is not None:
                return v
            kind, f, owner = o.lookup(name)
            if kind == 'prop':
                return f
            if f is not None:
                if name in owner.clsm:
                    return Bound(o, f)
                return f
            if name == '__name__':
                return const(o.name)
            if name == '__dict__':
                return ('clsdict', o)
            return mk('attr', const(o.name), const(name))
        if isinstance(o, Ext):
            p = o.path + '.' + name
            c = self.tf.ext_const(p)
            return c if c is not None else Ext(p)
        if isinstance(o, (Func, Bound)):
            if name == '__name__':
                return const(self.fn_name(o).split('.')[-1])
            raise Unsupported('function attribute ' + name)
        return self.tf.attr(o, name, st)

    # ------------------------------------------------------------ expressions
    def lookup_name(self, n, st, fid, m):
        f = fid
        while f is not None:
            fr = st.frames.get(f)
            if fr is None:
                fr = self.root.frames.get(f)
                if fr is None:
                    break
                fr = st.frames[f] = dict(fr)
            if n in fr:
                v = fr[n]
                if isinstance(v, tuple) and v and v[0] == 'lazy':
                    return self.module_lookup(m, n, st)
                if v is UNDEF:
                    self.effect(st, 'error', const("name '%s' is used before assignment" % n), None)
                return v
            f = fr.get('§parent')
        if m is not None:
            v = self.module_lookup(m, n, st)
            if v is not None:
                return v
        if n in self.tf.builtins:
            return Ext('builtins.' + n)
        if n in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[n])
        self.effect(st, 'error', const("name '%s' is not defined" % n), None)
        return mk('unbound', const(n))

    def eval(self, e, st, fid, m):
        k = type(e)
        if k is ast.Constant:
            v = e.value
            if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
                return const(v)
            if v is Ellipsis:
                return mk('ellipsis')
            if isinstance(v, float) and abs(v - 3.141592653589793) < 1e-7:
                return PI
            return num(v)
        if k is ast.Name:
            return self.lookup_name(e.id, st, fid, m)
        if k is ast.Attribute:
            o = self.eval(e.value, st, fid, m)
            self.setprov(e, m)
            return self.getattr(o, e.attr, st)
        if k is ast.Call:
            return self.eval_call(e, st, fid, m)
        if k is ast.BinOp:
            a = self.eval(e.left, st, fid, m)
            b = self.eval(e.right, st, fid, m)
            self.setprov(e, m)
            return self.binop_v(e.op, a, b, st)
        if k is ast.UnaryOp:
            v = self.eval(e.operand, st, fid, m)
            self.setprov(e, m)
            t = self.term(v, st)
            if isinstance(e.op, ast.USub):
                return self.tf.elementwise(tm.neg, t)
            if isinstance(e.op, ast.UAdd):
                return t
            if isinstance(e.op, ast.Not):
                return bnot(as_bool(t))
            if is_bool(t):
                return bnot(t)
            if tm.isnum(t) or t.op == 'const':
                return mk('invert', t)
            return self.tf.elementwise(bnot, t)
        if k is ast.BoolOp:
            return self.eval_boolop(e, st, fid, m)
        if k is ast.Compare:
            return self.eval_compare(e, st, fid, m)
        if k is ast.IfExp:
            c = st.simp(as_bool(self.term(self.eval(e.test, st, fid, m), st)))
            if c is TRUE:
                return self.eval(e.body, st, fid, m)
            if c is FALSE:
                return self.eval(e.orelse, st, fid, m)
            self.branches += 1
            s1, s2 = st.copy(), st.copy()
            s1.assume('b', c)
            s2.assume('b', bnot(c))
            try:
                a = self.eval(e.body, s1, fid, m)
            except Dead:
                a = None
            try:
                b = self.eval(e.orelse, s2, fid, m)
            except Dead:
                b = None
            if a is None or b is None:
                if a is None and b is None:
                    raise Dead()
                st.become(s1 if b is None else s2)
                return a if b is None else b
            out = self.merge(c, s1, s2, st)
            v = self.merge_val(c, a, b, s1, s2, out)
            st.become(out)
            return v
        if k in (ast.Tuple,):
            return TupleV(self.eval_list(e.elts, st, fid, m))
        if k in (ast.List,):
            return self.new_list(st, self.eval_list(e.elts, st, fid, m))
        if k is ast.Set:
            return self.alloc(st, Cell('set', items=self.eval_list(e.elts, st, fid, m)))
        if k is ast.Dict:
            d = {}
            for a, b in zip(e.keys, e.values):
                v = self.eval(b, st, fid, m)
                if a is None:
                    if isinstance(v, Ref) and self.cell(st, v).kind == 'dict' and isinstance(d, dict):
                        d.update(self.cell(st, v).items)
                        continue
                    if isinstance(v, Ref) and self.cell(st, v).kind in ('dict', 'symdict'):
                        if isinstance(d, dict):
                            d = Cell('dict', items=d)
                        self.overlay(d, self.cell(st, v))
                        continue
                    raise Unsupported('dict unpacking')
                kv = self.eval(a, st, fid, m)
                if isinstance(d, Cell):
                    d.items[self.term(kv, st)] = v
                    continue
                pk = self.dkey(kv, st)
                d.pop(pk, None)
                d[pk] = v
            return self.alloc(st, d if isinstance(d, Cell) else Cell('dict', items=d))
        if k is ast.Subscript:
            o = self.eval(e.value, st, fid, m)
            self.setprov(e, m)
            return self.getitem(o, e.slice, st, fid, m)
        if k is ast.JoinedStr:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(const(v.value))
                else:
                    x = self.term(self.eval(v.value, st, fid, m), st)
                    if v.format_spec is not None:
                        parts.append(mk('format', x, self.term(self.eval(v.format_spec, st, fid, m), st)))
                    else:
                        parts.append(self.tf.to_str(x))
            return self.tf.cat(parts)
        if k is ast.Lambda:
            f = Func(e, m, frame=fid, qual='<lambda>')
            f.defaults = self.eval_defaults(e.args, st, fid, m)
            return f
        if k in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            return self.eval_comp(e, st, fid, m)
        if k is ast.NamedExpr:
            v = self.eval(e.value, st, fid, m)
            self.assign(e.target, v, st, fid, m)
            return v
        if k is ast.Slice:
            return mk('slice', *[NONE if x is None else self.term(self.eval(x, st, fid, m), st)
                                 for x in (e.lower, e.upper, e.step)])
        if k is ast.Starred:
            return self.eval(e.value, st, fid, m)
        raise Unsupported('expression %s at %s:%d' % (k.__name__, m.name if m else '?', e.lineno))

    def eval_list(self, elts, st, fid, m):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, st, fid, m), st)
                if it is None:
                    raise Unsupported('starred symbolic value')
                out.extend(it)
            else:
                out.append(self.eval(x, st, fid, m))
        return out

    def eval_comp(self, e, st, fid, m):
        cf = self._newid()
        st.frames[cf] = {'§parent': fid}
        out = []
        sd = []

        def run(i):
            if i == len(e.generators):
                if isinstance(e, ast.DictComp):
                    out.append((self.eval(e.key, st, cf, m), self.eval(e.value, st, cf, m)))
                else:
                    out.append(self.eval(e.elt, st, cf, m))
                return
            g = e.generators[i]
            it = self.eval(g.iter, st, cf, m)
            items = self.iterate(it, st)
            if items is None:
                if isinstance(it, tuple) and it[0] == 'dictview':
                    d, mode = it[1], it[2]
                elif isinstance(it, Ref) and self.cell(st, it).kind == 'symdict':
                    d, mode = it, 'keys'
                else:
                    raise Unsupported('comprehension over a symbolic iterable')
                key = sym('§k')
                b = self.cell(st, d).base
                v = self.tf.item(b, key)
                items = [{'keys': key, 'items': TupleV([key, v]), 'values': v}[mode]]
                sd.append(b)
            for x in items:
                self.assign(g.target, x, st, cf, m)
                ok = True
                for c in g.ifs:
                    t = st.simp(as_bool(self.term(self.eval(c, st, cf, m), st)))
                    if t is FALSE:
                        ok = False
                        break
                    if t is not TRUE:
                        raise Unsupported('comprehension filter on a symbolic condition')
                if ok:
                    run(i + 1)
        run(0)
        if isinstance(e, ast.DictComp):
            if sd:
                if len(out) != 1 or out[0][0] is not sym('§k'):
                    raise Unsupported('mapping comprehension that renames keys')
                nb = self.tf.mapdict(sd[0], sym('§k'), self.term(out[0][1], st), None)
                return self.alloc(st, Cell('symdict', base=nb, items={}))
            return self.alloc(st, Cell('dict', items={(self.pykey(k) if self.pykey(k) is not None else
                                                       self.term(k, st)): v for k, v in out}))
        if sd:
            raise Unsupported('comprehension over a symbolic mapping')
        if isinstance(e, ast.SetComp):
            return self.alloc(st, Cell('set', items=out))
        return self.new_list(st, out)

    def eval_boolop(self, e, st, fid, m):
        vals = []
        isand = isinstance(e.op, ast.And)
        acc = None
        work = st
        lits = st.lits
        pc = st.pc
        res = []
        for x in e.values:
            v = self.eval(x, st, fid, m)
            t = self.term(v, st) if not isinstance(v, Ref) or self.cell(st, v).kind != 'obj' else v
            if isinstance(t, T):
                c = st.simp(as_bool(t))
            else:
                c = TRUE
            res.append((v, t, c))
            if isand and c is FALSE:
                break
            if not isand and c is TRUE:
                break
            if not isconst(c):
                st.assume('a', c if isand else bnot(c))
        st.lits, st.pc = lits, pc
        if all(isinstance(t, T) and (is_bool(t) or t.op == 'ite' and is_bool(c)) for v, t, c in res):
            return (band if isand else bor)(*[c for v, t, c in res])
        # value semantics of and/or
        val = res[-1][0]
        for v, t, c in reversed(res[:-1]):
            if isand:
                val = self.merge_val(c, val, v, st, st, st) if not isconst(c) else (val if c is TRUE else v)
            else:
                val = self.merge_val(c, v, val, st, st, st) if not isconst(c) else (v if c is TRUE else val)
        return val

    def eval_compare(self, e, st, fid, m):
        left = self.eval(e.left, st, fid, m)
        cs = []
        for op, rhs in zip(e.ops, e.comparators):
            right = self.eval(rhs, st, fid, m)
            self.setprov(e, m)
            cs.append(self.compare(op, left, right, st))
            left = right
        return band(*cs) if len(cs) > 1 else cs[0]

    def is_none(self, v, st):
        if v is NONE:
            return TRUE
        if isinstance(v, T):
            if v.op == 'ite':
                return ite(v.args[0], self.is_none(v.args[1], st), self.is_none(v.args[2], st))
            if v.op in ('sym', 'attr', 'item'):
                if v in self.tf.notnone:
                    return FALSE
                return st.simp(mk('is', v, NONE))
            return FALSE
        return FALSE

    def host_seq(self, v, st):
        return isinstance(v, TupleV) or isinstance(v, Ref) and self.cell(st, v).kind == 'list'

    def host_eq(self, a, b, st):
        """equality of Python objects: sequences compare element by element"""
        if self.host_seq(a, st) and self.host_seq(b, st):
            x, y = self.iterate(a, st), self.iterate(b, st)
            if x is not None and y is not None:
                return band(*[self.host_eq(p, q, st) for p, q in zip(x, y)]) if len(x) == len(y) else FALSE
        x, y = self.term(a, st), self.term(b, st)
        if x.op == 'list' and y.op == 'list':
            return band(*[eq(p, q) for p, q in zip(x.args, y.args)]) if len(x.args) == len(y.args) else FALSE
        return eq(x, y)

    def compare(self, op, a, b, st):
        k = type(op)
        if k in (ast.Is, ast.IsNot):
            if b is NONE:
                r = self.is_none(a, st)
            elif a is NONE:
                r = self.is_none(b, st)
            else:
                if isinstance(a, T) and isinstance(b, T):
                    if isconst(a) and isconst(b) or (isconst(b) and isinstance(b.args[0], bool)):
                        r = eq(a, b)
                    else:
                        r = TRUE if a is b else mk('is', *sorted((a, b)))
                elif isinstance(a, Ref) and isinstance(b, Ref):
                    r = const(a == b)
                elif isinstance(b, Ext) or isinstance(a, Ext):
                    x, y = self.term(a, st), self.term(b, st)
                    r = TRUE if x is y else (FALSE if x.op == y.op == 'fn' or NONE in (x, y) or
                                             isconst(x) or isconst(y) else mk('is', *sorted((x, y))))
                else:
                    r = FALSE
            return r if k is ast.Is else bnot(r)
        if k in (ast.In, ast.NotIn):
            if isinstance(b, tuple) and b[0] == 'clsdict' or isinstance(b, tuple) and b[0] == 'objdict':
                r = self.tf.builtin_hasattr(b[1], self.pykey(a), st, own=True)
                return r if k is ast.In else bnot(r)
            if isinstance(b, Ref) and self.cell(st, b).kind == 'dict':
                r = bor(*[e for e, _ in self.dfind(self.cell(st, b), self.dkey(a, st), st)])
                return r if k is ast.In else bnot(r)
            items = self.iterate(b, st)
            if isinstance(b, T) and b.op == 'const' and isinstance(b.args[0], str):
                ta = self.term(a, st)
                if ta.op == 'const':
                    r = const(ta.args[0] in b.args[0])
                else:
                    r = mk('in', ta, b)
            elif items is not None:
                r = bor(*[self.host_eq(a, x, st) for x in items])
            elif isinstance(b, Ref) and self.cell(st, b).kind == 'symdict':
                r = mk('haskey', self.cell(st, b).base, self.term(a, st))
            else:
                r = mk('in', self.term(a, st), self.term(b, st))
            return r if k is ast.In else bnot(r)
        x, y = self.term(a, st), self.term(b, st)
        if k in (ast.Eq, ast.NotEq):
            if self.host_seq(a, st) and self.host_seq(b, st) or x.op == 'list' and y.op == 'list':
                r = self.host_eq(a, b, st)
            elif isinstance(a, Ref) and isinstance(b, Ref) and a == b:
                r = TRUE
            elif x is NONE or y is NONE:
                r = self.is_none(a if y is NONE else b, st)
            else:
                r = eq(x, y)
            r = st.simp(r)
            return r if k is ast.Eq else bnot(r)
        if k is ast.Lt:
            return st.simp(self.tf.elementwise2(tm.lt, x, y))
        if k is ast.Gt:
            return st.simp(self.tf.elementwise2(lambda p, q: tm.lt(q, p), x, y))
        if k is ast.LtE:
            return st.simp(self.tf.elementwise2(tm.le, x, y))
        if k is ast.GtE:
            return st.simp(self.tf.elementwise2(lambda p, q: tm.le(q, p), x, y))
        raise Unsupported('comparison')

    def binop_v(self, op, a, b, st):
        if isinstance(op, ast.Add):
            la = isinstance(a, TupleV) or (isinstance(a, Ref) and self.cell(st, a).kind == 'list')
            lb = isinstance(b, TupleV) or (isinstance(b, Ref) and self.cell(st, b).kind == 'list')
            if la and lb:
                x = self.iterate(a, st) + self.iterate(b, st)
                return TupleV(x) if isinstance(a, TupleV) else self.new_list(st, x)
            if la and isinstance(b, T) and b.op in ('shape',):
                return self.tf.concat_shape(self.term(a, st), b)
            if la and isinstance(b, T) and b.op == 'shapecat':
                return self.tf.concat_shape(self.term(a, st), b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and self.cell(st, x).kind == 'list' and isinstance(y, T):
                    if isnum(y):
                        return self.new_list(st, self.cell(st, x).items * int(tm.pyval(y)))
                    return mk('replist', self.term(x, st), y)
                if isinstance(x, TupleV) and isinstance(y, T) and isnum(y):
                    return TupleV(x.items * int(tm.pyval(y)))
        if isinstance(op, ast.MatMult):
            return self.tf.matmul(self.term(a, st), self.term(b, st))
        if isinstance(a, T) and a.op == 'const' and isinstance(a.args[0], str) and isinstance(op, ast.Mod):
            return self.tf.percent(a, b, st)
        x, y = self.term(a, st), self.term(b, st)
        bad = self.tf.clash(x, y)
        if bad:
            self.effect(st, 'error', const('%s: %s' % (type(op).__name__, bad)), None)
        return self.binop(op, x, y)

    def binop(self, op, x, y):
        k = type(op)
        if k is ast.Add:
            if self.tf.is_str(x) or self.tf.is_str(y):
                return self.tf.cat([x, y])
            if x.op == 'shapecat' or y.op == 'shapecat' or x.op == 'shape' or y.op == 'shape':
                return self.tf.concat_shape(x, y)
            return self.tf.elementwise2(tm.add, x, y)
        if k is ast.Sub:
            return self.tf.elementwise2(tm.sub, x, y)
        if k is ast.Mult:
            return self.tf.elementwise2(tm.mul, x, y)
        if k is ast.Div:
            if self.tf.is_path(x):
                return self.tf.joinpath(x, y)
            return self.tf.elementwise2(tm.div, x, y)
        if k is ast.Pow:
            return self.tf.elementwise2(tm.powt, x, y)
        if k is ast.FloorDiv:
            if isnum(x) and isnum(y) and y.args[0]:
                return num(x.args[0] // y.args[0])
            return mk('floordiv', x, y)
        if k is ast.Mod:
            if isnum(x) and isnum(y) and y.args[0]:
                return num(x.args[0] % y.args[0])
            return mk('mod', x, y)
        if k is ast.BitAnd:
            return band(x, y)
        if k is ast.BitOr:
            return bor(x, y)
        if k is ast.BitXor:
            return bor(band(x, bnot(y)), band(bnot(x), y))
        if k is ast.MatMult:
            return self.tf.matmul(x, y)
        raise Unsupported('operator %s' % k.__name__)

    def getitem(self, o, sl, st, fid, m):
        if isinstance(o, (TupleV, RangeV)) or (isinstance(o, Ref) and self.cell(st, o).kind in ('list',)):
            items = self.iterate(o, st)
            if isinstance(sl, ast.Slice):
                a = [None if x is None else self.pykey(self.eval(x, st, fid, m)) for x in
                     (sl.lower, sl.upper, sl.step)]
                src = [x for x in (sl.lower, sl.upper, sl.step)]
                if all((x is None) == (y is None) or y is not None for x, y in zip(a, src)):
                    r = items[slice(*a)]
                    return TupleV(r) if isinstance(o, TupleV) else self.new_list(st, r)
                return mk('index', self.term(o, st), (('s',) + tuple(
                    None if x is None else self.term(self.eval(x, st, fid, m), st) for x in src),))
            k = self.eval(sl, st, fid, m)
            pk = self.pykey(k) if isinstance(k, T) else None
            if isinstance(pk, bool):
                pk = int(pk)
            if isinstance(pk, int):
                if not -len(items) <= pk < len(items):
                    self.effect(st, 'error', const('index out of range'), None)
                    return UNDEF
                return items[pk]
            kt = self.term(k, st)
            if is_bool(kt) and len(items) == 2:
                return self.merge_val(kt, items[1], items[0], st, st, st)
            return self.tf.getindex(self.term(o, st), sl, st, fid, m)
        if isinstance(o, Ref):
            c = self.cell(st, o)
            if c.kind == 'dict':
                return self.dict_get(c, self.dkey(self.eval(sl, st, fid, m), st), st)
            if c.kind == 'symdict':
                k = self.term(self.eval(sl, st, fid, m), st)
                if k in c.items:
                    return c.items[k]
                return self.tf.item(c.base, k)
        if isinstance(o, tuple) and o[0] == 'objdict':
            k = self.eval(sl, st, fid, m)
            return self.getattr(o[1], self.pykey(k), st)
        if isinstance(o, Cls) or isinstance(o, Ext):
            return mk('item', self.term(o, st), self.term(self.eval(sl, st, fid, m), st))
        return self.tf.getindex(self.term(o, st), sl, st, fid, m)

    def eval_call(self, e, st, fid, m):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = fid
            while f is not None and '§cls' not in st.frames[f]:
                f = st.frames[f].get('§parent')
            if f is None:
                raise Unsupported('super() outside a method')
            return SuperV(st.frames[f]['§self'], st.frames[f]['§cls'])
        f = self.eval(e.func, st, fid, m)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, st, fid, m), st)
                if it is None:
                    raise Unsupported('*args of a symbolic value')
                args.extend(it)
            else:
                args.append(self.eval(x, st, fid, m))
        kwargs = {}
        for kw in e.keywords:
            v = self.eval(kw.value, st, fid, m)
            if kw.arg is None:
                if isinstance(v, Ref) and self.cell(st, v).kind == 'dict':
                    kwargs.update(self.cell(st, v).items)
                else:
                    raise Unsupported('**kwargs of a symbolic value')
            else:
                kwargs[kw.arg] = v
        self.setprov(e, m)
        if isinstance(f, Ext) and f.path == 'builtins.locals':
            raise Unsupported('locals()')
        return self.call(f, args, kwargs, st, e)

    # ------------------------------------------------------------ top-level API for checks
    def fresh(self):
        """a fresh state that shares module frames"""
        for m in list(self.modules.values()):
            self._run_module(m)
        return self.root.copy()

    def run(self, fn, *args, **kwargs):
        st = kwargs.pop('st')
        try:
            return self.call(fn, list(args), kwargs, st)
        except Dead:
            return None

    def method(self, st, obj, name, *args, **kwargs):
        try:
            f = self.getattr(obj, name, st)
        except Dead:
            return None
        if isinstance(f, T) and f.op in ('undefattr', 'sym', 'attr'):
            raise AnchorMissing('no method %s' % name)
        return self.run(f, *args, st=st, **kwargs)

    def new(self, st, clsname, *args, **kwargs):
        return self.run(self.get_class(clsname, st), *args, st=st, **kwargs)


def _has_undef(t):
    """whether some alternative of t is a missing value"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x is UNDEF:
            return True
        if isinstance(x, T) and x.op == 'ite' and x.id not in seen:
            seen.add(x.id)
            todo += x.args[1:]
    return False


class Dead(Exception):
    """every path of the interpreted call raises"""


def _load(t):
    n = ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t)
    for x in ast.walk(n):
        if hasattr(x, 'lineno'):
            x.lineno = t.lineno
    return n


def _unlist(t):
    if isinstance(t, T) and t.op == 'list':
        return [_unlist(x) for x in t.args]
    return t


def _common(a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] == b[k]:
        k += 1
    return k


def _common_list(a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] is b[k]:
        k += 1
    return a[:k]

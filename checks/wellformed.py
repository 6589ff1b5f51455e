"""Whole-package lint: every name, attribute of an own object and call of an own function or class exists and fits.

Works on the syntax tree of all modules; nothing is imported.  Undecidable sites (calls with * / **, attributes of
objects of unknown class, classes with unresolved bases) create no obligation."""
import ast
import builtins
import glob
import os
import re
import symtable
from . import prop
from engine.world import PKG
from engine.interp import AnchorMissing
from .randomness import names as origins, dotted

ALIAS = ('sionna.phy.channel.tr38811', 'OpenNTN')
MODULE_NAMES = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__loader__',
                                     '__builtins__', '__class__', '__module__', '__qualname__', '__annotations__', '__dict__'}
KEEP_SIGNATURE = {'abstractmethod', 'tf.function', 'function', 'wraps', 'lru_cache', 'cache', 'functools.lru_cache',
                  'functools.cache', 'override', 'typing.override', 'final', 'tf.autograph.experimental.do_not_convert'}
PROPS = {'property', 'cached_property', 'functools.cached_property', 'abc.abstractproperty', 'abstractproperty'}


def src(e):
    return ast.unparse(e)


class Sig:
    def __init__(self, a, skip):
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        self.pos = pos[skip:]
        self.posonly = set(x.arg for x in a.posonlyargs)
        self.need = [n for n in (pos[:len(pos) - nd] if nd else pos)[skip:]]
        self.kw = {x.arg for x in a.kwonlyargs}
        self.needkw = {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
        self.var = a.vararg is not None
        self.varkw = a.kwarg is not None

    def problem(self, call):
        """why the call does not fit, or None"""
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            # only what is certain in spite of the unpacked arguments
            for k in call.keywords:
                if k.arg and not self.varkw and k.arg not in self.kw and k.arg not in self.pos:
                    return 'has no parameter "%s"' % k.arg
            return None
        n = len(call.args)
        if n > len(self.pos) and not self.var:
            return 'takes %d positional arguments, %d given' % (len(self.pos), n)
        got = set(self.pos[:n])
        for k in call.keywords:
            if k.arg in got and k.arg not in self.posonly:
                return 'gets "%s" twice' % k.arg
            if not (k.arg in self.pos and k.arg not in self.posonly or k.arg in self.kw or self.varkw):
                return 'has no parameter "%s"' % k.arg
            got.add(k.arg)
        miss = [x for x in self.need if x not in got] + sorted(self.needkw - got)
        if miss:
            return 'misses %s' % ', '.join(miss)
        return None


def deco_kind(f):
    """plain / property / static / class / unknown"""
    kind = 'plain'
    for d in f.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        s = src(e)
        if s in PROPS:
            kind = 'property'
        elif s.endswith(('.setter', '.deleter', '.getter')):
            kind = 'property'
        elif s == 'staticmethod':
            kind = 'static'
        elif s == 'classmethod':
            kind = 'class'
        elif s.split('.')[-1] not in KEEP_SIGNATURE and s not in KEEP_SIGNATURE:
            return 'unknown'
    return kind


class Mod:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.base = os.path.basename(path)
        self.text = open(path).read()
        self.tree = ast.parse(self.text)
        self.defs = {}           # module-level functions and classes (last definition), only if bound once
        self.imports = {}        # name -> ('pkg', module, name|None) or ('ext', dotted)
        self.globals = set()
        self.star_ext = False
        self.stars = []

    def scan(self, pkg):
        bound = {}

        def bind(n):
            bound[n] = bound.get(n, 0) + 1

        def walk(nodes):
            for n in nodes:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    bind(n.name)
                    self.defs[n.name] = n
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for k, v in imported(n, pkg, self):
                        if k == '*':
                            self.stars.append(v)
                        else:
                            bind(k)
                            self.imports[k] = v
                else:
                    for x in ast.walk(n) if not isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)) else ():
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            bind(x.id)
                    if isinstance(n, (ast.For, ast.With)):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                bind(x.id)
                    for f in ('body', 'orelse', 'finalbody'):
                        walk(getattr(n, f, ()) if isinstance(getattr(n, f, ()), list) else ())
                    for h in getattr(n, 'handlers', ()):
                        if h.name:
                            bind(h.name)
                        walk(h.body)
        walk(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    bind(x)
                    bind(x)
        self.globals = set(bound)
        for n, c in bound.items():
            if c > 1:                      # rebound: no single meaning
                self.defs.pop(n, None)
                if n in self.imports and c > 1:
                    self.imports.pop(n)


def imported(n, pkg, mod):
    out = []
    if isinstance(n, ast.Import):
        for a in n.names:
            out.append((a.asname or a.name.split('.')[0], ('ext', a.name if a.asname else a.name.split('.')[0])))
        return out
    base = None
    if n.level == 1:
        base = n.module or ''
    elif n.level == 0 and n.module:
        for al in ALIAS:
            if n.module == al:
                base = ''
            elif n.module.startswith(al + '.'):
                base = n.module[len(al) + 1:]
    for a in n.names:
        if base is None:
            out.append((a.asname or a.name, ('ext', '%s.%s' % (n.module or '', a.name)) if a.name != '*' else ('ext', n.module)))
        else:
            out.append((a.asname or a.name, ('pkg', base, a.name)))
    return out


class Pkg:
    def __init__(self):
        self.mods = {}
        for path in sorted(glob.glob(os.path.join(PKG, '*.py'))):
            name = os.path.basename(path)[:-3]
            self.mods['' if name == '__init__' else name] = Mod(path, name)
        for m in self.mods.values():
            m.scan(self)

    def exports(self, modname, seen=()):
        m = self.mods.get(modname)
        if m is None or modname in seen:
            return None
        out = set(m.globals)
        for s in m.stars:
            if s[0] == 'ext':
                return None
            e = self.exports(s[1], seen + (modname,))
            if e is None:
                return None
            out |= e
        return out | {k for k in self.mods if k} if modname == '' else out

    def resolve(self, m, name, depth=0):
        """('def', Mod, node) | ('mod', Mod) | None"""
        if depth > 8 or m is None:
            return None
        if name in m.defs:
            return ('def', m, m.defs[name])
        if name in m.imports:
            return self.target(m.imports[name], depth)
        for s in m.stars:
            if s[0] == 'pkg':
                r = self.resolve(self.mods.get(s[1]), name, depth + 1)
                if r:
                    return r
        return None

    def target(self, v, depth=0):
        if v[0] != 'pkg':
            return None
        base, name = v[1], v[2]
        if base == '' and name in self.mods and name:
            r = self.resolve(self.mods[''], name, depth + 1) if name in self.mods[''].defs else None
            return r or ('mod', self.mods[name])
        return self.resolve(self.mods.get(base), name, depth + 1)


def identifiers_written(pkg):
    """every identifier that occurs in the package as (part of) a string, keyword or parameter: the names that a
    computed attribute name can be composed of"""
    out = set()
    for m in pkg.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                if len(x.value) < 200:
                    out |= {y for y in re.split(r'\W+', x.value) if y}
            elif isinstance(x, (ast.keyword, ast.arg)) and x.arg:
                out.add(x.arg)
    return out


def setattr_names(call, strings):
    """over-approximation of the attribute names stored by a setattr call; None if unbounded"""
    a = [x for x in call.args if not isinstance(x, ast.Starred)]
    if src(call.func) == 'vars' or len(a) != len(call.args):
        return None
    k = a[-2] if len(a) >= 2 else None

    def parts(e):
        """alternating literal texts and holes"""
        if isinstance(e, ast.Constant):
            return [str(e.value)]
        if isinstance(e, ast.JoinedStr):
            return [y for v in e.values for y in (parts(v) if isinstance(v, ast.Constant) else [None])]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return parts(e.left) + parts(e.right)
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            return [None]
        return [None, None]
    if k is None:
        return None
    p = parts(k)
    if p.count(None) == 0:
        return {''.join(p)}
    if p.count(None) > 1:
        return None
    i = p.index(None)
    return {''.join(p[:i]) + x + ''.join(p[i + 1:]) for x in strings}


class Classes:
    """class hierarchy: own members, instance attributes, unresolved bases"""

    def __init__(self, pkg):
        self.pkg = pkg
        self.info = {}
        for m in pkg.mods.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and m.defs.get(n.name) is n:
                    self.info[id(n)] = (m, n)
        self.cache = {}

    def bases(self, m, n):
        own, ext = [], []
        for b in n.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.pkg.resolve(m, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                q = self.pkg.resolve(m, b.value.id)
                if q and q[0] == 'mod':
                    r = self.pkg.resolve(q[1], b.attr)
            if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                own.append((r[1], r[2]))
            else:
                d = m.imports.get(src(b).split('.')[0])
                ext.append('.'.join([d[1]] + src(b).split('.')[1:]) if d and d[0] == 'ext' else src(b))
        return own, ext

    def mro(self, m, n):
        out, ext = [(m, n)], []
        own, e = self.bases(m, n)
        ext += e
        for b in own:
            o, e2 = self.mro(*b)
            out += [x for x in o if x not in out]
            ext += e2
        return out, ext

    def members(self, n):
        """name -> node of the last definition in the class body; plus attributes stored on self/cls"""
        if id(n) in self.cache:
            return self.cache[id(n)]
        d, stored, dynamic = {}, set(), False

        def body(nodes):
            for x in nodes:
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    d[x.name] = x
                elif isinstance(x, (ast.If, ast.Try, ast.With)):
                    for f in ('body', 'orelse', 'finalbody'):
                        body(getattr(x, f, []))
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name):
                                d[y.id] = None
                elif isinstance(x, (ast.AnnAssign, ast.AugAssign)) and isinstance(x.target, ast.Name):
                    d[x.target.id] = None
        body(n.body)
        for x in ast.walk(n):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stored.add(x.attr)              # on whatever object: over-approximates what self has
            if isinstance(x, ast.Call) and src(x.func) in ('setattr', 'object.__setattr__', 'vars', 'super().__setattr__'):
                k = setattr_names(x, self.strings)
                if k is None:
                    dynamic = True
                else:
                    stored |= k
            if isinstance(x, ast.Attribute) and x.attr == '__dict__':
                dynamic = True
            if isinstance(x, (ast.FunctionDef,)) and x.name in ('__getattr__', '__getattribute__'):
                dynamic = True
        self.cache[id(n)] = d, stored, dynamic
        return self.cache[id(n)]


def external_members(dotted):
    """names an installed external base class offers (read from its source), None if unknown"""
    if dotted in ('object', 'ABC', 'abc.ABC', 'builtins.object'):
        return set(dir(object))
    p = dotted.split('.')
    for root in glob.glob('/opt/venv/lib/python3*/site-packages'):
        f = find_class(root, p)
        if f is not None:
            return f
    return None


def find_class(root, p, depth=0):
    if depth > 6:
        return None
    for k in range(len(p) - 1, 0, -1):
        base = os.path.join(root, *p[:k])
        for path in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.exists(path) and k == len(p) - 1:
                tree = ast.parse(open(path).read())
                for n in ast.walk(tree):
                    if isinstance(n, ast.ClassDef) and n.name == p[-1]:
                        return class_names(root, path, p[:k], tree, n, depth)
                    if isinstance(n, ast.ImportFrom):
                        for a in n.names:
                            if (a.asname or a.name) == p[-1]:
                                pk = p[:k] if path.endswith('__init__.py') else p[:k - 1]
                                b = (pk[:len(pk) - n.level + 1] if n.level else []) + (n.module.split('.') if n.module else [])
                                return find_class(root, b + [a.name], depth + 1)
    return None


def class_names(root, path, modp, tree, n, depth):
    out = set(dir(object))
    for x in ast.walk(n):
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
            out.add(x.attr)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    for b in n.bases:
        s = src(b)
        if s in ('ABC', 'object', 'abc.ABC'):
            continue
        imp = {}
        for y in ast.walk(tree):
            if isinstance(y, ast.ImportFrom):
                pk = modp if path.endswith('__init__.py') else modp[:-1]
                q = (pk[:len(pk) - y.level + 1] if y.level else []) + (y.module.split('.') if y.module else [])
                for a in y.names:
                    imp[a.asname or a.name] = q + [a.name]
        r = None
        if any(isinstance(y, ast.ClassDef) and y.name == s for y in ast.walk(tree)):
            r = find_class(root, modp + [s], depth + 1)
        elif s in imp:
            r = find_class(root, imp[s], depth + 1)
        if r is None:
            return None
        out |= r
    return out


def top_names(path):
    """names bound at the top level of an installed module, None if it cannot be told"""
    try:
        tree = ast.parse(open(path, errors='replace').read())
    except (OSError, SyntaxError):
        return None
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == '*':
                    return None
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.FunctionDef) and n.name == '__getattr__':
            return None
    return out


class Installed:
    """which dotted names of TensorFlow and Sionna exist, read from the installed sources"""

    def __init__(self):
        r = glob.glob('/opt/venv/lib/python3*/site-packages')
        self.root = r[0] if r else None
        self.cache = {}

    def names(self, *paths):
        k = paths
        if k not in self.cache:
            out = set()
            for q in paths:
                t = top_names(q)
                if t is None:
                    out = None
                    break
                out |= t
            self.cache[k] = out
        return self.cache[k]

    def tensorflow(self, parts):
        """False if tf.<parts> does not exist; None if unknown"""
        if not self.root:
            return None
        base = os.path.join(self.root, 'tensorflow', '_api', 'v2')
        if not os.path.exists(os.path.join(base, 'v2.py')):
            return None
        d = base
        for i, x in enumerate(parts):
            if x in ('keras', 'compat', 'numpy', 'estimator', 'summary', 'contrib'):
                return None
            if os.path.isdir(os.path.join(d, x)):
                d = os.path.join(d, x)
                continue
            ns = self.names(os.path.join(base, 'v2.py'), os.path.join(self.root, 'tensorflow', '__init__.py')) \
                if d == base else self.names(os.path.join(d, '__init__.py'))
            if ns is None:
                return None
            return x in ns or x.startswith('__')
        return True

    def sionna(self, module, name):
        if not self.root:
            return None
        b = os.path.join(self.root, *module.split('.'))
        if not os.path.isdir(os.path.join(self.root, 'sionna')):
            return None
        if os.path.isdir(os.path.join(b, name)) or os.path.exists(os.path.join(b, name + '.py')):
            return True
        f = b + '.py' if os.path.exists(b + '.py') else os.path.join(b, '__init__.py')
        if not os.path.exists(f):
            return False
        ns = self.names(f)
        return None if ns is None else name in ns


@prop('E01')
def wellformed(ctx):
    pkg = Pkg()
    cl = Classes(pkg)
    given_self = {}
    lib = Installed()
    counts = {'library': 0, 'names': 0, 'calls': 0, 'attributes': 0}
    ext_cache = {}

    stored_anywhere, dynamic_store = set(), False
    strings = cl.strings = identifiers_written(pkg)
    for m in pkg.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                stored_anywhere.add(x.attr)
            if isinstance(x, ast.Call) and src(x.func).split('.')[-1] in ('setattr', '__setattr__'):
                k = setattr_names(x, strings)
                if k is None:
                    dynamic_store = True
                else:
                    stored_anywhere |= k
    attr_cache = {}

    def attrs_of(m, n):
        if id(n) not in attr_cache:
            attr_cache[id(n)] = attrs_of_(m, n)
        return attr_cache[id(n)]

    def attrs_of_(m, n):
        """attribute names an instance of class n (or of one of its subclasses) can have; None if unbounded"""
        if dynamic_store:
            return None
        out = set()
        todo = [(m, n)] + [(m2, n2) for m2, n2 in cl.info.values() if any(x[1] is n for x in cl.mro(m2, n2)[0])]
        for m2, n2 in todo:
            mro, ext = cl.mro(m2, n2)
            for _, c in mro:
                d, stored, dynamic = cl.members(c)
                if dynamic:
                    return None
                out |= set(d) | stored
            for e in ext:
                if e not in ext_cache:
                    ext_cache[e] = external_members(e)
                if ext_cache[e] is None:
                    return None
                out |= ext_cache[e]
        return out | stored_anywhere | set(dir(object)) | {'__class__', '__dict__'}

    owners = {}

    def owner(m, qual):
        """The function a piece of a function belongs to: a function of one module that only one other function of this
        module mentions is a part of that one (it serves to recognise known findings after code has been moved)."""
        if m.name not in owners:
            uses, defs = {}, {}
            for o in pkg.mods.values():
                own = {x.name for x in o.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))}

                def walk(x, q):
                    for y in ast.iter_child_nodes(x):
                        if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                            q2 = (q + '.' if q else '') + y.name
                            if o is m and not isinstance(y, ast.ClassDef):
                                defs.setdefault(y.name, []).append(q2)
                            walk(y, q2)
                            continue
                        n = y.id if isinstance(y, ast.Name) else y.attr if isinstance(y, ast.Attribute) else None
                        if n and (o is m or n not in own):
                            uses.setdefault(n, set()).add((o.name, q))
                        if isinstance(y, ast.ImportFrom):
                            for al in y.names:
                                uses.setdefault(al.name, set()).add((o.name, ''))
                        walk(y, q)
                walk(o.tree, '')
            owners[m.name] = {}
            for n, qs in defs.items():
                u = {x for x in uses.get(n, ()) if x != (m.name, qs[0])}
                if len(qs) == 1 and len(u) == 1 and all(o == m.name and q for o, q in u):
                    owners[m.name][qs[0]] = next(iter(u))[1]
        seen = set()
        while qual in owners[m.name] and qual not in seen:
            seen.add(qual)
            qual = owners[m.name][qual]
        return qual

    for m in pkg.mods.values():
        star_unknown = pkg.exports(m.name if m.name != '__init__' else '') is None
        known = MODULE_NAMES | m.globals
        for s in m.stars:
            e = pkg.exports(s[1]) if s[0] == 'pkg' else None
            known |= e or set()
        # ---- names
        lines = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                lines.setdefault(x.id, []).append(x.lineno)

        def scope(t, qual):
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module') and not star_unknown:
                    n = s.get_name()
                    if t.get_type() == 'module' and s.is_assigned():
                        continue
                    counts['names'] += 1
                    ok = n in known
                    at = [l for l in lines.get(n, [0]) if l >= t.get_lineno()][:1] or [t.get_lineno()]
                    ctx.rule('name:%s:%s:%s' % (m.base, qual, n), ok, '%s:%d (%s)' % (m.base, at[0], qual or 'module'),
                             'name "%s" is not defined' % n, key='%s: undefined name %s' % (owner(m, qual) or m.base, n))
            for c in t.get_children():
                scope(c, (qual + '.' if qual else '') + c.get_name())
        scope(symtable.symtable(m.text, m.path, 'exec'), '')

        # ---- names of the libraries
        env = origins(m.tree)
        inner = {x.value for x in ast.walk(m.tree) if isinstance(x, ast.Attribute)}
        for x in ast.walk(m.tree):
            ok = None
            if isinstance(x, ast.Attribute) and x not in inner:
                d = dotted(x, env)
                if d and d.startswith('tensorflow.'):
                    ok = lib.tensorflow(d.split('.')[1:])
            elif isinstance(x, ast.ImportFrom) and not x.level and (x.module or '').split('.')[0] == 'sionna' and \
                    not any((x.module + '.').startswith(a + '.') for a in ALIAS):
                for a in x.names:
                    ok = lib.sionna(x.module, a.name) if a.name != '*' else None
                    d = x.module + '.' + a.name
                    if ok is not None:
                        counts['library'] += 1
                        ctx.rule('library:%s:%s:%d' % (m.base, d, x.lineno), ok, '%s:%d' % (m.base, x.lineno),
                                 '%s does not exist' % d, key='%s: %s' % (m.base, d))
                continue
            if ok is not None:
                counts['library'] += 1
                ctx.rule('library:%s:%s:%d' % (m.base, d, x.lineno), ok, '%s:%d' % (m.base, x.lineno),
                         '%s does not exist' % d, key='%s: %s' % (m.base, d))

        # ---- imports from the own package
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                for k, v in imported(x, pkg, m):
                    if v[0] == 'pkg' and v[2] != '*' and v[1].split('.')[0] != 'models' and v[2] != 'models':
                        e = pkg.exports(v[1])
                        if e is None and v[1] in pkg.mods:
                            continue
                        ctx.rule('import:%s:%s.%s' % (m.base, v[1], v[2]), e is not None and v[2] in e,
                                 '%s:%d' % (m.base, x.lineno), '"%s" does not exist in module "%s"' % (v[2], v[1] or 'package'),
                                 key='%s: import %s' % (m.base, v[2]))

        # ---- calls and attributes
        def resolve_callee(f, local, cls):
            """(Sig, label) for callees with one known meaning"""
            if isinstance(f, ast.Name):
                if f.id in local:
                    return None
                r = pkg.resolve(m, f.id)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in local:
                q = pkg.resolve(m, f.value.id)
                if q and q[0] == 'mod':
                    if f.attr not in (pkg.exports(q[1].name if q[1].name != '__init__' else '') or {f.attr}):
                        return 'missing', '%s.%s' % (f.value.id, f.attr)
                    r = pkg.resolve(q[1], f.attr)
                elif q and q[0] == 'def' and isinstance(q[2], ast.ClassDef):
                    return method(q[1], q[2], f.attr, False, src(f))
                else:
                    return None
            else:
                return None
            if not r or r[0] != 'def':
                return None
            if isinstance(r[2], ast.ClassDef):
                return construct(r[1], r[2])
            if isinstance(r[2], ast.FunctionDef) and deco_kind(r[2]) == 'plain':
                return Sig(r[2].args, 0), r[2].name
            return None

        def construct(m2, n2):
            if n2.decorator_list or n2.keywords:
                return None
            mro, ext = cl.mro(m2, n2)
            for _, c in mro:
                d = cl.members(c)[0]
                if '__new__' in d:
                    return None
                if '__init__' in d:
                    return Sig(d['__init__'].args, 1), n2.name
            return None

        def method(m2, n2, name, bound, label, skip_first=False):
            mro, ext = cl.mro(m2, n2)
            for _, c in mro[1:] if skip_first else mro:
                d, stored, dyn = cl.members(c)
                if name in stored:
                    return None
                if name in d:
                    f = d[name]
                    if not isinstance(f, ast.FunctionDef):
                        return None
                    k = deco_kind(f)
                    if k == 'plain':
                        return Sig(f.args, 1 if bound else 0), label
                    if k == 'static':
                        return Sig(f.args, 0), label
                    if k == 'class':
                        return Sig(f.args, 1), label
                    return None
            return None

        def visit(node, cls, fn, selfname, local, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    c2 = (m, ch) if m.defs.get(ch.name) is ch else None
                    visit(ch, c2, None, None, local, (qual + '.' if qual else '') + ch.name)
                    continue
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    a = ch.args
                    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | \
                        {x.arg for x in (a.vararg, a.kwarg) if x}
                    if not isinstance(ch, ast.Lambda):
                        names |= {x.id for x in ast.walk(ch) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        names |= {x.name for x in ast.walk(ch) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not ch}
                        names |= {(y.asname or y.name).split('.')[0] for x in ast.walk(ch)
                                  if isinstance(x, (ast.Import, ast.ImportFrom)) for y in x.names}
                    sn = selfname if fn is not None else None
                    if cls is not None and fn is None and isinstance(ch, ast.FunctionDef) and \
                            deco_kind(ch) in ('plain', 'property', 'unknown') and a.args and isinstance(node, (ast.ClassDef, ast.If)):
                        sn = a.args[0].arg
                        if any(isinstance(x, ast.Name) and x.id == sn and isinstance(x.ctx, ast.Store) for x in ast.walk(ch)):
                            sn = None
                    elif sn in names:
                        sn = None
                    visit(ch, cls, ch, sn, local | names, qual + ('.' if qual else '') + getattr(ch, 'name', '<lambda>'))
                    continue
                where = '%s:%d (%s)' % (m.base, getattr(ch, 'lineno', 0), qual or 'module')
                if isinstance(ch, ast.Call):
                    check_call(ch, cls, selfname, local, qual, where)
                if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, ast.Load) and isinstance(ch.value, ast.Name):
                    if cls is not None and selfname and ch.value.id == selfname:
                        al = attrs_of(*cls)
                        if al is not None:
                            counts['attributes'] += 1
                            ctx.rule('attr:%s:%s.%s' % (m.base, qual, ch.attr), ch.attr in al, where,
                                     'no object of class %s has an attribute "%s"' % (cls[1].name, ch.attr),
                                     key='%s: attribute %s' % (qual, ch.attr))
                    elif ch.value.id not in local:
                        q = pkg.resolve(m, ch.value.id)
                        if q and q[0] == 'mod':
                            e = pkg.exports(q[1].name)
                            if e is not None:
                                counts['attributes'] += 1
                                ctx.rule('member:%s:%s.%s' % (m.base, qual, ch.attr), ch.attr in e, where,
                                         'module %s has no "%s"' % (q[1].name, ch.attr), key='%s: member %s' % (qual, ch.attr))
                visit(ch, cls, fn, selfname, local, qual)

        def check_call(c, cls, selfname, local, qual, where):
            f = c.func
            targets = []
            if cls is not None and selfname and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
                    f.value.id == selfname:
                concrete = [cls] + [(m2, n2) for m2, n2 in cl.info.values() if any(x[1] is cls[1] for x in cl.mro(m2, n2)[0])]
                for m2, n2 in concrete:
                    r = method(m2, n2, f.attr, True, '%s.%s' % (n2.name, f.attr))
                    if r:
                        targets.append(r)
            elif cls is not None and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and not f.value.args:
                r = method(cls[0], cls[1], f.attr, True, 'super().%s' % f.attr, skip_first=True)
                if r:
                    targets.append(r)
            else:
                r = resolve_callee(f, local, cls)
                if r and r[0] == 'missing':
                    return
                if r:
                    targets.append(r)
            if cls is not None and selfname and c.args and isinstance(c.args[0], ast.Name) and c.args[0].id == selfname:
                q = None
                if isinstance(f, ast.Name) and f.id not in local:
                    q = pkg.resolve(m, f.id)
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in local:
                    q = pkg.resolve(m, f.value.id)
                    q = pkg.resolve(q[1], f.attr) if q and q[0] == 'mod' else None
                if q and q[0] == 'def' and isinstance(q[2], ast.FunctionDef) and q[2].args.args:
                    given_self.setdefault(id(q[2]), (q[1], q[2], []))[2].append(cls)
            for sig, label in targets:
                counts['calls'] += 1
                p = sig.problem(c)
                ctx.rule('call:%s:%s:%s' % (m.base, qual, label), p is None, where,
                         'the call does not fit: %s %s' % (label, p), key='%s: call of %s' % (owner(m, qual), label))
        visit(m.tree, None, None, None, frozenset(), '')
    # ---- functions that work on an object a method hands them
    for m, f, classes in given_self.values():
        a = f.args.args[0].arg
        if any(isinstance(x, ast.Name) and x.id == a and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
            continue
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == a:
                for c in classes:
                    al = attrs_of(*c)
                    if al is not None:
                        counts['attributes'] += 1
                        ctx.rule('attr:%s:%s.%s/%s' % (m.base, f.name, x.attr, c[1].name), x.attr in al,
                                 '%s:%d (%s)' % (m.base, x.lineno, f.name),
                                 'no object of class %s has an attribute "%s"' % (c[1].name, x.attr),
                                 key='%s: attribute %s' % (f.name, x.attr))
    if counts['names'] <= 100 or counts['calls'] <= 30:
        raise AnchorMissing('too little to analyse: %s' % counts)
    ctx.extra.update(counts, modules=len(pkg.mods), classes=len(cl.info))

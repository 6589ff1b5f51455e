"""Lint over all modules: where random numbers come from."""
import ast
import glob
import os
from . import prop
from engine.world import PKG

FRESH = ('tensorflow.random.', 'sionna.phy.config.tf_rng.', 'sionna.phy.config.np_rng.', 'sionna.phy.config.py_rng.')
OTHER = ('numpy.random.', 'random.', 'secrets.', 'uuid.', 'os.urandom', 'scipy.stats.', 'time.time', 'jax.random.',
         'torch.rand')
SEEDS = ('set_seed', 'seed', 'RandomState', 'default_rng', 'Generator', 'get_global_generator', 'SeedSequence',
         'set_global_generator', 'from_seed', 'from_state', 'from_key_counter', 'from_non_deterministic_state')
NOT_DRAWS = ('Generator', 'Algorithm', 'set_seed', 'get_global_generator', 'set_global_generator', 'create_rng_state')


def names(tree):
    """local name -> dotted origin, for imports anywhere in the module and plain aliases of dotted names"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = (n.module or '') + '.' + a.name
    for _ in range(3):
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = dotted(n.value, out)
                if d and d.split('.')[0] in ('tensorflow', 'numpy', 'random', 'sionna') and '.' in d:
                    out.setdefault(n.targets[0].id, d)
    return out


def dotted(e, env):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in env:
        return '.'.join([env[e.id]] + parts[::-1])
    return None


def canonical(d):
    d = d.replace('tensorflow.compat.v2.', 'tensorflow.')
    if d.startswith('sionna.') and '.config.' in d:
        d = 'sionna.phy.config.' + d.split('.config.', 1)[1]
    return d


@prop('N01')
def sources(ctx):
    files = sorted(glob.glob(os.path.join(PKG, '*.py')))
    draws = []
    for path in files:
        tree = ast.parse(open(path).read())
        env = names(tree)
        base = os.path.basename(path)
        inside = {}

        def visit(node, fn):
            for ch in ast.iter_child_nodes(node):
                f = fn
                if isinstance(node, ast.FunctionDef) and ch in node.body or isinstance(node, ast.Lambda) and ch is node.body:
                    f = getattr(node, 'name', '<lambda>')
                inside[ch] = f
                visit(ch, f)
        visit(tree, None)
        for n in ast.walk(tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    d = isinstance(t, ast.Attribute) and canonical(dotted(t, env) or '')
                    if d and d.startswith('sionna.phy.config.') and d.endswith('.seed'):
                        ctx.rule('seeding:%s:%d' % (base, n.lineno), False, '%s:%d' % (base, n.lineno),
                                 'the package sets the global seed')
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func, env)
            if not d:
                continue
            d = canonical(d)
            where = '%s:%d (%s)' % (base, n.lineno, inside.get(n) or 'module level')
            last = d.split('.')[-1]
            if d.startswith(FRESH):
                seeding = any(x in d.split('.')[-2:] for x in SEEDS)
                ctx.rule('seeding:%s' % where, not seeding, where, 'the package makes or seeds a generator (%s)' % d)
                if seeding:
                    continue
                stateless = last.startswith('stateless_')
                seed = next((k.value for k in n.keywords if k.arg == 'seed'), None)
                fixed = stateless or seed is not None and not (isinstance(seed, ast.Constant) and seed.value is None)
                ctx.rule('unseeded:%s' % where, not fixed, where, '%s is drawn with its own seed' % d)
                ctx.rule('at use:%s' % where, inside.get(n) is not None, where,
                         '%s is drawn once, when the module is imported' % d)
                draws.append((d, where))
            elif d.startswith(OTHER) or d in OTHER:
                ctx.rule('source:%s' % where, False, where,
                         '%s is outside of the generators seeded by tf.random.set_seed and sionna.phy.config.seed' % d)
    ctx.rule('draws found', len(draws) >= 5, 'OpenNTN', 'only %d random draws found' % len(draws))
    own = [w for d, w in draws if d.startswith('tensorflow.')]
    ctx.rule('config.seed', not own, own[0] if own else '', 'drawn from the global TensorFlow generator, which '
             'sionna.phy.config.seed does not seed', key='config.seed')
    ctx.extra['modules'] = len(files)
    ctx.extra['random draws'] = ['%s %s' % x for x in draws]

"""Check of the shipped parameter tables against a transcription of TR 38.811 and against what the model needs of them."""
import json
import os
from . import prop
from engine.world import REPO

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ANGLES = range(10, 100, 10)
LSP = ('DS', 'ASD', 'ASA', 'SF', 'K', 'ZSA', 'ZSD')


def positive_definite(m):
    """Cholesky factorization"""
    n = len(m)
    low = [[0.] * n for _ in m]
    for i in range(n):
        for j in range(i + 1):
            x = m[i][j] - sum(low[i][k] * low[j][k] for k in range(j))
            if i == j:
                if x <= 1e-9:
                    return False
                low[i][i] = x ** 0.5
            else:
                low[i][j] = x / low[j][j]
    return True


@prop('T02')
def tables(ctx):
    want = json.load(open(os.path.join(HERE, 'data', 'tr38811_tables.json')))
    for name in sorted(want):
        path = 'OpenNTN/models/' + name
        try:
            d = json.load(open(os.path.join(REPO, path)))
        except (OSError, ValueError) as e:
            ctx.rule(name, False, path, 'table cannot be read: %s' % e)
            continue
        num = {}
        for base, v in want[name].items():
            keys = [base] if not isinstance(v, (list, dict)) else ['%s_%d' % (base, a) for a in ANGLES]
            vals = [v] if not isinstance(v, (list, dict)) else v if isinstance(v, list) else [v['all']] * 9
            for k, x in zip(keys, vals):
                try:
                    num[k] = float(d[k])
                    ok = num[k] == float(x)
                except (KeyError, TypeError, ValueError):
                    ok = False
                ctx.rule('%s:%s' % (name, k), ok, '%s: %s' % (path, k), 'entry is %r, TR 38.811 has %r' % (d.get(k), x))
        for a in ANGLES:
            one = lambda b, f: ctx.rule('%s:%s_%d range' % (name, b, a), f(num.get('%s_%d' % (b, a), float('nan'))),
                                        '%s: %s_%d' % (path, b, a), 'entry %r out of range' % d.get('%s_%d' % (b, a)))
            one('LoS_p', lambda x: 0 <= x <= 1)
            for b in LSP + ('XPR',):
                if 'sigma' + b in want[name]:
                    one('sigma' + b, lambda x: 0 <= x < float('inf'))
            for b in LSP:
                if 'corrDist' + b in want[name]:
                    one('corrDist' + b, lambda x: 0 < x < float('inf'))
            one('numClusters', lambda x: x >= 1 and x == int(x))
            m = [[1. if p == q else num.get('corr%svs%s_%d' % (p, q, a), num.get('corr%svs%s_%d' % (q, p, a), 0.))
                  for q in LSP] for p in LSP]
            ctx.rule('%s:correlations_%d' % (name, a), positive_definite(m), '%s: corr*_%d' % (path, a),
                     'the cross-correlation matrix of the large-scale parameters is not positive definite')
    ctx.extra['tables'] = len(want)

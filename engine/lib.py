"""Obligations, reports and evidence shared by all checks."""
import json
import os
import pickle
import traceback
import sys
import time
from . import terms as tm
from . import pw
from . import compare
from . import variants
from .terms import T, mk, const
from .interp import Unsupported, AnchorMissing, Ref, TupleV
from .pw import NoDenotation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def undefined(t):
    """a variable without a value or a missing attribute that evaluating t reads whatever its conditions are"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, tm.T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('unbound', 'undefattr'):
            return x
        todo.extend(x.args[:1] if x.op in ('ite', 'and', 'or') else x.args)
    return None


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obl = []             # (name, ok)
        self.viol = []            # dicts
        self.engines = []
        self.t0 = time.time()
        self.files = set()
        self.notes = []
        self.extra = {}
        self.rules = {}
        self.facts = ()
        self.broken = {}          # (where, what) -> when, of operations that certainly fail
        self.an, self.calls, self.br = {}, 0, 0

    # -------------------------------------------------------------- independent cases
    def par(self, cases, fn, jobs=None):
        """fn(ctx, *case) for every case, spread over processes"""
        cases = [c if isinstance(c, tuple) else (c,) for c in cases]
        n = max(1, min(jobs or int(os.environ.get('VERIF_JOBS', 0) or len(os.sched_getaffinity(0))), len(cases)))
        if n == 1:
            for c in cases:
                self.facts = ()
                fn(self, *c)
            return
        kids = []
        sys.stdout.flush()
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = {}
                    for i in range(k, len(cases), n):
                        c = Ctx(self.prop, self.tier)
                        try:
                            fn(c, *cases[i])
                            err = None
                        except Exception as e:
                            err = (type(e).__name__, str(e)[:2000], traceback.format_exc()[-3000:])
                        c.gather()
                        out[i] = (c.obl, c.viol, c.an, c.calls, c.br, c.rules, c.extra, c.notes, err)
                    data = pickle.dumps(out)
                except BaseException:
                    data = pickle.dumps({'crash': traceback.format_exc()})
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            kids.append((pid, r))
        res = {}
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            o = pickle.loads(data) if data else {'crash': 'worker ended without a result'}
            if 'crash' in o:
                raise RuntimeError(o['crash'])
            res.update(o)
        errs = []
        for i in sorted(res):
            obl, viol, an, calls, br, rules, extra, notes, err = res[i]
            self.obl += obl
            self.viol += viol
            self.an.update(an)
            self.calls += calls
            self.br += br
            for a, b in rules.items():
                self.rules[a] = self.rules.get(a, 0) + b
            for a, b in extra.items():
                self.extra[a] = self.extra.get(a, 0) + b if isinstance(b, int) else b
            self.notes += notes
            if err:
                errs.append(err)
        if errs:
            if os.environ.get('VERIF_TRACE'):
                print(errs[0][2])
            raise {'AnchorMissing': AnchorMissing}.get(errs[0][0], Unsupported)(errs[0][1])

    def gather(self):
        for E in self.engines:
            self.an.update({str(k): v for k, v in E.analysed.items() if not str(k).startswith('spec:')})
            self.calls += E.callsites
            self.br += E.branches
            for c, what, p in E.errors:
                if p and c is not tm.FALSE:
                    self.broken['%s:%s (%s)' % p, what] = tm.show(c, 6)[:300]
        self.engines = []
        # operations that fail whenever they are reached with these operands
        for (where, what), when in sorted(self.broken.items()):
            if not any(v['where'] == where and v['message'].startswith(what) for v in self.viol):
                self.fail('operation %s' % where.split(' ')[0], where, '%s (reached when %s)' % (what, when),
                          key='operation %s: %s' % (where.split('(')[-1].rstrip(')'), what))
        self.broken = {}

    # -------------------------------------------------------------- obligations
    def engine(self, E):
        if E not in self.engines:
            self.engines.append(E)

    def ok(self, name):
        self.obl.append((name, True))

    def fail(self, name, where, msg, key=None, **kw):
        self.obl.append((name, False))
        self.viol.append(dict(obligation=name, where=where, message=msg, key=key or name, **kw))

    def rule(self, name, ok, where, msg, key=None):
        """one checked instance of a structural rule"""
        r = name.split(':')[0]
        self.rules[r] = self.rules.get(r, 0) + 1
        if ok:
            self.ok(name)
        else:
            self.fail(name, where, msg, key)
        return ok

    def trial(self, outs):
        """`same`, but leaves no trace if the values differ"""
        n = len(self.obl), len(self.viol)
        self.same(outs)
        if len(self.viol) == n[1]:
            return True
        del self.obl[n[0]:], self.viol[n[1]:]
        return False

    def same(self, outs, E=None, note=''):
        """outs: list of (name, code value, spec value); proved jointly (shared random draws)"""
        den_a, den_b, lab = [], [], []
        for name, a, b in outs:
            a, b = self._t(a), self._t(b)
            u = undefined(a) if a is not b else None
            if u is not None:
                self.fail(name + ':defined', prov(u) or prov(a), '%s depends on %s, which does not exist at this point' % (
                    name, '%s.%s' % tuple(x.args[0] for x in u.args) if u.op == 'undefattr' else
                    'the variable %s' % u.args[0].args[0]))
                continue
            da, ia = self.denote(a, name, 'code')
            db, ib = self.denote(b, name, 'spec')
            if da is None:
                # no pointwise form: compare the value-graph terms themselves
                if a is b:
                    den_a.append([a]); den_b.append([b]); lab.append((name, [()]))
                    continue
                raise Unsupported('%s: %s' % (name, ia))
            if db is None:
                raise Unsupported('specification of %s has no denotation: %s' % (name, ib))
            sa, sb = tm.shape_of(a), tm.shape_of(b)
            # simplification to a constant forgets the shape of a uniform tensor
            if sa == () and sb and a.op in ('num', 'const'):
                da, sa = [(i, a) for i, _ in db], sb
            elif sb == () and sa and b.op in ('num', 'const'):
                db, sb = [(i, b) for i, _ in da], sa
            if not same_shape(sa, sb):
                self.fail(name + ':shape', prov(a), 'shape %s instead of %s' % (tm.show(sa), tm.show(sb)))
                continue
            den_a.append([v for _, v in da])
            den_b.append([v for _, v in db])
            lab.append((name, [i for i, _ in da]))
        A = mk('list', *[x for l in den_a for x in l])
        B = mk('list', *[x for l in den_b for x in l])
        fails = self._attempt(A, B, lab)
        if fails:
            other = variants.normalise(pw.recanon(A), pw.recanon(B))
            if other:
                f2 = self._attempt(other[0], other[1], lab)
                if len(f2) < len(fails):
                    fails = {k: v for k, v in fails.items() if k in f2}
        for name, _ in lab:
            if name not in fails:
                self.ok(name)
        for name, (i, d) in fails.items():
            x, y = compare.smallest(d.a, d.b)
            opq = opaque(d.a) - opaque(d.b)
            if opq:
                raise Unsupported('%s: the difference involves operations without a model (%s)' % (
                    name, ', '.join(sorted(opq))[:200]))
            facts = ['%s%s' % ('' if v else 'not ', tm.show(c, 5)) for c, v in d.facts.lits]
            self.fail(name, prov(x) or prov(d.a),
                      'element [%s] of %s differs' % (','.join(tm.show(j) for j in i), name),
                      code=tm.show(x, 12)[:3000], spec=tm.show(y, 12)[:3000], when=facts[:12],
                      code_anchors=anchors(x))

    def _attempt(self, A, B, lab):
        fails = self._compare(pw.recanon(compare.canon_draws(A)), pw.recanon(compare.canon_draws(B)), lab)
        if fails:
            A2, B2 = compare.pair_draws(compare.under(pw.recanon(A), self.facts), compare.under(pw.recanon(B), self.facts))
            f2 = self._compare(pw.recanon(A2), pw.recanon(B2), lab)
            if len(f2) <= len(fails):
                fails = f2
        return fails

    def _compare(self, A, B, lab):
        """first difference of every output that differs"""
        A, B = compare.under(A, self.facts), compare.under(B, self.facts)
        k = 0
        fails = {}
        for name, idxs in lab:
            for i in idxs:
                x, y = A.args[k], B.args[k]
                k += 1
                if name not in fails:
                    eq, d = compare.equal(x, y, self.facts)
                    if not eq:
                        fails[name] = (i, d)
        return fails

    def _t(self, v):
        return v

    def denote(self, t, name, side):
        try:
            return pw.denote(t), None
        except NoDenotation as e:
            c = pw.culprits(t)
            return None, 'no pointwise form (%s): %s' % (
                side, '; '.join('%s at %s' % (tm.show(x, 3)[:160], x.prov) for x in c[:3]) or str(e)[:200])

    # -------------------------------------------------------------- result
    def finish(self, known):
        rc = 0
        self.gather()
        kf = [k for k in known if k.get('property') == self.prop and k.get('status') == 'known']
        left = []
        for v in self.viol:
            hit = next((k for k in kf if k.get('key') == v['key']), None)
            if hit:
                hit['_hit'] = True
            else:
                left.append(v)
        for k in kf:
            if k.get('_hit'):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        an, calls, br = self.an, self.calls, self.br
        cov = {
            'explanation': 'static value-graph analysis of the current source of the package; each obligation is an '
                           'equivalence of normal forms (code vs. reference definition) or a structural rule over '
                           'the syntax tree / tables',
            'obligations': len(self.obl), 'discharged': sum(1 for _, o in self.obl if o),
            'obligation_names': [n for n, _ in self.obl][:200],
            'functions_analysed': len(an), 'functions': sorted('%s' % k for k in an)[:150],
            'call_sites': calls, 'branches': br, 'rule_instances': self.rules,
            'violations': len(self.viol), 'known_findings_matched': sum(1 for k in kf if k.get('_hit')),
        }
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=cov, wall_s=round(time.time() - self.t0, 3))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if left:
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            p = os.path.join(VERIF, 'replay', self.prop + '.json')
            with open(p, 'w') as f:
                json.dump(left, f, indent=1, default=str)
            for v in left[:8]:
                print('%s: %s: %s' % (v['where'], v['obligation'], v['message']))
                if v.get('code'):
                    print('    code: %s' % v['code'][:400])
                    print('    spec: %s' % v['spec'][:400])
                    if v.get('when'):
                        print('    when: %s' % '; '.join(v['when'])[:400])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            rc = 1
        print('%s: %d obligations, %d discharged, %d functions analysed, %.1fs' % (
            self.prop, len(self.obl), cov['discharged'], len(an), time.time() - self.t0))
        return rc


def opaque(t):
    """operations whose meaning is unknown to the analysis"""
    out = set()
    for x in tm.subterms(t):
        if x.op.startswith('op:') and x.op not in ('op:cholesky', 'op:sqrtm') or x.op in ('call', 'mcall', 'ext'):
            out.add(x.op if x.op.startswith('op:') else '%s %s' % (
                x.op, ' '.join(tm.show(a, 3) if isinstance(a, T) else str(a) for a in x.args[:2] if not isinstance(a, T) or a.op in ('const', 'fn'))))
    return out


def same_shape(a, b):
    if a is None or b is None:
        return a is b
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if compare.equal(pw.recanon(x), pw.recanon(y))[0]:
            continue
        # symbolic sizes that name the same axis of two different tensors cannot be told apart
        if x.op in ('dim', 'rdim', 'slen', 'size') or y.op in ('dim', 'rdim', 'slen', 'size'):
            continue
        return False
    return True


def prov(t):
    p = t.prov if isinstance(t, T) else None
    if not p:
        for x in tm.subterms(t):
            if x.prov and not str(x.prov[0]).startswith('spec'):
                p = x.prov
                break
    if not p:
        return '?'
    return '%s:%s (%s)' % p


def anchors(t, n=6):
    out = []
    for x in tm.subterms(t):
        if x.prov and x.op not in ('num', 'sym', 'const'):
            s = prov(x)
            if s not in out:
                out.append(s)
    return out[:n]

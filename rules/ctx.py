"""Obligations, verdicts, known findings and evidence of one check run."""
import json, os, sys, time, contextlib, traceback
from sa.query import *
from sa import alg
from sa.repo import Repo, AnalysisBroken, Func

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXPL = ('Static analysis of the current source: an abstract interpreter (syntax-directed value numbering with joins, '
        'loop summaries and resolved calls) computes a normal form of every effect named by an obligation and compares it '
        'with the normal form of the specification; effect/data-flow rules scan every statement of the call graph. '
        'Nothing is executed, no input is sampled and no solver is called.')


Timeout = alg.Deadline


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.repo = Repo()
        self.obs = []          # (rule, construct, status, detail, where)
        self.functions = set()
        self.unmodelled = {}
        self.broken = []
        self.floor = 1
        self.counts = {}
        self.group_limit = 150 if tier == 'quick' else 250
        self.total_limit = 500 if tier == 'quick' else 700

    # ---------------------------------------------------------- running queries
    def run(self, qual, *a, **k):
        r = run(self.repo, qual, *a, **k)
        self.note(r)
        if r.dead and r.I.raises and all(x.exc == 'IndexError' and x.implicit for x in r.I.raises):
            # every path ends at a constant index outside the array
            f = self.repo.need(qual)
            self.ob('a result is produced', qual, False, 'every path indexes outside the array at %s' % ', '.join(sorted({str(x.where) for x in r.I.raises})), f)
        return r

    def spec(self, file, name, *a, **k):
        """Interpret the reference definition spec/<file>.py:<name> with the same engine."""
        return run(self.repo, self.repo.add_spec(file) + '.' + name, *a, **k)

    def note(self, r):
        self.functions |= r.I.visited
        for u, n in r.I.unk.items():
            self.unmodelled[u] = self.unmodelled.get(u, 0) + n

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    @contextlib.contextmanager
    def group(self, name, where=''):
        """Obligations about one construct; an analysis failure leaves the group undecided."""
        left = self.total_limit - (time.time() - self.t0)
        alg.deadline(time.time() + max(2, min(self.group_limit, left)))
        try:
            yield
        except AnalysisBroken as e:
            self.broken.append('%s: %s' % (name, e))
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.obs.append((name, 'analysis', 'undecided', '%s: %s at %s' % (
                type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[-4:])), where))
        finally:
            alg.deadline(None)

    # ---------------------------------------------------------- obligations
    def where(self, f):
        if isinstance(f, str) and "." in f:
            try:
                f = self.repo.need(f)
            except AnalysisBroken:
                return f
        if isinstance(f, Func):
            return '%s (%s)' % (f.where, f.qual)
        return str(f)

    def ob(self, rule, construct, ok, detail='', where=''):
        """ok: True (discharged), False (violated), None (undecided)."""
        st = 'discharged' if ok is True else 'violated' if ok is False else 'undecided'
        self.obs.append((rule, construct, st, '' if ok is True else detail, self.where(where)))
        return ok

    def eq(self, rule, construct, got, want, where='', note=''):
        """Normal forms must be identical; a difference is definite only when both sides are fully modelled."""
        try:
            same_ = got is want or same(got, want) or (arith(got) and arith(want) and alg.equal(got, want))
        except Timeout:
            raise
        except Exception as e:
            return self.ob(rule, construct, None, 'comparison failed: %r' % e, where)
        if same_:
            return self.ob(rule, construct, True, '', where)
        u = unmodelled(got) | unmodelled(want) | (weak(got) - weak(want))
        if u:
            return self.ob(rule, construct, None, 'not fully modelled: %s' % ', '.join(sorted(u))[:300], where)
        d = ''
        if arith(got) and arith(want):
            try:
                d = '; difference: ' + show(alg.sub(got, want))[:700]
            except Timeout:
                raise
            except Exception:
                pass
        return self.ob(rule, construct, False, '%scode gives %s ; required %s%s' % (note and note + ': ', show(got)[:700], show(want)[:700], d), where)

    # ---------------------------------------------------------- verdict
    def known(self):
        out = {}
        p = os.path.join(HERE, 'known_findings.txt')
        for line in open(p) if os.path.exists(p) else ():
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=<id> rule=<rule> construct=<construct> :: description
                head, _, desc = line[len('finding:'):].partition('::')
                d = dict(x.split('=', 1) for x in head.split('|') if '=' in x)
                d = {k.strip(): v.strip() for k, v in d.items()}
                if d.get('property') == self.prop:
                    out[(d['rule'], d['construct'])] = desc.strip()
        return out

    def main(self, mod):
        self.floor = getattr(mod, 'FLOOR', 1)
        try:
            mod.check(self)
        except AnalysisBroken as e:
            self.broken.append(str(e))
        known = self.known()
        viol, found = [], []
        for o in self.obs:
            if o[2] == 'violated':
                (found if (o[0], o[1]) in known else viol).append(o)
        n = len(self.obs)
        dis = sum(1 for o in self.obs if o[2] == 'discharged')
        und = [o for o in self.obs if o[2] == 'undecided']
        wall = time.time() - self.t0
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                  coverage=dict(explanation=EXPL, rules=getattr(mod, 'RULES', ''), obligations=n, discharged=dis,
                                violated=len(viol), known_findings=len(found), undecided=len(und),
                                undecided_list=[dict(rule=o[0], construct=o[1], why=o[3][:300]) for o in und[:60]],
                                functions_analysed=sorted(self.functions), n_functions=len(self.functions),
                                constructs=sorted({'%s: %s' % (o[0], o[1]) for o in self.obs})[:400],
                                sources_sha256=self.repo.digest.hexdigest(), counts=self.counts, floor=self.floor,
                                unmodelled_operations=self.unmodelled, broken=self.broken),
                  wall_s=round(wall, 3))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', self.prop + '.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s [%s] %d obligations: %d discharged, %d violated, %d known, %d undecided; %d functions; %.1f s' % (
            self.prop, self.tier, n, dis, len(viol), len(found), len(und), len(self.functions), wall))
        if '-v' in sys.argv:
            for o in und:
                print('  undecided %s | %s | %s' % (o[0], o[1], o[3][:600]))
        seen = set()
        for o in found:
            k = (o[0], o[1])
            if k not in seen:
                seen.add(k)
                print('KNOWN-FINDING: property=%s %s [%s] at %s: %s' % (self.prop, o[1], o[0], o[4], known[k]))
        if viol:
            rp = os.path.join(HERE, 'evidence', self.prop + '.replay.txt')
            with open(rp, 'w') as f:
                for o in viol:
                    f.write('rule: %s\nconstruct: %s\nat: %s\n%s\n\n' % (o[0], o[1], o[4], o[3]))
            for o in viol[:12]:
                print('  %s: rule "%s" violated by %s: %s' % (o[4], o[0], o[1], o[3][:500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.broken:
            print('ANALYSIS BROKEN: ' + '; '.join(self.broken))
            return 2
        if n < self.floor or dis + len(found) < max(1, n // 4):
            print('ANALYSIS BROKEN: only %d of %d obligations decided (floor %d)' % (dis + len(found), n, self.floor))
            for o in und[:20]:
                print('  undecided %s | %s | %s' % (o[0], o[1], o[3][:300]))
            return 2
        return 0


def arith(v):
    return isinstance(v, (Poly, Phi)) or isnum(v) or (isinstance(v, Term)) and v.ty in ('num', 'bool', None)


WEAK = {'dget', 'mcall', 'ext', 'itercol', 'hv', 'unkstore', 'last'}


def weak(v):
    """Operations carried symbolically without an interpretation."""
    if isinstance(v, (int, str, bool, float, type(None), Fraction)):
        return set()
    return {t.op if t.op not in ('ext', 'mcall') else '%s %s' % (t.op, t.args[0]) for t in atoms_of(v) if t.op in WEAK}


def unmodelled(v):
    out = set()
    for t in atoms_of(v) if not isinstance(v, (int, str, bool, float, type(None), Fraction)) else ():
        if t.op == 'unk':
            out.add(str(t.args[0]))
        elif t.op == 'ind' and t.args[0] == 'cmp':
            out.add('comparison')
    return out

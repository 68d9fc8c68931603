"""Driver of the checks: python3 sa/check.py <property id>

Loads the facts extracted from /repo's current source, runs the rules of the property, writes the evidence file and
prints VIOLATION / KNOWN-FINDING lines.  Exit 0: held; 1: violated; 2: the analysis itself broke."""
import importlib, json, multiprocessing, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts
from facts import Broken, VERIF
import engine

from related import ALSO

MODULES = ('ctx', 'stack', 'alloc', 'lock', 'task', 'manager', 'promise', 'future', 'asm', 'await', 'misc')
_JOB = {}


def _work(i):
    mk, fn, setup, throws = _JOB['jobs'][i]
    run = _JOB['run']
    last = None
    t0 = time.time()
    for ma in (None, 6, 3, 1):
        mon = mk()
        if ma is not None:
            if ma >= mon.merge_after:
                continue
            mon.merge_after = ma
        eng = engine.Engine(run.prog, mon)
        try:
            eng.run(fn, setup)
        except Broken as e:
            last = str(e)
            if 'state budget' not in last:
                return dict(broken=last)
            continue
        return dict(viol=list(mon.violations.values()), counts=mon.counts, data=getattr(mon, 'data', None), paths=eng.paths,
                    states=eng.nstates, inlined=sorted(eng.inlined), opaque=sorted(eng.opaque), merged=eng.merged, t=time.time() - t0)
    return dict(broken=last)


class Run:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self._progs = {}
        self.prog = None
        self.viol = {}
        self.obl = {}          # rule -> [n, n_ok]
        self.counts = {}
        self.fns = {}
        self.inlined = set()
        self.paths = 0
        self.states = 0
        self.samples = []
        self.assumptions = []
        self.rules = {}

    def load(self, config='default'):
        if config not in self._progs:
            self._progs[config] = facts.load(config)
        self.prog = self._progs[config]
        return self.prog

    # -- declare the rule text (goes to the evidence)
    def rule(self, rid, text):
        self.rules[rid] = text

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, rule, what, ok, loc='', msg='', path=None, fn=''):
        """one obligation: decided ok or violated"""
        o = self.obl.setdefault(rule, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            if len([s for s in self.samples if s['rule'] == rule]) < 2:
                self.samples.append(dict(rule=rule, instance=what, at=loc))
        else:
            self.violate(rule, what, loc, msg or what, path, fn)
        return ok

    def violate(self, rule, key, loc, msg, path=None, fn='', entry=''):
        k = (rule, str(key), loc)
        if k not in self.viol:
            self.viol[k] = dict(rule=rule, key=str(key), loc=loc, msg=msg, path=path or [], fn=fn, entry=entry)

    def need(self, what, n, minimum):
        """an anchor/instance count confirmed by hand; below it the analysis is broken"""
        self.counts[what] = n
        if n < minimum:
            raise Broken('%s: %d instances found, at least %d expected' % (what, n, minimum))

    def modular(self, mk, ids, ok_to_fail=lambda f: f.acc != 0):
        """explore every function of ids with the calls to the others cut off.  A function that does not hold the rule by
        itself is explored again with everything inlined; when it is an internal helper, its callers have to hold the rule with it inlined."""
        ids = [i for i in ids if i in self.prog.fns and self.prog.fns[i].blocks]
        inline, done, out = set(), {}, []
        todo = list(ids)
        callers = {}
        for i in ids:
            for nd in self.prog.fns[i].nodes.values() if isinstance(self.prog.fns[i].nodes, dict) else self.prog.fns[i].nodes:
                g = (nd.get('fn') or {}).get('id')
                if g in done or g in set(ids):
                    callers.setdefault(g, set()).add(i)
        while todo:
            jobs = []
            for i in todo:
                def m(i=i, inl=frozenset(inline)):
                    mon = mk()
                    mon.stop_ids = frozenset(ids) - inl - {i}
                    return mon
                jobs.append((m, self.prog.fns[i], None))
            bad = []
            for i, (viol, data) in zip(todo, self.explore(jobs, raw=True)):
                out.append(data)
                done[i] = viol
                if viol:
                    bad.append(i)
            todo = []
            for i in bad:
                f = self.prog.fns[i]
                if i not in inline and callers.get(i) and ok_to_fail(f):
                    inline.add(i)
                    done[i] = []
                    todo += [c for c in callers[i] if c != i]
                elif (i, 'full') not in done:
                    # what it calls may be what it relies on
                    def m(i=i):
                        return mk()
                    done[(i, 'full')] = True
                    (viol, data), = self.explore([(m, f, None)], raw=True)
                    out.append(data)
                    done[i] = viol
            todo = sorted(set(todo))
        for i in ids:
            for v in done.get(i, []):
                self.violate(v['rule'], v.get('key', v['msg']), v['loc'], v['msg'], v['path'], v.get('fn', self.prog.fns[i].q), v['entry'])
        return out

    def explore(self, jobs, par=True, raw=False):
        """jobs: list of (monitor factory, function, setup or None).  Returns the list of monitors' data in order."""
        jobs = [(j + (None,) * (4 - len(j))) for j in jobs]
        _JOB['jobs'] = jobs
        _JOB['run'] = self
        n = len(jobs)
        if par and n > 1:
            with multiprocessing.get_context('fork').Pool(min(8, n)) as po:
                res = po.map(_work, range(n), chunksize=1)
        else:
            res = [_work(i) for i in range(n)]
        out = []
        slow = sorted(((r.get('t', 0), j[1].q) for r, j in zip(res, jobs)), reverse=True)[:3]
        if os.environ.get('SA_TIME'):
            print('  slowest', slow)
        broken = [r['broken'] for r in res if 'broken' in r]
        for (mk, fn, _, _), r in zip(jobs, res):
            if 'broken' in r:
                continue
            for v in () if raw else r['viol']:
                self.violate(v['rule'], v.get('key', v['msg']), v['loc'], v['msg'], v['path'], v.get('fn', fn.q), v['entry'])
            for k, c in r['counts'].items():
                self.count(k, c)
            self.fns[fn.q + ' @' + fn.loc()] = self.fns.get(fn.q + ' @' + fn.loc(), 0) + r['paths']
            self.inlined |= set(r['inlined'])
            self.paths += r['paths']
            self.states += r['states']
            out.append((r['viol'], r['data']) if raw else r['data'])
        if broken:
            raise Broken(broken[0])
        return out


def known():
    p = VERIF + '/known_findings.txt'
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                r.append(json.loads(l))
    return r


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module('rules.' + m)
        except ModuleNotFoundError as e:
            if e.name == 'rules.' + m:
                continue
            raise
        reg.update(mod.PROPS)
    return reg


def also(run, reg, pid, tier):
    """the rules of neighbours that the statement of this property needs as well"""
    for other, rules, where, why in ALSO.get(pid, ()):
        r = Run(other, tier)
        try:
            reg[other](r)
        except Broken as e:
            # its own check says so; here only what it found counts
            print('note: rules of %s not decided: %s' % (other, e))
        except Exception:
            print('note: rules of %s not decided: %s' % (other, traceback.format_exc().strip().split('\n')[-1]))
        for v in r.viol.values():
            if re.match(rules, v['rule']) and re.search(where, v['loc'].split(':')[0]):
                run.violate(v['rule'], v['key'], v['loc'], v['msg'], v['path'], v['fn'], v['entry'])
        for k, t in r.rules.items():
            if re.match(rules, k):
                run.rules[k] = '%s (%s)' % (t, why)
        for k, o in r.obl.items():
            if re.match(rules, k):
                run.obl[k] = o
        run.count('paths explored for rules of ' + other, r.paths)
        for a in r.assumptions:
            run.assume(a)


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    reg = registry()
    if pid not in reg:
        print('no such property', pid)
        return 2
    run = Run(pid, tier)
    broken = None
    try:
        reg[pid](run)
    except Broken as e:
        broken = str(e)
    except Exception:
        print('\n'.join(traceback.format_exc().split('\n')[-8:]))
        print('ANALYSIS-BROKEN %s: internal error' % pid)
        return 2
    # monitors' violations count as failed obligations of their rule
    also(run, reg, pid, tier)
    if broken:
        if not run.viol:
            print('ANALYSIS-BROKEN %s: %s' % (pid, broken))
            return 2
        print('note: %s (reporting the violations found before)' % broken)
    kf = [k for k in known() if k.get('property') in (pid,) + tuple(a[0] for a in ALSO.get(pid, ())) and k.get('status') == 'known']
    new, hit = [], {}
    for v in run.viol.values():
        for k in kf:
            if k['rule'] == v['rule'] and k['function'] in (v['fn'], '*' ) and k.get('detail', '') in (v['msg'] + ' ' + v['key']):
                hit.setdefault(json.dumps(k), []).append(v)
                break
        else:
            new.append(v)
    nob = sum(o[0] for o in run.obl.values())
    nok = sum(o[1] for o in run.obl.values())
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=run.assumptions,
              coverage=dict(
                  explanation='Static analysis of the type-checked program (clang CFGs of /repo\'s current source, driver '
                  'instantiations of its templates): every path of the listed entry functions is abstractly interpreted with '
                  'the repository\'s helpers inlined, and the listed rules are decided on the resulting events. Nothing is executed.',
                  rules=run.rules, rule_obligations={k: dict(checked=o[0], held=o[1]) for k, o in run.obl.items()},
                  obligations=nob, discharged=nok, counts=run.counts,
                  translation_units=len(run.prog.tus) if run.prog else 0,
                  functions_extracted=len(run.prog.fns) if run.prog else 0,
                  entry_functions=len(run.fns), functions_inlined=len(run.inlined), paths=run.paths, abstract_states=run.states,
                  entries=dict(sorted(run.fns.items())[:60]), samples=run.samples[:20]))
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, json.loads(k)['what']))
    print('%s: %d functions, %d entries, %d paths, %d obligations, %d rules; %d violations' % (
        pid, len(run.prog.fns) if run.prog else 0, len(run.fns), run.paths, nob, len(run.rules), len(new)))
    if not new:
        return 0
    new.sort(key=lambda v: (len(v['path']), v['loc']))
    rp = VERIF + '/evidence/replay/%s.txt' % pid
    with open(rp, 'w') as f:
        for v in new:
            f.write('property %s rule %s\n  at %s in %s\n  %s\n' % (pid, v['rule'], v['loc'], v['fn'], v['msg']))
            if v.get('entry'):
                f.write('  entry %s\n' % v['entry'])
            for p in v['path']:
                f.write('    %s\n' % p)
            f.write('\n')
    for v in new[:10]:
        print('  [%s] %s in %s: %s' % (v['rule'], v['loc'], v['fn'], v['msg']))
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))

"""Explores the harnesses of one property and reports.

exit 0: every check of every harness discharged on every path within the bounds
exit 1: a counterexample was replayed against the real code (VIOLATION line)
exit 3: no verdict (budget, solver unknown, code outside the encoded subset)
"""
import sys, os, json, time, tempfile, shutil, subprocess, traceback, multiprocessing as mp, importlib, resource
from fractions import Fraction
from . import core, harness as H, build, funcs
from .core import z3, Engine, PathAbort, Budget, EngineError, zreal, frac

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = build.PY

TREE = None          # set in workers


# ---------------------------------------------------------------- models ----
def num(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    raise ValueError(x)


def dump(x):
    return float(x) if isinstance(x, Fraction) else x


def request(job, eng, m):
    return dict(property=job['property'], harness=job['harness'], params=job['params'],
                inputs={n: dump(num(m, v)) for n, k, v in eng.inputs},
                rands=[[k, dump(num(m, v))] for k, v in eng.rands])


def replay(reqs, tree=None, timeout=300):
    d = tempfile.mkdtemp(prefix='symx-rq-')
    try:
        a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        json.dump(reqs, open(a, 'w'))
        p = subprocess.run([PY, '-m', 'symx.replay', tree or wait_tree(), a, b], cwd=ROOT, env=build.env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if not os.path.exists(b):
            return [dict(failed=[], exception='ReplayCrash', message='exit %s ' % p.returncode + p.stdout[:1500], aborted=False, tags=[], checked=0, crash=p.returncode) for r in reqs]
        return json.load(open(b))
    except subprocess.TimeoutExpired:
        return [dict(failed=[], exception='ReplayTimeout', message='', aborted=False, tags=[], checked=0) for r in reqs]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def checked_tree():
    """the same tree with run-time bounds checks, built only when a counterexample leaves an array"""
    import fcntl
    f = TREEFILE + '.checked'
    with open(f + '.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(f):
            t = build.make_tree(True)
            with open(f, 'w') as o: o.write(t)
        return open(f).read()


TREEFILE = None
def wait_tree():
    for _ in range(6000):
        if os.path.exists(TREEFILE):
            t = open(TREEFILE).read()
            if t.startswith('ERR'):
                raise EngineError(t)
            return t
        time.sleep(0.1)
    raise EngineError('native build did not finish')


def nicer(eng, extra, m, limit=4.0):
    """prefer short dyadic input values, one variable at a time"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 400)
    for c in eng.pc: s.add(c)
    for c in extra: s.add(c)
    cur = m
    for n, k, v in eng.inputs + [(None, 'f' if not z3.is_int(v) else 'i', v) for kd, v in eng.rands]:
        if k != 'f':
            continue
        if time.time() - t0 > limit:
            break
        x = num(cur, v)
        done = False
        for den in (1, 2, 8, 64, 1024, 2**20):
            c = Fraction(round(x * den), den)
            s.push()
            s.add(v == zreal(c))
            r = z3.sat if c == x else s.check()
            if r == z3.sat:
                if c != x:
                    cur = s.model()
                done = True
                break
            s.pop()
            if time.time() - t0 > limit:
                break
        if not done:
            s.push()
    r = s.check()
    return s.model() if r == z3.sat else cur


REAL_FN = None
def real_fn(name):
    import math
    base = {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'log2': math.log2, 'sin': math.sin, 'cos': math.cos, 'arctan2': math.atan2,
            'arccos': math.acos, 'arcsin': math.asin, 'tanh': math.tanh, 'pow': math.pow, 'erf': math.erf}
    if name in base: return base[name]
    import scipy.special as sp
    return getattr(sp, name, None)


def uf_lemmas(eng, m):
    out = []
    for name, zs, r in eng.ufs:
        f = real_fn(name)
        if f is None: continue
        try:
            a = [num(m, z) for z in zs]
            y = frac(float(f(*[float(x) for x in a])))
            if isinstance(y, float): continue
            got = num(m, r)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        eps = abs(y) * Fraction(1, 10**9) + Fraction(1, 10**15)
        if abs(got - y) > eps:
            out.append(z3.Implies(z3.And(*[z == zreal(x) for z, x in zip(zs, a)]), z3.And(r >= zreal(y - eps), r <= zreal(y + eps))))
    return out


class Confirmed(BaseException):
    def __init__(self, rec): self.rec = rec


class Reporter:
    def __init__(self, job, eng):
        self.job, self.eng = job, eng
        self.replays = 0
        self.problems = []
        self.known = {}
        self.done_labels = set()

    def __call__(self, c):
        if c['kind'] == 'unknown':
            self.problems.append('solver gave no answer for "%s"' % c['label'])
            return
        label = c['label']
        key = (label, tuple(c['tags']))
        if key in self.done_labels:
            return
        if self.replays >= 30:
            self.problems.append('unreplayed counterexample for "%s"' % label)
            return
        eng = self.eng
        neg = [c['neg']] if c['neg'] is not None else []
        variants = [neg + [m] for m in (c.get('margin') or [])] + [neg]
        last = None
        for vi, extra in enumerate(variants):
            lem = []
            for rnd in range(4):
                r, m = eng._check(*(extra + lem)) if (extra or lem or c['model'] is None) else (z3.sat, c['model'])
                if r != z3.sat and vi == len(variants) - 1 and rnd == 0 and c['model'] is not None:
                    r, m = z3.sat, c['model']
                if r != z3.sat:
                    break
                m2 = nicer(eng, extra + lem, m)
                req = request(self.job, eng, m2)
                req['label'] = label
                self.replays += 1
                eng.stats['replays'] = eng.stats.get('replays', 0) + 1
                oob = label == 'exception: OutOfBounds'
                if oob: req['checked_build'] = True
                res = replay([req], checked_tree() if oob else None)[0]
                last = res
                hit = ([f for f in res['failed']] if not label.startswith('exception') else []) or ([['exception: ' + res['exception'], res.get('message', ''), res['tags']]] if res['exception'] and label.startswith('exception') else [])
                if hit:
                    pref = [f for f in hit if f[0] == label] or hit
                    req['result'] = dict(label=pref[0][0], detail=pref[0][1], tags=pref[0][2], traceback=res.get('traceback'))
                    tags = [t for t in pref[0][2] if t in KNOWN.get(self.job['property'], {})]
                    self.done_labels.add(key)
                    if tags:
                        self.known.setdefault(tags[0], []).append(pref[0][0])
                        return
                    raise Confirmed(req)
                new = uf_lemmas(eng, m2) + (uf_lemmas(eng, m) if m2 is not m else [])
                if not new:
                    break
                lem += new
        if os.environ.get("SYMX_SHOW"): sys.stderr.write(json.dumps(req)[:3000] + "\n")
        self.problems.append('counterexample for "%s" in %s%s did not reproduce: %s' % (label, self.job['harness'], self.job['params'], json.dumps({k: v for k, v in (last or {}).items() if k != 'obs'})[:700]))
        self.done_labels.add(key)


KNOWN = {}


def load_known():
    p = os.path.join(ROOT, 'known_findings.txt')
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'):
                continue
            # property=<id> tag=<tag> <text>
            parts = dict(x.split('=', 1) for x in l.split()[:2])
            out.setdefault(parts['property'], {})[parts['tag']] = l.split(None, 2)[2]
    return out


# --------------------------------------------------------------- exploring --
def explore(job, prefixes, slice_s, opts):
    """explore the subtree of the given decision prefixes for up to slice_s seconds"""
    resource.setrlimit(resource.RLIMIT_AS, (opts.get('mem_gb', 6) << 30,) * 2)
    fn = H.find(job['property'], job['harness'])
    eng = Engine(query_timeout_ms=job['params'].get('_timeout_ms', opts['query_timeout_ms']))
    eng.worklist = [list(map(tuple, p)) for p in prefixes]
    rep = Reporter(job, eng)
    out = dict(job=job['id'], problems=[], violation=None, witnesses=[], loaded=[], labels={}, sat_ends=0, samples=[])
    params = {k: v for k, v in job['params'].items() if not k.startswith('_')}
    t0 = time.time()
    npath = 0
    try:
        while eng.worklist and (time.time() - t0 < slice_s or npath == 0):
            prefix = eng.worklist.pop()
            eng.begin_path(prefix)
            npath += 1
            env = H.SymEnv(eng, rep)
            ended = False
            try:
                fn(env, **params)
                ended = True
            except PathAbort:
                eng.stats['aborted'] += 1
            except EngineError as e:
                r, m = eng.path_model()
                if r != z3.unsat:
                    out['problems'].append('outside the encoded subset: %s' % e + (('\n' + traceback.format_exc()[-1200:]) if opts.get('debug') else ''))
            except z3.Z3Exception as e:
                out['problems'].append('solver error: %s' % e + traceback.format_exc()[-1500:])
            except MemoryError:
                out['problems'].append('out of memory')
                break
            except Exception as e:
                r, m = eng.path_model()
                if r != z3.unsat:
                    tb = traceback.format_exc()
                    if opts.get('debug'): sys.stderr.write(tb)
                    rep(dict(kind='candidate', label='exception: ' + type(e).__name__, neg=None, margin=None,
                             model=m if r == z3.sat else None, tags=list(env.tags), tb=tb))
                    if rep.problems and 'tb' not in rep.problems[-1]:
                        rep.problems[-1] += '\n tb ' + tb[-900:]
            out['loaded'] = sorted(set(out['loaded']) | (env._world.loaded if env._world else set()))
            for l, n in env.labels.items():
                out['labels'][l] = out['labels'].get(l, 0) + n
            if ended:
                eng.stats['paths_ended'] += 1
                r, m = eng.path_model()
                if r == z3.unsat:
                    continue
                if r == z3.sat and env.nchecks:
                    out['sat_ends'] += 1
                    if len(out['witnesses']) < opts['nwit']:
                        try:
                            w = request(job, eng, m)
                            w['obs'] = [(n, ev_obs(m, v)) for n, v in env.obs]
                            out['witnesses'].append(w)
                        except (ValueError, OverflowError, AttributeError, TypeError):
                            pass
    except Confirmed as c:
        out['violation'] = c.rec
    out['problems'] += rep.problems
    out['known'] = rep.known
    out['rest'] = eng.worklist
    out['stats'] = eng.stats
    return out


def ev_obs(m, v):
    import numpy as np
    vals = list(core._np.asarray(v, dtype=object).reshape(-1)) if isinstance(v, core._np.ndarray) else [v]
    res = []
    for x in vals:
        if isinstance(x, core.R):
            res.append(x.p if core.is_special(x.p) else float(num(m, zreal(x.p)) if not x.concrete else x.p))
        elif isinstance(x, (core.I, core.B)):
            res.append(float(num(m, x.e)))
        else:
            res.append(float(x))
    return res


def _worker(args):
    job, prefixes, slice_s, opts = args
    try:
        return explore(job, prefixes, slice_s, opts)
    except BaseException as e:
        return dict(job=job['id'], problems=['worker: ' + traceback.format_exc()[-1500:]], violation=None, witnesses=[], loaded=[], labels={}, sat_ends=0,
                    known={}, rest=[], stats={})


def main(argv):
    global TREEFILE, KNOWN
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--budget', type=float)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--no-validate', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    prop = a.prop
    budget = a.budget or (780 if a.tier == 'quick' else 3 * 3600)
    KNOWN = load_known()
    sys.path.insert(0, ROOT)
    hm = importlib.import_module('harness.' + prop.lower())
    jobs = []
    for name, fn, quick, thorough in H.REGISTRY[prop]:
        if a.only and a.only not in name:
            continue
        for i, p in enumerate(quick if a.tier == 'quick' else thorough):
            jobs.append(dict(id=len(jobs), property=prop, harness=name, params=p))
    opts = dict(query_timeout_ms=30000 if a.tier == 'quick' else 120000, nwit=2 if a.tier == 'quick' else 4, debug=a.debug)
    tmp = tempfile.mkdtemp(prefix='symx-')
    TREEFILE = os.path.join(tmp, 'tree')
    bp = os.fork()
    if bp == 0:
        try:
            t = build.make_tree()
        except BaseException as e:
            t = 'ERR ' + str(e)
        with open(TREEFILE + '.tmp', 'w') as f: f.write(t)
        os.rename(TREEFILE + '.tmp', TREEFILE)
        os._exit(0)
    ctx = mp.get_context('fork')
    stats, per = {}, {}
    problems, violation, witnesses, loaded, known = [], None, [], set(), {}
    pend = []
    pool = ctx.Pool(a.j, maxtasksperchild=20)
    tree = None
    try:
        slice_s = 4 if a.tier == 'quick' else 15
        queue = [(j, [[]]) for j in jobs]
        for j in jobs:
            per[j['id']] = dict(paths=0, sat_ends=0, checks=0, labels={}, wall=0)
        while queue or pend:
            while queue and len(pend) < a.j * 2:
                j, pre = queue.pop(0)
                pend.append((j, pool.apply_async(_worker, ((j, pre, slice_s, opts),))))
            still = []
            for j, r in pend:
                if not r.ready():
                    still.append((j, r)); continue
                o = r.get()
                for k, v in o['stats'].items():
                    stats[k] = stats.get(k, 0) + v
                pj = per[j['id']]
                pj['paths'] += o['stats'].get('paths', 0); pj['sat_ends'] += o['sat_ends']; pj['checks'] += o['stats'].get('checks', 0)
                pj['wall'] += o['stats'].get('solver_s', 0)
                for l, n in o['labels'].items(): pj['labels'][l] = pj['labels'].get(l, 0) + n
                loaded |= set(o['loaded'])
                if len([w for w in witnesses if w['harness'] == j['harness']]) < 12:
                    witnesses += o['witnesses']
                for p in o['problems']:
                    problems.append('%s%s: %s' % (j['harness'], j['params'], p))
                for t, ls in o['known'].items():
                    known.setdefault(t, set()).update(ls)
                if o['violation']:
                    violation = o['violation']
                rest = o['rest']
                if rest:
                    n = min(len(rest), a.j)
                    chunks = [rest[i::n] for i in range(n)]
                    for c in chunks: queue.append((j, c))
            pend = still
            if violation or time.time() - t0 > budget or len(problems) > 20:
                break
            time.sleep(0.02)
        if (queue or pend) and not violation and len(problems) <= 20:
            problems.append('time budget of %d s exhausted with %d pieces unexplored: %s' % (budget, len(queue) + len(pend), sorted(set(j['harness'] + str(j['params']) for j, _ in queue + pend))[:5]))
    finally:
        pool.terminate()
        pool.join()
    for j in jobs:
        pj = per[j['id']]
        if not violation and not pj['sat_ends'] and not any(j['harness'] in p for p in problems) and not known:
            problems.append('%s%s: vacuous, no satisfiable path reaches a check' % (j['harness'], j['params']))
    # encoding validation: witnesses of the explored paths on the real code
    val = dict(run=0, agree=0, diverged=0, failed=0, detail=[])
    os.waitpid(bp, 0)
    try:
        tree = wait_tree()
        if witnesses and not violation and not a.no_validate:
            res = []
            parts = [witnesses[i::4] for i in range(4) if witnesses[i::4]]
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as ex:
                for wl, rl in zip(parts, ex.map(lambda p: replay(p, tree), parts)):
                    res += list(zip(wl, rl))
            for w, r in res:
                val['run'] += 1
                ok = not r['exception'] and not r['failed'] and not r['aborted'] and same_obs(w['obs'], r.get('obs', []))
                if ok:
                    val['agree'] += 1
                else:
                    val['diverged'] += 1
                    if len(val['detail']) < 30:
                        val['detail'].append(dict(harness=w['harness'], params=w['params'], failed=r['failed'][:2], exception=r['exception'],
                                                  message=r.get('message'), aborted=r['aborted'], tb=r.get('traceback') if a.debug else None,
                                                  obs=[(x, y) for x, y in zip(w['obs'], r.get('obs', [])) if not same_obs([x], [y])][:2]))
    except EngineError as e:
        if violation is None:
            problems.append(str(e)[:2000])
    finally:
        if tree: shutil.rmtree(tree, ignore_errors=True)
        if os.path.exists(TREEFILE + '.checked'): shutil.rmtree(open(TREEFILE + '.checked').read(), ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    npaths = stats.get('paths', 0)
    if not npaths:
        problems.append('no path explored')
    if not a.only:
        assumptions = list(COMMON_ASSUMPTIONS) + list(getattr(hm, 'ASSUMPTIONS', []))
        ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1')),
                  level='model_checking',
                  coverage=dict(
                      explanation='states: symbolic paths explored (each covers every value satisfying its path condition); transitions: symbolic branch decisions',
                      states=npaths, transitions=stats.get('decisions', 0), traces_validated_against_impl=val['agree'],
                      samples=[{k: w[k] for k in ('harness', 'params', 'inputs', 'rands')} for w in witnesses[:3]],
                      encoded_sources=sorted(loaded), functions_encoded=getattr(hm, 'FUNCTIONS', []),
                      bounds=getattr(hm, 'BOUNDS', []),
                      harnesses=[dict(harness=j['harness'], bound=j['params'], paths=per[j['id']]['paths'], satisfiable_ends=per[j['id']]['sat_ends'],
                                      checks=per[j['id']]['labels']) for j in jobs],
                      queries=stats.get('queries', 0), checks=stats.get('checks', 0), checks_discharged_by_solver=stats.get('discharged', 0),
                      checks_true_by_construction=stats.get('trivially_true', 0), solver_s=round(stats.get('solver_s', 0), 2),
                      paths=npaths, encoding_validation=val, replays=stats.get('replays', 0), known_findings=sorted(known), paths_cut_at_draw_limit=stats.get('cut', 0)),
                  wall_s=round(wall, 2), violations=1 if violation else 0, assumptions=assumptions)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s tier=%s paths=%d checks=%d solver-discharged=%d queries=%d solver_s=%.1f wall=%.1f validated=%d/%d' % (
        prop, a.tier, npaths, stats.get('checks', 0), stats.get('discharged', 0), stats.get('queries', 0), stats.get('solver_s', 0), wall, val['agree'], val['run']))
    if a.debug:
        for d in val['detail']: print('  diverged', json.dumps(d, default=str)[:1500])
        for j in jobs: print('  ', j['harness'], j['params'], 'paths', per[j['id']]['paths'], 'ends', per[j['id']]['sat_ends'], 'solver %.1f' % per[j['id']]['wall'])
    for t in sorted(known):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, KNOWN[prop][t], '; '.join(sorted(known[t]))[:200]))
    if violation:
        rd = os.path.join(ROOT, 'replays')
        os.makedirs(rd, exist_ok=True)
        f = os.path.join(rd, '%s-%s.json' % (prop, violation['harness']))
        json.dump(violation, open(f, 'w'), indent=1)
        print('counterexample: %s%s check "%s" %s' % (violation['harness'], violation['params'], violation['result']['label'], violation['result']['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    if problems:
        for p in problems[:20]:
            print('INCONCLUSIVE', p)
        return 3
    return 0


def same_obs(a, b):
    if len(a) != len(b): return False
    for (n, x), (n2, y) in zip(a, b):
        if n != n2 or isinstance(y, str) or len(x) != len(y): return False
        for u, v in zip(x, y):
            if u != u and v != v: continue
            if u == v: continue
            if not abs(u - v) <= 1e-6 * (abs(u) + abs(v)) + 1e-9: return False
    return True


COMMON_ASSUMPTIONS = [
    'Arithmetic of the executed code is exact real arithmetic: float literals are read as their shortest decimal, rounding, overflow and underflow are outside the claim.',
    'numpy, scipy and random draws are replaced by symbolic stand-ins: every draw is an arbitrary value of the range the call documents.',
    'Transcendental functions are uninterpreted up to congruence, sign, range and monotonicity facts (sin^2+cos^2=1).',
    'Fortran kernels are encoded from gcc GIMPLE of the current source (integers unbounded), Cython kernels from their .pyx source.',
    'Nothing beyond the listed bounds (array lengths, grid sizes, counts) is claimed.']


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

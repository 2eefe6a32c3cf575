"""Runner:  python -m vt.run C01 [--tier quick|thorough] [--replay FILE]"""
import os
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
import sys
sys.dont_write_bytecode = True
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if os.path.isdir(_VT) and _VT not in sys.path:
    sys.path.append(_VT)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import signal
import time
import traceback
import warnings
import zlib
warnings.simplefilter('ignore')

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class TimeUp(BaseException):
    pass


def _alarm(sig, frm):
    raise TimeUp()


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load(prop):
    from . import ctx
    ctx.HARNESSES.clear()
    importlib.import_module('vt.props.%s' % prop)
    return [h for h in ctx.HARNESSES if h.prop == prop]


def cfg_key(cfg):
    return json.dumps(cfg, sort_keys=True, default=str)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def run_symbolic(h, cfg, seconds):
    """-> dict with obligations, discharged, undischarged list, paths, time"""
    from . import npx, stats, dim, ctx
    res = {'obl': 0, 'ok': 0, 'bad': [], 'refuted': [], 'models': [], 'paths': 0, 'reason': None, 'time': 0.0, 'used': {}, 'backend': getattr(h, 'backend', 'normal form')}
    t0 = time.time()
    z0, zt0 = stats.Z3_CALLS, stats.Z3_TIME
    scalar = h.engine == 'scalar'
    if scalar:
        from . import sc
        npx = sc
        sc.DECIDED.clear()
        sc.LAST.clear()
    rel_ = h.engine == 'relational'
    if rel_:
        from . import rel
        npx = rel
    npx.USED.clear()
    dim.Path.limit = 400 if scalar else 40
    npx.install()
    try:
        with limit(seconds), quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            holder = {}

            def one():
                c = (ctx.ScCtx if scalar else ctx.RelCtx if rel_ else ctx.SymCtx)(cfg)
                c.mode = h.mode
                holder['c'] = c
                h.fn(c, **cfg)
                return c
            for p, (kind, val) in dim.explore(one, h.paths):
                c = holder['c']
                res['paths'] += 1
                new_bad = kind == 'exc'
                for label, ok, msg in c.obl:
                    res['obl'] += 1
                    if ok:
                        res['ok'] += 1
                    elif ok is None:
                        res['bad'].append((label, msg))
                    else:
                        res['bad'].append((label, msg))
                        res['refuted'].append((label, msg))
                        new_bad = True
                if kind == 'exc':
                    if isinstance(val, dim.Unsupported):
                        res['bad'].append(('unsupported', str(val)))
                        res['obl'] += 1
                    elif isinstance(val, ctx.SkipCase):
                        pass
                    elif h.mode == 'frame':
                        # an exception is no breach of a frame condition (other properties
                        # state that there is none); the frames before it are still checked
                        new_bad = False
                        res['cut'] = res.get('cut', 0) + 1
                    else:
                        tb = traceback.extract_tb(val.__traceback__)
                        loc = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
                        res['bad'].append(('no exception', '%s: %s at %s' % (type(val).__name__, val, ' <- '.join(loc[::-1]))))
                        res['obl'] += 1
                if rel_:
                    if rel.entails(rel.z().BoolVal(False), 500):
                        res['dead'] = res.get('dead', 0) + 1
                    continue
                if new_bad and len(res['models']) < 6:
                    if scalar:
                        dim.Path.cur = p
                        m = sc.model_floats(c.obl)
                        if m and m not in res['models']:
                            res['models'].append(m)
                        continue
                    m = dim.size_model(p)
                    if m and max(m.values(), default=0) <= 300 and m not in res['models']:
                        res['models'].append(m)
    except TimeUp:
        res['reason'] = 'time limit %gs' % seconds
        res['bad'].append(('timeout', res['reason']))
        res['obl'] += 1
    except dim.Unsupported as e:
        res['bad'].append(('unsupported', str(e)))
        res['obl'] += 1
    except Exception as e:
        res['bad'].append(('engine error', '%s: %s' % (type(e).__name__, e)))
        res['obl'] += 1
    finally:
        npx.uninstall()
        dim.Path.cur = None
    res['used'] = dict(npx.USED)
    res['time'] = time.time() - t0
    res['z3'] = (stats.Z3_CALLS - z0, stats.Z3_TIME - zt0)
    if res.get('dead') and res['dead'] == res['paths']:
        res['bad'].append(('vacuous', 'the assumptions of every path are inconsistent'))
        res['obl'] += 1
    if res['obl'] == 0:
        res['bad'].append(('vacuous', 'no obligation was generated'))
        res['obl'] = 1
    return res


def case_seed(seed, h, cfg, k):
    return [int(seed), zlib.crc32(('%s|%s' % (h.name, cfg_key(cfg))).encode()), k]


def run_concrete(h, cfg, seed, n, seconds, first=0, force=None):
    """-> dict(cases, checks, failure or None)"""
    from . import ctx, history
    import numpy as np
    out = {'cases': 0, 'checks': 0, 'skipped': 0, 'fail': None, 'sample': None, 'hang': 0, 'distinct': 0}
    keys = set()
    t0 = time.time()
    for k in range(first, first + (0 if h.engine == 'relational' else n)):
        if time.time() - t0 > seconds:
            break
        s = case_seed(seed, h, cfg, k)
        p0 = time.process_time()
        c = ctx.ConCtx(cfg, s, h.tol)
        c.force = force or {}
        st0 = repr(c.rng.bit_generator.state)
        c.mode = h.mode
        np.random.seed(zlib.crc32(repr(s).encode()) & 0xffffffff)
        g0 = np.random.get_state()[2]
        try:
            if k % 2 and h.mode != 'frame':
                history.install()
            with limit(max(45.0, seconds)), quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                h.fn(c, **cfg)
            out['cases'] += 1
            out['checks'] += len(c.obl)
            if c.obl:
                # distinct: other draws than the cases before (a case that draws nothing counts once)
                keys.add((repr(sorted(c.drawn.items())), k if repr(c.rng.bit_generator.state) != st0 or np.random.get_state()[2] != g0 else -1))
                out['distinct'] = len(keys)
            if out['sample'] is None:
                out['sample'] = {'harness': h.name, 'config': cfg, 'case': k, 'drawn': c.drawn, 'postconditions': [o[0] for o in c.obl][:6]}
        except ctx.SkipCase:
            out['skipped'] += 1
        except TimeUp:
            out['hang'] += 1
            if h.mode != 'frame' and time.process_time() - p0 > 30:
                out['fail'] = {'harness': h.name, 'config': cfg, 'seed': seed, 'case': k, 'force': force, 'obligation': 'terminates (after %s)' % (', '.join([t for t in (getattr(c, '_stage', None), c.obl[-1][0] if c.obl else None) if t]) or 'start'), 'message': 'no result after %.0f s of processor time' % (time.process_time() - p0), 'drawn': c.drawn}
            break
        except ctx.Failure as e:
            out['cases'] += 1
            if h.mode == 'frame' and not c.obl[-1][0].startswith('frame:'):
                out['checks'] += len(c.obl)
                continue
            out['fail'] = {'harness': h.name, 'config': cfg, 'seed': seed, 'case': k, 'force': force, 'obligation': c.obl[-1][0] if c.obl else '', 'message': str(e)[:2000], 'drawn': c.drawn}
            break
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            out['cases'] += 1
            if h.mode == 'frame':
                out['checks'] += len(c.obl)
                continue
            out['fail'] = {'harness': h.name, 'config': cfg, 'seed': seed, 'case': k, 'force': force, 'obligation': 'no exception on a valid input (after %s)' % ', '.join([t for t in (getattr(c, '_stage', None), c.obl[-1][0] if c.obl else None) if t] or ['start']), 'message': '%s: %s' % (type(e).__name__, e), 'traceback': traceback.format_exc()[-3000:], 'drawn': c.drawn}
            break
        finally:
            history.uninstall()
    out['time'] = time.time() - t0
    return out


def task(args):
    prop, hi, ci, tier, seed = args
    h = TASK_H[hi]
    cfg = h.configs[ci]
    r = {'h': hi, 'c': ci, 'sym': None}
    if tier != 'thorough' and time.time() > DEADLINE[0]:
        r['con'] = {'cases': 0, 'checks': 0, 'skipped': 0, 'fail': None, 'sample': None, 'hang': 0, 'late': 1}
        return r
    thorough = tier == 'thorough'
    if h.symbolic:
        r['sym'] = run_symbolic(h, cfg, 240 if thorough else 60)
    n = h.concrete * (10 if thorough else 1)
    if HUNG is not None and HUNG[hi] > 1:
        # two cases of this harness did not terminate: reported, not tried again
        r['con'] = {'cases': 0, 'checks': 0, 'skipped': 0, 'fail': None, 'sample': None, 'hang': 0, 'late': 1}
        return r
    if r['sym'] is not None and r['sym']['bad']:
        n = max(n * 3, 20)
    r['con'] = run_concrete(h, cfg, seed, n, 240 if thorough else 45)
    if r['con']['hang'] and HUNG is not None:
        HUNG[hi] += 1
    if r['sym'] is not None and r['sym']['bad'] and not r['con']['fail']:
        # replay at sizes satisfying the path condition of the failed obligation
        for m in r['sym']['models']:
            x = run_concrete(h, cfg, seed, 3, 30, force=m)
            for k in ('cases', 'checks', 'hang', 'distinct'):
                r['con'][k] += x[k]
            if x['fail']:
                r['con']['fail'] = x['fail']
                break
    return r


TASK_H = []
HUNG = None
DEADLINE = [1e18]


# lemmas over the contracts, proved independently of the code
LEMMAS = {'C05': ['lean/Projections.lean']}


def lemmas_start(prop):
    import shutil
    import subprocess
    out = []
    for f in LEMMAS.get(prop, []):
        p = None
        if shutil.which('lean'):
            try:
                p = subprocess.Popen(['nice', 'lean', os.path.join(ROOT, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            except OSError:
                p = None
        out.append((f, p, time.time()))
    return out


def lemmas_end(ps):
    res = []
    for f, p, t0 in ps:
        r = {'file': f, 'checker': 'Lean 4 with Mathlib', 'accepted': False}
        if p is None:
            r['output'] = 'lean is not available'
        else:
            try:
                o = p.communicate(timeout=max(1.0, 240 - (time.time() - t0)))[0]
                r['accepted'] = p.returncode == 0 and 'error' not in o and 'sorryAx' not in o
                r['output'] = [x for x in o.splitlines() if 'axioms' in x or 'error' in x][:10]
            except Exception as e:
                p.kill()
                r['output'] = repr(e)
        res.append(r)
    return res


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


def is_known(prop, fail, known):
    for k in known['findings']:
        if k['property'] == prop and k['harness'] == fail['harness'] and ('obligation' not in k or k['obligation'] in fail['obligation']) and ('message' not in k or k['message'] in fail['message']) and all(fail['config'].get(a) == b for a, b in k.get('config', {}).items()):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    import tensap
    src = os.path.realpath(tensap.__file__)
    hs = load(prop)
    if a.only:
        hs = [h for h in hs if a.only in h.name]
    if a.replay:
        f = json.load(open(a.replay))
        h = [h for h in hs if h.name == f['harness']][0]
        r = run_concrete(h, f['config'], f['seed'], 1, 600, first=f['case'], force=f.get('force'))
        print(json.dumps(r['fail'], indent=1, default=str))
        return 1 if r['fail'] else 0
    import glob
    for f in glob.glob(os.path.join(ROOT, 'replays', prop + '-*.json')):
        os.remove(f)
    TASK_H.extend(hs)
    tasks = [(prop, i, j, a.tier, a.seed) for i, h in enumerate(hs) for j in range(len(h.configs))]
    lp = lemmas_start(prop)
    mpc = mp.get_context('fork')
    global HUNG
    HUNG = mpc.Array('i', len(hs))
    DEADLINE[0] = t0 + 700
    results = []
    with mpc.Pool(a.jobs, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(task, tasks, chunksize=1):
            results.append(r)
            if os.environ.get('VERIF_FAILFAST') and (r['con']['fail'] or r['sym'] and r['sym']['refuted']):
                break
    lem = lemmas_end(lp)
    results.sort(key=lambda r: (r['h'], r['c']))
    known = load_known()
    obl = ok = paths = z3c = 0
    R = 'integer arrays of all sizes and contents (first order formulas, loop invariants, z3)'
    eng = {'all sizes and entries (einsum normal form)': [0, 0], R: [0, 0], 'all reals at the sizes of the configuration (polynomial normal form, z3)': [0, 0]}
    z3t = st = 0.0
    cases = checks = distinct = 0
    und = []
    nofail = []
    fails = []
    used = {}
    samples = []
    contracts = set()
    fixed = set()
    vacuous = []
    bounded = set()
    hangs = late = 0
    for r in results:
        h = hs[r['h']]
        cfg = h.configs[r['c']]
        s = r['sym']
        if s is not None:
            obl += s['obl']
            ok += s['ok']
            e = eng[R] if h.engine == 'relational' else eng['all reals at the sizes of the configuration (polynomial normal form, z3)' if h.engine == 'scalar' else 'all sizes and entries (einsum normal form)']
            e[0] += s['obl']
            e[1] += s['ok']
            paths += s['paths']
            z3c += s['z3'][0]
            z3t += s['z3'][1]
            st += s['time']
            for k, v in s['used'].items():
                used[k] = used.get(k, 0) + v
            if s['bad']:
                und.append({'harness': h.name, 'config': cfg, 'undischarged': s['bad'][:4]})
                bounded.update(h.functions)
            else:
                (fixed if h.engine == 'scalar' else contracts).update(h.functions)
                if not s['obl']:
                    vacuous.append('%s %s' % (h.name, cfg_key(cfg)))
        else:
            bounded.update(h.functions)
        c = r['con']
        cases += c['cases']
        checks += c['checks']
        distinct += c.get('distinct', 0)
        hangs += c['hang']
        late += c.get('late', 0)
        if c['sample'] and len(samples) < 6 and (not samples or samples[-1]['harness'] != h.name):
            samples.append(c['sample'])
        if c['fail']:
            fails.append(c['fail'])
        elif s is not None and s['refuted']:
            nofail.append({'harness': h.name, 'config': cfg, 'obligation': s['refuted'][0][0], 'message': s['refuted'][0][1]})
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    viol = []
    for f in fails:
        k = is_known(prop, f, known)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else:
            viol.append(f)
    rc = 0
    if viol:
        rc = 1
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        seen = {}
        shown = []
        for f in viol:
            k = (f['harness'], f['obligation'], f['message'][:40])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                shown.append(f)
        for i, f in enumerate(shown[:60]):
            rp = os.path.join(ROOT, 'replays', '%s-%d.json' % (prop, i))
            u = [x for x in und if x['harness'] == f['harness'] and x['config'] == f['config']]
            f = dict(f, property=prop, source=src, undischarged=u, rerun='cd /verif && ./check %s --replay %s' % (prop, rp))
            json.dump(f, open(rp, 'w'), indent=1, default=str)
            print('  %s %s: obligation "%s" fails: %s' % (f['harness'], cfg_key(f['config']), f['obligation'], f['message'][:300]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
    nf = [f for f in nofail if not is_known(prop, f, known)]
    if nf and not viol:
        # the verifier refutes an obligation and no failing input was found
        rc = 1
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, f in enumerate(nf[:10]):
            rp = os.path.join(ROOT, 'replays', '%s-nf%d.json' % (prop, i))
            json.dump(dict(f, property=prop, source=src, verifier='normal forms of the two sides of the obligation differ', rerun='cd /verif && ./check %s -v --only %s' % (prop, f['harness'])), open(rp, 'w'), indent=1, default=str)
            print('  %s %s: obligation "%s" not discharged: %s' % (f['harness'], cfg_key(f['config']), f['obligation'], f['message'][:300]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        viol = nf
    if a.v:
        for u in und:
            print('UNDISCHARGED', u['harness'], cfg_key(u['config']), u['undischarged'][:2])
    if cases == 0 and not ok and not viol:
        print('ERROR: no case was executed')
        return 2
    level = 'proof' if obl and ok == obl else 'other'
    cov = {
        'obligations': obl, 'discharged': ok,
        'checker_cmd': './check %s --tier %s' % (prop, a.tier),
        'trusted_base': ['lemma %s, not checked on this run' % x['file'] for x in lem if not x['accepted']] + ['CPython 3.12 executing the real tensap functions', 'vt/sym.py normal form of einsum expressions', 'vt/sc.py normal form of polynomials and rational functions in the entries', 'vt/dim.py size arithmetic and path exploration', 'vt/rel.py first order encoding of integer arrays and the loop rule', 'z3 (size comparisons, scalar conditions)'] + ['assumed contract of %s (%d uses)' % (k, v) for k, v in sorted(used.items())],
        'back_end': {**{k: '%d of %d obligations' % (v[1], v[0]) for k, v in eng.items()}, 'z3_queries': z3c, 'z3_time_s': round(z3t, 2), 'symbolic_time_s': round(st, 2)},
        'paths': paths,
        'functions_under_contract': sorted(contracts - bounded),
        'functions_under_contract_at_fixed_sizes': sorted(fixed - contracts),
        'configurations_without_obligation': vacuous[:40],
        'functions_under_contract_and_bounded': sorted(contracts & bounded),
        'functions_bounded_only': sorted(bounded - contracts - fixed),
        'undischarged': und[:40],
        'bounded_standin': {'postconditions_checked': checks, 'sizes': 'random sizes (1..4 with 1 favoured unless the harness says otherwise), integer or real entries, all listed configurations'},
        'evaluations': cases, 'distinct_nontrivial': distinct,
        'rule': 'each case is one (harness, configuration, seed) with freshly drawn sizes and entries; cases whose preconditions do not hold are not counted; distinct and non-trivial: at least one postcondition was evaluated, and of the cases of a configuration that draw nothing only one counts',
        'lemmas': lem,
        'samples': samples,
        'explanation': 'back_end splits the obligations: those discharged by the einsum normal form hold for all sizes, ranks and entries at the orders and trees of the configurations; those on integer arrays hold for all sizes and contents (loops by invariant; an undischarged one is reported and the bounded stand-in decides); those of the scalar engine hold for all values of the entries (all orders between them: every comparison of entries forks) at the sizes of the configurations, which are a bound; evaluations counts the bounded stand-in, never counted as proved',
        'source': src, 'hangs': hangs, 'configurations_not_reached_in_time': late,
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': level_of(prop), 'coverage': cov,
          'assumptions': ['entries are exact reals (rounding is not modelled)', 'numpy and scipy functions satisfy the assumed contracts listed in trusted_base', 'orders, trees and subsets of dimensions are those of the listed configurations'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', '%s.json' % prop), 'w'), indent=1, default=str)
    print('%s: obligations %d discharged %d (undischarged harness configs %d), bounded cases %d (%d postconditions), %.1fs -> %s' % (prop, obl, ok, len(und), cases, checks, time.time() - t0, 'VIOLATION' if viol else 'ok'))
    return rc


def level_of(prop):
    try:
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except Exception:
        pass
    return 'other'


if __name__ == '__main__':
    sys.exit(main())

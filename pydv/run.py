"""python -m pydv.run P01 [--replay FILE] [--only NAME] [-v]"""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYDV_REPO', '/repo')
Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if Z3PATH not in sys.path:
    sys.path.append(Z3PATH)
sys.setrecursionlimit(20000)

MAXPATHS = 400
TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
SYM_LIMIT = 420 if TIER == 'quick' else 1500


class TimeLimit(Exception):
    pass


def _alarm(*a):
    raise TimeLimit()


def run_symbolic(c, verbose=False):
    from . import smt, interp, npmodel, models, worlds, loopinv
    from .interp import Interp, Unsupported, PyRaise, MergeFail
    from .terms import EngineError, FALSE
    t0 = time.time()
    res = dict(obligations=[], functions=set(), assumed=set(), paths=0, unsupported=None, vacuous=0)
    decisions = []
    before = dict(smt.STATS)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SYM_LIMIT)
    try:
        while True:
            it = Interp(decisions)
            models.install(it)
            w = worlds.SymWorld(it)
            pathno = res['paths']
            try:
                try:
                    c.fn(w)
                    w.finish()
                    # vacuity: the assumptions of the path are consistent
                    ok, how = smt.satisfiable(it.pc, it.facts)
                    if not ok:
                        res['vacuous'] += 1
                        it.obligations = [o for o in it.obligations if not o[1]] and it.obligations or it.obligations
                except PyRaise as e:
                    ok, how = smt.prove(FALSE, it.pc, it.facts)
                    if ok:
                        res['vacuous'] += 1
                    it.obligations.append(('no exception escapes (%s%s)' % (e.exc.name, [a for a in e.exc.args if isinstance(a, str)]), ok, 'path infeasible: ' + how if ok else
                                           'exception %s raised at %s\nunder: %r' % (e.exc.name, getattr(e, 'where', '?'), it.pc), 'goal'))
                except loopinv.PathEnd:
                    pass
                except (MergeFail, interp.Brk, interp.Cont) as e:
                    raise Unsupported(str(e) or type(e).__name__)
            finally:
                res['functions'] |= it.functions
                res['assumed'] |= it.assumed
                inv = [o for o in it.obligations if o[3] == 'inv' and not o[1]]
                if inv:
                    if verbose:
                        print('INVARIANT', inv[0][0], inv[0][2][:1500])
                    # the obligations after the loop rest on the claim: without it none of them says anything
                    it.obligations = [o for o in it.obligations if o[1]]
                    res['obligations'] = [o for o in res['obligations'] if o[2]]
                    raise Unsupported('loop invariant not established: %s' % inv[0][0])
                for (name, ok, how, kind) in it.obligations:
                    res['obligations'].append((name, pathno, bool(ok), how, kind))
            res['paths'] += 1
            # next path
            taken = it.taken
            while taken and not taken[-1]:
                taken.pop()
            if not taken:
                break
            if time.time() - t0 > 60 and sum(1 for o in res['obligations'] if not o[2]) >= 3:
                break               # refuted: the remaining paths do not change the verdict
            decisions = taken[:-1] + [False]
            if res['paths'] >= MAXPATHS:
                raise Unsupported('more than %d paths' % MAXPATHS)
    except (EngineError,) as e:
        res['unsupported'] = '%s: %s' % (type(e).__name__, e)
        if verbose:
            print(''.join(traceback.format_exc().splitlines(True)[-7:]))
            print('at', it.stack, getattr(it, 'line', None))
    except TimeLimit:
        res['unsupported'] = 'time limit of the symbolic execution'
    except RecursionError:
        res['unsupported'] = 'recursion limit of the symbolic execution'
    except Exception as e:      # an engine bug must never be reported as a violation
        res['unsupported'] = 'engine: %s: %s' % (type(e).__name__, e)
        if verbose:
            print(''.join(traceback.format_exc().splitlines(True)[-7:]))
    finally:
        signal.alarm(0)
    res['stats'] = {k: smt.STATS[k] - before.get(k, 0) for k in smt.STATS}
    res['wall'] = time.time() - t0
    return res


def run_concrete(c, trials, seconds, seed=0, only=None, verbose=False):
    import numpy as np
    from . import worlds
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    out = dict(trials=0, skipped=0, fail=None, checks=0, sample=None, distinct=0)
    t0 = time.time()
    seen = set()
    i = -1
    while True:
        i += 1
        if only is not None:
            i = only
        if only is None and (out['trials'] >= trials or i > trials * 20 or time.time() - t0 > seconds):
            break
        rng = np.random.RandomState((seed * 1000003 + i * 7919 + 17) % (1 << 31))
        np.random.seed((seed + i) % (1 << 31))
        w = worlds.ConcWorld(rng)
        devnull = open(os.devnull, 'w')
        so = sys.stdout
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(60)
            if not verbose:
                sys.stdout = devnull
            c.fn(w)
            w.finish()
            out['trials'] += 1
            out['checks'] += w.nchk
            k = repr([(n, getattr(v, 'tobytes', lambda: v)()) for n, v in w.vals.items()])
            seen.add(hash(k))
            if out['sample'] is None or out['trials'] == 5:
                out['sample'] = {n: repr(v)[:160] for n, v in w.vals.items()}
        except worlds.Skip:
            out['skipped'] += 1
        except worlds.ConcFail as e:
            out['fail'] = (i, e.name, str(e.detail), dict(w.vals), '')
        except TimeLimit:
            out['fail'] = (i, 'terminates', 'no result within 60 s', dict(w.vals), '')
        except Exception as e:
            out['fail'] = (i, 'no exception escapes', '%s: %s' % (type(e).__name__, e), dict(w.vals), traceback.format_exc())
        finally:
            signal.alarm(0)
            sys.stdout = so
            devnull.close()
            w.restore()
        if out['fail'] or only is not None:
            break
    out['distinct'] = len(seen)
    out['wall'] = time.time() - t0
    return out


TYPED = tuple('no exception escapes (' + x for x in ('TypeError', 'AttributeError', "ValueError['unpack']", 'NameError', 'UnboundLocalError'))


def job(args):
    pid, idx, verbose = args
    from . import worlds
    c = worlds.CONTRACTS[pid][idx]
    try:
        mult = 1 if TIER == 'quick' else 10
        sym = run_symbolic(c, verbose) if not c.bounded else None
        conc = run_concrete(c, c.trials * mult, c.seconds * mult, SEED)
        failed = sym is not None and (any(not o[2] for o in sym['obligations']))
        if sym is not None and (failed or sym['unsupported']) and not conc['fail']:
            # search harder for a failing input
            more = run_concrete(c, c.trials * 20, 40 * mult, SEED + 1)
            if more['fail']:
                more['seed'] = SEED + 1
            more['trials'] += conc['trials']
            more['checks'] += conc['checks']
            more['sample'] = conc['sample']
            conc = more
        conc.setdefault('seed', SEED)
        if failed and not conc['fail']:
            # an error of types on a path does not depend on the data: if the code made it, the runs above would show it.  Then a
            # library model knows fewer argument forms than the library
            typed = [o for o in sym['obligations'] if not o[2] and o[0].startswith(TYPED)]
            if typed and len(typed) == sum(1 for o in sym['obligations'] if not o[2]):
                sym['unsupported'] = sym['unsupported'] or typed[0][0] + ' in the model of a library function only'
                sym['obligations'] = [o for o in sym['obligations'] if o[2]]
        r = dict(name=c.name, sym=sym, conc=conc)
        pickle.dumps(r)
        return r
    except Exception as e:
        return dict(name=c.name, error=traceback.format_exc())


def load_contracts(pid):
    import glob
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '%s*.py' % pid.lower()))):
        importlib.import_module('contracts.' + os.path.basename(f)[:-3])


def git_state():
    import hashlib
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(os.path.join(REPO, 'quantificationlib'))):
        for f in sorted(files):
            if f.endswith('.py'):
                h.update(open(os.path.join(root, f), 'rb').read())
    return h.hexdigest()[:16]


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(argv):
    t0 = time.time()
    pid = argv[0]
    verbose = '-v' in argv or '-vv' in argv
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    load_contracts(pid)
    from . import worlds, models, npmodel, smt      # noqa: load before forking
    import numpy, sklearn.base                       # noqa
    cs = worlds.CONTRACTS.get(pid, [])
    if not cs:
        print('no contracts for', pid)
        return 2
    import glob
    so = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    for f in sorted(glob.glob(os.path.join(REPO, 'quantificationlib', '**', '*.py'), recursive=True)):
        m = os.path.relpath(f, REPO)[:-3].replace(os.sep, '.')
        if m.endswith('__init__') or 'cvxpy_installed' in m:
            continue
        try:
            importlib.import_module(m)
        except Exception as e:
            print('cannot import %s: %s' % (m, e), file=so)
    sys.stdout = so
    if '--replay' in argv:
        rp = json.load(open(argv[argv.index('--replay') + 1]))
        c = [c for c in cs if c.name == rp['contract']][0]
        if rp.get('trial') is None:
            r = run_symbolic(c, True)
            bad = [o for o in r['obligations'] if not o[2]]
            for o in bad:
                print('FAILED OBLIGATION', o[0], '\n', o[3])
            return 1 if bad else 0
        r = run_concrete(c, 1, 60, rp['seed'], only=rp['trial'], verbose=True)
        print(r['fail'])
        return 1 if r['fail'] else 0
    jobs = [(pid, i, verbose) for i, c in enumerate(cs) if only is None or only in c.name]
    jobs.sort(key=lambda j: cs[j[1]].bounded is not None)
    if len(jobs) == 1 or '-1' in argv:
        results = [job(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(job, jobs, chunksize=1)
    status, nviol = 0, 0
    tot = disc = sdisc = 0
    fns, assumed, per = set(), set(), []
    stats = {}
    kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    bounded = []
    for r in results:
        if 'error' in r:
            print('ERROR in the checker, contract %s:\n%s' % (r['name'], r['error']))
            status = max(status, 2)
            continue
        sym, conc = r['sym'], r['conc']
        c = [c for c in cs if c.name == r['name']][0]
        viol = None
        if sym is not None:
            obs = sym['obligations']
            fns |= {f for f in sym['functions'] if f.startswith('quantificationlib')}
            assumed |= sym['assumed']
            for k, v in sym['stats'].items():
                stats[k] = stats.get(k, 0) + v
            bad = [o for o in obs if not o[2]]
            if sym['unsupported']:
                bounded.append('%s: outside of the verifier\'s subset (%s); decided by the bounded run-time check of the same contract: %d generated inputs'
                               % (r['name'], sym['unsupported'], conc['trials']))
            if not sym['unsupported'] and c.scope:
                sdisc += len(obs) - len(bad)
                bounded.append('%s: obligations generated and discharged for %s only (%d of %d)' % (r['name'], c.scope, len(obs) - len(bad), len(obs)))
            elif not sym['unsupported']:
                tot += len(obs)
                disc += len(obs) - len(bad)
            if not obs and not sym['unsupported']:
                print('ERROR: contract %s generated no obligations' % r['name'])
                status = max(status, 2)
            if bad and not conc['fail']:
                viol = ('obligation', bad)
        else:
            bounded.append('%s: %s (%d generated inputs)' % (r['name'], c.bounded, conc['trials']))
        if conc['fail']:
            viol = ('input', conc['fail'])
        if conc['trials'] == 0 and not conc['fail']:
            print('ERROR: contract %s: no concrete trial satisfied the preconditions' % r['name'])
            status = max(status, 2)
        per.append(dict(contract=r['name'], level='bounded' if (sym is None or sym['unsupported'] or c.scope) else 'proved',
                        obligations=len(sym['obligations']) if sym else 0,
                        discharged=sum(1 for o in sym['obligations'] if o[2]) if sym else 0,
                        paths=sym['paths'] if sym else 0, vacuous_paths=sym['vacuous'] if sym else 0,
                        wall_s=round((sym['wall'] if sym else 0), 2), concrete_trials=conc['trials'], concrete_checks=conc['checks']))
        if verbose and sym:
            for o in sym['obligations']:
                if not o[2] or '-vv' in argv:
                    print('   ', 'ok  ' if o[2] else 'FAIL', o[1], o[0], '' if o[2] else '\n' + o[3][:700])
        if verbose or sym is None or sym['unsupported'] or viol:
            print('%-40s %s' % (r['name'], per[-1]), (sym or {}).get('unsupported') or '')
        if viol:
            sig = viol[1][1] if viol[0] == 'input' else viol[1][0][0]
            hit = [k for k in kf if k['contract'] == r['name'] and k['obligation'] == sig]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
                continue
            rp = write_replay(pid, r, viol, conc)
            nviol += 1
            status = max(status, 1)
            if viol[0] == 'input':
                print('%s: %s: %s' % (r['name'], viol[1][1], viol[1][2][:300]))
                if viol[1][4]:
                    print(viol[1][4][-1500:])
                print('VIOLATION property=%s replay=%s' % (pid, rp))
            else:
                o = viol[1][0]
                print('%s: obligation not discharged: %s\n%s' % (r['name'], o[0], o[3][:500]))
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    if only is None:
        write_evidence(pid, cs, per, tot, disc, fns, assumed, stats, bounded, nviol, results, t0, sdisc)
    print('%s: %d contracts, %d/%d obligations discharged (and %d within stated bounds), %d violations, %d bounded, %.1f s' % (pid, len(results), disc, tot, sdisc, nviol, len(bounded), time.time() - t0))
    if nviol:
        status = 1
    return status


def write_replay(pid, r, viol, conc):
    p = os.path.join(VERIF, 'evidence', 'replay-%s-%s.json' % (pid, ''.join(ch if ch.isalnum() else '_' for ch in r['name'])))
    d = dict(property=pid, contract=r['name'], command='cd /verif && ./check %s --replay %s' % (pid, p))
    if viol[0] == 'input':
        i, name, detail, vals, tb = viol[1]
        d.update(trial=i, seed=conc['seed'], failed=name, detail=detail, traceback=tb, inputs={k: repr(v) for k, v in vals.items()})
    bad = [o for o in (r['sym'] or {}).get('obligations', []) if not o[2]]
    d['failed_obligations'] = [dict(name=o[0], path=o[1], verifier_output=o[3][:6000]) for o in bad[:10]]
    json.dump(d, open(p, 'w'), indent=1)
    return p


TRUSTED = ['the symbolic executor and normaliser in /verif/pydv (Python semantics of the executed subset, closed-form loop summaries)',
           'z3 (ground lemma instances)',
           'machine floating point treated as exact real arithmetic; machine integers unbounded']


def write_evidence(pid, cs, per, tot, disc, fns, assumed, stats, bounded, nviol, results, t0, sdisc=0):
    ok = [r for r in results if 'error' not in r]
    trials = sum(r['conc']['trials'] for r in ok)
    proved = [p for p in per if p['level'] == 'proved']
    cov = dict(obligations=tot, discharged=disc, checker_cmd='cd /verif && ./check %s' % pid,
               trusted_base=TRUSTED + ['assumed contract of ' + a for a in sorted(assumed) if not a.startswith('builtins.')],
               functions_under_contract=sorted(fns), contracts=per, contracts_proved=len(proved),
               contracts_bounded=bounded, obligations_discharged_within_bounds=sdisc, backends=dict(normal_form=stats.get('nf', 0), z3_goals=stats.get('smt', 0), z3_calls=stats.get('z3_calls', 0)),
               solver_time_s=round(stats.get('z3_time', 0.0), 2), lemma_instances=stats.get('lemmas', 0),
               concrete_evaluations=trials, concrete_distinct=sum(r['conc']['distinct'] for r in ok),
               samples=[dict(contract=r['name'], inputs=r['conc']['sample']) for r in ok][:3],
               source_digest=git_state())
    level = 'proof' if tot else 'exploration'
    if level == 'exploration':
        cov.update(evaluations=trials, distinct_nontrivial=cov['concrete_distinct'], rule='inputs generated from the preconditions of each contract; distinct by contents')
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
              assumptions=TRUSTED + getattr(cs[0], 'assumptions', []) + bounded, wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

"""Exploration driver: multi-process path exploration, replay of counterexamples, evidence."""
import sys
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)
import os, time, json, random, signal, traceback, subprocess, importlib, warnings, logging, gc
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))


class PathTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise PathTimeout()


class Task(object):
    """one harness + configuration"""

    def __init__(self, name, fn, cfg=None, weight=1.0, must=(), **opts):
        self.name, self.fn, self.cfg, self.opts = name, fn, cfg or {}, opts
        self.weight = weight
        self.must = must            # obligation keys that must be reached (vacuity guard)


_W = {}


def quiet():
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    logging.disable(logging.NOTSET)


def worker_init(modname, symbolic):
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    quiet()
    from . import load
    _W['mods'] = load.load(symbolic)
    quiet()
    _W['chk'] = importlib.import_module(modname)
    _W['tasks'] = {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def get_task(name, tier):
    if not _W['tasks']:
        for t in _W['chk'].tasks(tier):
            _W['tasks'][t.name] = t
    return _W['tasks'][name]


def run_path(task, mods, prefix, timeout=30):
    from . import core, load
    from .harness import SymH
    o = dict(task.opts)
    norm_mode = o.pop('norm_mode', 'one')
    exact_qr = o.pop('exact_qr', False)      # square-root-free QR
    setup = o.pop('setup', None)
    timeout = o.pop('path_timeout', timeout)
    eng = core.Engine(prefix, **o)
    eng.norm_mode = norm_mode
    eng.exact_qr = exact_qr
    core.Engine.cur = eng
    load.reset(mods)
    H = SymH(eng, mods)
    status = 'ok'
    detail = None
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        getattr(_W['chk'], task.fn)(H, task.cfg)
    except core.PathInfeasible:
        status = 'infeasible'
    except core.PathCut as e:
        status = 'cut'
        detail = str(e)
    except core.PathDone:
        status = 'failed'
    except core.Unsupported as e:
        status = 'unsupported'
        detail = str(e) + where()
    except PathTimeout:
        status = 'timeout'
    except RecursionError as e:
        status = 'error'
        detail = 'recursion'
    except Exception as e:
        status = 'error'
        detail = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        core.Engine.cur = None
        load.reset(mods)
    return eng, status, detail


def where():
    tb = sys.exc_info()[2]
    last = None
    for f in traceback.extract_tb(tb):
        if '/dfols/' in f.filename:
            last = f
    return ' at %s:%s' % (os.path.basename(last.filename), last.lineno) if last else ''


def explore_chunk(args):
    tname, tier, prefixes, tlimit, seed, maxfail = args
    task = get_task(tname, tier)
    mods = _W['mods']
    rng = random.Random(seed)
    t0 = time.time()
    pend = list(prefixes)
    res = dict(task=tname, paths=0, status={}, stats={}, failures=[], keys={}, notes={}, details={}, inconclusive={},
               samples=[], float_sites={}, maxdepth=0)
    while pend and time.time() - t0 < tlimit:
        k = rng.randrange(len(pend)) if len(pend) > 1 and rng.random() < 0.5 else len(pend) - 1
        pend[k], pend[-1] = pend[-1], pend[k]
        pre = pend.pop()
        tp = time.time()
        if os.environ.get('VERIF_SLOW'):
            import faulthandler
            faulthandler.dump_traceback_later(float(os.environ['VERIF_SLOW']) + 10)
        eng, status, detail = run_path(task, mods, pre)
        if os.environ.get('VERIF_SLOW'):
            faulthandler.cancel_dump_traceback_later()
        if os.environ.get('VERIF_SLOW') and time.time() - tp > float(os.environ['VERIF_SLOW']):
            print('slow path %s %.1f %s' % (tname, time.time() - tp, status), flush=True)
        res['paths'] += 1
        res['status'][status] = res['status'].get(status, 0) + 1
        pend.extend(eng.pending)
        res['maxdepth'] = max(res['maxdepth'], len(eng.trace))
        for k2, v in eng.stats.items():
            res['stats'][k2] = res['stats'].get(k2, 0) + v
        for k2, v in eng.notes.items():
            if k2 == 'keys':
                for kk, vv in v.items():
                    res['keys'][kk] = res['keys'].get(kk, 0) + vv
            elif isinstance(v, (int, float)):
                res['notes'][k2] = res['notes'].get(k2, 0) + v
        for k2, v in eng.float_sites.items():
            res['float_sites'][k2] = res['float_sites'].get(k2, 0) + v
        for r in eng.inconclusive:
            res['inconclusive'][r] = res['inconclusive'].get(r, 0) + 1
        if detail:
            d = '%s: %s' % (status, detail)
            if d in res['details'] or len(res['details']) < 12:
                res['details'][d] = res['details'].get(d, 0) + 1
        if eng.failures:
            for key, msg, vals in eng.failures:
                if len(res['failures']) < maxfail:
                    cands = [vals]
                    st = 'relaxed'
                    if eng.monvars or any(a['kind'] == 'sqrt' for a in eng.atoms):
                        from . import core
                        core.Engine.cur = eng
                        try:
                            st, ex = eng.exact_values(getattr(eng, 'fail_extra', None))
                        except Exception:
                            st, ex = 'unknown', None
                        core.Engine.cur = None
                        if st == 'unsat':
                            res['status']['refined_spurious'] = res['status'].get('refined_spurious', 0) + 1
                            continue
                        if ex is not None:
                            cands.insert(0, ex)
                    res['failures'].append(dict(task=tname, key=key, msg=msg, values=cands, chooses=eng.chooses,
                                                prefix=[t[0] for t in eng.trace], refine=st))
        if not res['samples'] and status == 'ok' and rng.random() < 0.3:
            res['samples'].append(dict(task=tname, decisions=len(eng.trace), chooses=eng.chooses[:40],
                                       atoms=[a['name'] for a in eng.atoms if a['kind'] == 'in'][:20],
                                       obligations=sorted(eng.notes.get('keys', {}))))
    res['left'] = pend
    res['elapsed'] = time.time() - t0
    return res


def replay_one(args):
    """run the harness concretely on unpatched modules.  returns (status, key, msg)"""
    tname, tier, values, chooses = args
    from . import core, load
    from .harness import ReplayH, Violation
    task = get_task(tname, tier)
    mods = _W['mods']
    load.reset(mods)
    H = ReplayH(mods, values, chooses)
    signal.setitimer(signal.ITIMER_REAL, 30)
    try:
        getattr(_W['chk'], task.fn)(H, task.cfg)
        return ('no-violation', None, None)
    except Violation as v:
        return ('violation', v.key, v.msg)
    except core.EngineStop as e:
        return ('diverged', None, type(e).__name__ + ' ' + str(e))
    except PathTimeout:
        return ('timeout', None, None)
    except Exception as e:
        return ('error', None, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        load.reset(mods)


def load_known():
    """known-findings file: lines 'KNOWN property=<id> task=<prefix> key=<key> :: text' / 'fixed: ...' """
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                head, _, text = line.partition('::')
                d = dict(kv.split('=', 1) for kv in head.split()[1:])
                d['text'] = text.strip()
                out.append(d)
    return out


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def replay_path(prop):
    return os.path.join(VERIF, 'replays', '%s.json' % prop)


def confirm(prop, modname, tier, f):
    """write the replay file and confirm the counterexample in a fresh interpreter on the unmodified modules"""
    rp = replay_path(prop)
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    json.dump(dict(property=prop, module=modname, tier=tier, task=f['task'], key=f['rkey'], msg=f['rmsg'],
                   values=f['rvalues'], chooses=f['chooses']), open(rp, 'w'), indent=1, default=str)
    env = dict(os.environ)
    env['VERIF_TIER'] = tier
    r = subprocess.run([sys.executable, '-m', 'symdfo.replay', rp], cwd=VERIF, env=env, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def run_check(prop, modname, budget, level='other', functions=(), bounds='', assumptions=(), must_reach=True):
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    chk = importlib.import_module(modname)
    tasks = chk.tasks(tier)
    tb = budget[tier] if isinstance(budget, dict) else budget
    tb = float(os.environ.get('VERIF_BUDGET', tb))
    rng = random.Random(seed)
    ctx = mp.get_context('fork')
    pool = ctx.Pool(NPROC, worker_init, (modname, True))
    rpool = ctx.Pool(1, worker_init, (modname, False))
    agg = {t.name: dict(paths=0, status={}, stats={}, keys={}, notes={}, details={}, inconclusive={}, samples=[], left=1,
                        float_sites={}, maxdepth=0, spent=0.0) for t in tasks}
    pend = {t.name: [[]] for t in tasks}
    inflight = []
    known = [k for k in load_known() if k.get('property') == prop]
    cands = {}          # key -> list of failures to replay
    reproduced = []
    known_hit = {}
    unrepro = {}
    weights = {t.name: t.weight for t in tasks}
    stop = False
    rq = []             # replay queue
    rinflight = None
    nrep = {}
    seq = 0
    deaths = 0
    unconfirmed = []

    def pick():
        best = None
        for t in tasks:
            if pend[t.name]:
                s = agg[t.name]['spent'] / t.weight
                if best is None or s < best[0]:
                    best = (s, t.name)
        return best[1] if best else None

    while True:
        now = time.time()
        over = now - t0 > tb
        while not over and not stop and len(inflight) < NPROC + 2:
            n = pick()
            if n is None:
                break
            p = pend[n]
            k = max(1, min(len(p), max(1, len(p) // (NPROC))))
            rng.shuffle(p)
            chunk, pend[n] = p[:k], p[k:]
            tl = 0.25 if len(p) < NPROC and agg[n]['paths'] < 50 else 1.5
            agg[n]['spent'] += tl
            seq += 1
            inflight.append((n, tl, chunk, time.time(), pool.apply_async(explore_chunk, ((n, tier, chunk, tl, seed * 1000003 + seq, 4),))))
        progressed = False
        for it in list(inflight):
            n, tl, chunk, ts, r = it
            if r.ready():
                inflight.remove(it)
                progressed = True
                res = r.get()
                A = agg[n]
                A['paths'] += res['paths']
                A['spent'] += res['elapsed'] - tl
                A['maxdepth'] = max(A['maxdepth'], res['maxdepth'])
                for f in ('status', 'stats', 'keys', 'notes', 'details', 'inconclusive', 'float_sites'):
                    merge(A[f], res[f])
                if len(A['samples']) < 2:
                    A['samples'] += res['samples']
                pend[n].extend(res['left'])
                for f in res['failures']:
                    kk = (f['task'], f['key'])
                    if nrep.get(kk, 0) < 6:
                        nrep[kk] = nrep.get(kk, 0) + 1
                        rq.append(f)
            elif time.time() - ts > 200:
                inflight.remove(it)
                A = agg[n]
                merge(A['status'], {'lost': 1})
                deaths += 1
        # replay
        if rinflight is not None and rinflight[1].ready():
            f, r, ci = rinflight
            rinflight = None
            st, key, msg = r.get()
            progressed = True
            if st == 'violation':
                hit = None
                for kf in known:
                    if f['task'].startswith(kf.get('task', '')) and key == kf.get('key'):
                        hit = kf
                if hit is not None:
                    known_hit[(hit.get('task'), hit['key'])] = hit
                else:
                    f['rkey'], f['rmsg'], f['rvalues'] = key, msg, f['values'][ci]
                    rc, out = confirm(prop, modname, tier, f)
                    if rc == 1:
                        reproduced.append(f)
                        stop = True
                    else:
                        unconfirmed.append(out[-800:])
                        unrepro.setdefault((f['task'], f['key']), []).append(f)
            elif ci + 1 < len(f['values']):
                rinflight = (f, rpool.apply_async(replay_one, ((f['task'], tier, f['values'][ci + 1], f['chooses']),)), ci + 1)
            else:
                f['rstatus'] = (st, msg)
                unrepro.setdefault((f['task'], f['key']), []).append(f)
        if rinflight is None and rq and not stop:
            f = rq.pop(0)
            if (f['task'], f['key']) in [(x['task'], x['key']) for x in reproduced]:
                pass
            else:
                rinflight = (f, rpool.apply_async(replay_one, ((f['task'], tier, f['values'][0], f['chooses']),)), 0)
        if stop:
            break
        if not inflight and rinflight is None and not rq and (over or pick() is None):
            break
        if over and now - t0 > tb + 20:
            break
        if not progressed:
            time.sleep(0.004)
    pool.terminate()
    rpool.terminate()
    wall = time.time() - t0
    return finish(prop, modname, tier, seed, level, tasks, agg, pend, reproduced, known_hit, unrepro, wall, functions, bounds,
                  assumptions, tb, must_reach, unconfirmed=unconfirmed)


def finish(prop, modname, tier, seed, level, tasks, agg, pend, reproduced, known_hit, unrepro, wall, functions, bounds,
           assumptions, tb, must_reach, unconfirmed=None):
    tot = dict(paths=0, status={}, stats={}, keys={})
    per = {}
    samples = []
    problems = []
    for t in tasks:
        A = agg[t.name]
        tot['paths'] += A['paths']
        for f in ('status', 'stats', 'keys'):
            merge(tot[f], A[f])
        left = len(pend[t.name])
        per[t.name] = dict(paths=A['paths'], status=A['status'], exhausted=(left == 0), unexplored_prefixes=left,
                           obligations=A['keys'], queries=A['stats'].get('queries', 0),
                           solver_s=round(A['stats'].get('solver_s', 0.0), 3), max_decisions=A['maxdepth'],
                           inconclusive=dict(list(A['inconclusive'].items())[:8]), details=dict(list(A['details'].items())[:5]),
                           notes=A['notes'])
        samples += A['samples'][:1]
        good = A['status'].get('ok', 0) + A['status'].get('failed', 0) + A['status'].get('infeasible', 0) + A['status'].get('cut', 0)
        bad = A['paths'] - good
        missing = [k for k in t.must if not A['keys'].get(k)]
        if missing:
            problems.append('task %s never reached obligations %s' % (t.name, missing))
        if A['paths'] and bad > good:
            problems.append('task %s: %d of %d paths outside the supported fragment: %s' % (t.name, bad, A['paths'], list(A['details'])[:2]))
    ex = sum(1 for v in per.values() if v['exhausted'])
    st = tot['stats']
    cov = dict(
        explanation='Symbolic execution of the real dfols modules loaded from /repo at run time; obligations decided by z3 over all '
                    'values of the symbolic inputs on every explored path.',
        functions_encoded=list(functions), bounds=bounds, tasks=len(tasks), tasks_explored_exhaustively=ex,
        paths=tot['paths'], path_status=tot['status'], obligations=st.get('obligations', 0),
        obligations_discharged=st.get('discharged', 0), obligations_concretely_true=st.get('trivially', 0),
        queries=st.get('queries', 0), query_results=dict(sat=st.get('sat', 0), unsat=st.get('unsat', 0), unknown=st.get('unknown', 0)),
        solver_s=round(st.get('solver_s', 0.0), 2), obligation_keys=tot['keys'], per_task=per,
        samples=samples[:6], problems=problems,
        counterexamples_not_reproduced=[dict(task=k[0], key=k[1], n=len(v), status=v[0].get('rstatus'), msg=str(v[0]['msg'])[:300] + ' ... ' + str(v[0]['msg'])[-300:]) for k, v in unrepro.items()],
        budget_s=tb,
    )
    viol = 0
    code = 0
    for kf in known_hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['text']))
    if reproduced:
        f = reproduced[0]
        rp = replay_path(prop)
        print('%s: counterexample for obligation %s in task %s: %s' % (prop, f['rkey'], f['task'], f['rmsg']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        viol = 1
        code = 1
    for u in (unconfirmed or [])[:3]:
        print('INCONCLUSIVE: violation reproduced in worker but not in fresh interpreter: ' + u)
    if not reproduced and unrepro:
        for k, v in unrepro.items():
            print('INCONCLUSIVE: counterexample for %s in %s did not reproduce: %s %s' % (k[1], k[0], str(v[0]['msg'])[:200], v[0].get('rstatus')))
    if not reproduced and problems:
        for p in problems:
            print('INCONCLUSIVE: ' + p)
        # nothing (or next to nothing) was decided: no answer rather than a vacuous pass
        dead = sum(1 for t in tasks if not agg[t.name]['keys'])
        if must_reach and dead * 2 > len(tasks):
            code = max(code, 2)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=list(assumptions), wall_s=round(wall, 2),
              violations=viol)
    if level == 'model_checking':
        cov['states'] = tot['paths']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1, default=str)
    print('%s [%s]: %d tasks (%d exhaustive), %d paths %s, %d obligations (%d discharged), %d queries, solver %.1fs, wall %.1fs' %
          (prop, tier, len(tasks), ex, tot['paths'], tot['status'], st.get('obligations', 0), st.get('discharged', 0),
           st.get('queries', 0), st.get('solver_s', 0.0), wall))
    return code

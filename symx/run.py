"""Driver: explores every (harness, configuration) job of a property, replays
counterexamples on the plain code, writes evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import subprocess
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.environ.get('SYMX_REPO', '/repo'))
sys.path.insert(0, VERIF)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
PY = '/opt/venv/bin/python'


def load_property(pid):
    return importlib.import_module(f'props.{pid.lower()}')


# ----------------------------------------------------------------------------
# replay side (plain process)
# ----------------------------------------------------------------------------
def replay_one(mod, job, values, tier):
    from symx.ctx import ReplayCtx, AssumptionFailed
    h, cfg = find_job(mod, job, tier)
    ctx = ReplayCtx(cfg, values, tier)
    out = {'violations': [], 'exception': None, 'assume': False, 'observed': []}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import numpy as np
            with np.errstate(all='ignore'):
                h(ctx)
    except AssumptionFailed:
        out['assume'] = True
    except Exception as e:
        out['exception'] = f'{type(e).__name__}: {e}'
        out['traceback'] = traceback.format_exc()[-3000:]
    out['violations'] = ctx.violations
    out['observed'] = ctx.observed
    return out


def find_job(mod, name, tier):
    for t in ('quick', 'thorough'):
        for n, h, cfg in mod.jobs(t):
            if n == name:
                return h, cfg
    raise KeyError(name)


def replay_main(argv):
    """replay-batch FILE.json  (list of {prop, job, values}) -> results on stdout"""
    with open(argv[0]) as f:
        items = json.load(f)
    res = []
    for it in items:
        mod = load_property(it['prop'])
        try:
            res.append(replay_one(mod, it['job'], it['values'], it.get('tier', 'quick')))
        except BaseException as e:                      # noqa
            res.append({'violations': [], 'exception': f'HARNESS {type(e).__name__}: {e}',
                        'assume': False, 'observed': [], 'traceback': traceback.format_exc()[-2000:]})
    with open(argv[1], 'w') as f:
        json.dump(res, f, default=str)
    return 0


def replay_batch(items, timeout=300):
    import tempfile
    d = tempfile.mkdtemp(prefix='symx_replay_')
    a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    try:
        with open(a, 'w') as f:
            json.dump(items, f)
        env = dict(os.environ)
        p = subprocess.run([PY, os.path.join(HERE, 'run.py'), 'replay-batch', a, b],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           timeout=timeout)
        if not os.path.exists(b):
            raise RuntimeError('replay process failed: ' + p.stderr.decode()[-2000:])
        with open(b) as f:
            return json.load(f)
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)
        os.rmdir(d)


def failed(o):
    return bool(o['violations'] or (o['exception'] and not o['assume']))


def robust(pid, job, values, tier):
    """Does a failing replay survive a tiny change of the readings that are not short binary fractions?
    A failure that sits only on a rounding boundary (two quantities equal up to the last bits, compared
    once by the code and once by the reference) does not, and is no violation."""
    import random
    rough = [k for k, v in values.items() if isinstance(v, float) and v == v and (v * 1024) != int(v * 1024)
             ] if all(not isinstance(v, float) or abs(v) < 1e300 for v in values.values()) else []
    if not rough:
        return True
    rng = random.Random(7)
    items = []
    for _ in range(8):
        d = dict(values)
        for k in rough:
            d[k] = d[k] * (1 + rng.uniform(-1, 1) * 1e-6) + rng.uniform(-1, 1) * 1e-9
        items.append({'prop': pid, 'job': job, 'values': d, 'tier': tier})
    return any(failed(o) for o in replay_batch(items))


# ----------------------------------------------------------------------------
# symbolic side
# ----------------------------------------------------------------------------
class Sink:
    def __init__(self, engine, pid, job, tier):
        self.e = engine
        self.pid = pid
        self.job = job
        self.tier = tier
        self.candidates = []      # (values list alternatives, label)
        self.unsupported = []     # values for paths the symbolic layer could not finish
        self.labels = {}

    def obligation(self, ctx, t, far, label, near=None):
        import z3
        from symx import core
        e = self.e
        if z3.is_true(t):
            e.stats.trivial += 1
            return True
        s = z3.simplify(t, som=True) if not z3.is_false(t) else t
        r, m = e.feasible(z3.Not(s))
        if r == z3.unsat:
            e.stats.obligations += 1
            return True
        if r == z3.unknown:
            r, m = self.hard(z3.Not(s))
            if r == z3.unsat:
                e.stats.obligations += 1
                return True
            if r == z3.unknown:
                e.stats.unknown_obligations += 1
                e.note(f'undecided obligation: {label}')
                mm = e.ensure_model()
                if mm is not None:
                    self.unsupported.append(ctx.assignment(mm))
                return True
        if near is not None:
            # concrete sub-results were computed in floating point: equal up to rounding?
            nt = z3.Not(near())
            r2, _ = e.feasible(nt)
            if r2 == z3.unsat:
                e.stats.obligations += 1
                e.note('equal up to 1e-10 (rounding of concrete sub-results)')
                return True
        alts = []
        # nicer, clearly-violating models first
        neg = z3.Not(s)
        reals = [v for n, v in ctx.vars.items() if z3.is_real(v)]
        base = [far] if far is not None and not z3.is_false(far) else []
        for extra in ([base] if base else []) + [[]]:
            q = extra + [neg]
            grid = []
            for i, v in enumerate(reals):
                k = z3.Int(f'grid!{i}')
                grid.append(v * 8 == z3.ToReal(k))
            for g in (grid, []):
                if g and len(g) > 40:
                    continue
                e.touch(*q)
                e.solver.push()
                e.solver.set('timeout', 3000)
                try:
                    e.solver.add(*q, *g)
                    rr = e._timed_check()
                    if rr == z3.sat:
                        a = ctx.assignment(e.solver.model())
                        if a not in alts:
                            alts.append(a)
                finally:
                    e.solver.set('timeout', e.query_ms)
                    e.solver.pop()
        if m is not None:
            a = ctx.assignment(m)
            if a not in alts:
                alts.append(a)
        self.candidates.append({'label': label, 'alts': alts,
                                'pure': not e.path_concretised,
                                'tiny': bool(base) and len(alts) > 0 and not self._has_far(ctx, neg, base)})
        raise core.FoundViolation(label)

    def _has_far(self, ctx, neg, base):
        import z3
        r, _ = self.e.feasible(z3.And(neg, *base))
        return r != z3.unsat

    def hard(self, goal):
        """second opinion on obligations z3's default strategy leaves open"""
        import z3
        e = self.e
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Tactic(tac).solver() if tac != 'smt' else z3.SimpleSolver()
                s.set('timeout', e.query_ms)
                s.add(*e.pc)
                s.add(goal)
                t0 = time.time()
                r = s.check()
                e.stats.solver_s += time.time() - t0
                e.stats.queries += 1
                if r == z3.unsat:
                    e.stats.unsat += 1
                    return r, None
                if r == z3.sat:
                    e.stats.sat += 1
                    return r, s.model()
            except z3.Z3Exception:
                pass
        r = cvc5_check(e, e.pc + [goal])
        if r == 'unsat':
            e.stats.unsat += 1
            return z3.unsat, None
        return z3.unknown, None


def cvc5_check(e, formulas, timeout_ms=15000):
    import z3
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    s.add(*formulas)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(timeout_ms))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = 'unknown'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            o = str(o).strip()
            if 'error' in o:
                res = 'unknown'
                break
            if o in ('sat', 'unsat', 'unknown'):
                res = o
    except Exception:
        res = 'unknown'
    e.stats.solver_s += time.time() - t0
    e.stats.queries += 1
    return res


def explore(pid, job, harness, cfg, tier, budget_s, query_ms, validate):
    """runs in a forked worker; returns a result dict"""
    import z3
    from symx import core
    from symx.ctx import make_symctx
    SymCtx = make_symctx()
    e = core.Engine(query_ms=query_ms, deadline=time.time() + budget_s)
    e.sort_fork_max = cfg.get('sort_fork_max', 0) if isinstance(cfg, dict) else 0
    e.const_sqrt = bool(cfg.get('const_sqrt')) if isinstance(cfg, dict) else False
    core.Engine.current = e
    sink = Sink(e, pid, job, tier)
    funcs = FuncTrace()
    res = {'job': job, 'violation': None, 'spurious': [], 'incomplete': None, 'completed_paths': 0,
           'witness': None, 'unsupported': [], 'validated': 0, 'mismatch': [], 'max_path_checks': 0}
    val_items = []
    raised = []
    stop = False
    t0 = time.time()
    crashes = []
    while e.worklist and not stop:
        if e.stats.paths >= e.max_paths:
            res['incomplete'] = 'path bound'
            break
        prefix = e.worklist.pop()
        e.reset_path(prefix)
        ctx = SymCtx(e, cfg, tier, sink)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                import numpy as np
                with np.errstate(all='ignore'), funcs:
                    harness(ctx)
            m = e.ensure_model()
            e.stats.paths += 1
            if ctx.nchecks:
                res['completed_paths'] += 1
                res['max_path_checks'] = max(res['max_path_checks'], ctx.nchecks)
            if m is not None:
                a = ctx.assignment(m)
                if res['witness'] is None and ctx.nchecks:
                    res['witness'] = a
                if len(val_items) < validate and not e.path_concretised:
                    val_items.append((a, evaluate(ctx, m)))
                if e.path_concretised:
                    sink.unsupported.append(a)
                elif getattr(ctx, 'raised', False):
                    raised.append(a)
        except core.PathInfeasible:
            e.stats.infeasible += 1
        except core.FoundViolation:
            e.stats.paths += 1
            c = sink.candidates[-1]
            out = replay_batch([{'prop': pid, 'job': job, 'values': v, 'tier': tier} for v in c['alts']])
            hit = None
            tie = False
            for v, o in zip(c['alts'], out):
                if failed(o):
                    if not robust(pid, job, v, tier):
                        tie = True
                        continue
                    hit = (v, o)
                    break
            if hit:
                res['violation'] = {'values': hit[0], 'label': c['label'],
                                    'observed': hit[1]['violations'][:5] or [hit[1]['exception']],
                                    'traceback': hit[1].get('traceback')}
                stop = True
            elif tie:
                e.note('counterexample on a rounding boundary only')
                res['ties'] = res.get('ties', 0) + 1
                if res['ties'] >= 30:
                    res['incomplete'] = 'counterexamples on rounding boundaries'
                    stop = True
            else:
                res['spurious'].append({'label': c['label'], 'values': c['alts'][:1], 'pure': c['pure'],
                                        'tiny': c['tiny'],
                                        'replay': [o.get('exception') for o in out]})
                if len(res['spurious']) >= 5:
                    res['incomplete'] = 'counterexamples that do not reproduce'
                    stop = True
        except core.BudgetExceeded as ex:
            res['incomplete'] = str(ex)
            stop = True
        except core.Unsupported as ex:
            e.stats.paths += 1
            e.stats.unsupported += 1
            e.note(f'unsupported: {ex} @ {core_site()}')
            m = safe_model(e)
            if m is not None:
                sink.unsupported.append(ctx.assignment(m))
        except Exception as ex:
            e.stats.paths += 1
            crashes.append((f'{type(ex).__name__}: {str(ex)[:200]}', traceback.format_exc()[-1800:]))
            m = safe_model(e)
            if m is None:
                continue
            a = ctx.assignment(m)
            o = replay_batch([{'prop': pid, 'job': job, 'values': a, 'tier': tier}])[0]
            if (o['exception'] or o['violations']) and robust(pid, job, a, tier):
                res['violation'] = {'values': a, 'label': 'unexpected exception ' + crashes[-1][0],
                                    'observed': o['violations'][:5] or [o['exception']],
                                    'traceback': o.get('traceback')}
                stop = True
            else:
                e.stats.unsupported += 1
                e.note(f'unsupported (exception only under the symbolic layer): {crashes[-1][0]}')
                res.setdefault('crash_tb', crashes[-1][1])
                if e.stats.unsupported > 20:
                    res['incomplete'] = 'too many unsupported paths'
                    stop = True
    if e.worklist and not stop and not res['incomplete']:
        res['incomplete'] = 'worklist not empty'
    # paths whose symbolic result is partial: at least run their models for real
    # and an expected exception must come from the code, not from the symbolic layer
    if (sink.unsupported or raised) and res['violation'] is None:
        items = sink.unsupported[:40] + raised[::max(1, len(raised) // 40)]
        for v, o in zip(items, replay_batch([{'prop': pid, 'job': job, 'values': v, 'tier': tier}
                                             for v in items])):
            if failed(o) and robust(pid, job, v, tier):
                res['violation'] = {'values': v, 'label': 'model of an undecided path',
                                    'observed': o['violations'][:5] or [o['exception']],
                                    'traceback': o.get('traceback')}
                break
    res['val_items'] = val_items
    st = e.stats
    res.update(stats={k: getattr(st, k) for k in vars(st)}, notes=e.notes,
               functions=sorted(funcs.names), wall=time.time() - t0)
    return res


def safe_model(e):
    from symx import core
    try:
        return e.ensure_model()
    except core.Abort:
        return None


def core_site():
    import sys as _s
    tb = _s.exc_info()[2]
    site = ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/rdtools/' in fn:
            site = f'{os.path.basename(fn)}:{tb.tb_lineno}'
        tb = tb.tb_next
    return site


def evaluate(ctx, m):
    """values of the observed expressions under the model (paths are pure)"""
    import z3
    from symx import core
    out = []
    for label, v in ctx.observed:
        if isinstance(v, core.SymReal) and ctx.e.mentions_pending(v.num, v.den):
            v = None
        elif isinstance(v, core.SymBool) and ctx.e.mentions_pending(v.t):
            v = None
        elif isinstance(v, core.SymReal):
            try:
                v = float(ctx.e.value(m, v))
            except (ValueError, ZeroDivisionError):
                v = None
        elif isinstance(v, core.SymBool):
            v = bool(z3.is_true(m.eval(v.t, model_completion=True)))
        elif core.is_missing(v):
            v = float('nan')
        elif not isinstance(v, (bool, int, float)):
            try:
                v = float(v)
            except (TypeError, ValueError):
                v = None
        out.append((label, v))
    return out


def compare(ob, o):
    """symbolic vs plain observation lists"""
    bad = []
    if o['assume']:
        return []
    po = o['observed']
    if len(po) != len(ob):
        return [f'{len(ob)} symbolic vs {len(po)} plain observations']
    for (l1, a), (l2, b) in zip(ob, po):
        if a is None or b is None:
            continue
        if isinstance(a, str):
            continue
        a, b = float(a), float(b)
        if a != a and b != b:
            continue
        if a == b:
            continue
        if not abs(a - b) <= 1e-6 * max(1e-3, abs(a), abs(b)):
            bad.append(f'{l1}: symbolic {a} vs plain {b}')
    return bad


class FuncTrace:
    """names of rdtools functions executed symbolically (sys.monitoring)"""
    TOOL = 3

    def __init__(self):
        self.names = set()
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        if mon.get_tool(self.TOOL) is None:
            mon.use_tool_id(self.TOOL, 'symx')
        mon.register_callback(self.TOOL, mon.events.PY_START, self.cb)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def cb(self, code, off):
        fn = code.co_filename
        if '/rdtools/' in fn and '/site-packages/' not in fn:
            self.names.add(f'{os.path.basename(fn)}:{code.co_qualname}')
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        sys.monitoring.set_events(self.TOOL, 0)
        return False


def worker(conn, pid, job, harness, cfg, tier, budget, query_ms, validate):
    sys.stdout = open(os.devnull, 'w')      # the code under test prints
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        r = explore(pid, job, harness, cfg, tier, budget, query_ms, validate)
    except BaseException as e:          # noqa
        r = {'job': job, 'error': f'{type(e).__name__}: {e}', 'traceback': traceback.format_exc()[-3000:]}
    try:
        conn.send(r)
    except Exception:
        conn.send(json.loads(json.dumps(r, default=str)))
    conn.close()


def run_property(pid, tier, only=None, verbose=False, procs=None):
    t0 = time.time()
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import z3  # noqa
    from symx import patches
    patches.install()
    patches.install_loader()
    mod = load_property(pid)
    mod.setup() if hasattr(mod, 'setup') else None
    import rdtools  # noqa
    jobs = [(n, h, c) for n, h, c in mod.jobs(tier) if only is None or only in n]
    total = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 2400)
    query_ms = getattr(mod, 'QUERY_MS', 20000) * (1 if tier == 'quick' else 3)
    deadline = t0 + total
    procs = procs or int(os.environ.get('SYMX_PROCS', '8'))
    pending = list(jobs)
    running = []
    results = []
    ctxmp = mp.get_context('fork')
    hit = False
    validate = 1 if tier == 'quick' else 3
    while pending or running:
        while pending and len(running) < procs and not hit:
            n, h, c = pending.pop(0)
            a, b = ctxmp.Pipe(duplex=False)
            left = max(5, deadline - time.time())
            p = ctxmp.Process(target=worker, args=(b, pid, n, h, c, tier, left, query_ms, validate))
            p.start()
            b.close()
            running.append((n, p, a, time.time()))
        if hit:
            for n, p, a, s in running:
                p.terminate()
                p.join()
            break
        time.sleep(0.02)
        for it in list(running):
            n, p, a, s = it
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = {'job': n, 'error': 'worker died'}
            elif not p.is_alive():
                r = {'job': n, 'error': f'worker died (exit {p.exitcode})'}
            elif time.time() > deadline + 60:
                p.terminate()
                r = {'job': n, 'error': None, 'incomplete': 'killed at the time budget'}
            if r is not None:
                p.join(5)
                running.remove(it)
                results.append(r)
                if verbose:
                    st = r.get('stats', {})
                    print(f"  {n}: {r.get('wall', 0):.1f}s paths={st.get('paths')} ob={st.get('obligations')}"
                          f" triv={st.get('trivial')} q={st.get('queries')} forks={st.get('forks')}"
                          f" viol={bool(r.get('violation'))} spur={len(r.get('spurious', []))}"
                          f" inc={r.get('incomplete')} err={r.get('error')} unsup={st.get('unsupported')}"
                          f" conc={st.get('concretised')} mism={len(r.get('mismatch', []))} val={r.get('validated')}",
                          flush=True)
                    for k, v in (r.get('notes') or {}).items():
                        print('     note', v, k)
                    for k in ('traceback', 'crash_tb'):
                        if r.get(k):
                            print(r[k])
                    if r.get('spurious'):
                        print('     spurious', r['spurious'][:2])
                    if r.get('mismatch'):
                        print('     mismatch', r['mismatch'][:2])
                    if r.get('violation'):
                        print('     violation', r['violation'])
                if r.get('violation'):
                    hit = True
    if not hit:
        validate_results(pid, tier, results, procs)
    return finish(pid, tier, mod, jobs, results, t0)


def validate_results(pid, tier, results, procs):
    """translation validation: symbolic results vs the plain code on path models"""
    from concurrent.futures import ThreadPoolExecutor
    todo = [(r, a, ob) for r in results for a, ob in (r.get('val_items') or [])]
    if not todo:
        return
    k = max(1, min(procs, (len(todo) + 9) // 10))
    chunks = [todo[i::k] for i in range(k)]

    def go(ch):
        return replay_batch([{'prop': pid, 'job': r['job'], 'values': a, 'tier': tier} for r, a, _ in ch],
                            timeout=600)
    with ThreadPoolExecutor(k) as ex:
        for ch, outs in zip(chunks, ex.map(go, chunks)):
            for (r, a, ob), o in zip(ch, outs):
                bad = compare(ob, o)
                if failed(o):
                    if not r.get('violation') and robust(pid, r['job'], a, tier):
                        r['violation'] = {'values': a, 'label': 'path witness fails on the plain code',
                                          'observed': o['violations'][:5] or [o['exception']],
                                          'traceback': o.get('traceback')}
                elif bad:
                    r.setdefault('mismatch', []).append({'values': a, 'detail': bad[:3]})
                else:
                    r['validated'] = r.get('validated', 0) + 1


def finish(pid, tier, mod, jobs, results, t0):
    tot = {}
    notes = {}
    funcs = set()
    viol = []
    spur = []
    inc = []
    err = []
    mism = []
    witnesses = 0
    validated = 0
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            tot[k] = tot.get(k, 0) + v
        for k, v in (r.get('notes') or {}).items():
            notes[k] = notes.get(k, 0) + v
        funcs |= set(r.get('functions') or [])
        if r.get('violation'):
            viol.append((r['job'], r['violation']))
        for s in r.get('spurious') or []:
            spur.append((r['job'], s))
        if r.get('incomplete'):
            inc.append((r['job'], r['incomplete']))
        if r.get('error'):
            err.append((r['job'], r['error']))
        for m in r.get('mismatch') or []:
            mism.append((r['job'], m))
        witnesses += 1 if r.get('witness') is not None else 0
        validated += r.get('validated', 0)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    known = load_known(pid)
    exit_code = 0
    ev_viol = []
    for job, v in viol:
        k = match_known(known, job, v)
        rp = os.path.join(evdir, f'{pid}.replay.json')
        with open(rp, 'w') as f:
            json.dump({'prop': pid, 'job': job, 'values': v['values'], 'tier': tier}, f, indent=1)
        what = f"{job}: {v['label']}: {v['observed']}"
        if k:
            print(f'KNOWN-FINDING: property={pid} {k}')
        else:
            print(f'VIOLATION property={pid} replay={rp}')
            print('  ' + what[:1500])
            exit_code = 1
        ev_viol.append({'what': what[:1500], 'replay': rp})
    vac = [r['job'] for r in results if not r.get('error') and r.get('witness') is None
           and not r.get('violation') and not r.get('incomplete') and not r.get('spurious')]
    for job, s in spur:
        print(f"UNREPRODUCED {job}: {s['label']} (tiny={s['tiny']}, pure={s['pure']})")
    for job, s in inc:
        print(f'INCONCLUSIVE {job}: {s}')
    for job, s in err:
        print(f'ERROR {job}: {s}')
    for job in vac:
        print(f'VACUOUS {job}: no path reaches an assertion')
    for job, m in mism[:3]:
        print(f"ENCODING-MISMATCH {job}: {m['detail']}")
    for k, v in notes.items():
        if k.startswith(('unsupported', 'concretised', 'undecided', 'path feas')):
            print(f'NOTE {v}x {k}')
    if exit_code == 0:
        # a counterexample the plain code does not reproduce, or a job that could not be
        # finished, is no verdict either way: it is printed and recorded as undecided
        if not any(r.get('completed_paths') for r in results):
            exit_code = 2
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': mod.COVERAGE,
            'functions_encoded': sorted(funcs),
            'bounds': mod.BOUNDS,
            'jobs': len(jobs), 'jobs_completed': sum(1 for r in results if not r.get('incomplete')
                                                     and not r.get('error') and not r.get('violation')),
            'symbolic_paths': tot.get('paths', 0), 'forks': tot.get('forks', 0),
            'queries': tot.get('queries', 0), 'queries_unsat': tot.get('unsat', 0),
            'queries_sat': tot.get('sat', 0), 'queries_unknown': tot.get('unknown', 0),
            'obligations_discharged_by_solver': tot.get('obligations', 0),
            'obligations_closed_by_term_normalisation': tot.get('trivial', 0),
            'obligations_undecided': tot.get('unknown_obligations', 0),
            'solver_seconds': round(tot.get('solver_s', 0.0), 3),
            'reachability_witnesses': witnesses,
            'path_models_replayed_on_plain_code_and_equal': validated,
            'encoding_mismatches': len(mism), 'concretised': tot.get('concretised', 0),
            'unsupported_paths': tot.get('unsupported', 0),
            'unreproduced_counterexamples': len(spur),
            'inconclusive_jobs': [f'{j}: {s}' for j, s in inc] + [f'{j}: {s}' for j, s in err],
            'notes': notes,
            'job_names': [j[0] for j in jobs],
        },
        'wall_s': round(wall, 2),
        'assumptions': COMMON_ASSUMPTIONS + list(mod.ASSUMPTIONS),
        'violations': ev_viol,
    }
    with open(os.path.join(evdir, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} {tier}: jobs={len(jobs)} paths={tot.get('paths', 0)} obligations={tot.get('obligations', 0)}"
          f"+{tot.get('trivial', 0)} queries={tot.get('queries', 0)} solver={tot.get('solver_s', 0):.1f}s"
          f" validated={validated} wall={wall:.1f}s exit={exit_code}")
    return exit_code


COMMON_ASSUMPTIONS = [
    'IEEE doubles in data positions are modelled as exact reals; float literals are read as the simple '
    'rational they approximate; rounding error is outside the claim',
    'pandas/numpy structural operations (alignment, reindex, resample binning, indexing) are the real library code; '
    'their numeric kernels on symbolic elements are replaced by exact-real models (symx/arrays.py, symx/npx.py), '
    'validated by replaying path models on the unpatched code',
]


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k.get('property') == pid]


def match_known(known, job, v):
    for k in known:
        if k.get('job') == job and k.get('label') == v['label']:
            return k['what']
    return None


def main():
    if len(sys.argv) > 1 and sys.argv[1] == 'replay-batch':
        sys.exit(replay_main(sys.argv[2:]))
    if len(sys.argv) > 1 and sys.argv[1] == 'replay':
        with open(sys.argv[2]) as f:
            it = json.load(f)
        r = replay_one(load_property(it['prop']), it['job'], it['values'], it.get('tier', 'quick'))
        print(json.dumps({k: v for k, v in r.items() if k != 'observed'}, indent=1))
        sys.exit(1 if r['violations'] or r['exception'] else 0)
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    sys.setrecursionlimit(5000)
    sys.exit(run_property(a.property, a.tier, a.only, a.v))


if __name__ == '__main__':
    main()

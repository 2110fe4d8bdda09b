"""Check driver: parallel exploration, counterexample replay, evidence."""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, random, re, signal, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYZX_REPO', '/repo')
PYVT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_paths():
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if PYVT not in sys.path:
        sys.path.append(PYVT)


class Harness:
    def __init__(self, name, fn, what, bounds, params=None, timeout=20.0, witnesses=(), raw_every=16, shims=None,
                 weight=1):
        self.name, self.fn, self.what, self.bounds = name, fn, what, bounds
        self.params = params or {}
        self.timeout = timeout
        self.witnesses = witnesses
        self.raw_every = raw_every
        self.shims = shims
        self.weight = weight


class _Alarm:
    @staticmethod
    def handler(sig, frame):
        from .engine import PathTimeout
        raise PathTimeout()


def seed_all():
    random.seed(1)
    try:
        import numpy
        numpy.random.seed(1)
    except Exception:
        pass


FUNCS = set()


def install_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, 'symx')
    except ValueError:
        return
    root = os.path.join(REPO, 'pyzx') + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            FUNCS.add('%s:%s' % (code.co_filename[len(root):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def where(e):
    """innermost frame inside the code under test"""
    root = os.path.join(REPO, 'pyzx')
    loc = None
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(root):
            loc = '%s:%s' % (os.path.relpath(f.co_filename, REPO), f.co_name)
        tb = tb.tb_next
    return loc


def run_path(eng, S, h):
    """returns None or a violation dict"""
    from . import engine as E
    seed_all()
    kind = msg = model = None
    signal.setitimer(signal.ITIMER_REAL, h.timeout)
    try:
        h.fn(S, **h.params)
    except E.Prune:
        eng.stats['pruned'] += 1
        return None
    except E.Violated as v:
        kind, msg, model = 'property', v.msg, v.detail
    except E.PathTimeout as e:
        kind, msg = 'timeout', 'no result within %gs' % h.timeout
        if os.environ.get('SYMX_TRACE'):
            msg += '\n' + traceback.format_exc()
    except (E.Stop, E.Nondeterminism, KeyboardInterrupt):
        raise
    except RecursionError as e:
        kind, msg = 'exception', 'RecursionError'
    except Exception as e:
        kind, msg = 'exception', '%s: %s' % (type(e).__name__, e)
        loc = where(e)
        msg += ' at %s' % loc if loc else ''
        if loc is None or os.environ.get('SYMX_TRACE'):
            msg += '\n' + traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if kind is None:
        return None
    if model is None:
        try:
            model = dict(eng.path_model())
        except E.Prune:
            return None
    vals = dict(S.values)
    for n, v in model.items():
        if not n.startswith('c:'):
            vals[n] = v
    return dict(harness=h.name, values=vals, kind=kind, msg=msg, sig=S.signature,
                choices=dict(S.values), eager=eng.eager)


def worker(conn, modname, tier, deadline):
    setup_paths()
    from . import engine as E
    from .ctx import Sym
    signal.signal(signal.SIGALRM, _Alarm.handler)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    E.install_fraction_patch()
    mod = importlib.import_module(modname)
    if hasattr(mod, 'shims'):
        mod.shims()
    hs = {h.name: h for h in mod.harnesses(tier)}
    install_monitor()
    sys.setrecursionlimit(3000)
    eng = E.Engine()
    E.ENG = eng
    while True:
        item = conn.recv()
        if item is None:
            conn.send(sorted(FUNCS))
            return
        hname, prefix, fixed, slice_s = item
        h = hs[hname]
        eng.stats = {k: 0 for k in eng.stats}
        eng.stats['solver_s'] = 0.0
        eng.eager = fixed is not None
        eng.deadline = deadline
        eng.load_prefix(prefix)
        floor = len(prefix)
        t0 = time.time()
        viols, front, samples, wit = [], [], [], {}
        err = None
        stopped = False
        try:
            while True:
                eng.start_path()
                S = Sym(eng, fixed, h.raw_every)
                v = run_path(eng, S, h)
                eng.stats['paths'] += 1
                eng.stats['maxdepth'] = max(eng.stats['maxdepth'], len(eng.decisions))
                for k, n in S.witnesses.items():
                    wit[k] = wit.get(k, 0) + n
                if v:
                    viols.append(v)
                elif len(samples) < 2:
                    samples.append(dict(choices=dict(S.values), atoms={n: (list(d) if d is not None else 'any') for n, d in eng.domains.items() if not n.startswith('c:')},
                                        decisions=len(eng.decisions)))
                if not eng.backtrack(floor):
                    break
                if time.time() - t0 > slice_s or len(viols) >= 200:
                    front = eng.frontier_after_backtrack(floor)
                    break
        except E.Stop:
            stopped = True
        except Exception:
            err = traceback.format_exc()
        conn.send(dict(h=hname, stats=eng.stats, viols=viols, front=front, samples=samples, wit=wit, err=err,
                       stopped=stopped, fixed=fixed))


def replay_cmd(pid, path):
    return [sys.executable, '-B', '-W', 'ignore', os.path.join(VERIF, 'run.py'), pid, '--replay', path]


def do_replay(pid, modname, path):
    """concrete re-execution on the unpatched code; exit 1 when the violation reproduces"""
    from .ctx import Concrete
    from . import engine as E
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module(modname)
    hs = {h.name: h for t in ('quick', 'thorough') for h in mod.harnesses(t)}
    h = [x for x in mod.harnesses(r.get('tier', 'quick')) if x.name == r['harness']]
    h = h[0] if h else hs[r['harness']]
    S = Concrete(r['values'])
    signal.signal(signal.SIGALRM, _Alarm.handler)
    seed_all()
    sys.setrecursionlimit(3000)
    signal.setitimer(signal.ITIMER_REAL, max(40.0, 2 * h.timeout))
    try:
        h.fn(S, **h.params)
        print('REPLAY: no violation')
        return 0
    except E.Prune:
        print('REPLAY: outside assumptions')
        return 0
    except E.Violated as v:
        print('REPLAY: violated: %s' % v.msg)
        print('SIG: %s' % S.signature)
        return 1
    except E.PathTimeout:
        print('REPLAY: violated: no result within %gs' % max(40.0, 2 * h.timeout))
        print('SIG: %s' % S.signature)
        return 1
    except Exception as e:
        loc = where(e)
        print('REPLAY: violated: %s: %s at %s' % (type(e).__name__, e, loc))
        print('SIG: %s' % S.signature)
        if os.environ.get('SYMX_TRACE'):
            traceback.print_exc()
        # raised in the harness itself: a missing name means the harness no longer fits the code, anything else is a broken result
        return 1 if loc is not None or not isinstance(e, (AttributeError, ImportError, NameError)) else 3


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status', 'known') == 'known']


def matches(k, v):
    if k['harness'] != v['harness']:
        return False
    if 'sig' in k:
        return k['sig'] == v['sig']
    return all(v['values'].get(n) == x for n, x in k['values'].items())


def main(argv=None):
    if '--selftest' in (argv or sys.argv[1:]):
        setup_paths()
        import z3, numpy, pyzx
        from . import engine
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'pyzx', pyzx.__file__)
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only harnesses whose name matches this regex (development)')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '0')) or min(8, os.cpu_count() or 8))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--all', action='store_true', help='do not stop at the first confirmed violation (development)')
    a = ap.parse_args(argv)
    setup_paths()
    modname = 'checks.' + a.pid.lower()
    if a.replay:
        return do_replay(a.pid, modname, a.replay)
    t0 = time.time()
    mod = importlib.import_module(modname)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    hs = mod.harnesses(tier)
    if a.only:
        hs = [h for h in hs if re.search(a.only, h.name)]
    hd = {h.name: h for h in hs}
    assert len(hd) == len(hs), 'duplicate harness names'
    budget = a.budget or getattr(mod, 'BUDGET', {}).get(tier) or (240 if tier == 'quick' else 3000)
    deadline = t0 + budget
    known = known_findings(a.pid)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    ctx = mp.get_context('fork')
    jobs = max(1, min(a.jobs, 8))
    procs = []
    for _ in range(jobs):
        pc, cc = ctx.Pipe()
        p = ctx.Process(target=worker, args=(cc, modname, tier, deadline), daemon=True)
        p.start()
        cc.close()
        procs.append((p, pc))
    slice_s = 1.0
    # round-robin over harnesses so every harness progresses
    from collections import deque
    queues = {h.name: deque([(h.name, [], None)]) for h in hs}
    order = deque(h.name for h in hs)
    stats, per, samples, wit = {}, {h.name: {} for h in hs}, [], {h.name: {} for h in hs}
    unfinished = {h.name: 0 for h in hs}
    errors, confirmed, knownhit, artefacts, unresolved = [], [], {}, [], []
    cand = deque()
    seen_c, overflow, artkeys, knowntried = {}, {}, set(), set()
    replays = []          # (popen, violation, path, t)
    busy = {}
    idle = [pc for _, pc in procs]
    stop = False
    eager_pending = 0

    def next_item():
        for _ in range(len(order)):
            n = order[0]
            order.rotate(-1)
            q = queues[n]
            if q:
                return q.popleft()
        return None

    def start_replay(v):
        h = hashlib.sha1(json.dumps([v['harness'], v['values']], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (a.pid, h))
        with open(path, 'w') as f:
            json.dump(dict(property=a.pid, harness=v['harness'], tier=tier, values=v['values'], kind=v['kind'], msg=v['msg'],
                           sig=v['sig'], how='python run.py %s --replay <this file>' % a.pid), f, indent=1)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.Popen(replay_cmd(a.pid, path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        replays.append((p, v, path, time.time()))

    def poll_replays(wait=False):
        for r in list(replays):
            p, v, path, ts = r
            if wait or p.poll() is not None:
                out, _ = p.communicate()
                replays.remove(r)
                if p.returncode == 1:
                    sig = re.search(r'^SIG: (.*)$', out, re.M)
                    v2 = dict(v, sig=sig.group(1) if sig else v['sig'])
                    k = next((k for k in known if matches(k, v2)), None)
                    if k is not None:
                        knownhit[k['id']] = k
                    else:
                        confirmed.append((v2, path, out))
                elif p.returncode == 0:
                    artefacts.append((v, out))
                    key = (v['harness'], v['sig'], v['msg'].split('\n')[0][:80], v['eager'])
                    artkeys.add(key)
                    ov = overflow.pop(key, [])
                    if len(artefacts) + len(ov) > 400:
                        unresolved.append((v, 'too many counterexamples that do not reproduce'))
                    else:
                        cand.extend(ov)
                    if v['eager']:
                        unresolved.append((v, out))
                    else:
                        queues[v['harness']].append((v['harness'], [], v['choices']))
                else:
                    unresolved.append((v, out))

    err_exit = None
    while True:
        if confirmed and not a.all:
            stop = True
        if time.time() > deadline:
            stop = True
        if not stop:
            while idle:
                it = next_item()
                if it is None:
                    break
                pc = idle.pop()
                pc.send(it + (slice_s,))
                busy[pc] = it
        if not busy and not replays and not cand:
            break
        if stop and confirmed and not a.all:
            break
        if busy:
            ready = mp.connection.wait(list(busy), timeout=0.2)
            for pc in ready:
                it = busy.pop(pc)
                try:
                    r = pc.recv()
                except EOFError:
                    errors.append('worker died on %s' % (it[0],))
                    continue
                idle.append(pc)
                for k, x in r['stats'].items():
                    stats[k] = max(stats.get(k, 0), x) if k == 'maxdepth' else stats.get(k, 0) + x
                    ph = per[r['h']]
                    ph[k] = max(ph.get(k, 0), x) if k == 'maxdepth' else ph.get(k, 0) + x
                for k, n in r['wit'].items():
                    wit[r['h']][k] = wit[r['h']].get(k, 0) + n
                if r['err']:
                    errors.append('%s: %s' % (r['h'], r['err']))
                if r['stopped']:
                    unfinished[r['h']] += 1
                for f in r['front']:
                    queues[r['h']].append((r['h'], f, r['fixed']))
                if len([s for s in samples if s['harness'] == r['h']]) < 2:
                    samples += [dict(harness=r['h'], **s) for s in r['samples'][:1]]
                for v in r['viols']:
                    key = (v['harness'], v['sig'], v['msg'].split('\n')[0][:80], v['eager'])
                    k = next((k for k in known if matches(k, v)), None)
                    if k is not None:
                        if k['id'] not in knowntried:
                            knowntried.add(k['id'])
                            cand.append(v)
                        continue
                    seen_c[key] = seen_c.get(key, 0) + 1
                    if seen_c[key] <= 3 or key in artkeys:
                        cand.append(v)
                    else:
                        overflow.setdefault(key, []).append(v)
        else:
            time.sleep(0.05)
        if cand and time.time() > deadline + 240:
            unresolved.extend((v, "not replayed in time") for v in cand)
            cand.clear()
        while cand and len(replays) < 8:
            start_replay(cand.popleft())
        poll_replays()
    poll_replays(wait=not (confirmed and not a.all))
    for p, *_ in replays:
        p.kill()
    left = {n: len(q) + unfinished[n] for n, q in queues.items() if len(q) + unfinished[n]}
    funcs = set()
    for pc in idle:
        try:
            pc.send(None)
            if pc.poll(5):
                funcs |= set(pc.recv())
        except (OSError, EOFError):
            pass
    for p, _ in procs:
        p.join(timeout=0.5)
        if p.is_alive():
            p.kill()
    # candidates never replayed because they looked alike are fine once one of the kind was confirmed or resolved
    vac = []
    if not left:
        for h in hs:
            for w in h.witnesses:
                if not wit[h.name].get(w):
                    vac.append('%s: %s never reached' % (h.name, w))
    wall = time.time() - t0
    ev = dict(property=a.pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=mod.LEVEL, wall_s=round(wall, 2),
              violations=len(confirmed), assumptions=getattr(mod, 'ASSUMPTIONS', []),
              coverage=dict(
                  explanation=mod.EXPLANATION,
                  evaluations=stats.get('paths', 0), distinct_nontrivial=max(0, stats.get('paths', 0) - stats.get('pruned', 0)),
                  rule='one evaluation = one feasible symbolic path of a harness through the real code; distinct by its decision sequence; non-trivial = not cut by an assumption',
                  states=stats.get('paths', 0), transitions=stats.get('decisions', 0),
                  traces_validated_against_impl=len(artefacts) + len(confirmed) + len(knownhit),
                  symbolic_paths=stats.get('paths', 0), paths_cut_by_assumptions=stats.get('pruned', 0),
                  branch_decisions=stats.get('decisions', 0), longest_path_decisions=stats.get('maxdepth', 0),
                  solver_queries=stats.get('solver_checks', 0), solver_seconds=round(stats.get('solver_s', 0), 3),
                  obligations=stats.get('obligations', 0), obligations_closed_by_normal_form=stats.get('ob_closed_norm', 0),
                  obligations_decided_by_z3=stats.get('ob_solver', 0), obligations_rechecked_raw_by_z3=stats.get('ob_raw', 0),
                  discharged=stats.get('obligations', 0) - len(confirmed), checker_cmd='python run.py %s --tier %s' % (a.pid, tier),
                  trusted_base=['z3', 'CPython', 'symx proxies and path-sum semantics'],
                  exhaustive=not left and not stop,
                  harnesses=[dict(name=h.name, what=h.what, bounds=h.bounds, paths=per[h.name].get('paths', 0),
                                  cut=per[h.name].get('pruned', 0), solver_queries=per[h.name].get('solver_checks', 0),
                                  obligations=per[h.name].get('obligations', 0), solver_s=round(per[h.name].get('solver_s', 0), 3),
                                  unexplored_branches=left.get(h.name, 0), witnesses=wit[h.name]) for h in hs],
                  functions_encoded=sorted(funcs), samples=samples[:40],
                  counterexamples_not_reproduced=len(artefacts)))
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    for h in hs:
        p = per[h.name]
        print('  %-34s paths=%-7d cut=%-6d queries=%-7d obligations=%-7d left=%d %s' % (
            h.name, p.get('paths', 0), p.get('pruned', 0), p.get('solver_checks', 0), p.get('obligations', 0), left.get(h.name, 0),
            ' '.join('%s=%d' % kv for kv in sorted(wit[h.name].items()))))
    print('%s %s: %d paths, %d solver queries (%.1fs), %d obligations, %.1fs wall%s' % (
        a.pid, tier, stats.get('paths', 0), stats.get('solver_checks', 0), stats.get('solver_s', 0), stats.get('obligations', 0), wall,
        '' if not left else ', NOT exhausted: %s' % left))
    for k in knownhit.values():
        print('KNOWN-FINDING: property=%s %s' % (a.pid, k['what']))
    # a listed finding is reported on every run, even when this run did not get to it
    for k in known:
        if k['id'] not in knownhit and not confirmed:
            print('note: listed finding %s did not show up in this run' % k['id'])
    for v, path, out in confirmed[:20 if a.all else 5]:
        print('VIOLATION property=%s replay=%s' % (a.pid, path))
        print('  harness=%s kind=%s sig=%s' % (v['harness'], v['kind'], v['sig']))
        print('  ' + '\n  '.join(out.strip().split('\n')[:8]))
        print('  values=%s' % json.dumps(v['values']))
    if confirmed:
        return 1
    for v, out in unresolved[:5]:
        print('ERROR: counterexample could not be reproduced: %s %s %s\n%s' % (v['harness'], v['kind'], v['msg'][:1500], out[-500:]))
    for e in errors[:5]:
        print('ERROR: ' + e)
    for e in vac:
        print('ERROR: vacuous harness: ' + e)
    for v, out in artefacts[:3]:
        print('note: counterexample not reproduced concretely (re-examined with concrete values): %s %s' % (v['harness'], v['msg'][:1500]))
    if unresolved or errors or vac:
        return 2
    return 0

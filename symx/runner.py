"""Run one check: explore every path of every scenario, decide with z3."""
import gc
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


class Scenario:
    """One harness: a function of ctx, its bounds and its budget."""

    def __init__(self, name, fn, bounds, tier='quick', path_s=60,
                 max_paths=3000, finding=None, query_ms=20000):
        self.name, self.fn, self.bounds = name, fn, bounds
        self.tier, self.path_s, self.max_paths = tier, path_s, max_paths
        self.finding, self.query_ms = finding, query_ms


def scenario(bounds, name=None, **kw):
    def deco(f):
        f.scenario = Scenario(name or f.__name__, f, bounds, **kw)
        return f.scenario
    return deco


class Timeout(BaseException):
    pass


def _functions_called():
    """Names of the functions of /repo/auxi this process has entered."""
    mon = sys.monitoring
    seen = set()
    tool = 3
    mon.use_tool_id(tool, 'symx')

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO) and '/auxi/' in fn and \
                code.co_name[0] not in '<':
            seen.add(fn[len(REPO) + 1:] + ':' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def run_path(scn, prefix, client, scratch, deadline, seed):
    """Executed in a forked child."""
    from . import core, ctx as cx
    seen = _functions_called()
    eng = core.Engine(prefix, query_ms=scn.query_ms, deadline=deadline,
                      seed=seed * 1000003 + len(prefix))
    core.E = eng
    c = cx.SymCtx(eng, lambda inp: client(scn.name, inp), scratch)
    out = {'status': 'ok', 'note': None, 'witness': None}

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(scn.path_s))
    try:
        try:
            scn.fn(c)
        except cx.StopScenario:
            pass
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' < '.join('%s:%d' % (os.path.basename(f.filename),
                                          f.lineno) for f in tb[-4:])
            out['note'] = '%s: %s at %s' % (type(e).__name__, e, where)
            out['status'] = 'exception'
        finally:
            signal.alarm(0)
    except core.PathAbort:
        out['status'] = 'infeasible'
    except core.Unsupported as e:
        out['status'] = 'unsupported'
        out['note'] = str(e)
    except core.BudgetExceeded as e:
        out['status'] = 'budget'
        out['note'] = str(e)
    except Timeout:
        out['status'] = 'budget'
        out['note'] = 'path time limit'
    except RecursionError:
        out['status'] = 'unsupported'
        out['note'] = 'recursion'
    eng.deadline = None
    try:
        c.cleanup()
        if out['status'] == 'ok':
            w = c.witness()
            out['witness'] = w
            if w['status'] == 'failed':
                c.violations.append({
                    'check': w['failures'][0]['check'],
                    'inputs': w['inputs'], 'native': w['failures'],
                    'symbolic': 'path witness'})
            elif w['status'] == 'unsat':
                out['status'] = 'infeasible'
        elif out['status'] != 'infeasible':
            # No verdict from the encoding: replay models natively.
            points = list(c.quick_points(6)) if eng.fdefs else []
            r = None
            if not points:
                r = eng.check()
                if eng.last_model is not None:
                    points = c.models_near(eng.last_model, [], 6)
            n = 0
            if points:
                for inputs in points:
                    n += 1
                    nat = client(scn.name, inputs)
                    if nat['failures']:
                        c.violations.append({
                            'check': nat['failures'][0]['check'],
                            'inputs': inputs, 'native': nat['failures'][:3],
                            'symbolic': out['note']})
                        break
            elif str(r) == 'unsat':
                out['status'] = 'infeasible'
            if out['status'] != 'infeasible':
                c.inconclusive.append('path not encoded (%s: %s); %d models '
                                      'replayed natively instead' % (
                                          out['status'], out['note'], n))
    except Exception as e:
        c.inconclusive.append('engine: ' + traceback.format_exc()[-600:])
    except core.Unsupported as e:
        c.inconclusive.append('engine: %s' % e)
    out.update({
        'pending': eng.pending, 'results': c.results,
        'violations': c.violations, 'inconclusive': c.inconclusive,
        'queries': eng.queries, 'solver_s': eng.solver_s,
        'forks': eng.forks, 'decisions': len(eng.trace),
        'concretised': eng.concretised, 'approx': sorted(eng.approx),
        'unknown_feas': eng.unknown_feas, 'replays': client.count,
        'replay_errors': client.errors, 'functions': sorted(seen),
        'inputs': {k: [v[0], v[2], v[3]] for k, v in c.inputs.items()}})
    return out


def explore(scns, client_path, scratch, jobs, budget, seed, verbose=False):
    """Breadth of paths over `jobs` forked children."""
    from .native import Client
    t_end = time.time() + budget
    queue = {s.name: [[]] for s in scns}
    by = {s.name: s for s in scns}
    used = {s.name: 0.0 for s in scns}
    res = {s.name: {'paths': [], 'truncated': 0} for s in scns}
    counts = {s.name: 0 for s in scns}
    viol = {s.name: 0 for s in scns}
    running = {}
    settled = False
    gc.collect()
    gc.freeze()
    while any(queue.values()) or running:
        while any(queue.values()) and len(running) < jobs:
            # the scenario that has had the least time so far goes first
            now = time.time()
            busy = dict(used)
            for _, s, _, _, t0 in running.values():
                busy[s.name] += now - t0 + 0.01
            scn = by[min((k for k in queue if queue[k]), key=busy.get)]
            prefix = queue[scn.name].pop()
            if counts[scn.name] >= scn.max_paths or time.time() > t_end or \
                    viol[scn.name] >= 3:
                res[scn.name]['truncated'] += 1
                continue
            counts[scn.name] += 1
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    if not verbose:
                        os.dup2(devnull, 2)
                    out = run_path(scn, prefix, Client(client_path, scratch),
                                   scratch, time.time() + 3 * scn.path_s,
                                   seed)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                except BaseException:
                    code = 3
                    try:
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump({'status': 'crash', 'note':
                                         traceback.format_exc()[-1500:]}, f)
                    except Exception:
                        pass
                os._exit(code)
            os.close(w)
            running[r] = (pid, scn, prefix, b'', time.time())
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            pid, scn, prefix, buf, t0 = running[fd]
            b = os.read(fd, 1 << 20)
            if b:
                running[fd] = (pid, scn, prefix, buf + b, t0)
                continue
            os.close(fd)
            del running[fd]
            os.waitpid(pid, 0)
            try:
                out = pickle.loads(buf)
            except Exception:
                out = {'status': 'crash', 'note': 'no result'}
            out['prefix'] = prefix
            out['wall'] = time.time() - t0
            used[scn.name] += out['wall']
            res[scn.name]['paths'].append(out)
            viol[scn.name] += len(out.get('violations', ()))
            if out.get('violations') and not scn.finding and not settled:
                # the verdict of the run is known: finish what is quick
                settled = True
                t_end = min(t_end, time.time() +
                            (0 if os.environ.get('SYMX_FAST') else 40))
            for p in reversed(out.get('pending', ())):
                queue[scn.name].append(p)
        now = time.time()
        for fd, (pid, scn, prefix, buf, t0) in list(running.items()):
            if now - t0 > 5 * scn.path_s + 120 or \
                    now > t_end + ((0 if os.environ.get('SYMX_FAST') else 20)
                             if settled else 90):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
    return res


def load_findings():
    fn = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(fn):
        return {}
    with open(fn) as f:
        d = json.load(f)
    return {x['id']: x for x in d['findings'] if x['status'] == 'known'}


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    jobs = int(os.environ.get('SYMX_JOBS', '8'))
    for a in argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '-v':
            verbose = True
        elif a.startswith('-j'):
            jobs = int(a[2:])
        else:
            only = a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.setrecursionlimit(5000)
    scratch = tempfile.mkdtemp(prefix='symx_%s_' % pid)
    server = None
    try:
        env = dict(os.environ)
        sock = os.path.join(scratch, 'native.sock')
        server = subprocess.Popen(
            [PY, '-m', 'symx.native', pid, 'serve', sock], cwd=ROOT, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        from . import loader
        loader.install()
        mod = importlib.import_module('harness.' + pid)
        import numpy
        for m in getattr(mod, 'PRELOAD', ()):
            try:
                importlib.import_module(m)
            except Exception as e:
                print('NOTE: %s does not import: %s' % (m, e))
        line = server.stdout.readline()
        if b'ready' not in line:
            err = server.stderr.read().decode()[-2000:]
            print('ERROR: the native server did not start\n' + err)
            return 2
        scns = [s for s in mod.SCENARIOS
                if (tier == 'thorough' or s.tier == 'quick') and
                (only is None or s.name == only)]
        budget = getattr(mod, 'BUDGET', {}).get(
            tier, 420 if tier == 'quick' else 3000)
        res = explore(scns, sock, scratch, jobs, budget, seed, verbose)
        return report(pid, mod, scns, res, tier, seed, t0, verbose)
    finally:
        if server is not None:
            server.kill()
            server.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, mod, scns, res, tier, seed, t0, verbose):
    import z3
    findings = load_findings()
    replay_dir = os.path.join(ROOT, 'evidence', 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    tot = dict.fromkeys(('paths', 'infeasible', 'decisions', 'forks',
                         'queries', 'replays', 'validated', 'mismatch',
                         'concretised', 'unknown_feas', 'incomplete'), 0)
    solver_s = 0.0
    obl = {}
    funcs = set()
    approx = set()
    per = []
    samples = []
    violations = []
    known_hits = {}
    inconclusive = []
    crashes = []
    for s in scns:
        r = res[s.name]
        ok = 0
        reach = {}
        o = {}
        nv = 0
        for p in r['paths']:
            if p['status'] == 'crash':
                crashes.append('%s: %s' % (s.name, p['note']))
                inconclusive.append('%s: a path ended without a result (%s)' %
                                    (s.name, p['note']))
                continue
            tot['decisions'] += p['decisions']
            tot['forks'] += p['forks']
            tot['queries'] += p['queries']
            tot['replays'] += p['replays']
            tot['unknown_feas'] += p['unknown_feas']
            tot['concretised'] += len(p['concretised'])
            solver_s += p['solver_s']
            funcs.update(p['functions'])
            approx.update(p['approx'])
            if p['status'] == 'infeasible' and not p['violations']:
                tot['infeasible'] += 1
                continue
            tot['paths'] += 1
            ok += p['status'] == 'ok'
            w = p.get('witness') or {}
            if w.get('status') == 'ok':
                if w['mismatch']:
                    tot['mismatch'] += 1
                    if verbose:
                        print('MISMATCH', s.name, w)
                else:
                    tot['validated'] += 1
                    if len(samples) < 60 and w['compared'] and \
                            sum(x['scenario'] == s.name
                                for x in samples) < 2:
                        samples.append({
                            'scenario': s.name, 'inputs': w['inputs'],
                            'values_compared_with_native': w['compared'],
                            'decisions': p['decisions']})
            for name, st in p['results']:
                o[st] = o.get(st, 0) + 1
                reach[name.split('[')[0]] = True
            for x in p['inconclusive']:
                inconclusive.append('%s: %s' % (s.name, x))
            for v in p['violations']:
                nv += 1
                v['scenario'] = s.name
                if s.finding and s.finding in findings and \
                        findings[s.finding]['match'] in json.dumps(v['native']):
                    known_hits.setdefault(s.finding, v)
                else:
                    violations.append(v)
        if r['truncated']:
            tot['incomplete'] += 1
            inconclusive.append('%s: %d path prefixes not explored '
                                '(budget or earlier violations)'
                                % (s.name, r['truncated']))
        for k, n in o.items():
            obl[k] = obl.get(k, 0) + n
        per.append({'scenario': s.name, 'bounds': s.bounds, 'paths': ok,
                    'complete': not r['truncated'],
                    'obligations': o, 'assertions_reached': sorted(reach),
                    'wall_cpu_s': round(sum(p.get('wall', 0)
                                            for p in r['paths']), 1)})
        if not ok and not nv:
            inconclusive.append('%s: no path completed (vacuous)' % s.name)
    n_obl = sum(obl.values())
    disch = sum(obl.get(k, 0) for k in ('simplified', 'unsat', 'concrete',
                                        'unsat-margin'))
    wall = time.time() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': 'model_checking', 'wall_s': round(wall, 2),
        'violations': len(violations),
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['decisions'],
            'traces_validated_against_impl': tot['validated'],
            'samples': samples or [{'note': 'no completed path'}],
            'obligations': n_obl, 'discharged': disch,
            'obligations_by_verdict': obl,
            'solver_queries': tot['queries'],
            'solver_seconds': round(solver_s, 2),
            'solver': 'z3 ' + z3.get_version_string(),
            'branch_forks': tot['forks'],
            'infeasible_paths': tot['infeasible'],
            'native_replays': tot['replays'],
            'witness_value_mismatches': tot['mismatch'],
            'paths_with_a_concretised_value': tot['concretised'],
            'feasibility_queries_unanswered': tot['unknown_feas'],
            'function_stubs_used': sorted(approx),
            'functions_encoded': sorted(funcs),
            'scenarios': per,
            'inconclusive': inconclusive[:40],
            'inconclusive_count': len(inconclusive),
            'exhaustive': not inconclusive and not tot['concretised'],
            'encoded_from': REPO,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())) + [
            'Python floats are modelled as exact reals; decimal literals as '
            'the decimals written. Rounding is outside the claim.',
            'The bounds of each scenario are listed under '
            'coverage.scenarios; inputs outside them are outside the claim.'],
    }
    if n_obl == 0:
        ev['coverage']['explanation'] = 'no obligation was reached'
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known_hits):
        print('KNOWN-FINDING: property=%s %s' % (pid, findings[k]['what']))
    code = 0
    shown = set()
    for i, v in enumerate(violations):
        key = (v['scenario'], v['check'].split('[')[0])
        if key in shown or len(shown) > 8:
            continue
        shown.add(key)
        fn = os.path.join(replay_dir, '%s-%d.json' % (pid, i))
        v['property'] = pid
        v['replay_with'] = '/verif/replay %s %s' % (pid, fn)
        with open(fn, 'w') as f:
            json.dump(v, f, indent=1)
        print('  scenario %s, assertion "%s"' % (v['scenario'], v['check']))
        print('  inputs %s' % json.dumps(v['inputs'])[:600])
        for x in v['native']:
            print('  native: %s: %s' % (x['check'], x['info']))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        code = 1
    for x in inconclusive[:8]:
        print('INCONCLUSIVE: ' + x[:400])
    print('%s %s: %d paths (%d infeasible), %d decisions, %d obligations '
          '%s, %d queries, solver %.1f s, %d native replays, %d validated, '
          '%d mismatched, wall %.1f s' % (
              pid, tier, tot['paths'], tot['infeasible'], tot['decisions'],
              n_obl, obl, tot['queries'], solver_s, tot['replays'],
              tot['validated'], tot['mismatch'], wall))
    if verbose:
        for p in per:
            print('  ', p['scenario'], p['paths'], p['obligations'],
                  p['wall_cpu_s'])
    if crashes and not code and not n_obl:
        print('ERROR: ' + crashes[0])
        return 2
    return code


if __name__ == '__main__':
    sys.exit(main())

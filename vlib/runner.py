import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = '/repo/src'
EVID = os.path.join(VERIF, 'evidence')
PY = sys.executable


class Case:
    def __init__(self, name, fn, kw=None, tier='quick', symbolic_only=False, budget=None, modules=()):
        self.name, self.fn, self.kw, self.tier = name, fn, kw or {}, tier
        self.budget = budget


def load_cases(prop, tier):
    mod = importlib.import_module('checks.' + prop.lower())
    cases = mod.cases(tier)
    names = [c.name for c in cases]
    assert len(names) == len(set(names)), 'duplicate case names'
    return mod, cases


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def trace_functions():
    """Record (once each) the nempy functions entered, with sys.monitoring."""
    seen = set()
    mon = sys.monitoring
    tool = 4
    try:
        mon.use_tool_id(tool, 'vf')
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if '/nempy/' in f:
            seen.add(f.split('/nempy/', 1)[1][:-3].replace('/', '.') + '.' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def prepare(symbolic):
    sys.dont_write_bytecode = True
    if REPO_SRC not in sys.path:
        sys.path.insert(0, REPO_SRC)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import warnings
    warnings.simplefilter('ignore')
    if symbolic:
        from . import sym, fakemip  # noqa
        fakemip.install()
    import nempy
    assert list(nempy.__path__) == ['/repo/src/nempy'], nempy.__path__
    if symbolic:
        from . import stubs
        stubs.install()


def run_case(prop, name, tier, known_labels, deadline):
    from . import sym
    from .env import SymEnv, Violation, Skip
    t0 = time.time()
    mod, cases = load_cases(prop, tier)
    case = [c for c in cases if c.name == name][0]
    seen = trace_functions()
    stats = sym.Stats()
    res = dict(name=name, violations=[], known=[], errors=[], witness=None, labels={}, skipped=False)
    excluded = set()
    work = [[]]
    reached = 0
    ended = 0
    steps = 0
    maxpaths = 20000
    while work:
        if time.time() > deadline:
            res['errors'].append('time budget used up')
            break
        prefix = work.pop()
        p = sym.Path(prefix, stats)
        sym.CUR = p
        E = SymEnv(p, tier)
        E.excluded = frozenset(excluded)
        try:
            try:
                case.fn(E, **case.kw)
                ended += 1
                steps += len(p.taken)
                if res['witness'] is None:
                    w = E.reachable()
                    if w is not None:
                        reached += 1
                        res['witness'] = dict(values=w.values, xs=w.xs, memo=w.memo)
            except Violation as v:
                p_v = v
                raise
            except Skip:
                res['skipped'] = True
            except Exception as e:   # the code under test raised on an accepted input
                label = 'exception:' + type(e).__name__
                tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
                if label in excluded:
                    work.extend(p.pending)
                    continue
                r, m = E._check([])
                if r == sym.z3.unsat:
                    raise sym.Infeasible()
                if r != sym.z3.sat:
                    raise sym.Inconclusive('exception on a path of unknown feasibility: ' + tb)
                v = E.violation(label, tb, m)
                raise v
            for l in E.labels:
                res['labels'][l] = res['labels'].get(l, 0) + 1
            work.extend(p.pending)
            stats.paths += 1
        except Violation as v:
            rec = dict(label=v.label, detail=v.detail, values=v.values, xs=v.xs, memo=v.memo)
            if v.label in known_labels:
                if v.label not in [k['label'] for k in res['known']]:
                    res['known'].append(rec)
                excluded.add(v.label)
                work.append(prefix)      # run the path again without that goal
                if v.label.startswith('exception:'):
                    work.pop()
                    work.extend(p.pending)
            else:
                res['violations'].append(rec)
                if len(res['violations']) >= 4:
                    break
                # look at other paths / other goals too: the first counterexample may not replay
                excluded.add(v.label + '#seen') if False else None
                work.extend(p.pending)
        except sym.Infeasible:
            work.extend(p.pending)
        except sym.Steer as s:
            res['errors'].append('%s: %s' % (type(s).__name__, str(s)[:600]))
            break
        except BaseException as e:
            res['errors'].append('harness: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-5:]))
            break
        finally:
            sym.CUR = None
        if stats.paths > maxpaths:
            res['errors'].append('path limit')
            break
    if not res['violations'] and not res['errors'] and not res['known'] and not res['skipped'] and res['witness'] is None:
        res['errors'].append('vacuous: no path of this case is feasible')
    res['stats'] = stats.as_dict()
    res['steps'] = steps
    res['functions'] = sorted(seen)
    res['wall'] = time.time() - t0
    return res


def _worker(a):
    try:
        return run_case(*a)
    except BaseException as e:
        return dict(name=a[1], violations=[], known=[], witness=None, labels={}, stats={}, steps=0, functions=[], wall=0,
                    errors=['worker: ' + ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-5:])])


def replay_file(path, how=0):
    """Run one recorded counterexample (or witness) on the unpatched code.  Returns a dict."""
    from .env import ConcEnv, Reproduced, Skip
    d = json.load(open(path)) if isinstance(path, str) else path
    mod, cases = load_cases(d['property'], d['tier'])
    case = [c for c in cases if c.name == d['case']][0]
    E = ConcEnv(d['values'], d['xs'], d['memo'], d['label'], d['tier'])
    E.how = how
    try:
        case.fn(E, **case.kw)
    except Reproduced as r:
        return dict(reproduced=True, label=r.label, detail=r.detail)
    except Skip:
        pass
    except Exception as e:
        label = 'exception:' + type(e).__name__
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        # a crash of the code under test on inputs it has to accept is a failure too, whatever was predicted
        crash = isinstance(e, (LookupError, TypeError, AttributeError, ArithmeticError, NameError)) and \
            any(f.filename.startswith(REPO_SRC) for f in traceback.extract_tb(e.__traceback__))
        return dict(reproduced=(label == d['label'] or crash), label=label, detail=tb, failed=E.failed)
    except BaseException as e:
        return dict(reproduced=False, label=repr(e), detail='')
    return dict(reproduced=False, label=None, detail='', failed=E.failed)


def isolated_replay(d, timeout=120):
    """Run a replay in a forked child: the solver library may crash, or loop, on the steered model.  Several ways of steering
    the solver to the recorded point are tried until one gives an answer."""
    import signal
    last = None
    for how in (0, 1, 2):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(timeout)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                try:
                    o = replay_file(d, how)
                except BaseException:
                    o = dict(reproduced=False, label='replay-error', detail=traceback.format_exc()[-1500:])
                os.write(w, json.dumps(o).encode())
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        try:
            last = json.loads(data.decode())
        except ValueError:
            last = last or dict(reproduced=False, label='replay-crash', detail='the solver library crashed')
            continue
        if last['reproduced'] or (d['label'] is None and last.get('label') is None and not last.get('failed')):
            return last
        if d['label'] is not None and last.get('label') is None and last.get('failed'):
            # another goal of the same property fails on the real code at the solver's counterexample
            return dict(last, reproduced=True, label=last['failed'][0][0], detail=str(last['failed'][0]))
    return last


def replay_main(path, quiet=False):
    prepare(False)
    if path == '-':
        out = []
        for d in json.load(sys.stdin):
            out.append(isolated_replay(d))
        sys.stdout.flush()
        print('\nREPLAY-RESULTS ' + json.dumps(out))
        return 0
    r = isolated_replay(json.load(open(path)))
    print(json.dumps(r, indent=1))
    return 1 if r['reproduced'] else 0


def replay_batch(recs, timeout=240):
    if not recs:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    try:
        pr = subprocess.run([PY, os.path.join(VERIF, 'run.py'), 'replay', '-'], input=json.dumps(recs), text=True,
                            capture_output=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return [dict(reproduced=False, label='replay-timeout', detail='') for _ in recs]
    for line in pr.stdout.splitlines()[::-1]:
        if line.startswith('REPLAY-RESULTS '):
            return json.loads(line[len('REPLAY-RESULTS '):])
    return [dict(reproduced=False, label='replay-crash', detail=(pr.stdout + pr.stderr)[-2000:]) for _ in recs]


def check_main(prop, tier, only=None, jobs=8, verbose=False):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prepare(True)
    mod, cases = load_cases(prop, tier)
    if only:
        cases = [c for c in cases if only in c.name]
    known = known_findings(prop)
    budget = 560 if tier == 'quick' else 5400
    deadline = t0 + budget
    args = []
    for c in cases:
        kl = [k['label'] for k in known if k['case'] == c.name]
        args.append((prop, c.name, tier, kl, deadline))
    results = []
    ctx = mp.get_context('fork')
    hard = deadline + 40
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        todo = {a[1]: pool.apply_async(_worker, (a,)) for a in args}
        while todo and time.time() < hard:
            done = [n for n, h in todo.items() if h.ready()]
            if not done:
                time.sleep(0.05)
                continue
            for n in done:
                r = todo.pop(n).get()
                results.append(r)
                if verbose:
                    print('  case %-50s %6.1fs paths=%s proves=%s viol=%s err=%s' % (
                        r['name'], r['wall'], r['stats'].get('paths'), r['stats'].get('prove_queries'),
                        [v['label'] for v in r['violations']], r['errors'][:1]), flush=True)
        for n in todo:
            results.append(dict(name=n, violations=[], known=[], witness=None, labels={}, stats={}, steps=0, functions=[],
                                wall=0, errors=['no answer in the time budget']))
        pool.terminate()
    results.sort(key=lambda r: r['name'])
    os.makedirs(EVID, exist_ok=True)
    errors, confirmed, knowns = [], [], []
    undecided = set()
    # --- replays
    recs, owner = [], []
    for r in results:
        for e in r['errors']:
            undecided.add(r['name'])
            errors.append('%s: %s' % (r['name'], e))
        for v in r['violations']:
            recs.append(dict(property=prop, tier=tier, case=r['name'], **v))
            owner.append('v')
        for v in r['known']:
            recs.append(dict(property=prop, tier=tier, case=r['name'], **v))
            owner.append('k')
        if r['witness'] and not r['violations']:
            recs.append(dict(property=prop, tier=tier, case=r['name'], label=None, detail='', **r['witness']))
            owner.append('w')
    outs = []
    chunks = [recs[i::jobs] for i in range(jobs)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        outc = list(ex.map(replay_batch, chunks))
    outs = [None] * len(recs)
    for i, ch in enumerate(outc):
        for j, o in enumerate(ch):
            outs[i + j * jobs] = o
    n_ok, n_bad, bad_samples = 0, 0, []
    n = 0
    rdir = os.path.join(EVID, 'replay')
    unrep = {}
    for rec, o, kind in zip(recs, outs, owner):
        if kind == 'w':
            if o and not o['reproduced'] and o.get('label') is None and not o.get('failed'):
                n_ok += 1
            else:
                n_bad += 1
                bad_samples.append((rec['case'], o))
            continue
        if o['reproduced']:
            rec['detail'] = o['detail']
            (confirmed if kind == 'v' else knowns).append(rec)
        else:
            unrep.setdefault((rec['case'], rec['label']), []).append(o)
    good = {(r['case'], r['label']) for r in confirmed + knowns}
    for k, os_ in unrep.items():
        if k not in good:
            undecided.add(k[0])
            errors.append('counterexample of %s/%s did not reproduce on the real code: %s' % (k[0], k[1], str(os_[0])[:500]))
    lines = []
    for rec in confirmed:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (prop, n))
        n += 1
        json.dump(rec, open(path, 'w'), indent=1)
        lines.append((rec, path))
    # --- evidence
    from . import sym
    st = sym.Stats()
    funcs = set()
    labels = {}
    for r in results:
        st.add(r['stats'])
        funcs.update(r['functions'])
        for l, k in r['labels'].items():
            labels[l] = labels.get(l, 0) + k
    meta = getattr(mod, 'META', {})
    cov = dict(
        states=st.paths, transitions=sum(r['steps'] for r in results), traces_validated_against_impl=n_ok,
        traces_not_validated=n_bad,
        samples=[dict(case=r['name'], witness=(r['witness'] or {}).get('values'), paths=r['stats'].get('paths'),
                      goals=sorted(r['labels'])[:12]) for r in results[:6]],
        meaning='states = feasible symbolic paths of the real code executed to the end; transitions = branch decisions '
                'taken on them by the solver; traces_validated = witnesses of cases re-run on the unpatched code with '
                'real floats and CBC, all goals holding',
        cases=len(results), cases_undecided=sorted(undecided), goals=labels, queries=dict(prove=st.prove_queries, discharged_by_simplifier=st.syntactic,
                                                       branch=st.branch_queries, reachability=st.reach_queries),
        solver_s=round(st.solver_s, 2), functions_encoded=sorted(funcs), bounds=meta.get('bounds', ''),
        outside=meta.get('outside', ''), errors=errors[:20], known_findings=len(knowns))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(meta.get('assumptions', [])) + COMMON, wall_s=round(time.time() - t0, 2),
              violations=len(lines))
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: cases=%d paths=%d goals proved=%d (simplifier %d) branch queries=%d solver=%.1fs wall=%.1fs '
          'witnesses validated=%d/%d' % (prop, tier, len(results), st.paths, st.prove_queries, st.syntactic,
                                         st.branch_queries, st.solver_s, time.time() - t0, n_ok, n_ok + n_bad))
    if verbose:
        for b in bad_samples[:10]:
            print('  witness not validated:', b[0], str(b[1])[:700])
    for rec in knowns:
        k = [x for x in known if x['case'] == rec['case'] and x['label'] == rec['label']][0]
        print('KNOWN-FINDING: property=%s %s [case %s, %s]' % (prop, k['what'], rec['case'], rec['label']))
    for rec, path in lines[:6]:
        print('  case %s goal %s: %s' % (rec['case'], rec['label'], rec['detail'].strip()[-400:]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for e in errors:
        print('INCONCLUSIVE property=%s case %s' % (prop, e[:1500]), file=sys.stderr)
    if undecided:
        print('%s: %d of %d cases undecided: %s' % (prop, len(undecided), len(results), ', '.join(sorted(undecided))[:600]))
    if lines:
        return 1
    # a case the encoding or the solver cannot decide is reported and left out of the claim; no decided case, no answer
    return 2 if len(undecided) >= len(results) else 0


COMMON = [
    'machine floats are modelled as real numbers (float literals as the exact rational they denote); results are compared '
    'with a tolerance of 1e-4',
    'the optimiser is replaced by its contract: an arbitrary point satisfying the variables bounds, constraints and special '
    'ordered sets that were handed to it; its duals are arbitrary numbers unless the case says otherwise',
    'column dtype checks of the input validator accept symbolic columns as float64',
    'pandas, numpy and python-mip behave on symbolic objects as on floats (checked on one witness per case)',
]

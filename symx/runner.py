"""Explores the cases of a property in parallel, replays counterexamples on the real code,
validates completed paths against it and writes the evidence."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GITDB_REPO', '/repo')
REALPY = '/opt/venv/bin/python'


def prepare():
    sys.path.insert(0, VERIF)
    from . import instr, vfs, models
    instr.install()
    vfs.register_smmap()
    import gitdb                # noqa
    # everything the harnesses import lazily
    for m in ('gitdb.pack', 'gitdb.stream', 'gitdb.fun', 'gitdb.util', 'gitdb.base', 'gitdb.db'):
        importlib.import_module(m)


class PathResult:
    __slots__ = ('status', 'alts', 'cexs', 'detail', 'witness', 'trail')


def run_path(case, prefix):
    """one symbolic path"""
    from . import core, models, vfs, zmodel, state
    from .core import E
    from .harness import H
    E.mode = case.get('mode', 'int')
    E.max_steps = case.get('max_steps', 4000)
    E.timeout_ms = case.get('timeout_ms', 20000)
    models.SHA1.reset()
    models.CRC32.reset()
    vfs.reset()
    state.reset()
    zmodel.Config.compressor = case.get('compressor', 'stored')
    zmodel.Config.shared = {}
    E.zcount = 0
    E.start(prefix)
    r = PathResult()
    r.status, r.detail, r.witness = 'done', None, None
    h = H()
    try:
        case['fn'](h, **case.get('params', {}))
        E.guard()
    except core.PathEnd as e:
        r.status = 'end'
        r.detail = str(e)
    except core.LoopLimit as e:
        r.status = 'loop'
        r.detail = str(e)
    except core.Unsupported as e:
        r.status = 'unsupported'
        r.detail = str(e)
    except vfs.Crash as e:
        r.status = 'unsupported'
        r.detail = 'crash outside crashable'
    except core.SxBug as e:
        r.status = 'bug'
        r.detail = 'engine: %s' % e
    except core.Control as e:
        r.status = 'unsupported'
        r.detail = repr(e)
    except Exception as e:
        a = E.aborting
        if a is not None:
            r.status = {'PathEnd': 'end', 'LoopLimit': 'loop'}.get(type(a).__name__, 'unsupported')
            r.detail = str(a)
        else:
            r.status = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            r.detail = '%s: %s [%s]' % (type(e).__name__, str(e)[:200], ' < '.join(
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:])))
    r.alts = E.alts
    r.cexs = [(c.label, c.detail if isinstance(c.detail, str) else None, c.inputs) for c in E.cexs]
    r.trail = h.trail
    if r.status == 'done' and E.pinned:
        r.status, r.detail = 'unsupported', 'only one value tried: ' + E.pinned
    E.aborting = None
    try:
        if r.status in ('loop', 'unsupported', 'exception', 'bug'):
            r.witness = E.witness()
    except BaseException:
        r.witness = None
    if r.status == 'done':
        E.stats.paths += 1
    elif r.status == 'end':
        E.stats.infeasible += 1
    elif r.status == 'loop':
        E.stats.looplimit += 1
    elif r.status == 'unsupported' or r.status == 'bug':
        E.stats.unsupported[r.detail] = E.stats.unsupported.get(r.detail, 0) + 1
    return r


def explore(case, prefix, slice_s, want_witness):
    """depth first from prefix for about slice_s seconds"""
    from .core import E, Stats
    E.stats = Stats()
    stack = [prefix]
    t0 = time.time()
    cexs, odd, wit = [], [], []
    while stack:
        p = stack.pop()
        r = run_path(case, p)
        stack.extend(r.alts)
        cexs.extend(r.cexs)
        if r.status in ('loop', 'unsupported', 'exception', 'bug'):
            odd.append((r.status, r.detail, r.witness))
        elif r.status == 'done' and len(wit) < want_witness:
            try:
                w = E.witness()
            except BaseException:
                w = None
            if w is not None:
                wit.append((w, list(r.trail)))
        if cexs or len(odd) > 20:
            break
        if time.time() - t0 > slice_s:
            break
    E.stop()
    return stack, E.stats, cexs, odd, wit


def worker(conn, cases):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(5000)
    sys.unraisablehook = lambda u: None         # destructors that run into a simulated crash
    while True:
        try:
            m = conn.recv()
        except EOFError:
            return
        if m is None:
            return
        ci, prefix, slice_s, ww = m
        try:
            out = explore(cases[ci], prefix, slice_s, ww)
        except MemoryError:
            out = None
        except BaseException as e:
            out = ('error', ''.join(traceback.format_exception(e))[-2000:])
        conn.send((ci, out))


class Real:
    """batches of jobs on the real code"""
    def __init__(self):
        self.time = 0.0
        self.n = 0

    def run(self, jobs, timeout=20):
        if not jobs:
            return []
        t = time.time()
        for i, j in enumerate(jobs):
            j['id'] = i
            j.setdefault('timeout', timeout)
        # spread over a few interpreters
        k = min(6, (len(jobs) + 3) // 4)
        parts = [jobs[i::k] for i in range(k)]
        procs = []
        for p in parts:
            pr = subprocess.Popen([REALPY, os.path.join(VERIF, 'symx', 'concrete.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/')
            procs.append((pr, p))
        import threading
        out = [None] * len(jobs)
        errs = []

        def feed(pr, p):
            o, e = pr.communicate(json.dumps(p).encode())
            for line in o.splitlines():
                try:
                    d = json.loads(line)
                    out[d['id']] = d
                except (ValueError, KeyError):
                    pass
            if pr.returncode != 0:
                errs.append(e[-600:].decode('utf-8', 'replace'))
        ts = [threading.Thread(target=feed, args=x) for x in procs]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        self.time += time.time() - t
        self.n += len(jobs)
        for i, o in enumerate(out):
            if o is None:
                out[i] = {'status': 'error', 'exc': errs[0] if errs else 'no answer'}
        return out


def bad(res, inputs):
    """does a result of the real code break the property?  (label, detail) or None"""
    if res['status'] == 'fail':
        return res['fails'][0][0], res['fails'][0][1]
    if res['status'] == 'exception':
        return 'no unexpected exception', '%s: %s at %s' % (res['exc'], res['msg'], ' < '.join(reversed(res['where'])))
    if res['status'] == 'hang' and sum(v['n'] for v in inputs.values() if isinstance(v, dict) and 'n' in v) < 1 << 22:
        # (more data than that may just take longer than the time limit)
        return 'terminates', 'still running after its time limit'
    return None


def load_known(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#') and not line.startswith('fixed:'):
                    out.append(json.loads(line))
    return out


def matches(entry, prop, case, label, inputs):
    """a known finding names the case, the failed obligation and the inputs that fail"""
    if entry['property'] != prop:
        return False
    if 'case' in entry and entry['case'] != case:
        return False
    if 'label' in entry and entry['label'] != label:
        return False
    for k, v in entry.get('inputs', {}).items():
        if inputs.get(k) != v:
            return False
    return True


def main(prop, tier, seed=1, only=None, verbose=False, level='model_checking', jobs=None):
    t0 = time.time()
    prepare()
    modname = prop.lower()
    mod = importlib.import_module('harness.' + modname)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c['name']]
    budget = float(os.environ.get('SX_BUDGET', 0)) or (getattr(mod, 'BUDGET', {}).get(tier) or
                                                     (240 if tier == 'quick' else 1500))
    nw = int(os.environ.get('SX_JOBS', 0)) or jobs or 8
    known = load_known(os.path.join(VERIF, 'known_findings.jsonl'))
    from .core import Stats
    real = Real()

    workers = []
    ctx = mp.get_context('fork')

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, cases), daemon=True)
        p.start()
        b.close()
        return [a, p, None]
    workers = [spawn() for _ in range(nw)]

    st = [Stats() for _ in cases]
    queue = [[] for _ in cases]
    for q in queue:
        q.append(())
    witnesses = [[] for _ in cases]
    odds = [[] for _ in cases]
    casestat = [{'t': 0.0, 'open': 0} for _ in cases]
    violations, unrepro, knownhits = [], [], {}
    seen_labels = {}
    pend_cex = []
    lost = 0
    rr = 0
    mode_stop = False
    wit_per_case = getattr(mod, 'WITNESSES', {}).get(tier, 4 if tier == 'quick' else 24)
    inflight = 0
    errors = []
    odd_tried = {}

    def handle_bad(ci, label, detail, inputs, kind):
        for k in known:
            if matches(k, prop, cases[ci]['name'], label, inputs):
                knownhits[k['what']] = knownhits.get(k['what'], 0) + 1
                return False
        violations.append({'case': cases[ci]['name'], 'label': label, 'detail': detail, 'inputs': inputs, 'kind': kind})
        return True

    def try_cexs(batch):
        nonlocal mode_stop
        js = [dict(cases[ci].get('real', {}), module=modname, case=cases[ci]['name'], tier=tier, inputs=inp)
              for ci, _, _, inp, _ in batch]
        for (ci, label, detail, inp, kind), res in zip(batch, real.run(js)):
            b = bad(res, inp)
            if b is None and kind == 'loop' and res.get('exc') == 'out of memory':
                b = 'terminates', 'memory runs out'
            if b is None:
                unrepro.append({'case': cases[ci]['name'], 'label': label, 'detail': detail, 'inputs': inp,
                                'real': res.get('status'), 'kind': kind})
                continue
            if handle_bad(ci, b[0], b[1] or detail, inp, kind):
                mode_stop = True

    while True:
        now = time.time()
        stop = mode_stop or now - t0 > budget
        # hand out work, least explored case first
        if not stop:
            for w in workers:
                if w[2] is None:
                    order = sorted((i for i in range(len(cases)) if queue[i]), key=lambda i: casestat[i]['t'] /
                                   cases[i].get('weight', 1.0))
                    if not order:
                        break
                    ci = order[0]
                    # shallow prefixes split best
                    k = min(range(len(queue[ci])), key=lambda j: len(queue[ci][j]))
                    p = queue[ci].pop(k)
                    big = sum(len(q) for q in queue) > 4 * nw
                    casestat[ci]['t'] += 0.01
                    w[0].send((ci, p, 3.0 if big else 0.4, 2 if len(witnesses[ci]) < wit_per_case else 0))
                    w[2] = (ci, p, now)
        busy = [w for w in workers if w[2] is not None]
        if not busy and (stop or not any(queue)):
            break
        if stop:
            if mode_stop or now - t0 > budget + 25:
                break
        ready = mp.connection.wait([w[0] for w in busy], timeout=1.0) if busy else []
        for w in workers:
            if w[0] in ready:
                ci, p, ts = w[2]
                w[2] = None
                casestat[ci]['t'] += time.time() - ts
                try:
                    _, out = w[0].recv()
                except (EOFError, OSError):
                    out = None
                if out is None or (isinstance(out, tuple) and out and out[0] == 'error'):
                    lost += 1
                    errors.append('%s: %s' % (cases[ci]['name'], out[1] if out else 'worker died'))
                    try:
                        w[1].kill()
                    except Exception:
                        pass
                    w[0], w[1], w[2] = spawn()
                    continue
                rest, s, cx, odd, wit = out
                queue[ci].extend(rest)
                st[ci].merge(s)
                witnesses[ci].extend(wit)
                batch = []
                for label, detail, inp in cx:
                    k = (ci, label)
                    n = seen_labels.get(k, 0)
                    if n >= (3 if (ci, label, 'r') in seen_labels else 12):
                        continue
                    seen_labels[k] = n + 1
                    batch.append((ci, label, detail, inp, 'solver'))
                for status, detail, inp in odd:
                    odds[ci].append((status, detail))
                    k = (ci, status, (detail or '')[:60])
                    n = odd_tried.get(k, 0)
                    if inp is not None and n < 4:
                        odd_tried[k] = n + 1
                        batch.append((ci, detail or status, detail, inp, status))
                if batch:
                    try_cexs(batch)
        for w in workers:
            # a worker stuck in the solver far beyond its slice
            if w[2] is not None and time.time() - w[2][2] > 180:
                lost += 1
                errors.append('%s: worker stuck' % cases[w[2][0]]['name'])
                w[1].kill()
                w[0], w[1], w[2] = spawn()
    for w in workers:
        try:
            if w[2] is None:
                w[0].send(None)
            else:
                w[1].kill()
        except Exception:
            pass
    t_explore = time.time() - t0
    left = sum(len(q) for q in queue) + sum(1 for w in workers if w[2] is not None)

    # validate completed paths against the real code
    validated = mismatch = 0
    mism = []
    wit_viol = []
    if not violations:
        batch, meta = [], []
        for ci, ws in enumerate(witnesses):
            for inp, trail in ws[:cases[ci].get('witnesses', wit_per_case)]:
                batch.append(dict(cases[ci].get('real', {}), module=modname, case=cases[ci]['name'], tier=tier, inputs=inp))
                meta.append((ci, inp, trail))
        for (ci, inp, trail), res in zip(meta, real.run(batch)):
            b = bad(res, inp)
            if b is not None:
                handle_bad(ci, b[0], b[1], inp, 'validation')
                continue
            if res['status'] == 'ok' and res['trail'] == trail:
                validated += 1
            else:
                mismatch += 1
                mism.append({'case': cases[ci]['name'], 'status': res['status'], 'real': res.get('trail'),
                             'model': trail, 'why': res.get('why') or res.get('exc'), 'inputs': inp})

    total = Stats()
    for s in st:
        total.merge(s)
    wall = time.time() - t0
    nodd = sum(len(o) for o in odds)
    exhausted = left == 0 and nodd == 0 and not violations and lost == 0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples = []
    for ci, ws in enumerate(witnesses):
        for inp, trail in ws[:1]:
            samples.append({'case': cases[ci]['name'], 'inputs': shorten(inp), 'reached': trail})
    fns = sorted(f for f in total.fns if f.startswith('gitdb/'))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'states': total.paths, 'transitions': total.decisions + total.paths,
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'exhaustive': bool(exhausted),
            'explanation': 'states = symbolic paths completed, each standing for every input that satisfies its path '
                           'condition; transitions = solver-decided branch points; an obligation is one SMT query over '
                           'all values of a path',
            'functions_encoded': fns,
            'cases': [{'name': c['name'], 'bounds': c.get('bounds', ''), 'mode': c.get('mode', 'int'),
                       'paths': s.paths, 'obligations': s.obligations, 'discharged': s.discharged,
                       'queries': s.queries, 'unexplored_prefixes': len(q),
                       'undecided': len(o), 'seconds': round(cs['t'], 1)}
                      for c, s, q, o, cs in zip(cases, st, queue, odds, casestat)],
            'obligations': total.obligations, 'discharged': total.discharged,
            'queries': total.queries, 'sat': total.sat, 'unsat': total.unsat, 'unknown': total.unknown,
            'solver_seconds': round(total.solver_time, 2),
            'infeasible_prefixes': total.infeasible, 'loop_limit_paths': total.looplimit,
            'unsupported': total.unsupported, 'unknown_obligations': total.unknown_obligations,
            'generic_distinctness_assumptions': total.assumed_distinct,
            'reached': total.reach,
            'unexplored_prefixes': left, 'lost_tasks': lost, 'errors': errors[:5],
            'replays_on_real_code': real.n, 'unreproduced_counterexamples': unrepro[:10],
            'validation_mismatches': mism[:10],
            'known_findings_hit': knownhits,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    if not os.environ.get('SX_NOEVIDENCE'):
        with open(evp + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(evp + '.tmp', evp)

    print('%s %s: %d cases, %d paths, %d obligations (%d discharged), %d queries, solver %.1fs, explore %.1fs, '
          'validated %d/%d, unexplored %d, undecided %d, wall %.1fs' %
          (prop, tier, len(cases), total.paths, total.obligations, total.discharged, total.queries,
           total.solver_time, t_explore, validated, validated + mismatch, left, nodd, wall))
    if verbose:
        for c, s, q, o, cs in zip(cases, st, queue, odds, casestat):
            print('  %-40s paths %5d obl %5d/%5d q %6d left %3d odd %3d  %.1fs' % (
                c['name'], s.paths, s.discharged, s.obligations, s.queries, len(q), len(o), cs['t']))
            for status, d in o[:3]:
                print('      %s: %s' % (status, d))
        for e in errors[:3]:
            print('  ERROR', e)
        for m in mism[:5]:
            print('  MISMATCH', json.dumps(m, default=str)[:600])
    for u in unrepro[:5 if verbose else 2]:
        print('  not reproduced on the real code: %s / %s (%s) %s' % (u['case'], u['label'], u['kind'],
                                                               json.dumps(shorten(u['inputs']), default=str)[:400] if verbose else ''))
    if total.unknown_obligations:
        print('  undecided obligations: %s' % total.unknown_obligations)
    if total.unsupported and not verbose:
        print('  unsupported: %s' % dict(list(total.unsupported.items())[:4]))
    if left:
        print('  time budget of %ds used up: %d prefixes unexplored' % (budget, left))
    for k in known:
        if k['property'] == prop and k['what'] in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        v = violations[0]
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        import hashlib
        tag = hashlib.sha1(json.dumps([v['case'], v['label'], v['inputs']], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (prop, tag))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'module': modname, 'tier': tier, **v}, f, indent=1, default=str)
        print('  case   %s' % v['case'])
        print('  broken %s (%s)' % (v['label'], v['detail']))
        print('  inputs %s' % json.dumps(shorten(v['inputs']), default=str)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def shorten(inp):
    out = {}
    for k, v in list(inp.items())[:40]:
        if isinstance(v, str) and len(v) > 120:
            v = v[:120] + '...'
        if isinstance(v, dict) and len(v.get('p', ())) > 16:
            v = {'n': v['n'], 'p': v['p'][:16] + ['...']}
        out[k] = v
    return out


COMMON = [
    'CPython semantics of the operations the code performs are those of the runtime models in symx/ (ints, ropes, '
    'models, zmodel, vfs); completed paths are sampled and re-run on the real interpreter and code',
    'checksums (sha1, crc32) are collision free',
    'z3 5.3 decides the queries correctly; an unknown answer counts as undecided, never as held',
]

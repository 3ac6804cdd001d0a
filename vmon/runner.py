"""
Check runner.

A property module (vmon/props/<id>.py) provides

    cases(tier)        -> list of JSON-able dicts describing workloads (no randomness: the
                          runner adds 'seed' and 'idx', from which ctx.rng is derived)
    run(case, ctx)     -> drives the code under test, reporting to ctx
    REQUIRED           -> {monitor name: minimal number of evaluations}
    RULE               -> what a case is and what makes one non-trivial
    KNOWN              -> optional {key: function(ctx)} probes for recorded findings

A case that burns CPUMAX seconds of processor time (cases take well under a second to a few
seconds) or exceeds MEMMAX bytes breaks the monitor 'progress' of every property: the operation
it drives does not terminate.  Wall-clock time alone never decides.

Verdicts: 0 held, 1 violated, 2 inconclusive (time-outs, monitors never reached, harness trouble).
"""
import argparse, hashlib, importlib, json, multiprocessing as mp, os, signal, sys, time, traceback

HOME = os.environ.get('VMON_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


CPUMAX = int(os.environ.get('VMON_CPUMAX', '60'))
FAILFAST = bool(os.environ.get('VMON_FAILFAST'))     # development: stop at the first violation
MEMMAX = 6 << 30


class CaseTimeout(BaseException):
    pass


class NoProgress(BaseException):
    pass


class Skip(Exception):
    """Raised by a workload whose generated input turned out not to be a valid one."""


class Ctx(object):
    MAXV = 6

    def __init__(self, case):
        import numpy as np
        self.case = case
        self.rng = np.random.default_rng([int(case['seed']), int(case['idx']), 77])
        self.counts = {}
        self.violations = []
        self.sigs = set()
        self.sample_note = None
        self.stats = {}

    # ----- monitors
    def tick(self, monitor, n=1):
        self.counts[monitor] = self.counts.get(monitor, 0) + n

    def ok(self, monitor, cond, detail=''):
        """One evaluation of a monitor: cond must be true."""
        self.tick(monitor)
        if not bool(cond):
            if len(self.violations) < self.MAXV:
                if callable(detail):
                    detail = detail()
                self.violations.append({'monitor': monitor, 'detail': str(detail)[:1500]})
            return False
        return True

    def close(self, monitor, a, b, tol=1e-9, detail='', scale=None):
        """|a-b| <= tol*scale elementwise, same shapes, all finite."""
        import numpy as np
        self.tick(monitor)
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        good = a.shape == b.shape
        err = None
        if good and a.size:
            if scale is None:
                scale = max(1.0, float(np.max(np.abs(b))))
            with np.errstate(all='ignore'):
                err = float(np.max(np.abs(a - b)))
            good = bool(np.isfinite(err)) and err <= tol * scale
        if not good and len(self.violations) < self.MAXV:
            if callable(detail):
                detail = detail()
            self.violations.append({'monitor': monitor, 'detail':
                '%s: shapes %s/%s err %s (tol %g*%s) got %s want %s' %
                (detail, a.shape, b.shape, err, tol, scale,
                 str(a.ravel()[:8]), str(b.ravel()[:8]))})
        return good

    def raises(self, monitor, fn, exc=Exception, detail=''):
        self.tick(monitor)
        try:
            fn()
        except exc:
            return True
        if len(self.violations) < self.MAXV:
            self.violations.append({'monitor': monitor, 'detail': 'no error raised: ' + str(detail)})
        return False

    # ----- coverage
    def sig(self, *parts):
        """Register a distinct non-trivial case signature."""
        h = hashlib.sha1(repr(parts).encode()).hexdigest()[:16]
        self.sigs.add(h)

    def stat(self, name, value=1):
        self.stats[name] = self.stats.get(name, 0) + value

    def note(self, text):
        self.sample_note = str(text)[:600]


def _alarm(signum, frame):
    raise CaseTimeout()


def _cpu(signum, frame):
    raise NoProgress()


_MOD = None
_LINES = set()      # (file, line) of the code under test executed in this process since last reported


def _watch():
    """Record the executed lines of the code under test (for the evidence file; no influence on verdicts)."""
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    import mesh
    src = os.path.dirname(os.path.abspath(mesh.__file__)) + os.sep
    tool = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tool, 'vmon')
    except ValueError:
        return

    def start(code, offset):
        if code.co_filename.startswith(src):
            mon.set_local_events(tool, code, mon.events.LINE)
        return mon.DISABLE

    def line(code, number):
        _LINES.add((code.co_filename[len(src):], number))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.register_callback(tool, mon.events.LINE, line)
    mon.set_events(tool, mon.events.PY_START)


def _execute(case):
    ctx = Ctx(case)
    t0 = time.time()
    status = 'ok'
    err = ''
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu)
    signal.alarm(int(case.get('timeout', 400)))
    signal.setitimer(signal.ITIMER_PROF, case.get('cpumax', CPUMAX))
    try:
        if case.get('known'):
            _MOD.KNOWN[case['known']](ctx)
        else:
            _MOD.run(case, ctx)
    except CaseTimeout:
        status = 'timeout'
    except Skip as e:
        status = 'skip'
        err = str(e)
    except NoProgress:
        ctx.tick('progress')
        ctx.violations.append({'monitor': 'progress', 'detail': 'no answer within %s s of processor time' %
                               case.get('cpumax', CPUMAX)})
    except MemoryError:
        ctx.tick('progress')
        ctx.violations.append({'monitor': 'progress', 'detail': 'memory exhausted (%d bytes)' % MEMMAX})
    except RecursionError:
        ctx.violations.append({'monitor': 'no-crash', 'detail': 'RecursionError'})
    except Exception:
        tb = traceback.format_exc()
        ctx.tick('no-crash')
        ctx.violations.append({'monitor': 'no-crash', 'detail': tb[-1800:]})
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    lines = sorted(_LINES)
    _LINES.clear()
    return {'idx': case['idx'], 'lines': lines, 'status': status, 'err': err, 'counts': ctx.counts,
            'violations': ctx.violations, 'sigs': sorted(ctx.sigs), 'note': ctx.sample_note,
            'stats': ctx.stats, 'wall': time.time() - t0}


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEMMAX, MEMMAX))
    try:
        _watch()
    except Exception:
        pass


def _known_findings():
    path = os.path.join(HOME, 'known_findings.json')
    try:
        with open(path) as f:
            return json.load(f).get('findings', [])
    except FileNotFoundError:
        return []


def _write_replay(pid, case, violations):
    d = os.path.join(HOME, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps({'property': pid, 'case': case, 'violations': violations}, indent=1, default=str)
    path = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(blob.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(blob)
    return path


def main():
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VMON_JOBS', '8')))
    ap.add_argument('--only', default=None, help='substring of the case kind')
    ap.add_argument('--slow', action='store_true')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.selftest:
        import mesh, fem, function, assembler, solver, spd, gmrf  # noqa
        os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
        print('ready')
        return 0
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    if args.seed is not None:
        seed = args.seed
    else:
        try:
            seed = abs(int(os.environ.get('VERIF_SEED', '1')))
        except ValueError:
            seed = int(hashlib.sha1(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    pid = args.pid
    t0 = time.time()
    try:
        import numpy  # noqa
        _MOD = importlib.import_module('vmon.props.' + pid.lower())
    except Exception:
        # the code under test (or the harness) cannot be loaded: no verdict
        traceback.print_exc()
        print('INCONCLUSIVE property=%s cannot load' % pid)
        return 2

    if args.replay:
        if not os.path.exists(args.replay):
            args.replay = os.path.join(HOME, args.replay)
        with open(args.replay) as f:
            case = json.load(f)['case']
        r = _execute(case)
        print(json.dumps(r, indent=1, default=str))
        return 1 if r['violations'] else (0 if r['status'] in ('ok', 'skip') else 2)

    cases = [dict(c) for _ in range(getattr(_MOD, 'REPEAT', 3 if tier == 'quick' else 1)) for c in _MOD.cases(tier)]
    for i, c in enumerate(cases):
        c['idx'] = i
        c['seed'] = seed
        c.setdefault('timeout', 400)
    known = [k for k in _known_findings() if k['property'] == pid]
    kcases = []
    for j, k in enumerate(known):
        kcases.append({'idx': 100000 + j, 'seed': seed, 'known': k['key'], 'timeout': 400})
    if args.only:
        cases = [c for c in cases if args.only in json.dumps(c)]
    budget = 780 if tier == 'thorough' else 420

    results = []
    nviol = 0
    ctxm = mp.get_context('fork')
    order = sorted(cases, key=lambda c: -c.get('weight', 1))
    unfinished = 0
    pool = ctxm.Pool(args.jobs, initializer=_limit, maxtasksperchild=40)
    try:
        it = pool.imap_unordered(_execute, order + kcases, chunksize=1)
        n = len(order) + len(kcases)
        while len(results) < n:
            left = budget - (time.time() - t0)
            if FAILFAST and nviol or nviol >= 12 and time.time() - t0 > 90 or nviol and time.time() - t0 > 240:
                # enough violations recorded: report them
                unfinished = n - len(results)
                break
            try:
                results.append(it.next(timeout=max(min(left, 20), 0.01)))
                if results[-1]['violations'] and results[-1]['idx'] < 100000:
                    nviol += 1
            except mp.TimeoutError:
                if time.time() - t0 < budget:
                    continue
                unfinished = n - len(results)
                break
            except StopIteration:
                break
    finally:
        pool.terminate()
        pool.join()

    by_idx = {c['idx']: c for c in cases + kcases}
    counts, stats, sigs = {}, {}, set()
    viols, problems, samples = [], [], []
    skipped = executed = 0
    findings = {k['key']: k for k in known}
    reproduced = {}
    for r in sorted(results, key=lambda r: r['idx']):
        case = by_idx[r['idx']]
        if case.get('known'):
            if r['violations']:
                reproduced[case['known']] = r['violations'][0]['detail']
            continue
        if r['status'] in ('timeout', 'error'):
            problems.append('case %d %s %s %s' % (r['idx'], case.get('kind'), r['status'], r['err']))
        if r['status'] == 'skip':
            skipped += 1
        else:
            executed += 1
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        sigs.update(r['sigs'])
        if r['note'] and len(samples) < 8:
            samples.append('case %d (%s): %s' % (r['idx'], case.get('kind'), r['note']))
        if r['violations']:
            viols.append((case, r['violations']))
    for key, k in findings.items():
        if key in reproduced:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    missing = []
    if not args.only:
        for m, least in getattr(_MOD, 'REQUIRED', {}).items():
            if counts.get(m, 0) < least:
                missing.append('%s: %d < %d' % (m, counts.get(m, 0), least))
    lines = {}
    for r in results:
        for f, n in r['lines']:
            lines.setdefault(f, set()).add(n)
    if os.environ.get('VMON_LINES'):
        with open(os.environ['VMON_LINES'], 'w') as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    wall = time.time() - t0
    total = sum(counts.values())
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': executed,
            'distinct_nontrivial': len(sigs),
            'rule': _MOD.RULE,
            'samples': samples or ['none'],
            'monitor_evaluations': dict(sorted(counts.items())),
            'observed': dict(sorted(stats.items())),
            'cases_skipped_as_invalid_input': skipped,
            'cases_unfinished': unfinished,
            'lines_of_code_under_test_executed': {k: len(v) for k, v in sorted(lines.items())},
        },
        'assumptions': list(getattr(_MOD, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }
    if not args.only:
        os.makedirs(os.path.join(HOME, 'evidence'), exist_ok=True)
        tmp = os.path.join(HOME, 'evidence', '.%s.tmp' % pid)
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(tmp, os.path.join(HOME, 'evidence', pid + '.json'))
    if args.v or args.slow:
        for k in sorted(counts):
            print('   monitor %-40s %d' % (k, counts[k]))
        for k in sorted(stats):
            print('   observed %-39s %s' % (k, stats[k]))
    if args.slow:
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print('   %.2fs case %s %s' % (r['wall'], r['idx'], by_idx[r['idx']]))
    print('%s %s seed=%d: %d cases (%d skipped, %d unfinished), %d distinct non-trivial, '
          '%d monitor evaluations, %.1fs' %
          (pid, tier, seed, executed, skipped, unfinished, len(sigs), total, wall))
    if viols:
        shown = set()
        for case, vs in viols[:40]:
            key = tuple(sorted({v['monitor'] for v in vs}))
            if key in shown or len(shown) > 8:
                continue
            shown.add(key)
            path = _write_replay(pid, case, vs)
            for v in vs[:2]:
                print('  [%s] %s' % (v['monitor'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if problems or missing or (unfinished and not executed):
        for p in problems[:10]:
            print('  inconclusive: ' + p)
        for m in missing:
            print('  inconclusive: monitor not reached often enough: ' + m)
        print('INCONCLUSIVE property=%s' % pid)
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)

"""Entry point of the checks. See run.sh."""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

HOME = Path(os.environ['VERIF_HOME'])
REPO = Path(os.environ['VERIF_REPO'])


def seed_globals(case):
    """Make global random state a function of the case alone."""
    import random

    import numpy as np

    from pbt.core import case_key

    key = int(case_key('globals', case)[:8], 16)
    random.seed(key)
    np.random.seed(key)


def prepare(scratch):
    """Isolated environment for `import pelicun`; returns nothing."""
    dlml = scratch / 'dlml'
    dlml.mkdir()
    (dlml / 'model_files.txt').write_text('')
    (dlml / '.dlml_cache.json').write_text(
        '{"last_version_check": "2999-01-01T00:00:00"}'
    )
    os.environ['DLML_DATA_DIR'] = str(dlml)
    os.environ['TMPDIR'] = str(scratch)
    tempfile.tempdir = str(scratch)
    work = scratch / 'work'
    work.mkdir()
    os.chdir(work)
    from pbt import deps

    local = HOME / '.deps'
    where = str(local) if local.is_dir() else str(scratch / 'deps')
    os.environ['VERIF_DEPS'] = where
    deps.ensure(where)
    import numpy
    import pandas
    import scipy.stats  # noqa: F401

    # never use compiled files left behind by an earlier state of the tree
    sys.pycache_prefix = str(scratch / 'pyc')
    numpy.seterr(all='ignore')
    import warnings

    warnings.simplefilter('ignore')
    import pelicun

    where = Path(pelicun.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise RuntimeError(f'pelicun is imported from {where}')
    import pelicun.assessment  # noqa: F401

    warnings.simplefilter('ignore')
    pandas.options.mode.chained_assignment = None


class Worker:
    """Runs the sub-checks of one property with one seed."""

    def __init__(self, subs, tier, seed, share, deadline):
        self.subs = subs
        self.tier = tier
        self.seed = seed
        self.share = share
        self.deadline = deadline
        self.out = {
            'evaluations': {}, 'nontrivial': [], 'tags': {}, 'samples': [],
            'discarded': 0, 'cut': 0, 'failures': [], 'errors': [],
        }

    def run_one(self, sub, case):
        """Evaluate a case. Returns None or the failure text."""
        from pbt.core import Discard, Violation, case_key, describe_exception

        try:
            seed_globals(case)
            info = sub.fn(case)
        except Discard:
            self.out['discarded'] += 1
            return None
        except Violation as exc:
            return str(exc)
        except (MemoryError, KeyboardInterrupt):
            raise
        except OSError as exc:
            if exc.errno in (28, 24, 12, 23):
                raise
            return describe_exception(exc)
        except Exception as exc:  # the code under test failed on a valid case
            return describe_exception(exc)
        finally:
            self.out['evaluations'][sub.name] = (
                self.out['evaluations'].get(sub.name, 0) + 1
            )
        info = info or {}
        for t in info.get('tags', ()):
            k = f'{sub.name}:{t}'
            self.out['tags'][k] = self.out['tags'].get(k, 0) + 1
        if info.get('nontrivial', True):
            self.out['nontrivial'].append(case_key(sub.name, case))
            mine = [s for s in self.out['samples'] if s['check'] == sub.name]
            if len(mine) < 2:
                self.out['samples'].append({'check': sub.name, 'case': case})
        return None

    def run_sub(self, sub):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.errors import HypothesisException

        n = sub.quick * (2 if sub.quick > 8 else 1) if self.tier == 'quick' \
            else sub.thorough
        n = max(1, -(-n // self.share))
        state = {'best': None, 'failed_at': None}

        class Found(Exception):
            pass

        def body(case):
            now = time.monotonic()
            if state['failed_at'] is not None and now > state['failed_at'] + 40:
                return
            if now > self.deadline and state['failed_at'] is None:
                self.out['cut'] += 1
                return
            msg = self.run_one(sub, case)
            if msg is not None:
                if state['failed_at'] is None:
                    state['failed_at'] = time.monotonic()
                size = len(json.dumps(case, default=str))
                if state['best'] is None or size <= state['best'][0]:
                    state['best'] = (size, case, msg)
                raise Found

        s = int(hashlib.sha256(
            f'{self.seed}|{sub.name}'.encode()).hexdigest()[:12], 16)
        test = hypothesis.seed(s)(
            settings(
                max_examples=n, database=None, deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False, print_blob=False,
            )(given(sub.strategy)(body))
        )
        try:
            test()
        except Found:
            pass
        except (HypothesisException, BaseExceptionGroup) as exc:
            if state['best'] is None:
                raise
            del exc
        except AssertionError:
            if state['best'] is None:
                raise
        if state['best'] is not None:
            _, case, msg = state['best']
            self.out['failures'].append(
                {'check': sub.name, 'case': case, 'message': msg})

    def run(self):
        t0 = time.monotonic()
        total = max(1.0, self.deadline - t0)
        full = self.deadline
        for i, sub in enumerate(self.subs):
            # no sub-check may use up the time of the ones after it
            rest = len(self.subs) - i
            now = time.monotonic()
            self.deadline = now + max((full - now) / rest * 1.6, total * 0.04)
            self.deadline = min(self.deadline, full)
            try:
                self.run_sub(sub)
            except BaseException as exc:  # noqa: BLE001
                self.out['errors'].append(
                    f'{sub.name}: {type(exc).__name__}: {exc}\n'
                    + traceback.format_exc()[-3000:])
        return self.out


def load(pid):
    return importlib.import_module(f'pbt.prop_{pid.lower()}')


def known_findings(pid):
    out = []
    path = HOME / 'known_findings.txt'
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('open: ') and f'property={pid} ' in line + ' ':
                key = line.split('key=', 1)[1].split()[0]
                out.append((key, line.split('key=' + key, 1)[1].strip()))
    return out


def replay(pid, path, mod):
    from pbt.core import Violation, describe_exception

    data = json.loads(Path(path).read_text())
    sub = {s.name: s for s in mod.SUBS}[data['check']]
    try:
        seed_globals(data['case'])
        sub.fn(data['case'])
    except Violation as exc:
        print(f'{data["check"]}: {exc}')
    except Exception as exc:  # noqa: BLE001
        print(f'{data["check"]}: {describe_exception(exc)}')
        traceback.print_exc()
    else:
        print('the case passes')
        return 0
    print(f'VIOLATION property={pid} replay={path}')
    return 1


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = 'quick'
    if args and args[0] in {'quick', 'thorough'}:
        tier = args[0]
    elif os.environ.get('VERIF_TIER') in {'quick', 'thorough'}:
        tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.monotonic()
    scratch = Path(tempfile.mkdtemp(prefix=f'verif_{pid}_')).resolve()
    code = 2
    try:
        replay_path = None
        if args and args[0] == '--replay':
            replay_path = str(Path(args[1]).resolve())
        prepare(scratch)
        mod = load(pid)
        if replay_path:
            code = replay(pid, replay_path, mod)
        else:
            only = args[args.index('--only') + 1] if '--only' in args else None
            code = check(pid, mod, tier, seed, scratch, t0, only)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def check(pid, mod, tier, seed, scratch, t0, only):
    subs = [s for s in mod.SUBS if only is None or s.name == only]
    budget = (1.5 * getattr(mod, 'QUICK_S', 60) if tier == 'quick'
              else getattr(mod, 'THOROUGH_S', 720))
    if os.environ.get('VERIF_BUDGET'):
        budget = float(os.environ['VERIF_BUDGET'])
    jobs = int(os.environ.get('VERIF_JOBS', getattr(mod, 'JOBS', 8)))
    deadline = time.monotonic() + budget
    pids = {}
    results = []
    for w in range(jobs):
        out = scratch / f'worker{w}.json'
        child = os.fork()
        if child == 0:
            rc = 1
            try:
                wd = scratch / f'w{w}'
                wd.mkdir()
                os.chdir(wd)
                log = open(scratch / f'worker{w}.log', 'w')
                os.dup2(log.fileno(), 1)
                os.dup2(log.fileno(), 2)
                res = Worker(subs, tier, f'{seed}|{w}', jobs, deadline).run()
                out.write_text(json.dumps(res, default=str))
                rc = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        pids[child] = w
    errors = []
    hard = deadline + 150
    alive = dict(pids)
    while alive:
        done, status = os.waitpid(-1, os.WNOHANG)
        if done == 0:
            if time.monotonic() > hard:
                for p in alive:
                    os.kill(p, signal.SIGKILL)
                errors.append(f'workers {sorted(alive.values())} did not finish')
                break
            time.sleep(0.05)
            continue
        if done not in alive:
            continue
        w = alive.pop(done)
        f = scratch / f'worker{w}.json'
        if f.exists():
            results.append(json.loads(f.read_text()))
        else:
            log = (scratch / f'worker{w}.log')
            tail = log.read_text()[-2500:] if log.exists() else ''
            errors.append(f'worker {w} ended with status {status}\n{tail}')
    evals = {}
    tags = {}
    keys = set()
    samples = []
    failures = []
    discarded = cut = 0
    for r in results:
        for k, v in r['evaluations'].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r['tags'].items():
            tags[k] = tags.get(k, 0) + v
        keys.update(r['nontrivial'])
        discarded += r['discarded']
        cut += r['cut']
        failures += r['failures']
        errors += r['errors']
        for s in r['samples']:
            if sum(x['check'] == s['check'] for x in samples) < 2:
                samples.append(s)
    # known findings: re-run their fixed inputs
    probes = getattr(mod, 'KNOWN', {})
    for key, what in known_findings(pid):
        if key in probes and probes[key]():
            print(f'KNOWN-FINDING: property={pid} {what}')
    # shortest failing case of each sub-check
    best = {}
    for f in failures:
        size = len(json.dumps(f['case'], default=str))
        if f['check'] not in best or size < best[f['check']][0]:
            best[f['check']] = (size, f)
    code = 0
    for name in sorted(best):
        f = best[name][1]
        d = HOME / 'replays'
        d.mkdir(exist_ok=True)
        path = d / f'{pid}_{name}.json'
        path.write_text(json.dumps(f, indent=1, default=str))
        print(f'{name}: {f["message"]}')
        print(f'VIOLATION property={pid} replay={path}')
        code = 1
    samples_txt = []
    for s in samples:
        txt = json.dumps(s['case'], default=str)
        samples_txt.append(
            {'check': s['check'],
             'case': s['case'] if len(txt) < 1500 else txt[:1500] + '...'})
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(evals.values()),
            'distinct_nontrivial': len(keys),
            'rule': getattr(mod, 'RULE', ''),
            'samples': samples_txt,
            'evaluations_by_check': evals,
            'classes': dict(sorted(tags.items())),
            'discarded': discarded,
            'not_run_for_time': cut,
            'workers': jobs,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(best),
    }
    (HOME / 'evidence').mkdir(exist_ok=True)
    (HOME / 'evidence' / f'{pid}.json').write_text(json.dumps(evidence, indent=1))
    print(
        f'{pid} {tier} seed={seed}: {sum(evals.values())} cases, '
        f'{len(keys)} distinct non-trivial, {discarded} discarded, {cut} not run '
        f'for time, {len(best)} violated, {evidence["wall_s"]} s')
    if code == 0 and errors:
        for e in errors[:3]:
            print(e, file=sys.stderr)
        return 2
    if code == 0 and not keys:
        print('no non-trivial case was run', file=sys.stderr)
        return 2
    return code


if __name__ == '__main__':
    main()

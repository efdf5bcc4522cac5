"""C26: updates of the damage and loss model library."""
from __future__ import annotations

import contextlib
import io
import json
import os
import sys
import tempfile
import warnings
from datetime import datetime, timedelta
from pathlib import Path

from hypothesis import strategies as st

from pbt import hub as H
from pbt.core import Sub, Violation, require

RULE = ('A case counts when at least two updates succeed and one of them goes to another '
        'commit, fails, is interrupted, or finds damaged files.')
ASSUMPTIONS = [
    'files that were damaged locally are not repaired by a cached update to the commit that '
    'is already recorded (--no-cache repairs them)',
    'when only the tag of a release is not available, target_commitish names a commit',
]
QUICK_S = 40

NAMES = ['a.csv', 'b.json', 'seismic/fragility.csv', 'seismic/data sources/c 1.csv',
         'wind/d#2.csv', 'wind/e%20f.csv', 'flood/g&h.json', 'i+j.txt', 'k.md']
MANIFEST = 'model_files.txt'
CACHE = '.dlml_cache.json'
_hub = None


def hub():
    global _hub
    if _hub is None or _hub[0] != os.getpid():
        _hub = (os.getpid(), H.Hub())
    return _hub[1]


@st.composite
def histories(draw, bulk=None):
    n = draw(st.integers(2, 6))
    commits = []
    content = st.integers(0, 6).map(
        lambda i: f'v{i}\n' * {5: 501, 6: 7000}.get(i, 1))
    for i in range(n):
        files = {}
        for name in draw(st.lists(st.sampled_from(NAMES), unique=True,
                                  min_size=2 if i == 0 else 0, max_size=7)):
            files[name] = name + draw(content) if i == 0 or draw(st.integers(0, 4)) else None
        if i and draw(st.integers(0, 29)) == 0:
            k = draw(st.sampled_from([299, 300, 301, 320]))
            files.update({f'many/{j:03d}.txt': f'{i}' for j in range(k)})
        parent = None
        if i:
            parent = draw(st.sampled_from([i - 1] * 3 + list(range(i))))
        commits.append({
            'parent': parent,
            'files': files,
            'renames': draw(st.lists(st.tuples(
                st.sampled_from(NAMES), st.sampled_from(NAMES)), max_size=1)) if i else [],
            'unlisted': draw(st.lists(st.sampled_from(NAMES), max_size=1)),
            'comments': draw(st.booleans()),
            'reverse': draw(st.booleans()),
        })
    tags = []
    for i in range(draw(st.integers(1, 4))):
        tags.append({
            'name': draw(st.sampled_from(['v1.0.0', 'v1.2.0', 'v1.10.0', '2.0', 'beta'])),
            'commit': draw(st.integers(0, n - 1)),
            'annotated': draw(st.booleans()),
            'branch': draw(st.booleans()),
        })
    tags = list({t['name']: t for t in tags}.values())
    target = st.one_of(
        st.just('latest'), st.just('latest'),
        st.integers(0, len(tags) - 1).map(lambda i: tags[i]['name']),
        st.integers(0, n - 1).map(lambda i: 'commit ' + H.sha(i)[:7]),
        st.just('commit latest'),
        st.sampled_from(['v9.9', 'commit 0000000', 'commit xyz', 'commit ABCDEF']),
    )
    fault = st.tuples(st.integers(0, 12), st.sampled_from([500, 404, 429, 'drop', 'cut']))
    ops = []
    for _ in range(draw(st.integers(3, 10))):
        kind = draw(st.sampled_from(
            ['update'] * 6 + ['crash'] * 2 + ['damage', 'damage', 'cache', 'publish', 'push',
                                              'check', 'check', 'day']))
        if kind == 'update':
            ops.append([kind, draw(target), draw(st.integers(0, 4)) > 0,
                        draw(st.one_of(st.none(), st.none(), fault))])
        elif kind == 'crash':
            ops.append([kind, draw(target), draw(st.integers(0, 4)) > 0,
                        draw(st.integers(1, 250))])
        elif kind == 'damage':
            ops.append([kind, draw(st.integers(0, 20)),
                        draw(st.sampled_from(['delete', 'change', 'empty', 'first', 'last']))])
        elif kind == 'cache':
            ops.append([kind, draw(st.sampled_from(
                ['delete', 'cut', 'list', 'binary', 'empty', 'number']))])
        elif kind == 'publish':
            ops.append([kind, draw(st.integers(0, len(tags) - 1))])
        elif kind == 'push':
            ops.append([kind, draw(st.integers(0, n - 1))])
        elif kind == 'check':
            ops.append([kind, draw(st.one_of(st.none(), st.none(), fault))])
        else:
            ops.append([kind])
    return {'commits': commits, 'tags': tags, 'ops': ops, 'cli': draw(st.booleans()),
            'latest': draw(st.integers(0, len(tags) - 1))}


@st.composite
def repairs(draw):
    """Damage between two updates."""
    text = st.tuples(st.integers(0, 9), st.sampled_from([1, 30, 4000, 9000])).map(
        lambda t: f'v{t[0]}\n' * t[1])
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=3, max_size=6))
    first = {n: n + draw(text) for n in names}
    second = {n: draw(st.one_of(st.none(), text)) for n in names[:draw(st.integers(1, 2))]}
    commit = {'renames': [], 'unlisted': [], 'comments': False, 'reverse': False}
    back = draw(st.booleans())
    ids = [H.sha(1)[:7], H.sha(0)[:7]] if back else [H.sha(0)[:7], H.sha(1)[:7]]
    ops = [['update', 'commit ' + ids[0], True, None]]
    ops += [['damage', draw(st.integers(0, 20)), draw(st.sampled_from(
        ['delete', 'change', 'empty', 'first', 'first', 'last', 'last']))]
        for _ in range(draw(st.integers(1, 3)))]
    ops.append(['update', 'commit ' + ids[1], True, None])
    return {'commits': [{'parent': None, 'files': first, **commit},
                        {'parent': 0, 'files': second, **commit}],
            'tags': [{'name': 'v1', 'commit': 0, 'annotated': False, 'branch': False}],
            'ops': ops, 'cli': draw(st.booleans()), 'latest': 0}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(
            io.StringIO()), warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        yield seen


@contextlib.contextmanager
def place(his):
    old = dict(os.environ)
    h = hub()
    h.history = his
    with tempfile.TemporaryDirectory() as tmp:
        os.environ.update({
            'PELICUN_GITHUB_API_URL': h.url, 'PELICUN_GITHUB_RAW_URL': h.url,
            'DLML_REPO_OWNER': H.OWNER, 'DLML_REPO_NAME': H.NAME,
            'DLML_DATA_DIR': tmp + '/library', 'NO_PROXY': '*'})
        os.environ.pop('GITHUB_TOKEN', None)
        try:
            yield h, Path(tmp) / 'library'
        finally:
            os.environ.clear()
            os.environ.update(old)


def crashing(fn, k):
    """Run `fn` in a child that dies at the k-th line of the module under test."""
    from pelicun.tools import dlml

    name = dlml.__file__
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            count = 0

            def lines(frame, event, _arg):
                nonlocal count
                if event == 'line':
                    count += 1
                    if count >= k:
                        os._exit(99)
                return lines

            def calls(frame, _event, _arg):
                return lines if frame.f_code.co_filename == name else None

            sys.settrace(calls)
            try:
                fn()
                code = 0
            except RuntimeError:
                code = 3
            sys.settrace(None)
        except BaseException as e:
            os.write(w, f'{type(e).__name__}: {e}'.encode()[:500])
            code = 4
        os._exit(code)
    os.close(w)
    text = os.read(r, 1000).decode()
    os.close(r)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if code == 4:
        raise Violation(f'update raised {text}')
    return {0: 'done', 3: 'failed'}.get(code, 'crashed')


def content(folder):
    return {str(p.relative_to(folder)): p.read_bytes() for p in folder.rglob('*')
            if p.is_file() and p.name not in (CACHE, MANIFEST + '.part')
            } if folder.exists() else {}


class Model:
    """What is known about the installation."""

    def __init__(self, his):
        self.his = his
        self.complete = False      # an installation was completed at some time
        self.at = None             # commit of the last completed update
        self.maybe_at = None       # commit of a crashed update that was complete
        self.certain = False       # ... and nothing happened to the record since
        self.damaged = set()
        self.version = {None}      # possible labels of the recorded installation
        self.last = None           # result of the last daily check

    def resolve(self, target):
        """Commit and label, or None if there is no such target."""
        his = self.his
        if target.startswith('commit '):
            ref = target.split(' ')[1]
            if ref == 'latest':
                return his.head, 'commit-' + H.sha(his.head)[:7]
            i = his.find(ref) if len(ref) == 7 else None
            return None if i is None else (i, 'commit-' + ref)
        t = (his.tags[his.latest] if target == 'latest'
             else next((t for t in his.tags if t['name'] == target), None))
        return None if t is None else (t['commit'], t['name'])


def verify(m, folder, goal, cached, asked):
    """The installation after a successful update."""
    i, label = goal
    tree = m.his.trees[i]
    now = content(folder)
    for name in [MANIFEST, *m.his.lists[i]]:
        if name in m.damaged and cached and i in (m.at, m.maybe_at):
            continue
        got = now.get(name)
        require(got is not None, 'update to %s succeeded without the file %s', label, name)
        require(got == tree[name].encode(), 'update to %s succeeded, but %s has the content %r '
                'instead of %r', label, name, got[:20], tree[name][:20])
    if cached and m.certain and m.at is not None:
        status, _ = m.his.compare(m.at, i)
        back = status == 'behind'
        files = m.his.diff(i, m.at) if back else m.his.diff(m.at, i)
        if status != 'diverged' and len(files) < H.LISTED:
            changed = {f['filename'] for f in files}
            keep = {n for n in m.his.lists[i] if n in m.his.lists[m.at]
                    and n not in changed and n not in m.damaged}
            again = keep & {a.split('/', 4)[4] for a in asked
                            if a.startswith(f'/{H.OWNER}/{H.NAME}/') and a.count('/') > 3}
            require(not again, 'unchanged files are downloaded again: %s', sorted(again)[:3])
    return i, label


def apply_success(m, goal, cached):
    i, label = goal
    if not (cached and i in (m.at, m.maybe_at)):
        m.damaged = set()
    m.last = 'maybe' if cached and not (m.certain and i != m.at) else None
    m.maybe_at = None
    m.complete = True
    m.at = i
    m.certain = cached
    m.version = {label} if cached else {None}


def run_history(case):
    from pelicun.tools import dlml

    his = H.History(case['commits'], case['tags'])
    his.latest = case['latest']
    tags = set()
    done = moved = 0
    with place(his) as (h, folder):
        m = Model(his)
        cache = folder / CACHE
        for op in case['ops']:
            kind = op[0]
            h.reset()
            if kind in ('update', 'crash'):
                _, target, cached, extra = op
                goal = m.resolve(target)
                before = content(folder)
                if kind == 'update':
                    h.reset(extra)

                def update(target=target, cached=cached):
                    if case['cli']:
                        from pelicun import cli

                        old, sys.argv = sys.argv, ['pelicun', 'dlml', 'update', target] + (
                            [] if cached else ['--no-cache'])
                        try:
                            cli.main()
                        finally:
                            sys.argv = old
                    elif target.startswith('commit '):
                        dlml.dlml_update(commit=target.split(' ', 1)[1], use_cache=cached)
                    else:
                        dlml.dlml_update(version=target, use_cache=cached)

                with quiet():
                    if kind == 'crash':
                        how = crashing(update, extra)
                    else:
                        try:
                            update()
                            how = 'done'
                        except RuntimeError:
                            how = 'failed'
                hit = kind == 'update' and extra is not None and len(h.log) > extra[0]
                tags.add(f'{kind} {how}')
                if goal is None:
                    require(how != 'done', 'update to missing %s succeeded', target)
                    require(content(folder) == before,
                            'failed update to missing %s changed files', target)
                elif how == 'failed':
                    require(hit, 'update to %s failed without a reason', target)
                if how == 'done':
                    moved += m.at is not None and goal[0] != m.at
                    if m.at is not None and goal[0] != m.at:
                        tags.add('to ' + his.compare(m.at, goal[0])[0])
                    if not hit or cached is False:
                        asked = h.log
                    else:
                        asked = []
                    verify(m, folder, goal, cached, asked)
                    same = m.certain and cached and goal[0] == m.at
                    # a cached update to the recorded commit may leave the record alone
                    old = set() if m.certain and not same else m.version
                    apply_success(m, goal, cached)
                    m.version |= old
                    done += 1
                elif goal is not None:
                    moved += 1
                    after = content(folder)
                    changed = any(after.get(n) != before[n] for n in before)
                    m.certain = False
                    m.version = m.version | {None}
                    m.last = 'maybe'
                    if how == 'crashed' and m.at != goal[0]:
                        # it may have stopped after its last file
                        m.version = m.version | {goal[1]}
                    if how == 'crashed':
                        installed = all(after.get(n) == his.trees[goal[0]][n].encode()
                                        for n in [MANIFEST, *his.lists[goal[0]]])
                        m.complete = m.complete or installed
                        if installed:
                            m.maybe_at = goal[0]
                    if changed:
                        tags.add('files changed by a failed update')
            elif kind == 'damage':
                have = sorted(n for n in content(folder) if n != MANIFEST)
                if have:
                    name = have[op[1] % len(have)]
                    p = folder / name
                    if op[2] == 'delete':
                        p.unlink()
                    elif op[2] in {'first', 'last'}:
                        b = bytearray(p.read_bytes() or b'x')
                        b[0 if op[2] == 'first' else -1] ^= 1
                        p.write_bytes(bytes(b))
                    else:
                        p.write_text('' if op[2] == 'empty' else 'changed by hand')
                    m.damaged.add(name)
                    tags.add('damaged files')
            elif kind == 'cache':
                if cache.exists():
                    text = cache.read_bytes()
                    new = {'cut': text[:len(text) // 2], 'list': b'[1, 2]', 'empty': b'',
                           'binary': b'\xff\xfe\x00\x81' + text, 'number': b'3'}
                    if op[1] == 'delete':
                        cache.unlink()
                    else:
                        cache.write_bytes(new[op[1]])
                    m.certain = False
                    m.version = {None}
                    m.last = None
                    tags.add('damaged cache')
            elif kind == 'publish':
                his.latest = op[1]
            elif kind == 'push':
                his.head = op[1]
            elif kind == 'day':
                if cache.exists():
                    try:
                        data = json.loads(cache.read_text())
                        data['last_version_check'] = (
                            datetime.now() - timedelta(days=1, minutes=5)).isoformat()
                        cache.write_text(json.dumps(data))
                    except (ValueError, TypeError):
                        pass
                m.last = None
            else:
                start(m, h, folder, op[1], tags)
                done += m.complete
            present = (folder / MANIFEST).exists()
            require(m.complete or not present,
                    'the list of files is present without a completed installation')
    return {'nontrivial': done >= 2 and (moved > 0 or 'damaged files' in tags),
            'tags': sorted(tags)}


def start(m, h, folder, fault, tags):
    """What `import pelicun` does."""
    from pelicun.tools import dlml

    his = m.his
    h.reset(fault)
    if not (folder / MANIFEST).exists():
        before = content(folder)
        with quiet():
            try:
                dlml.check_dlml_data()
                ok = True
            except RuntimeError:
                ok = False
        hit = fault is not None and len(h.log) > fault[0]
        tags.add('first use ' + ('ok' if ok else 'failed'))
        goal = m.resolve('latest')
        if ok:
            verify(m, folder, goal, True, [] if hit else h.log)
            apply_success(m, goal, True)
        else:
            require(hit, 'first download failed without a reason')
            m.certain = False
            m.version = m.version | {None}
        return
    before = content(folder)
    with quiet() as seen:
        dlml.check_dlml_data()
    asked = list(h.log)
    hit = fault is not None and len(asked) > fault[0]
    require(content(folder) == before, 'the check for new versions changed the library')
    require(all('/releases/' in a for a in asked), 'the check asks for %s', asked[:2])
    h.reset()
    with quiet():
        res = dlml.check_dlml_version()
        again = dlml.check_dlml_version()
    require(not h.log, 'versions are checked more than once a day')
    require(res == again, 'the result of the daily check changes: %s, %s', res, again)
    if m.last == 'maybe':
        m.last = None if asked else res
    if m.last is not None:
        require(not asked, 'versions are checked more than once a day')
        require(res == m.last, 'the result of the daily check changes')
    else:
        require(len(asked) == 1, 'the check makes %d requests', len(asked))
        require(res['current_version'] in m.version, 'installed version %r instead of %r',
                res['current_version'], m.version)
        require(bool(res['error']) == hit, 'error %r of the check', res['error'])
        new = his.tags[his.latest]['name']
        if not hit:
            require(res['latest_version'] == new, 'latest version %r instead of %r',
                    res['latest_version'], new)
            exp = newer(res['current_version'], new)
            require(res['update_available'] is exp, 'installed %r, latest %r: update '
                    'available %r', res['current_version'], new, res['update_available'])
        else:
            require(res['update_available'] is False, 'update available after an error')
    told = any('update available' in str(w.message) for w in seen)
    require(told == (res['update_available'] and not res['error']),
            'update available: %s, user is told: %s', res['update_available'], told)
    m.last = res
    m.version = {res['current_version']}
    tags.add('daily check')


def newer(current, latest):
    if current is None or current.startswith('commit-'):
        return True

    def key(v):
        v = v.lstrip('v')
        return [int(x) for x in v.split('.')] if v[0].isdigit() else None

    a, b = key(current), key(latest)
    if a is None or b is None:
        return current != latest
    n = max(len(a), len(b))
    return b + [0] * (n - len(b)) > a + [0] * (n - len(a))


def branch_instead_of_release():
    """A release on a branch whose tag cannot be read."""
    commits = [{'parent': None if i == 0 else i - 1, 'files': {'a.csv': f'v{i}'}, 'renames': [],
                'unlisted': [], 'comments': False, 'reverse': False} for i in range(2)]
    his = H.History(commits, [{'name': 'v1', 'commit': 0, 'annotated': False, 'branch': True}])
    his.latest = 0
    from pelicun.tools import dlml

    with place(his) as (h, folder):
        h.reset((1, 500))
        h.release = lambda t: {'tag_name': t['name'], 'target_commitish': 'main'}
        try:
            with quiet():
                dlml.dlml_update(version='v1')
        except RuntimeError:
            return False
        finally:
            del h.release
        return (folder / 'a.csv').read_text() != 'v0'


KNOWN = {'branch-instead-of-release': branch_instead_of_release}

SUBS = [
    Sub('updates', histories(), run_history, 600, 12000),
    Sub('repairs', repairs(), run_history, 150, 2500),
]

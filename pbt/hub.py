"""Loopback stand-in for the parts of the GitHub API that the library updates use."""
from __future__ import annotations

import hashlib
import json
import threading
from http.server import BaseHTTPRequestHandler, HTTPServer
from urllib.parse import unquote, urlsplit

OWNER, NAME = 'own', 'lib'
LISTED = 300


def sha(i):
    return hashlib.sha1(f'commit {i}'.encode()).hexdigest()


class History:
    """Commits with their trees, tags, releases and branches."""

    def __init__(self, commits, tags):
        self.parent = [c['parent'] for c in commits]
        self.trees = []
        self.lists = []
        for i, c in enumerate(commits):
            tree = dict(self.trees[c['parent']]) if c['parent'] is not None else {}
            for name, content in c['files'].items():
                if content is None:
                    tree.pop(name, None)
                else:
                    tree[name] = content
            for old, new in c['renames']:
                if old in tree and new not in tree:
                    tree[new] = tree.pop(old)
            names = [n for n in tree if n != 'model_files.txt']
            listed = [n for n in names if n not in c['unlisted']]
            if c['reverse']:
                listed = listed[::-1]
            text = '\n'.join(
                (['# models', ''] if c['comments'] else []) + listed) + '\n'
            tree['model_files.txt'] = text
            self.trees.append(tree)
            self.lists.append(listed)
        self.tags = tags
        self.head = len(commits) - 1
        self.latest = None

    def find(self, ref):
        """Commit of a SHA, short SHA, branch or tag."""
        if ref == 'main':
            return self.head
        for t in self.tags:
            if ref == t['name']:
                return t['commit']
        for i in range(len(self.parent)):
            if sha(i).startswith(ref.lower()) and len(ref) >= 7:
                return i
        return None

    def ancestors(self, i):
        res = []
        while i is not None:
            res.append(i)
            i = self.parent[i]
        return res

    def compare(self, a, b):
        up_a, up_b = self.ancestors(a), self.ancestors(b)
        base = next(i for i in up_b if i in up_a)
        status = ('identical' if a == b else 'ahead' if base == a
                  else 'behind' if base == b else 'diverged')
        return status, self.diff(base, b)

    def diff(self, base, head):
        old, new = self.trees[base], self.trees[head]
        gone = [n for n in old if n not in new]
        res = []
        for n in sorted(new):
            if n not in old:
                source = next((g for g in gone if old[g] == new[n]), None)
                if source is not None:
                    gone.remove(source)
                    res.append({'filename': n, 'previous_filename': source,
                                'status': 'renamed'})
                else:
                    res.append({'filename': n, 'status': 'added'})
            elif old[n] != new[n]:
                res.append({'filename': n, 'status': 'modified'})
        res += [{'filename': n, 'status': 'removed'} for n in gone]
        return res


class Hub:
    """Server thread. `fault` = (number of the request, kind)."""

    def __init__(self):
        hub = self

        class Handler(BaseHTTPRequestHandler):
            def log_message(self, *_):
                pass

            def do_GET(self):
                hub.answer(self)

        self.http = HTTPServer(('127.0.0.1', 0), Handler)
        self.url = f'http://127.0.0.1:{self.http.server_port}'
        self.history = None
        self.reset()
        threading.Thread(target=self.http.serve_forever, args=(0.01,), daemon=True).start()

    def reset(self, fault=None):
        self.log = []
        self.fault = fault

    def answer(self, h):
        path = unquote(urlsplit(h.path).path)
        self.log.append(path)
        kind = None
        if self.fault is not None and len(self.log) == self.fault[0] + 1:
            kind = self.fault[1]
        if kind == 'drop':
            h.close_connection = True
            h.connection.close()
            return
        code, body = (kind, b'{}') if isinstance(kind, int) else self.content(path)
        h.send_response(code)
        h.send_header('Content-Length', str(len(body)))
        h.end_headers()
        if kind == 'cut':
            body = body[:len(body) // 2]
        h.wfile.write(body)

    def content(self, path):
        his = self.history
        api = f'/repos/{OWNER}/{NAME}/'
        raw = f'/{OWNER}/{NAME}/'
        if path.startswith(api):
            res = self.api(his, path[len(api):])
            if res is None:
                return 404, b'{"message": "Not Found"}'
            return 200, json.dumps(res).encode()
        if path.startswith(raw):
            ref, _, name = path[len(raw):].partition('/')
            i = his.find(ref)
            if i is not None and name in his.trees[i]:
                return 200, his.trees[i][name].encode()
        return 404, b'404: Not Found'

    def release(self, t):
        branch = t['branch'] and self.fault is None
        return {'tag_name': t['name'],
                'target_commitish': 'main' if branch else sha(t['commit'])}

    def api(self, his, path):
        tags = {t['name']: t for t in his.tags}
        parts = path.split('/')
        if path == 'releases/latest':
            return None if his.latest is None else self.release(his.tags[his.latest])
        if path.startswith('releases/tags/'):
            t = tags.get(parts[2])
            return self.release(t) if t else None
        if path.startswith('git/refs/tags/'):
            t = tags.get(parts[3])
            if t is None:
                return None
            if t['annotated']:
                return {'ref': f'refs/tags/{t["name"]}', 'object': {
                    'type': 'tag', 'sha': hashlib.sha1(t['name'].encode()).hexdigest()}}
            return {'object': {'type': 'commit', 'sha': sha(t['commit'])}}
        if path.startswith('git/tags/'):
            for t in his.tags:
                if hashlib.sha1(t['name'].encode()).hexdigest() == parts[2]:
                    return {'tag': t['name'], 'object': {
                        'type': 'commit', 'sha': sha(t['commit'])}}
            return None
        if path == 'commits':
            return [{'sha': sha(i)} for i in his.ancestors(his.head)]
        if path.startswith('compare/'):
            a, _, b = path[len('compare/'):].partition('...')
            a, b = his.find(a), his.find(b)
            if a is None or b is None:
                return None
            status, files = his.compare(a, b)
            return {'status': status, 'files': files[:LISTED]}
        return None

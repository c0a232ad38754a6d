"""The simulated environment: network, disk, clock, allocator, collector.

Everything outside the library that the properties depend on lives here.  A
run never touches a real socket, a real document file or a real clock.  The
library is run unmodified; its own seams are used (getter classes, the URL
hook, ``urllib``'s opener, ``open``).
"""
import builtins
import contextlib
import email.message
import errno
import gc
import io
import json
import os
import socket
import stat as statmod
import threading
import time
import urllib.error
import urllib.parse
import urllib.request
import http.client

import yaml

FS_PREFIX = '/__pyoa_sim__'

# faults after which the fetch cannot have delivered the document
FAILING = {
    'refused', 'dns', 'timeout', 'http404', 'http500', 'http503', 'http302', 'reset',
    'torn', 'empty', 'garbage', 'badutf8', 'scalar', 'memory',
    'interrupt', 'enoent', 'eacces', 'emfile', 'eio_open', 'eio_read',
    'wrongtype', 'hookfail',
}
BENIGN = {'slow', 'chop'}

KINDS = {
    # what a transport can be hit by
    'getter': ['refused', 'timeout', 'torn', 'empty', 'garbage', 'badutf8',
               'scalar', 'wrongtype', 'memory', 'interrupt', 'slow'],
    'dict': ['refused', 'timeout', 'empty', 'wrongtype', 'memory',
             'interrupt', 'slow'],
    'http': ['refused', 'dns', 'timeout', 'http404', 'http500', 'http503', 'http302',
             'reset', 'torn', 'empty', 'garbage', 'badutf8', 'scalar',
             'memory', 'interrupt', 'slow', 'chop'],
    'file': ['enoent', 'eacces', 'emfile', 'eio_open', 'eio_read', 'torn',
             'empty', 'garbage', 'badutf8', 'scalar', 'memory',
             'interrupt', 'slow', 'chop'],
    'hook': ['hookfail', 'enoent', 'eacces', 'eio_open', 'eio_read', 'torn',
             'empty', 'garbage', 'scalar', 'memory', 'interrupt', 'slow',
             'chop'],
    'mirror': ['hookfail', 'refused', 'dns', 'timeout', 'http404', 'http500',
               'reset', 'torn', 'empty', 'garbage', 'scalar', 'memory',
               'interrupt', 'slow', 'chop'],
}


class SimInterrupt(KeyboardInterrupt):
    """A KeyboardInterrupt injected by the simulator."""


class SimMemoryError(MemoryError):
    """A failing allocation injected by the simulator."""


class SimHookError(Exception):
    """Raised by user code (hook or callback) on the simulator's order."""


class StepBudget(BaseException):
    """The operation did not end within the step budget."""


class Unknown(Exception):
    """The library asked for a document that does not exist in this world."""


# --------------------------------------------------------------------------
# rendering of documents

class _Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def _int_codes(doc):
    """response codes (and other keys made of digits) as YAML integers, the way
    people write them"""
    if isinstance(doc, dict):
        return {(int(k) if k.isdigit() and k.isascii() and str(int(k)) == k else k): _int_codes(v)
                for k, v in doc.items()}
    if isinstance(doc, list):
        return [_int_codes(x) for x in doc]
    return doc


def _interned(doc, seen):
    """equal parts become the same part: anchors and aliases in YAML"""
    if isinstance(doc, dict):
        doc = {k: _interned(v, seen) for k, v in doc.items()}
    elif isinstance(doc, list):
        doc = [_interned(v, seen) for v in doc]
    else:
        return doc
    return seen.setdefault(json.dumps(doc, sort_keys=False), doc) if doc else doc


def render(doc, style):
    """document -> text, in the way ``style`` asks for"""
    fmt = style.get('fmt', 'json')
    if fmt == 'yaml':
        if style.get('intcodes'):
            doc = _int_codes(doc)
        if style.get('alias'):
            doc = _interned(doc, {})
        text = yaml.dump(doc, Dumper=yaml.SafeDumper if style.get('alias') else _Dumper, default_flow_style=False,
                         allow_unicode=style.get('unicode', True),
                         sort_keys=False)
        return _around(text, style)
    text = json.dumps(doc, ensure_ascii=not style.get('unicode', True),
                      indent=style.get('indent'))
    return _around(text, style)


def _around(text, style):
    text = style.get('lead', '') + text + style.get('tail', '')
    return text.replace('\n', '\r\n') if style.get('crlf') else text


# --------------------------------------------------------------------------
# raw device: delivers prepared bytes in chunks, may fail in the middle

class SimRaw(io.RawIOBase):
    def __init__(self, world, name, data, chunks=None, fail_at=None, exc=None):
        io.RawIOBase.__init__(self)
        self._w, self._name, self._data = world, name, data
        self._pos = 0
        self._chunks = list(chunks or [])
        self._fail_at, self._exc = fail_at, exc

    def readable(self):
        return True

    def readinto(self, b):
        n = len(b)
        if self._chunks:
            n = min(n, max(1, self._chunks.pop(0)))
            self._w.count('short_read')
        if self._fail_at is not None and self._pos >= self._fail_at:
            self._w.log('read-fault', self._name, self._pos)
            raise self._exc()
        end = min(len(self._data), self._pos + n)
        if self._fail_at is not None:
            end = min(end, self._fail_at)
        part = self._data[self._pos:end]
        b[:len(part)] = part
        self._pos = end
        return len(part)

    def close(self):
        if not self.closed and self._w is not None:
            self._w.log('close', self._name)
        io.RawIOBase.close(self)


# --------------------------------------------------------------------------
# simulated sockets under the real http.client

class SimSock(object):
    def __init__(self, world, name, raw):
        self.world, self.name, self.raw = world, name, raw
        self.closed = False

    def sendall(self, data):
        pass

    def makefile(self, mode='rb', *a, **k):
        return io.BufferedReader(self.raw)

    def settimeout(self, t):
        pass

    def setsockopt(self, *a):
        pass

    def close(self):
        self.closed = True


def _make_http_classes(world):
    class SimResponse(http.client.HTTPResponse):
        def __init__(self, *a, **k):
            http.client.HTTPResponse.__init__(self, *a, **k)
            world.track('http', self, lambda: self.fp is None or self.closed)

        def begin(self):
            http.client.HTTPResponse.begin(self)
            if self.status >= 300:
                # an error answer travels with the HTTPError to the caller,
                # who may read its body: closing it is not the library's job
                world.untrack(self)

    class SimConn(http.client.HTTPConnection):
        response_class = SimResponse

        def connect(self):
            self.sock = None

        def request(self, method, url, body=None, headers={}, **k):
            scheme = getattr(self, 'sim_scheme', 'http')
            self.sim_url = '%s://%s%s' % (scheme, self._sim_host, url)
            self.sock = world.http_connect(self.sim_url)

        def getresponse(self):
            resp = self.response_class(self.sock, method='GET')
            try:
                resp.begin()
            except BaseException:
                resp.close()
                raise
            self.sock.close()
            return resp

    class Handler(urllib.request.HTTPHandler):
        handler_order = 100

        def http_open(self, req):
            return self._go(req, 'http')

        def https_open(self, req):
            return self._go(req, 'https')

        def _go(self, req, scheme):
            host = req.host

            class Conn(SimConn):
                sim_scheme = scheme
                _sim_host = host

            return self.do_open(Conn, req)

        https_request = http_request = urllib.request.HTTPHandler.do_request_

    return Handler


# --------------------------------------------------------------------------

class Mapping(dict):
    """what a caller passes to DictGetter: its documents by url"""

    def __init__(self, world):
        self.world = world
        dict.__init__(self, {u: d['doc'] for u, d in world.docs.items()})

    def get(self, url, default=None):
        return self.world.callback_fetch(url)

    def __getitem__(self, url):
        return self.world.callback_fetch(url)

    def pop(self, url, *a):
        got = self.world.callback_fetch(url)
        dict.pop(self, url, None)
        return got


class World(object):
    """One simulated world.

    ``docs``: url -> {'doc': <json>, 'style': {...}}; ``transport`` one of
    KINDS; faults are armed per operation by :meth:`begin`.
    """

    def __init__(self, docs, transport='getter', locale='utf-8'):
        self.docs = docs
        self.transport = transport
        self.iterators = False     # documents come from plain iterators
        self.behind = False        # a hook renames every url before a getter sees it
        self.locale = locale
        self.now = 0.0
        self.events = []
        self.counts = {}
        self.fired = []            # (op, kind) of every fault that happened
        self.handles = []          # [kind, strong ref, is_closed]
        self.fetch_log = []        # (op, url, ok)
        self.op = -1
        self._plan = {}
        self._outage = {}
        self._n = 0
        self._op_fired = []
        self.version = {}          # url -> override document (edits at the source)
        self._patched = None
        self.text_cache = {}
        self._mapping = None
        self._disk = None
        self.prepare_plan = None
        self._prep_n = 0
        self.steps = None

    # -- bookkeeping ------------------------------------------------------
    def log(self, *ev):
        self.events.append((self.op,) + ev)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def track(self, kind, obj, closed):
        self.handles.append([kind, obj, closed])
        self.count('opened')

    def untrack(self, obj):
        self.handles = [h for h in self.handles if h[1] is not obj]

    def open_handles(self):
        return [h[0] for h in self.handles if not h[2]()]

    # -- operations and their faults --------------------------------------
    def begin(self, op, faults=()):
        """arm the faults of operation number ``op``"""
        self.op = op
        self._plan, self._outage = {}, {}
        self._n = 0
        self._op_fired = []
        self.prepare_plan = None
        self._prep_n = 0
        for f in faults:
            if f['at'] == 'fetch':
                self._plan[f['n']] = f
            elif f['at'] == 'url':
                self._outage[f['url']] = f
            elif f['at'] == 'prepare':
                self.prepare_plan = f

    def end(self):
        self._plan, self._outage = {}, {}
        self.prepare_plan = None
        return list(self._op_fired)

    def _fault(self, url):
        """the fault (if any) that hits this fetch"""
        n = self._n
        self._n += 1
        f = self._plan.get(n) or self._outage.get(url)
        self.count('fetch_attempt')
        if f is not None and (f['kind'] not in KINDS[self.transport] or
                              f['kind'] == 'hookfail'):
            f = None
        if f is not None and f['kind'] == 'torn' and not self._tearable(url, f):
            f = None
        return f

    def _tearable(self, url, f):
        # A cut text document is only recognisable when it is JSON; for YAML
        # only the HTTP transport can tell (content length).
        if self.transport in ('http', 'mirror') and not f.get('silent'):
            return True
        return self.docs.get(url, {}).get('style', {}).get('fmt', 'json') == 'json'

    def _fire(self, f, url):
        self._op_fired.append(f['kind'])
        self.fired.append((self.op, f['kind']))
        self.count('fault:' + f['kind'])
        self.log('fault', f['kind'], url)
        self.now += {'timeout': 30.0, 'slow': 5.0}.get(f['kind'], 0.01)

    def mapping(self):
        if self._mapping is None:
            self._mapping = Mapping(self)
        return self._mapping

    def user_prepare(self):
        """called by the simulated application from prepare_obj"""
        n = self._prep_n
        self._prep_n += 1
        f = self.prepare_plan
        if f is not None and f['n'] == n:
            self._op_fired.append('prepare:' + f['kind'])
            self.fired.append((self.op, 'prepare:' + f['kind']))
            self.count('fault:prepare_' + f['kind'])
            self.log('fault', 'prepare', f['kind'])
            raise {'error': SimHookError, 'interrupt': SimInterrupt,
                   'memory': SimMemoryError}[f['kind']]('prepare')

    # -- documents ---------------------------------------------------------
    def text(self, url):
        if url not in self.text_cache:
            d = self.docs[url]
            self.text_cache[url] = render(d['doc'], d.get('style', {}))
        return self.text_cache[url]

    def _done(self, url, ok):
        self.fetch_log.append((self.op, url, ok))
        self.log('fetch', url, ok)
        self.now += 0.05

    GARBAGE = '<html><body><h1>It works!</h1></body></html>'
    GARBAGES = ['<html><body><h1>It works!</h1></body></html>',
                'upstream connect error or disconnect/reset before headers',
                '{"openapi": "3.0.0", "info": oops}', '}{', '- [1, 2']

    def bad_text(self, f, text):
        k = f['kind']
        if k == 'torn':
            cut = int(len(text) * f.get('frac', 0.5))
            return text[:max(1, min(cut, len(text) - 1))]
        if k == 'empty':
            return ''
        if k == 'garbage':
            return self.GARBAGES[f.get('v', 0) % len(self.GARBAGES)]
        if k == 'scalar':
            return ['42', 'true', '"ok"', 'OK', 'null'][f.get('v', 0) % 5]
        raise AssertionError(k)

    def raise_for(self, f):
        k = f['kind']
        if k == 'refused':
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'refused (sim)')
        if k == 'dns':
            raise socket.gaierror(-2, 'Name or service not known (sim)')
        if k == 'timeout':
            raise socket.timeout('timed out (sim)')
        if k == 'memory':
            raise SimMemoryError()
        if k == 'interrupt':
            raise SimInterrupt()
        if k in ('enoent', 'eacces', 'emfile', 'eio_open', 'eio_read'):
            no = {'enoent': errno.ENOENT, 'eacces': errno.EACCES,
                  'emfile': errno.EMFILE}.get(k, errno.EIO)
            raise OSError(no, os.strerror(no) + ' (sim)')

    # -- transport: getter callback ----------------------------------------
    def callback_fetch(self, url):
        if url not in self.docs:
            self._done(url, False)
            raise Unknown(url)
        f = self._fault(url)
        style = self.docs[url].get('style', {})
        if f is not None:
            self._fire(f, url)
            if f['kind'] in FAILING:
                self._done(url, False)
                self.raise_for(f)
                if f['kind'] == 'badutf8':
                    return b'\xff\xfe\x80{' + self.text(url).encode('utf-8')
                if f['kind'] == 'wrongtype':
                    return (['busy', 17, 'on hold', None, 'true'] if self.iterators else
                            [None, 17, ['x'], 1.5, True])[f.get('v', 0) % 5]
                if self.transport == 'dict':
                    return {}
                return self.bad_text(f, self.text(url))
        self._done(url, True)
        if self.transport == 'dict':
            return self.docs[url]['doc']
        text = self.text(url)
        return text.encode('utf-8') if style.get('bytes') else text

    # -- transport: file ---------------------------------------------------
    def file_url(self, url):
        """where the bytes of ``url`` live on the simulated disk"""
        if url.startswith('file://'):
            return url
        rest = url.split('://', 1)[1].replace('?', '@Q@')
        if not rest.endswith(('.json', '.yaml', '.yml')) and not (
                self.docs.get(url) or {}).get('style', {}).get('ext'):
            rest += '.sim.json'
        return 'file://' + FS_PREFIX + '/mnt/' + rest

    def disk(self):
        """the files of the simulated disk: path -> url of the document"""
        if self._disk is None or self._disk[0] != len(self.docs):
            files = {}
            for url, d in self.docs.items():
                at = urllib.parse.unquote(self.file_url(url)[len('file://'):])
                # (a document whose URL need not show the extension of its file)
                if at.startswith('/'):
                    files[at + (d.get('style', {}).get('ext') or '')] = url
            self._disk = (len(self.docs), files)
        return self._disk[1]

    def path_to_url(self, path):
        return self.disk().get(path)

    def sim_open(self, path, mode='r', buffering=-1, encoding=None,
                 errors=None, newline=None, closefd=True, opener=None):
        if any(c in mode for c in 'wax+'):
            self.log('write-open', path)
            raise OSError(errno.EROFS, 'read-only (sim)', path)
        url = self.path_to_url(path)
        if url is None:
            self.log('no-such-file', path)
            raise FileNotFoundError(errno.ENOENT, 'No such file (sim)', path)
        f = self._fault(url)
        data = None
        fail_at = exc = None
        if f is not None:
            self._fire(f, url)
            k = f['kind']
            if k in FAILING:
                self._done(url, False)
                full = self.text(url).encode('utf-8')
                if k in ('enoent', 'eacces', 'emfile', 'eio_open'):
                    self.raise_for(f)
                if k in ('eio_read', 'memory', 'interrupt'):
                    data = full
                    fail_at = int(len(full) * f.get('frac', 0.5))
                    exc = (lambda f=f: _exc_of(f))
                elif k == 'badutf8':
                    data = full[:5] + b'\xff\xfe\x80' + full[5:]
                else:
                    data = self.bad_text(f, self.text(url)).encode('utf-8')
        if data is None:
            data = self.text(url).encode('utf-8')
        if f is None or f['kind'] not in FAILING:
            self._done(url, True)
        chunks = self.docs[url].get('style', {}).get('chunks')
        if f is not None and f['kind'] == 'chop':
            chunks = [3, 1, 2] * 40
        raw = SimRaw(self, url, data, chunks, fail_at, exc)
        if 'b' in mode and buffering == 0:
            self.track('file', raw, lambda: raw.closed)
            return raw
        buf = io.BufferedReader(raw)
        if 'b' in mode:
            self.track('file', buf, lambda: buf.closed)
            return buf
        if encoding in (None, 'locale'):
            encoding = self.locale
        txt = io.TextIOWrapper(buf, encoding=encoding, errors=errors,
                               newline=newline)
        self.track('file', txt, lambda: txt.closed)
        return txt

    # -- transport: http ----------------------------------------------------
    def http_connect(self, url):
        real = url
        if url.startswith('http://mirror.sim/'):
            real = url[len('http://mirror.sim/'):].replace('/', '://', 1)
        moved = False
        if real.endswith('&moved=1') or real.endswith('?moved=1'):
            real = real[:-8]
            moved = True
        if real not in self.docs:
            self._done(real, False)
            return self._answer(real, self.error_answer(real, '404'))
        style = self.docs[real].get('style', {})
        if style.get('redirect') and not moved:
            self.count('redirect')
            loc = url + ('&' if '?' in url else '?') + 'moved=1'
            return self._answer(real, (
                'HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n'
                % loc).encode('latin-1'))
        f = self._fault(real)
        body = self.text(real).encode('utf-8')
        fail_at = exc = None
        framing = style.get('framing', 'length')
        cut = None
        if f is not None:
            self._fire(f, real)
            k = f['kind']
            if k in FAILING:
                self._done(real, False)
                if k in ('refused', 'dns', 'timeout'):
                    self.raise_for(f)
                if k.startswith('http'):
                    return self._answer(real, self.error_answer(real, k[4:]))
                if k == 'reset':
                    exc = (lambda: ConnectionResetError(errno.ECONNRESET, 'reset (sim)'))
                    cut = f.get('frac', 0.5)
                elif k in ('memory', 'interrupt'):
                    exc = (lambda f=f: _exc_of(f))
                    cut = f.get('frac', 0.5)
                elif k == 'torn':
                    if f.get('silent'):
                        body = self.bad_text(f, self.text(real)).encode('utf-8')
                        framing = 'close'
                    else:
                        cut = f.get('frac', 0.5)
                        if framing == 'close':
                            framing = 'length'
                elif k == 'badutf8':
                    body = body[:5] + b'\xff\xfe\x80' + body[5:]
                else:
                    body = self.bad_text(f, self.text(real)).encode('utf-8')
        if f is None or f['kind'] not in FAILING:
            self._done(real, True)
        head = b'HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nConnection: close\r\n'
        if framing == 'length':
            head += b'Content-Length: %d\r\n\r\n' % len(body)
            payload = body
        elif framing == 'chunked':
            head += b'Transfer-Encoding: chunked\r\n\r\n'
            payload = b''
            step = style.get('httpchunk', 37)
            for i in range(0, len(body), step):
                part = body[i:i + step]
                payload += b'%x\r\n' % len(part) + part + b'\r\n'
            payload += b'0\r\n\r\n'
        else:
            head += b'\r\n'
            payload = body
        data = head + payload
        if cut is not None:
            at = len(head) + int(max(0, len(payload) - (8 if framing == 'chunked' else 2)) * cut)
            if exc is not None:
                fail_at = at
            else:
                data = data[:at]
        chunks = style.get('chunks')
        if f is not None and f['kind'] == 'chop':
            chunks = [3, 1, 2] * 40
        return self._answer(real, data, chunks, fail_at, exc)

    def error_answer(self, url, status):
        """an answer which is not the document, whatever its body is"""
        self._errors = getattr(self, '_errors', 0) + 1
        which = (self._errors + len(self.fetch_log)) % 5
        body = ['oops', '{"error": {"code": %s, "message": "try again"}}' % status,
                self.text(url) if url in self.docs else '{}', 'message: busy\n', ''][which].encode('utf-8')
        return ('HTTP/1.1 %s Oops\r\nContent-Type: %s\r\nContent-Length: %d\r\nConnection: close\r\n\r\n'
                % (status, 'application/json' if which else 'text/html', len(body))).encode() + body

    def _answer(self, url, data, chunks=None, fail_at=None, exc=None):
        return SimSock(self, url, SimRaw(self, url, data, chunks, fail_at, exc))

    # -- the URL hook --------------------------------------------------------
    def hook(self, url):
        f = self._plan.get(self._n) or self._outage.get(url)
        if f is not None and f['kind'] == 'hookfail' and not any(
                u == url and ok for _, u, ok in self.fetch_log):
            self._n += 1
            self._fire(f, url)
            self._done(url, False)
            raise SimHookError('hook ' + url)
        if self.transport == 'mirror':
            return 'http://mirror.sim/' + url.replace('://', '/', 1)
        return self.file_url(url)

    # -- installing ----------------------------------------------------------
    @contextlib.contextmanager
    def installed(self, net=None):
        """put the simulated disk, network and clock in place"""
        real = {
            'open': builtins.open, 'ioopen': io.open, 'stat': os.stat,
            'lstat': os.lstat, 'access': os.access, 'listdir': os.listdir,
            'sleep': time.sleep, 'time': time.time, 'monotonic': time.monotonic,
            'opener': urllib.request._opener,
        }
        w = self

        def is_sim(p):
            try:
                p = os.fspath(p)
            except TypeError:
                return None
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            return p if p.startswith(FS_PREFIX) else None

        def open_(file, *a, **k):
            p = is_sim(file)
            if p is None:
                return real['open'](file, *a, **k)
            return w.sim_open(os.path.normpath(p), *a, **k)

        def stat_(path, *a, **k):
            p = is_sim(path) if not isinstance(path, int) else None
            if p is None:
                return real['stat'](path, *a, **k)
            p = os.path.normpath(p)
            if w.path_to_url(p) is not None:
                return os.stat_result((statmod.S_IFREG | 0o644, 1, 1, 1, 0, 0,
                                       100, 0, 0, 0))
            if any(f.startswith(p + '/') for f in w.disk()):
                return os.stat_result((statmod.S_IFDIR | 0o755, 1, 1, 1, 0, 0,
                                       100, 0, 0, 0))
            raise FileNotFoundError(errno.ENOENT, 'No such file (sim)', p)

        def access_(path, *a, **k):
            if is_sim(path) is None:
                return real['access'](path, *a, **k)
            try:
                stat_(path)
                return True
            except OSError:
                return False

        def listdir_(path='.'):
            p = is_sim(path) if not isinstance(path, int) else None
            if p is None:
                return real['listdir'](path)
            p = os.path.normpath(p) + '/'
            names = {f[len(p):].split('/')[0] for f in w.disk() if f.startswith(p)}
            if not names:
                raise FileNotFoundError(errno.ENOENT, 'No such directory (sim)', p)
            return sorted(names)

        opener = urllib.request.OpenerDirector()
        for h in (urllib.request.HTTPDefaultErrorHandler,
                  urllib.request.HTTPRedirectHandler,
                  urllib.request.HTTPErrorProcessor,
                  urllib.request.UnknownHandler, urllib.request.FileHandler,
                  _make_http_classes(net or self)):
            opener.add_handler(h())

        def sleep_(s):
            w.now += s

        builtins.open = open_
        io.open = open_
        os.stat = os.lstat = stat_
        os.access = access_
        os.listdir = listdir_
        time.sleep = sleep_
        time.time = lambda: 1600000000.0 + w.now
        time.monotonic = lambda: w.now
        urllib.request.install_opener(opener)
        try:
            yield self
        finally:
            builtins.open = real['open']
            io.open = real['ioopen']
            os.stat, os.lstat = real['stat'], real['lstat']
            os.access = real['access']
            os.listdir = real['listdir']
            time.sleep, time.time = real['sleep'], real['time']
            time.monotonic = real['monotonic']
            urllib.request._opener = real['opener']


class Net(object):
    """one network for several threads: each sees the documents of its own world"""

    def __init__(self, point, one=None):
        self.point, self.one, self.by = point, one, {}

    def mine(self, world):
        self.by[threading.get_ident()] = world

    def world(self):
        return self.one or self.by[threading.get_ident()]

    def http_connect(self, url):
        self.point()
        r = self.world().http_connect(url)
        self.point()
        return r

    def track(self, *a):
        self.world().track(*a)

    def untrack(self, obj):
        self.world().untrack(obj)


def _exc_of(f):
    k = f['kind']
    if k == 'memory':
        return SimMemoryError()
    if k == 'interrupt':
        return SimInterrupt()
    return OSError(errno.EIO, 'Input/output error (sim)')

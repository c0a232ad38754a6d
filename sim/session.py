"""Executes one scenario (documents, operations, faults) against the library
inside a simulated world.  Pure function of the scenario."""
import ast
import copy
import gc
import io
import os
import sys
import threading
import urllib.parse
import weakref

from .world import World, StepBudget, Unknown, SimHookError, FAILING
from .model import Model, Checker, Bad, real, compare_graphs, freeze_graph
from .modelb import CheckerB
from .tables import jref, jp, table

import warnings
warnings.simplefilter('ignore')

from . import sched
sched.install()

from pyopenapi.migration.base import ApiBase
from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.getter import SimpleGetter, DictGetter
from pyopenapi.migration.versions.v2_0 import objects as o2
from pyopenapi.migration.versions.v3_0_0 import objects as o3
from pyopenapi import utils, errs


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def parser_for(kind, version):
    lib = o2 if version == '2.0' else o3
    kind = {'ParameterDef': 'Parameter', 'ResponseDef': 'Response'}.get(kind, kind)
    if version == '2.0' and kind in ('Parameter', 'Response'):
        return getattr(lib, kind + 'OrReference')
    if version == '3.0.0' and table(version)[kind]['ref'] == 'ref':
        return getattr(lib, kind + 'OrReference')
    return getattr(lib, kind)


# --------------------------------------------------------------------------
# step counting: a deterministic stand-in for "does not terminate"

def _cleanup_lines():
    out = {}
    base = os.path.dirname(os.path.abspath(sys.modules[ApiBase.__module__].__file__))
    for top, _, names in os.walk(os.path.dirname(base)):
        for name in names:
            if not name.endswith('.py') or '/tests' in top:
                continue
            path = os.path.join(top, name)
            lines = out[path] = set()
            with io.open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    for part in node.finalbody + node.handlers:
                        lines.update(range(part.lineno, part.end_lineno + 1))
                elif isinstance(node, ast.FunctionDef) and node.name in ('__exit__', '__del__'):
                    lines.update(range(node.lineno, node.end_lineno + 1))
    return out


_cleanups = _cleanup_lines()


def cleaning():
    """whether the library is handling an error or cleaning up: no program
    survives that a second error hits it there"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_lineno in _cleanups.get(f.f_code.co_filename, ()):
            return True
        f = f.f_back
    return False


class Steps(object):
    """counts function entries and loop iterations inside the library"""
    TOOL = 4

    def __init__(self):
        self.n = 0
        self.limit = None
        self.at = None          # step number at which to raise at_exc
        self.at_exc = None
        self.hit = False
        self.fn_at = None       # raise when so many different functions were entered
        self.fns = set()
        # nothing is at stake before an operation left its own bookkeeping
        self.begun = False
        self.on = False
        self.counting = True

    def _tick(self, code, *a):
        if not self._lib(code):
            return sys.monitoring.DISABLE
        if not self.counting:
            return
        self.n += 1
        if not self.begun:
            self.begun = os.path.basename(code.co_filename) not in ('base.py', 'store.py', 'utils.py')
        if self.at is not None and self.n >= self.at and self.begun and not cleaning():
            e, self.at = self.at_exc, None
            self.hit = True
            raise e()
        if self.limit is not None and self.n > self.limit:
            raise StepBudget('%d steps' % self.n)

    def _enter(self, code, off):
        if self._tick(code) is sys.monitoring.DISABLE:
            return sys.monitoring.DISABLE
        if self.fn_at is not None and self.counting and code not in self.fns:
            self.fns.add(code)
            if len(self.fns) >= self.fn_at and self.begun and not cleaning():
                e, self.fn_at = self.at_exc, None
                self.hit = True
                raise e()

    _cache = {}

    def _lib(self, code):
        f = code.co_filename
        r = self._cache.get(f)
        if r is None:
            r = self._cache[f] = '/pyopenapi/' in f and '/tests/' not in f
        return r

    def start(self):
        m = sys.monitoring
        if m.get_tool(self.TOOL) is None:
            m.use_tool_id(self.TOOL, 'pyoa-sim')
        E = m.events
        for ev in (E.PY_RESUME, E.JUMP):
            m.register_callback(self.TOOL, ev, self._tick)
        m.register_callback(self.TOOL, E.PY_START, self._enter)
        m.set_events(self.TOOL, E.PY_START | E.PY_RESUME | E.JUMP)
        m.restart_events()
        self.on = True

    def stop(self):
        m = sys.monitoring
        if self.on:
            m.set_events(self.TOOL, 0)
            m.free_tool_id(self.TOOL)
            self.on = False


class App(ApiBase):
    """the application under simulation"""
    world = None
    mine = None

    def prepare_obj(self, obj, jref):
        if self.world is not None:
            self.world.user_prepare()
        return obj


def named(op, ref):
    """the reference, or the local file (and pointer) it stands for"""
    url, sharp, frag = ref.partition('#')
    path = urllib.parse.unquote(url[7:])
    return path + sharp + frag if op.get('plain') and url.startswith('file://') and '#' not in path else ref


class Outcome(object):
    def __init__(self):
        self.ok = False
        self.exc = None
        self.obj = None
        self.skipped = False
        self.fired = []
        self.steps = 0

    def __repr__(self):
        return 'skipped' if self.skipped else 'ok' if self.ok else 'failed(%s)' % (self.exc,)


class Handle(object):
    __slots__ = ('obj', 'loc', 'kind', 'ver', 'op', 'ret')

    def __init__(self, obj, loc, kind, ver, op, ret=None):
        self.obj, self.loc, self.kind, self.ver, self.op, self.ret = obj, loc, kind, ver, op, ret


BEHIND = 'sim://behind?'


def getter_class(world):
    def cb(url):
        return world.callback_fetch(url)

    if world.iterators:
        # anything made of an url which delivers documents when iterated
        class SimIterator(object):
            def __init__(self, url):
                self.urls = [url]

            def __iter__(self):
                return self

            def __next__(self):
                if not self.urls:
                    raise StopIteration
                return cb(self.urls.pop())

        return SimIterator
    return type('SimGetter', (SimpleGetter,), {'__simple_getter_callback__': cb})


def make_resolver(world):
    t = world.transport
    if t in ('getter', 'dict'):
        cls = getter_class(world)
        if world.behind:
            # a hook, and a getter which only knows what that hook returns
            def made(url):
                if not url.startswith(BEHIND):
                    raise Unknown(url)
                return cls(url[len(BEHIND):])

            return Resolver(lambda url: BEHIND + url, type('SimBehind', (object,), {
                '__new__': lambda _, url: made(url)}))
        return Resolver(default_getter=cls)
    if t in ('hook', 'mirror'):
        return Resolver(url_load_hook=world.hook)
    return Resolver()


def make_app(sc, url, world, resolver=None):
    kw = {'sep': sc['sep']} if 'sep' in sc else {}
    if resolver is None and sc.get('plain') and world.transport in ('hook', 'mirror'):
        # the App makes its Resolver
        app = App(url, url_load_hook=world.hook, **kw)
    elif resolver is None and sc.get('plain') and world.transport in ('http', 'file'):
        app = App(url, **kw)
    else:
        app = App(url, resolver=resolver or make_resolver(world), **kw)
    return app, app.resolver


MODE_VER = {'A': ('2.0', '2.0'), 'B': ('2.0', '3.0.0'), 'C': ('3.0.0', '3.0.0')}
ROOTKIND = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}


class Session(object):
    """One App in one world."""

    def __init__(self, sc, world=None, resolver=None, budget=None, steps=None, weak=False):
        self.sc = sc
        self.weak = weak        # keep nothing alive that the caller need not keep
        self.mode = sc['mode']
        self.src_ver, self.dst_ver = MODE_VER[self.mode]
        self.raw_docs = {u: copy.deepcopy(d['doc']) for u, d in sc['docs'].items()}
        self.world = world or World(copy.deepcopy(sc['docs']), sc.get('transport', 'getter'),
                                    sc.get('locale', 'utf-8'))
        if sc.get('iterators') and self.world.transport == 'dict':
            self.world.iterators = True
        self.world.behind = bool(sc.get('behind'))
        self.model = Model(self.raw_docs, self.src_ver)
        self.app, self.resolver = make_app(sc, sc['root'], self.world, resolver)
        self.app.world = self.world
        self.steps = steps
        self.budget = budget
        self.handles = []
        self.raws = {}          # url -> loaded root object
        self.unready = set()    # full documents loaded but not (fully) migrated
        self.ready = set()
        self.loose = set()      # parts loaded but not migrated
        self.log = []
        self.started = []       # (loc, kind) of everything ever asked for
        self.mid = None
        self.had = set()        # what was resolved once
        self.results = {}       # url -> what its migration has returned

    # -- operations ------------------------------------------------------------
    def touches_unready(self, loc, kind):
        unready = self.unready | {u for u, _ in self.loose}
        if not unready:
            return False
        return bool(self.model.docs_needed([(loc, kind)]) & unready)

    def runnable(self, op):
        k = op['op']
        if k in ('gc', 'drop'):
            return True
        root = self.sc['root']
        same = self.src_ver == self.dst_ver
        if k in ('open', 'load') and op.get('first'):
            return True
        if k in ('open', 'load'):
            # other documents may need parts of the root, see 'resolve'
            return op['url'] == root or root in (self.raws if self.src_ver == self.dst_ver else self.ready)
        if k == 'migrate':
            return op['url'] in self.raws
        if k in ('resolve', 'miss'):
            if same and any(o.get('first') for o in self.sc['ops']):
                return bool(self.raws)
            # at another version, a part only exists once the whole does
            if op.get('to') == self.src_ver:
                return root in self.raws
            return root in (self.raws if self.src_ver == self.dst_ver else self.ready)
        return True

    def do(self, i, op):
        out = Outcome()
        if not self.runnable(op):
            out.skipped = True
            self.log.append((i, op['op'], 'skip'))
            return out
        w = self.world
        w.begin(i, op.get('faults', ()))
        self.world.log('op', op['op'], op.get('url') or op.get('jref') or '')
        st = self.steps
        at = next((f for f in op.get('faults', ()) if f['at'] == 'step'), None)
        if st is not None:
            st.n = 0
            st.hit = st.begun = False
            st.limit = self.budget
            if at is not None:
                if at.get('fn'):
                    st.fn_at, st.fns = at['n'], set()
                else:
                    st.at = at['n']
                st.at_exc = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}[at['kind']]
            st.counting = True
        # the stack an application has with Python's default limit
        stack = sys.getrecursionlimit()
        if threading.current_thread() is threading.main_thread():
            sys.setrecursionlimit(min(stack, depth() + 950))
        try:
            out.obj = getattr(self, 'op_' + op['op'])(op, i)
            out.ok = True
        except StepBudget:
            raise Bad('hang', 'operation %d (%s) exceeded %d steps' % (i, op['op'], self.budget))
        except Bad:
            raise
        except Unknown as e:
            raise Bad('wrong-url', 'operation %d (%s) asked for %s, which no reference names' % (
                i, op['op'], e))
        except BaseException as e:
            out.exc = type(e).__name__
            out.msg = str(e)[:200]
            e.__traceback__ = None
        finally:
            if threading.current_thread() is threading.main_thread():
                sys.setrecursionlimit(stack)
            if st is not None:
                st.counting = False
                st.at = st.fn_at = None
                out.steps = st.n
                if st.hit:
                    w._op_fired.append('step:' + at['kind'])
                    w.fired.append((i, 'step:' + at['kind']))
                    w.count('fault:step_' + at['kind'])
            out.fired = w.end()
        self.world.log('end', repr(out))
        self.log.append((i, op['op'], repr(out)))
        return out

    def op_open(self, op, i):
        url = op['url']
        self.op_load(op, i)
        # the first of two operations has succeeded
        if self.steps is not None:
            self.steps.counting = False         # (no fault while the harness looks)
        self.mid = (self.app.original_spec_version, self.app.current_spec_version)
        if self.steps is not None:
            self.steps.counting = True
        return self.op_migrate(op, i)

    def op_load(self, op, i):
        url = op['url']
        self.started.append(((url, ()), ROOTKIND[self.src_ver]))
        obj = self.app.load_obj(named(op, url), getter=self.via(op), remove_dummy=op.get('rd', False))
        self.raws[url] = obj
        if url not in self.ready:
            self.unready.add(url)
        self.handles.append(Handle(self.hold(obj), (url, ()), ROOTKIND[self.src_ver], self.src_ver, i))
        return obj

    def via(self, op):
        """the getter a caller passes along"""
        how, url = op.get('via'), op['url']
        if self.world.transport not in ('getter', 'dict'):
            return None
        if how == 'dict':
            return DictGetter([url], self.world.mapping())
        if how:
            cls = getter_class(self.world)
            if how == 'class' and self.world.behind:
                return None
            return cls if how == 'class' else cls(url)

    def op_migrate(self, op, i):
        url = op['url']
        if self.raws[url] is None:
            self.raws[url] = self.app.load_obj(url)
        to = op.get('to', self.dst_ver)
        src = self.raws[url]
        if op.get('done') and url in self.results:
            # what is there already, once more
            src = self.results[url]
            self.world.count('remigrate')
        obj = self.app.migrate_obj(src, named(op, url), to)
        src = None
        if self.weak:
            self.raws[url] = None
        elif to == self.dst_ver:
            self.results[url] = obj
        self.unready.discard(url)
        if to == self.dst_ver:
            self.ready.add(url)
        self.handles.append(Handle(self.hold(obj), (url, ()), ROOTKIND[self.src_ver], to, i))
        return obj

    def op_resolve(self, op, i):
        loc = (op['url'], tuple(op['toks']))
        kind = op['kind']
        to = op.get('to', self.dst_ver)
        self.started.append((loc, kind))
        key = (loc, kind, to)
        if op.get('direct'):
            return self.resolve_direct(op, i, loc, kind, to, key)
        # once it is there, nobody has to say what it is
        r, new = self.app.resolve_obj(
            op.get('jref') or named(op, jref(*loc)), from_spec_version=self.src_ver,
            parser=None if op.get('np') and (key in self.had or self.inside(loc)) else parser_for(kind, self.src_ver),
            to_spec_version=to, remove_dummy=op.get('rd', False))
        self.had.add(key)
        self.handles.append(Handle(r, loc, kind, to, i, new))
        return r

    def resolve_direct(self, op, i, loc, kind, to, key):
        """a part in two steps, as with a complete document"""
        ref = named(op, jref(*loc))
        obj = self.app.load_obj(ref, parser=parser_for(kind, self.src_ver), remove_dummy=op.get('rd', False))
        self.loose.add(loc)             # (there, but not migrated)
        obj = self.app.migrate_obj(obj, ref, to)
        self.loose.discard(loc)
        self.had.add(key)
        self.world.count('part')
        self.handles.append(Handle(self.hold(obj), loc, kind, to, i))
        return obj

    def inside(self, loc):
        """is this a part of a complete document that is there?"""
        return loc[0] in (self.raws if self.src_ver == self.dst_ver else self.ready) and 'x-lib' not in loc[1]

    def op_miss(self, op, i):
        """a pointer to nothing: this has to fail"""
        ref = jref(op['url'], op['toks'])
        try:
            r, _ = self.app.resolve_obj(
                ref, from_spec_version=self.src_ver, parser=parser_for(op['kind'], self.src_ver),
                to_spec_version=op.get('to', self.dst_ver), remove_dummy=op.get('rd', False))
        except (StepBudget, Unknown, Bad):
            raise
        except Exception:
            self.world.count('missed')
            return None
        raise Bad('invented', '%s names nothing, and is resolved to %s' % (ref, type(r).__name__))

    def hold(self, obj):
        return weakref.proxy(obj) if self.weak and not isinstance(obj, weakref.ProxyTypes) else obj

    def op_gc(self, op, i):
        gc.collect()
        self.world.count('gc')

    def op_drop(self, op, i):
        """the caller forgets everything it was given"""
        self.handles = []
        self.world.count('drop')

    # -- checks ---------------------------------------------------------------
    def lib(self, ver):
        return o2 if ver == '2.0' else o3

    def deferred(self, h):
        return self.touches_unready(h.loc, h.kind) or \
            (h.ver == self.src_ver and not h.loc[1] and h.loc[0] not in self.ready)

    def check_handle(self, h, finals=False, ident=None, cache=None):
        """raises Bad when the handle is not what it should be"""
        key = (h.ver, finals)
        if h.ver == self.src_ver:
            c = cache.get(key) if cache is not None else None
            if c is None:
                c = Checker(self.model, self.lib(h.ver), ident=ident, finals=finals)
        else:
            c = cache.get(key) if cache is not None else None
            if c is None:
                c = CheckerB(self.model, self.lib(h.ver), finals=finals, strict=self.sc.get('strict'),
                             ident=ident)
        if cache is not None:
            cache[key] = c
        kind = h.kind
        if h.ver != self.src_ver:
            kind = self.model.refkind(kind)
            if kind == 'Parameter':
                floc = self.model.final(h.loc, kind)
                if floc and self.model.raw(floc).get('in') in ('body', 'formData'):
                    kind = 'Body'
        forms = getattr(c, 'forms', 0)
        try:
            c.check(h.obj, h.loc, kind)
            if getattr(c, 'forms', 0) > forms:
                self.world.count('finding:form-ref', c.forms - forms)
        except Bad:
            raise
        except Exception as e:
            # what was handed out cannot even be looked at
            raise Bad('unreadable', '%s: %s while reading it: %s' % (
                jref(*h.loc), type(e).__name__, str(e)[:200]))
        return c

    def check_all(self, finals=False, ident=None):
        cache = {}
        n = b = 0
        for h in self.handles:
            if self.deferred(h):
                continue
            self.check_handle(h, finals, ident, cache)
        for c in cache.values():
            n += c.nodes
            b += c.bound
        return n, b


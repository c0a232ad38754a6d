"""C19: getters.  C18: the object tree under reads and edits."""
import copy
import gc
import json
import os
import random
import urllib.parse

from . import hist
from .model import Bad, real
from .props import prop, Prop, Info, BUDGET, counting, failing
from .session import StepBudget, Unknown
from .world import World, FAILING, KINDS, FS_PREFIX

from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.getter import Getter, SimpleGetter, UrlGetter, LocalGetter, DictGetter


def some_value(r, depth=3):
    x = r.random()
    if depth and x < 0.35:
        return {some_key(r): some_value(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))}
    if depth and x < 0.5:
        return [some_value(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
    return r.choice(['text', '', 'yes', '1', 'null', 'a: b', '#x', '\u65e5\u672c', 'it\'s "so"', 'line\nline', ' pad ',
                     0, 1, -7, 1.5, True, False, None, 12345678901234])


def some_key(r):
    return r.choice(['a', 'b', 'key', 'on', 'no', '~', 'x/y', '\u00e9', '200', '', 'long key', '$ref', '{', '-'])


def some_doc(r, k):
    d = {'id': 'doc-%d' % k}
    for _ in range(r.choice([0, 1, 2, 4])):
        d[some_key(r)] = some_value(r)
    if r.random() < 0.3:
        d['pad'] = 'x' * r.choice([10, 5000, 20000])
    return d


class Failing(dict):
    """the mapping of a DictGetter, on the simulated network"""

    def __init__(self, world):
        dict.__init__(self)
        self.world = world

    def get(self, path, default=None):
        return self.world.callback_fetch(path)

    def __getitem__(self, path):
        return self.world.callback_fetch(path)

    def __contains__(self, path):
        return path in self.world.docs

    def __bool__(self):
        return True


@prop
class C19(Prop):
    id = 'C19'
    technique = 'sequences of requests to getters of every kind under delivery faults, compared with a queue'
    searched = 'kinds of getters, queues, contents, encodings, fault kinds and positions, ways of asking'
    stubs = 'network (sockets below http.client), disk (below io.TextIOWrapper), callbacks and dictionaries of the caller'
    rule = ('one case = one to three getters with their queues and one sequence of requests; non-trivial: a request '
            'was made after a failed one, or at least three locations were delivered')
    quick = (60000, 25)

    def gen(self, rng):
        r = rng
        tr = r.choice(['queue', 'queue', 'dict', 'dict', 'callback', 'http', 'file', 'file'])
        docs, locs = {}, []
        for k in range(r.choice([1, 2, 3, 5])):
            fmt = r.choice(['json', 'json', 'yaml'])
            st = {'fmt': fmt, 'unicode': r.random() < 0.5, 'bytes': r.random() < 0.5,
                  'framing': r.choice(['length', 'chunked', 'close'])}
            if fmt == 'json':
                st['indent'] = r.choice([None, 2])
            else:
                st['alias'] = r.random() < 0.3
            if r.random() < 0.4:
                st['chunks'] = [r.choice([1, 2, 7, 64, 500]) for _ in range(10)]
            ext = '.json' if fmt == 'json' else r.choice(['.yaml', '.yml'])
            loc = None
            if tr == 'file':
                form = r.choice(['path', 'path', 'url', 'dir', 'bare'])
                p = FS_PREFIX + r.choice(['/d%d', '/d%d', '/my api %d', '/\u00e9t\u00e9/%d', '/100%%/%d', '/v%d.json',
                                          '/%d.yaml', '/q?%d#']) % k
                q = 'file://' + urllib.parse.quote(p)
                if form == 'dir':
                    u = q + '/' + r.choice(['swagger.json', 'resource_list.json', 'swagger.yaml', 'swagger.yml'])
                    loc = p
                elif form == 'bare':
                    ext = '.json' if fmt == 'json' else '.yaml'
                    u, loc = q + '/doc' + ext, p + '/doc'
                else:
                    u = q + '/doc' + ext
                    loc = u if form == 'url' else p + '/doc' + ext
            else:
                u = 'http://h.io/%s%d%s' % (r.choice(['d', 'sub/d', 'd%20', 'D']), k, ext)
                x = r.random()
                if x < 0.2:
                    # locations which are nearly the same
                    u = 'http://h.io/near' + ['', '/', '?a=1', '?a=2', '/?a=1'][k % 5]
                elif x < 0.3:
                    u = 'http://h.io/a//b/../c;p=%d?q=/%%2F/' % k
                loc = u
            docs[u] = {'doc': some_doc(r, k), 'style': st}
            if tr in ('queue', 'callback') and r.random() < 0.2:
                docs[u]['style']['raw'] = True      # handed over as a dictionary
            locs.append([loc, u])
        getters = []
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice([1, 2, 3, 6]) if tr in ('queue', 'dict') else 1
            getters.append([r.randrange(len(locs)) for _ in range(n)])
        kinds = [k for k in KINDS[{'queue': 'getter', 'callback': 'getter'}.get(tr, tr)]
                 if not (k == 'empty' and tr == 'dict')]
        fp = r.choice([0, 0.2, 0.5, 0.8])
        reqs = []
        total = sum(len(q) for q in getters)
        for _ in range(int(total * r.choice([1, 1.5, 2, 3])) + r.choice([0, 1, 2])):
            q = {'g': r.randrange(len(getters)), 'via': r.choice(['next', 'next', 'resolver'])}
            if r.random() < fp:
                f = {'at': 'fetch', 'n': 0, 'kind': r.choice(kinds), 'frac': round(r.random(), 3), 'v': r.randrange(10)}
                if f['kind'] == 'torn' and r.random() < 0.5:
                    f['silent'] = True
                if r.random() < 0.2:
                    # (a Resolver may be interrupted after the delivery)
                    f = {'at': 'step', 'n': r.randrange(1, 60), 'kind': r.choice(['interrupt', 'memory'])}
                    q['via'] = 'next'
                q['faults'] = [f]
            reqs.append(q)
        return {'prop': 'C19', 'kind': tr, 'docs': docs, 'locs': locs, 'getters': getters, 'ops': reqs,
                'same_list': r.random() < 0.3, 'locale': r.choice(['utf-8', 'ascii', 'latin-1'])}

    def valid(self, sc):
        return all(u in sc['docs'] for _, u in sc['locs']) and all(isinstance(d['doc'], dict) and 'id' in d['doc'] for d in sc['docs'].values())

    def shrink(self, sc):
        for k in range(len(sc['getters'])):
            for j in range(len(sc['getters'][k])):
                if len(sc['getters'][k]) > 1:
                    c = copy.deepcopy(sc)
                    del c['getters'][k][j]
                    yield c

    def make(self, sc, w, k, lists):
        q = sc['getters'][k]
        locs = [sc['locs'][j][0] for j in q]
        kind = sc['kind']
        if kind == 'dict':
            if sc['same_list']:
                # the same list of the caller, for getters with the same queue
                locs = lists.setdefault(tuple(q), locs)
            return DictGetter(locs, Failing(w))
        if kind == 'queue':
            def load(self, path):
                return give(w, path)
            g = type('MyGetter', (Getter,), {'load': load})(locs[0])
            g.urls = locs
            return g
        if kind == 'callback':
            return type('SimGetter', (SimpleGetter,),
                        {'__simple_getter_callback__': lambda path: give(w, path)})(locs[0])
        if kind == 'http':
            return UrlGetter(locs[0])
        return LocalGetter(locs[0])

    def run(self, sc):
        info = Info()
        kind = sc['kind']
        steps = any(f['at'] == 'step' for o in sc['ops'] for f in o.get('faults', ()))
        w = World(copy.deepcopy(sc['docs']), {'queue': 'getter', 'callback': 'getter'}.get(kind, kind), sc['locale'])
        with counting(steps) as st, w.installed():
            lists = {}
            getters = [self.make(sc, w, k, lists) for k in range(len(sc['getters']))]
            left = [list(q) for q in sc['getters']]
            failed = set()
            delivered = 0
            for i, op in enumerate(sc['ops']):
                k = op['g']
                g = getters[k]
                want = sc['locs'][left[k][0]][1] if left[k] else None
                at = next((f for f in op.get('faults', ()) if f['at'] == 'step'), None)
                w.begin(i, op.get('faults', ()))
                if st is not None:
                    st.n, st.hit, st.limit = 0, False, BUDGET
                    if at is not None:
                        st.at, st.at_exc = at['n'], {'interrupt': KeyboardInterrupt, 'memory': MemoryError}[at['kind']]
                    st.counting = True
                ok = stop = False
                got = exc = None
                n = len(w.fetch_log)
                try:
                    if op['via'] == 'resolver':
                        # (a Resolver does not accept what is no document)
                        got = Resolver().resolve('http://any.io/%d' % i, getter=g)
                    else:
                        it = iter(g)
                        if it is not g:
                            raise Bad('wrong', 'a getter iterates over something else')
                        got = next(it)
                    ok = True
                except StopIteration:
                    stop = True
                except StepBudget:
                    raise Bad('hang', 'request %d does not end' % i)
                except Bad:
                    raise
                except Unknown as e:
                    raise Bad('wrong', 'request %d asked for %s' % (i, e))
                except BaseException as e:
                    exc = '%s: %s' % (type(e).__name__, str(e)[:100])
                    e.__traceback__ = None
                finally:
                    if st is not None:
                        st.counting, st.at = False, None
                        if st.hit:
                            w._op_fired.append('step:' + at['kind'])
                            w.fired.append((i, 'step:' + at['kind']))
                            w.count('fault:step_' + at['kind'])
                    hit = failing(w.end())
                w.log('end', ok, stop, exc and exc.split(':')[0])
                info.count('operations')
                what = 'request %d (%s, getter %d)' % (i, kind, k)
                asked = [u for _, u, _ in w.fetch_log[n:]]
                if want is None:
                    if asked:
                        raise Bad('again', '%s: nothing is left, but %s was loaded' % (what, asked[0]))
                    if not stop and not hit:
                        raise Bad('end', '%s: nothing is left, but %s' % (what, exc or 'something was delivered'))
                    info.count('exhausted')
                    continue
                if stop:
                    raise Bad('lost', '%s: the getter is exhausted, but %s is still to come' % (what, want))
                if any(u != want for u in asked):
                    raise Bad('order', '%s: loaded %s, expected %s' % (what, asked, want))
                if not ok:
                    if not hit:
                        raise Bad('failed', '%s failed: %s' % (what, exc))
                    failed.add(k)
                    info.count('operations_failed')
                    continue
                if hit and not any(f.startswith('step:') for f in hit):
                    raise Bad('ignored', '%s delivered something although %s happened' % (what, hit[0]))
                if len(asked) != 1:
                    raise Bad('order', '%s: %d loads for one request' % (what, len(asked)))
                doc = sc['docs'][want]['doc']
                if json.dumps(got, sort_keys=True) != json.dumps(doc, sort_keys=True):
                    raise Bad('content', '%s: %s, not the content of %s' % (what, str(got)[:100], want))
                left[k].pop(0)
                delivered += 1
                if k in failed:
                    info.count('after_failure')
                opened = w.open_handles()
                if opened:
                    raise Bad('open', '%s left %s open' % (what, opened))
            info.count('delivered', delivered)
        info.events = w.events
        info.sim = w.now
        for c, v in w.counts.items():
            info.count(c, v)
        info.nontrivial = delivered >= 3 or info.counts.get('after_failure', 0) > 0
        return info


def give(w, path):
    x = w.callback_fetch(path)
    if isinstance(x, (str, bytes)) and w.docs[path]['style'].get('raw') and w.fetch_log[-1][2]:
        return copy.deepcopy(w.docs[path]['doc'])
    return x

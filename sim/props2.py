"""Properties C10 and up."""
import contextlib
import copy
import gc
import hashlib
import json
import os
import pickle
import random

from . import hist, sched, edits
from .model import Bad, Model, Checker, compare_graphs, freeze_graph, canonical, real
from .props import (prop, Prop, GraphProp, Faulty, Info, REG, BUDGET, counting, has_steps,
                    canonical_digest, digest, safe_digest, safe_freeze, failing)
from .session import (Session, App, make_resolver, getter_class, MODE_VER, ROOTKIND)
from .tables import jref, table, METHODS2
from .world import Net, World, FAILING, KINDS

from pyopenapi.migration.resolve import Resolver


def forked(fn):
    """result of ``fn()`` computed in a child of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                out = ('ok', fn())
            except Bad as e:
                out = ('bad', (e.cls, e.msg))
            except BaseException as e:
                out = ('exc', '%s: %s' % (type(e).__name__, e))
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        buf += part
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
        raise Bad('crash', 'a child process ended without an answer')
    tag, v = pickle.loads(buf)
    if tag == 'bad':
        raise Bad(*v)
    if tag == 'exc':
        raise RuntimeError(v)
    return v


def vary(docs, mark):
    """the same documents with other texts in them"""
    def walk(d, key=None):
        if isinstance(d, dict):
            return {k: walk(v, k) for k, v in d.items()}
        if isinstance(d, list):
            return [walk(v, key) for v in d]
        if isinstance(d, str) and key in ('description', 'title', 'summary', 'operationId'):
            return d + mark
        return d
    return {u: dict(copy.deepcopy(d), doc=walk(d['doc'])) for u, d in docs.items()}


@prop
class C10(Prop):
    id = 'C10'
    quick = (60000, 60)
    technique = ('seeded interleaving of threads, switched at library lines and at fetches; every thread '
                 'compared with the same thread run alone')
    searched = 'interleavings, sharing of a Resolver, document sets, histories, faults and edits per thread'
    rule = ('one case = two or three threads, each with its own App, histories and faults, and one '
            'interleaving; non-trivial: at least two switches while both threads had work; distinct: by '
            'hash of the complete event log including every switch')

    def gen(self, rng):
        shared = rng.random() < 0.4
        transport = rng.choice(['getter', 'getter', 'dict', 'http'])
        plain = transport == 'http' and rng.random() < 0.6
        nt = rng.choice([2, 2, 2, 3])
        mode = rng.choice('AABBC')
        kn = {'budget': rng.choice([25, 40, 60])}
        base, g = hist.scenario(rng, 'C10', mode, kn, transport)
        gens = [(base, g)]
        variants = [base['docs']]
        threads = []
        for t in range(nt):
            m, sc, gg, v = mode, base, g, 0
            if shared or t == 0:
                if mode in 'AB' and rng.random() < 0.4:
                    m = 'A'             # the same documents at another version
                    if base['mode'] == 'B':
                        # targets of mode B are targets of mode A as well
                        pass
            else:
                x = rng.random()
                if x < 0.4:
                    variants.append(vary(base['docs'], ' v%d' % t))
                    v = len(variants) - 1
                elif x < 0.8:
                    # other documents under the same names
                    m = rng.choice('AABBC')
                    kn2 = dict(kn, urls=list(base['docs']), scheme='http')
                    kn2['ndocs'] = len(base['docs'])
                    sc, gg = hist.scenario(rng, 'C10', m, kn2, transport)
                    variants.append(sc['docs'])
                    v = len(variants) - 1
            s = {'mode': m, 'docs': sc['docs'], 'root': sc['root'], 'transport': transport}
            hist.history(rng, s, gg, n=rng.choice([0, 1, 2, 3, 5]))
            if not shared and rng.random() < 0.4:
                hist.arm(rng, s, 0.4, prepare=0.2)
                again = []
                for op in s['ops']:
                    again.append(op)
                    if op.get('faults') and rng.random() < 0.7:
                        again.append({k: x for k, x in op.items() if k != 'faults'})
                s['ops'] = again
            if rng.random() < 0.35:
                s['ops'].append({'op': 'scribble', 'k': rng.randrange(1 << 30)})
            threads.append({'v': v, 'mode': m, 'root': sc['root'], 'ops': s['ops']})
        if rng.random() < 0.25:
            self.services(rng, variants, threads, transport, shared)
        density = rng.choice([1.0, 0.3, 0.1, 0.1, 0.03, 0.03, 0.01])
        scale = max(2, 10 ** rng.uniform(0.5, 4) * density)
        plan = []
        for _ in range(rng.choice([2, 5, 10, 30, 100])):
            plan.append([1 + int(rng.expovariate(1.0 / scale)), rng.randrange(2)])
        fetches = [int(rng.random() < 0.5) for _ in range(12)] if rng.random() < 0.6 else []
        aim = []
        if rng.random() < 0.45:
            # at certain lines instead, rather those which are seldom executed
            aim = [[rng.random() ** 2, 1 if rng.random() < .7 else rng.randint(1, 30), rng.randrange(2)]
                   for _ in range(rng.choice([1, 1, 2, 3]))]
        return {'prop': 'C10', 'variants': variants, 'threads': threads, 'plan': plan, 'aim': aim,
                'fetches': fetches, 'density': density, 'salt': rng.randrange(1 << 20), 'shared': shared,
                'transport': transport, 'plain': plain}

    def services(self, rng, variants, threads, transport, shared):
        """some threads load Swagger 1.2 services instead"""
        from .swagger12 import Gen12
        mine = [t for t in range(len(threads)) if rng.random() < 0.7]
        sets = []
        for t in (range(len(threads)) if shared else mine):
            x = rng.random()
            if not sets or (not shared and x < 0.6):
                g = Gen12(rng, transport)
                svcs = [g.service(k) for k in range(rng.choice([1, 1, 2]))]
                docs = {u: {'doc': d, 'style': {'fmt': rng.choice(['json', 'json', 'yaml'])}}
                        for u, d in g.docs.items()}
                if shared:
                    # every thread uses the same documents
                    del variants[:]
                variants.append(docs)
                sets.append((svcs, len(variants) - 1))
            svcs, v = sets[-1]
            if not shared and x > 0.8:
                variants.append(vary(variants[v], ' v%d' % t))
                v = len(variants) - 1
            ops = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                op = {'op': 'open12', 'svc': rng.randrange(len(svcs)), 'to': rng.choice(['2.0', '3.0.0'])}
                if not shared and rng.random() < 0.25:
                    ops.append(dict(op, faults=[{
                        'at': 'fetch', 'n': rng.randrange(4), 'kind': rng.choice(['refused', 'timeout', 'interrupt']),
                        'v': 0, 'frac': 0.5}]))
                ops.append(op)
            threads[t] = {'v': v, 'mode': '12', 'root': svcs[0]['listing'], 'services': svcs, 'ops': ops}

    # -- one thread -----------------------------------------------------------
    @staticmethod
    def session(sub, **k):
        if sub['mode'] == '12':
            from .swagger12 import Session12
            return Session12(sub, **k)
        return Session(sub, **k)

    def sub(self, sc, t):
        th = sc['threads'][t]
        if th['mode'] == '12':
            return {'prop': 'C10', 'mode': '12', 'root': th['root'], 'docs': sc['variants'][th['v']],
                    'services': th['services'], 'transport': sc['transport'], 'ops': th['ops'],
                    'plain': sc.get('plain')}
        return {'prop': 'C10', 'mode': th['mode'], 'root': th['root'], 'docs': sc['variants'][th['v']],
                'transport': sc['transport'], 'ops': th['ops'], 'plain': sc.get('plain')}

    def go(self, s, ops, rec, quiet):
        """perform the history, note what came of it"""
        for i, op in enumerate(ops):
            if op['op'] == 'scribble':
                with quiet():
                    self.judge(s)
                    n = edits.scribble([h.obj for h in s.handles], random.Random(op['k']))
                    s.world.count('edits', n)
                s.scribbled = True
                rec.append(('scribble', n))
                continue
            out = s.do(i, op)
            rec.append((op['op'], out.ok, out.exc, out.skipped, tuple(out.fired)))
            if not out.ok and not out.skipped and not failing(out.fired):
                raise Bad('failed', 'operation %d (%s) failed: %s %s' % (
                    i, op['op'], out.exc, getattr(out, 'msg', '')))

    def judge(self, s):
        s.check_all(finals=True)

    def finish(self, s, rec):
        gc.collect()            # what edits cut off is gone
        if not getattr(s, 'scribbled', False):
            self.judge(s)
        for h in s.handles:
            rec.append((jref(*h.loc), h.ver, self.look(h)))
        rec.append((s.app.original_spec_version, s.app.current_spec_version))

    @staticmethod
    def look(h):
        try:
            return digest(h.obj)
        except Exception as e:
            return 'EXC %s' % type(e).__name__

    class Nothing(object):
        def __enter__(self):
            pass

        def __exit__(self, *a):
            pass

    def run(self, sc):
        info = Info()
        subs = [self.sub(sc, t) for t in range(len(sc['threads']))]

        def alone(t):
            s = self.session(subs[t], budget=BUDGET)
            rec = []
            lines = sched.Lines()
            with s.world.installed(), (lines if sc.get('aim') else C10.Nothing()):
                self.go(s, subs[t]['ops'], rec, C10.Nothing)
            self.finish(s, rec)
            return rec, sorted((n, f, ln) for (f, ln), n in lines.n.items())

        want, stops = [], None
        for t in range(len(subs)):
            rec, lines = forked(lambda t=t: alone(t))
            want.append(rec)
            if t == 0 and sc.get('aim') and lines:
                stops = {}
                for r, nth, choice in sc['aim']:
                    n, f, ln = lines[int(r * len(lines))]
                    stops.setdefault((f, ln), []).append([1 + (nth - 1) % n, choice])
        with counting(self.steps) as st:
            sch = sched.Sched(sc['plan'], sc['fetches'], sc['density'], sc['salt'], stops)
            shared = fw = None
            web = sc['transport'] == 'http'
            if sc['shared']:
                fw = World(copy.deepcopy(sc['variants'][0]), sc['transport'])
                shared = Resolver(default_getter=None if web else self.getter(sch, fw))
            net = Net(sch.fetch, fw)
            sess = []
            for sub in subs:
                if shared is not None:
                    s = self.session(sub, resolver=shared, budget=BUDGET, steps=st)
                else:
                    w = World(copy.deepcopy(sub['docs']), sub['transport'])
                    s = self.session(sub, world=w, resolver=None if web else Resolver(
                        default_getter=self.getter(sch, w)), budget=BUDGET, steps=st)
                sess.append(s)
            recs = [[] for _ in subs]

            def body(t):
                net.mine(sess[t].world)
                self.go(sess[t], subs[t]['ops'], recs[t], sch.quiet)

            with contextlib.ExitStack() as stack:
                if web:
                    stack.enter_context(sess[0].world.installed(net))
                errs = sch.run([lambda t=t: body(t) for t in range(len(subs))])
        if sch.dead:
            raise Bad('deadlock', sch.dead)
        for t, e in enumerate(errs):
            if isinstance(e, Bad):
                raise Bad(e.cls, 'thread %d: %s' % (t, e.msg))
            if e is not None:
                raise e
        for t, s in enumerate(sess):
            try:
                self.finish(s, recs[t])
            except Bad as e:
                raise Bad(e.cls, 'thread %d: %s' % (t, e.msg))
        for t, (a, b) in enumerate(zip(want, recs)):
            a, b = json.loads(json.dumps(a)), json.loads(json.dumps(b))
            if a != b:
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Bad('interference', 'thread %d, step %d of %d: %s, alone: %s' % (
                    t, k, len(subs[t]['ops']), str(b[k:k + 1])[:200], str(a[k:k + 1])[:200]))
        for s in sess:
            info.take(s)
        if sc['shared']:
            info.count('shared_resolver')
            for k, v in fw.counts.items():
                info.count(k, v)
            info.events.extend(fw.events)
        info.events.append(('switches', sch.trace))
        info.count('switches', len(sch.trace))
        info.count('points', sch.n)
        for k, v in sch.counts.items():
            info.count(k, v)
        info.nontrivial = len(sch.trace) > len(subs)
        return info

    @staticmethod
    def getter(sch, w):
        from pyopenapi.migration.getter import SimpleGetter

        def cb(url):
            sch.fetch()
            r = w.callback_fetch(url)
            sch.fetch()
            return r
        return type('SimGetter', (SimpleGetter,), {'__simple_getter_callback__': cb})

    def valid(self, sc):
        if len(sc['threads']) < 1:
            return False
        for t in range(len(sc['threads'])):
            sub = self.sub(sc, t)
            if sub['mode'] == '12':
                if not sub['ops']:
                    return False
                continue
            if not sub['ops'] or not GraphProp.valid(self, dict(
                    sub, ops=[o for o in sub['ops'] if o['op'] != 'scribble'])):
                return False
        return True

    def shrink(self, sc):
        n = len(sc['threads'])
        for t in range(n):
            if n > 2:
                c = copy.deepcopy(sc)
                del c['threads'][t]
                yield c
        if sc['fetches']:
            yield dict(copy.deepcopy(sc), fetches=[])
        if sc.get('aim'):
            yield dict(copy.deepcopy(sc), plan=[])
            for k in range(len(sc['aim'])):
                yield dict(copy.deepcopy(sc), aim=sc['aim'][:k] + sc['aim'][k + 1:])
        m = len(sc['plan'])
        step = max(1, m // 2)
        while m:
            for a in range(0, m, step):
                c = copy.deepcopy(sc)
                lost = sum(g for g, _ in c['plan'][a:a + step])
                del c['plan'][a:a + step]
                if a < len(c['plan']):
                    c['plan'][a][0] += lost
                yield c
            if step == 1:
                break
            step //= 2
        for t in range(n):
            ops = sc['threads'][t]['ops']
            for i in range(len(ops)):
                c = copy.deepcopy(sc)
                del c['threads'][t]['ops'][i]
                if c['threads'][t]['ops']:
                    yield c
                for j in range(len(ops[i].get('faults', ()))):
                    c = copy.deepcopy(sc)
                    del c['threads'][t]['ops'][i]['faults'][j]
                    yield c
        from .engine import shrink_docs
        for v in range(len(sc['variants'])):
            if not any(th['v'] == v for th in sc['threads']):
                if sc['variants'][v]:
                    c = copy.deepcopy(sc)
                    c['variants'][v] = {}
                    yield c
                continue
            root = next(th['root'] for th in sc['threads'] if th['v'] == v)
            for d in shrink_docs(sc['variants'][v], root):
                c = dict(sc)
                c['variants'] = list(sc['variants'])
                c['variants'][v] = d
                yield copy.deepcopy(c)


# --------------------------------------------------------------------------

def strict(a, b):
    """equal, types of scalars included, order of keys left out"""
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)


@prop
class C11(Faulty):
    id = 'C11'
    technique = ('source documents are compared with their pristine form after every operation, failure and '
                 'edit; a second application on the same Resolver is judged as well')
    searched = 'document sets, histories, faults, edits, deliveries and the version of a second application'
    transports = ('dict', 'dict', 'dict', 'getter', 'getter', 'http', 'file', 'hook')
    prepare = 0.2
    stepf = 0.1
    rule = ('one case = one document set, a history with faults and edits, and a second App on the same '
            'Resolver; non-trivial: a source document was compared after edits or after a reference was bound')

    def gen(self, rng):
        mode = self.pick_mode(rng)
        tr = rng.choice(self.transports)
        sc, g = hist.scenario(rng, self.id, mode, {}, tr, fmt=None if rng.random() < 0.3 else 'json')
        for d in sc['docs'].values():
            if d['style'].get('fmt') == 'yaml' and rng.random() < 0.5:
                d['style']['alias'] = True
        hist.history(rng, sc, g, n=rng.choice([0, 1, 2, 4, 6]))
        if rng.random() < 0.4:
            hist.arm(rng, sc, 0.3, prepare=self.prepare, steps=self.stepf)
            sc['ops'] += [{k: v for k, v in o.items() if k != 'faults'} for o in sc['ops'] if o.get('faults')]
        sc['edit'] = rng.randrange(1 << 30) if rng.random() < 0.8 else None
        sc['second'] = None
        if rng.random() < 0.7:
            m2 = 'A' if mode == 'B' and rng.random() < 0.5 else mode
            t = dict(sc, mode=m2, ops=[])
            hist.history(rng, t, g, n=rng.choice([0, 1, 3]))
            sc['second'] = {'mode': m2, 'ops': t['ops']}
        return sc

    def pristine(self, s, info, when):
        w = s.world
        for u, d in w.docs.items():
            if not strict(d['doc'], s.raw_docs[u]):
                raise Bad('source', '%s was modified, %s' % (u, when))
        if w._mapping is not None:
            for u, d in w.docs.items():
                if dict.get(w._mapping, u) is not d['doc']:
                    raise Bad('source', 'the entry of %s in the dictionary given to a getter was replaced '
                                        'or removed, %s' % (u, when))
        for u in sorted({u for _, u, ok in w.fetch_log if ok}):
            n = len(w.fetch_log)
            try:
                got = s.resolver.resolve(u)
            except Exception as e:
                raise Bad('source', '%s cannot be resolved any more, %s: %s' % (u, when, e))
            if len(w.fetch_log) != n:
                continue
            if not strict(got, s.raw_docs[u]):
                raise Bad('source', 'the Resolver has %s modified, %s' % (u, when))
            info.count('compared')

    def after(self, s, i, op, out, info):
        if not out.ok and not out.skipped and not failing(out.fired):
            self.must_succeed(op, out)
        self.pristine(s, info, 'after operation %d (%s, %r)' % (i, op['op'], out))

    def end(self, s, sc, info):
        self.check(s, info)
        if sc.get('edit') is not None:
            n = edits.scribble([h.obj for h in s.handles], random.Random(sc['edit']), 0.7)
            info.count('edits', n)
            self.pristine(s, info, 'after edits of the loaded objects')
        if sc.get('second'):
            sub = dict(sc, mode=sc['second']['mode'], ops=sc['second']['ops'])
            s2 = Session(sub, world=s.world, resolver=s.resolver, budget=BUDGET, steps=s.steps)
            for i, op in enumerate(sub['ops']):
                out = s2.do(500 + i, op)
                try:
                    self.must_succeed(op, out)
                    self.check_new(s2, 500 + i, info)
                except Bad as e:
                    raise Bad('second', 'a second App on the same Resolver: %s' % e)
                self.pristine(s2, info, 'after operation %d (%s) of a second App' % (i, op['op']))
            try:
                self.check(s2, info)
            except Bad as e:
                raise Bad('second', 'a second App on the same Resolver: %s' % e)
            info.count('second_app')

    def run(self, sc):
        info = GraphProp.run(self, sc)
        info.nontrivial = info.counts.get('compared', 0) > 0 and (
            info.counts.get('bound', 0) > 0 or info.counts.get('edits', 0) > 0)
        return info


# --------------------------------------------------------------------------

class DerefChecker(Checker):
    """follows every reference with utils.deref and utils.final as well"""

    def _ref(self, ro, raw, loc, kind, where, todo):
        Checker._ref(self, ro, raw, loc, kind, where, todo)
        follow(self, ro, loc, kind, where, todo)


def follow(checker, ro, loc, kind, where, todo):
    from pyopenapi import utils, errs
    m = checker.m
    want = m.final(loc, kind)
    try:
        got = utils.deref(ro)
    except errs.CycleDetectionError:
        if want is not None:
            raise Bad('deref', '%s: reported as a cycle, but it leads to %s' % (where, jref(*want)))
        return
    if want is None:
        raise Bad('deref', '%s: a cycle of references, but deref gave %s' % (where, type(got).__name__))
    todo.append((got, want, m.refkind(kind)))


def doc_size(d):
    if isinstance(d, dict):
        return 1 + sum(doc_size(v) for v in d.values())
    if isinstance(d, list):
        return 1 + sum(doc_size(v) for v in d)
    return 1


@prop
class C12(GraphProp):
    id = 'C12'
    pfault = 0.15
    technique = 'library steps are counted on document sets full of reference cycles; chains are followed with deref'
    searched = 'reference graphs with cycles of every kind and length, histories'
    steps = True
    rule = ('one case = one document set with reference cycles, one history, the steps of each operation '
            'counted; non-trivial: at least one cycle of references was reached')
    PER = 4000              # library steps per JSON node of the document set; see DESIGN.md
    transports = ('getter', 'dict')

    def extra_knobs(self, rng):
        return {'purecycle': rng.random() < 0.6, 'pathcycle': rng.random() < 0.7,
                'pref': rng.choice([0.4, 0.6, 0.8, 0.9]), 'palias': rng.choice([0.2, 0.5, 0.9]),
                'pext': rng.choice([0.2, 0.5, 0.9]), 'pathrefs': rng.choice([0.0, 0.5, 0.9]),
                'pdeep': rng.choice([0.0, 0.3, 0.6])}

    def gen(self, rng):
        mode = self.pick_mode(rng)
        kn = self.extra_knobs(rng)
        if mode == 'B':
            # a parameter or response that is nothing but a cycle has no 3.0.0 form
            kn['purecycle'] = False
        sc, g = hist.scenario(rng, self.id, mode, kn, rng.choice(self.transports))
        if rng.random() < 0.06:
            self.chain(rng, sc)
        hist.history(rng, sc, g)
        if rng.random() < self.pfault:
            self.trouble(rng, sc)
        return sc

    def chain(self, rng, sc):
        """a long chain of references: within a full document of any length, in
        a document loaded part by part up to what is known to work (deep-chain)"""
        doc = sc['docs'][sc['root']]['doc']
        if 'swagger' in doc:
            top, where = doc, 'definitions'
        else:
            top, where = doc.setdefault('components', {}), 'schemas'
        own = rng.random() < 0.5
        n = rng.randint(100, 300) if own else rng.randint(20, 50)
        at = '#/%s' % '/'.join((['components'] if 'swagger' not in doc else []) + [where])
        d = {}
        for i in range(n):
            ref = {'$ref': '%s/chain%d' % (at if own else '#/definitions', i + 1)}
            d['chain%d' % i] = rng.choice([ref, {'items': ref, 'type': 'array'}, {'allOf': [ref]}])
        if all('$ref' in v for v in d.values()):
            d['chain0'] = {'allOf': [d['chain0']]}
        d['chain%d' % n] = rng.choice([{'type': 'string'}, {'items': {'$ref': '%s/chain0' % (
            at if own else '#/definitions')}, 'type': 'array'}])
        names = list(d)
        rng.shuffle(names)
        d = {k: d[k] for k in names}
        if own:
            top.setdefault(where, {}).update(d)
            return
        u = sc['root'].rsplit('/', 1)[0] + '/chain.json'
        if u in sc['docs'] or any(x.rsplit('#')[0] == u for x in sc['docs']):
            return
        sc['docs'][u] = {'kind': 'lib', 'style': {'fmt': 'json'}, 'doc': {'definitions': d}}
        top.setdefault(where, {})['chain'] = {'$ref': u + '#/definitions/chain0'}

    def run(self, sc):
        n = sum(doc_size(d['doc']) for d in sc['docs'].values())
        self.limit = self.PER * (n + 50)
        info = GraphProp.run(self, sc)
        return info

    def body(self, s, sc, info):
        s.budget = self.limit
        GraphProp.body(self, s, sc, info)
        cyc = self.cycles(s)
        info.count('cycles', cyc)
        info.nt = cyc

    def after(self, s, i, op, out, info):
        self.must_succeed(op, out)
        if out.steps:
            info.extra['max_share'] = max(info.extra.get('max_share', 0), round(out.steps / self.limit, 4))
        self.derefs(s, i, info)

    def derefs(self, s, i, info):
        st = s.steps
        for h in s.handles:
            if h.op != i or s.deferred(h):
                continue
            st.n, st.limit, st.counting = 0, self.limit * 10, True
            try:
                if h.ver == s.src_ver:
                    c = DerefChecker(s.model, s.lib(h.ver), finals=True)
                    try:
                        c.check(h.obj, h.loc, h.kind)
                    except (Bad, ReferenceError):
                        raise
                else:
                    c = s.check_handle(h, True)
            finally:
                st.counting = False
            info.count('nodes', c.nodes)
            info.count('bound', c.bound)

    def cycles(self, s):
        """how many reachable references lie on a cycle of references"""
        m = s.model
        nodes = m.closure(s.started)
        nxt = {}
        for loc, kind in nodes:
            raw = m.raw(loc)
            if m.isref(raw, kind):
                nxt[loc] = m.target(raw['$ref'], loc[0])
        # a reference whose target contains it, directly or through others
        under = {}
        for a in nxt:
            for k in range(len(a[1]) + 1):
                under.setdefault((a[0], a[1][:k]), []).append(a)
        n = 0
        for loc in nxt:
            seen, todo = set(), [nxt[loc]]
            while todo:
                l = todo.pop()
                if l in seen:
                    continue
                seen.add(l)
                if l[0] == loc[0] and loc[1][:len(l[1])] == l[1]:
                    n += 1
                    break
                todo.extend(nxt[a] for a in under.get((l[0], l[1]), ()))
        return n


# --------------------------------------------------------------------------

def permuted(d, rng):
    """the same content with its keys in another order"""
    if isinstance(d, dict):
        ks = list(d)
        rng.shuffle(ks)
        return {k: permuted(d[k], rng) for k in ks}
    if isinstance(d, list):
        return [permuted(x, rng) for x in d]
    return d


def dumped(o):
    try:
        d = json.dumps(real(o).dump(), sort_keys=True, default=str)
    except Exception as e:
        return 'EXC ' + type(e).__name__
    return hashlib.blake2b(d.encode(), digest_size=8).hexdigest()


@contextlib.contextmanager
def listings(seed):
    """directories are listed in any order"""
    real_list, real_scan = os.listdir, os.scandir
    if seed is None:
        yield
        return
    rng = random.Random(seed)

    def listdir(*a):
        out = sorted(real_list(*a))
        rng.shuffle(out)
        return out

    class scandir(object):
        def __init__(self, *a):
            with real_scan(*a) as it:
                self.all = sorted(it, key=lambda e: e.name)
            rng.shuffle(self.all)
            self.it = iter(self.all)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        close = __exit__

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

    os.listdir, os.scandir = listdir, scandir
    try:
        yield
    finally:
        os.listdir, os.scandir = real_list, real_scan


@prop
class C13(GraphProp):
    id = 'C13'
    twin = True
    technique = ('the same history executed under another hash seed (a second interpreter) and on documents '
                 'with permuted keys, results compared')
    searched = 'document sets, histories, unavailable documents, permutations of keys, hash seeds'
    transports = ('getter', 'getter', 'dict')
    stubs = 'getter callback'
    rule = ('one case = one document set and history, executed with two permutations of all keys in one '
            'interpreter and again in an interpreter with another hash seed; non-trivial: at least one '
            'reference was followed')

    def history(self, rng, sc, g):
        hist.history(rng, sc, g, drop=0.05)
        sc['perm'] = [rng.randrange(1 << 30) for _ in range(2)]
        sc['twin'] = rng.choice([5, 1013, 2017])
        if rng.random() < 0.3 and sc['transport'] == 'getter':
            # one document cannot be had for some of the time
            u = rng.choice(list(sc['docs']))
            kind = rng.choice(['refused', 'timeout', 'garbage', 'memory', 'interrupt'])
            out = []
            for op in sc['ops']:
                if op['op'] in ('open', 'load', 'migrate', 'resolve') and rng.random() < 0.5:
                    out.append(dict(op, faults=[{'at': 'url', 'url': u, 'kind': kind, 'frac': .5, 'v': 1}]))
                out.append(op)
            sc['ops'] = out

    def run(self, sc):
        info = Info()
        info.result = []
        with counting(self.steps) as st:
            rows = []
            for seed in [None] + sc['perm']:
                docs = sc['docs']
                if seed is not None:
                    r = random.Random(seed)
                    docs = {u: dict(d, doc=permuted(d['doc'], r)) for u, d in docs.items()}
                with listings(seed):
                    s = Session(dict(sc, docs=docs), budget=BUDGET, steps=st)
                    row = []
                    for i, op in enumerate(sc['ops']):
                        out = s.do(i, op)
                        if not out.ok and not out.skipped and not failing(out.fired):
                            self.must_succeed(op, out)
                        row.append([op['op'], bool(out.ok), bool(out.skipped)])
                for h in s.handles:
                    row.append([jref(*h.loc), h.ver, h.ret, C10.look(h), dumped(h.obj),
                                sorted(real(h.obj).get_field_names())
                                if hasattr(h.obj, 'get_field_names') else None])
                row.append([s.app.original_spec_version, s.app.current_spec_version])
                row.append(sorted({u for _, u, ok in s.world.fetch_log if ok}))
                rows.append(row)
                if seed is None:
                    self.check(s, info)
                info.take(s)
                info.count('executions')
            for k, row in enumerate(rows[1:]):
                if row != rows[0]:
                    j = next(i for i, (x, y) in enumerate(zip(row, rows[0])) if x != y)
                    raise Bad('key-order', 'with the keys of the documents in another order: %s, otherwise %s' % (
                        str(row[j])[:300], str(rows[0][j])[:300]))
        info.result = rows[0]
        info.nontrivial = info.counts.get('bound', 0) > 0
        return info

    def shrink(self, sc):
        for i in range(len(sc['perm'])):
            c = copy.deepcopy(sc)
            del c['perm'][i]
            yield c



def moved(m, loc, kind):
    """where a 2.0 location is after the migration, None when that depends"""
    url, toks = loc
    if 'swagger' not in m.docs[url]:
        # (on whether the path item around it was migrated)
        return None if any(a == 'parameters' and b.isdigit() for a, b in zip(toks, toks[1:])) else toks
    if toks[:1] == ('definitions',):
        return ('components', 'schemas') + toks[1:]
    if toks[:1] == ('responses',):
        return ('components', 'responses') + toks[1:]
    if toks[:1] == ('securityDefinitions',):
        return ('components', 'securitySchemes') + toks[1:]
    if toks[:1] == ('parameters',):
        f = m.final((url, toks[:2]), 'Parameter')
        b = f and m.raw(f).get('in') in ('body', 'formData')
        return ('components', 'requestBodies' if b else 'parameters') + toks[1:]
    if toks[:1] == ('paths',):
        at = 2 if toks[2:3] == ('parameters',) else 3
        if toks[at:at + 1] == ('parameters',) and len(toks) > at + 1 and (at == 2 or toks[2] in METHODS2):
            n = 0
            for i in range(int(toks[at + 1]) + 1):
                f = m.final((url, toks[:at + 1] + (str(i),)), 'Parameter')
                body = f is not None and m.raw(f).get('in') in ('body', 'formData')
                n += not body
            return toks[:at] + ((('x-pyopenapi_internal_request_body',) if at == 2 else ('requestBody',)) if body
                                else ('parameters', str(n - 1))) + toks[at + 2:]
        return toks
    # (below an extension: as in a part)
    return None if any(a == 'parameters' and b.isdigit() for a, b in zip(toks, toks[1:])) else toks


def apart(toks):
    """schemas of bodies and responses: there is one for every media type,
    and what the pointer names is an object of its own"""
    return any(t == 'schema' and i > 1 and (
        toks[i - 1] in ('requestBody', 'x-pyopenapi_internal_request_body') or
        toks[i - 2] in ('requestBodies', 'responses')) for i, t in enumerate(toks)) or \
        'x-pyopenapi_internal_request_body' in toks


@prop
class C14(GraphProp):
    id = 'C14'
    modes = (('B', 1.0),)
    technique = ('after random histories every movable pointer of the 2.0 document is resolved at 3.0.0 and '
                 'looked up in the migrated object')
    searched = 'document sets (names that look like keywords, prefixes, special characters), histories, faults'
    transports = ('getter', 'getter', 'dict', 'http', 'file')
    stubs = 'network (sockets below http.client), disk (below io.TextIOWrapper), getter callback'
    rule = ('one case = one 2.0 document set, one history including operations at 2.0 and failed ones, then up '
            'to 30 pointers resolved at 3.0.0; non-trivial: at least one pointer had moved')

    def history(self, rng, sc, g):
        root = sc['root']
        x = rng.random()
        hist.history(rng, sc, g, n=rng.choice([0, 1, 2, 4]))
        at2 = [(n[0], n[1]) for n in g.nodes if n[1] in hist.REF_KINDS['A']]
        pre = []
        if x < 0.5:
            # look at the 2.0 form first
            pre.append({'op': 'load', 'url': root})
            for _ in range(rng.choice([0, 1, 2, 3])):
                if at2 and rng.random() < 0.8:
                    pre.append(hist.resolve_op(*rng.choice(at2), to='2.0'))
            if rng.random() < 0.4:
                pre.append({'op': 'migrate', 'url': root, 'to': '2.0'})
                for _ in range(rng.choice([0, 1, 2])):
                    if at2:
                        pre.append(hist.resolve_op(*rng.choice(at2), to='2.0'))
        ops = sc['ops']
        for k in range(len(ops) - 1, 0, -1):
            if at2 and rng.random() < 0.15:
                ops.insert(k, hist.resolve_op(*rng.choice(at2), to='2.0'))
        sc['ops'] = pre + ops
        if rng.random() < 0.25:
            hist.arm(rng, sc, 0.3, prepare=0.2)
            out = []
            for op in sc['ops']:
                out.append(op)
                if op.get('faults'):
                    out.append({k: v for k, v in op.items() if k != 'faults'})
            sc['ops'] = out
        ts = hist.targets(g, 'B')
        rng.shuffle(ts)
        fulls = {root} | {op['url'] for op in sc['ops'] if op['op'] == 'open'}
        sc['ptrs'] = [[l[0], list(l[1]), k] for l, k in ts
                      if g.meta[l[0]] != 'full' or l[0] in fulls][:30]

    def after(self, s, i, op, out, info):
        if not out.ok and not out.skipped and not failing(out.fired):
            self.must_succeed(op, out)
        if not hasattr(s, 'whole_first') and op.get('to') != '2.0' and op['op'] in ('open', 'resolve', 'migrate'):
            s.whole_first = op.get('url') if op['op'] == 'open' and out.ok else None

    def end(self, s, sc, info):
        m = s.model
        s.whole_first = getattr(s, 'whole_first', None)
        roots = {}
        for h in s.handles:
            if h.ver == '3.0.0' and h.kind == 'Swagger' and h.loc[0] in s.ready:
                roots[h.loc[0]] = h.obj
        if sc['root'] not in roots:
            return
        for j, (url, toks, kind) in enumerate(sc['ptrs']):
            loc = (url, tuple(toks))
            if not m.exists(loc) or ('swagger' in m.docs[url] and url not in roots):
                continue
            op = hist.resolve_op(loc, kind)
            out = s.do(2000 + j, op)
            self.must_succeed(op, out)
            h = s.handles[-1]
            s.check_handle(h, True)
            info.count('pointers')
            ru, rt = Model.parse(h.ret)
            if ru != url:
                raise Bad('pointer', '%s: the pointer returned, %s, is in another document' % (jref(*loc), h.ret))
            want = moved(m, loc, kind)
            if want is not None:
                if want != loc[1]:
                    info.count('moved')
                if rt != want:
                    raise Bad('pointer', '%s is returned as %s, not as %s' % (jref(*loc), h.ret, jref(url, want)))
            if url in roots and rt[0] != 'x-lib' and not apart(rt):
                self.same_in(roots[url], rt, h.obj, jref(*loc), h.ret)
            elif url not in roots:
                continue
            # the new pointer is as good as the old one
            r, back = s.app.resolve_obj(h.ret, from_spec_version='3.0.0', to_spec_version='3.0.0')
            if real(r) is not real(h.obj) or back != h.ret:
                raise Bad('pointer', '%s: its new pointer %s resolves to something else (%s)' % (
                    jref(*loc), h.ret, back))
        self.refs(s, roots, info)
        self.check(s, info)

    def same_in(self, root, toks, obj, what, ptr):
        try:
            got = real(root).resolve(list(toks))
        except Exception as e:
            raise Bad('pointer', '%s: nothing at %s in the 3.0.0 object (%s: %s)' % (
                what, ptr, type(e).__name__, e))
        if got is None or real(got) is not real(obj):
            raise Bad('pointer', '%s: %s in the 3.0.0 object is something else' % (what, ptr))

    def refs(self, s, roots, info):
        """every reference in the migrated objects names its target"""
        for x in edits.reach(list(roots.values()), 4000):
            ref = getattr(x, 'ref', None) if hasattr(x, 'get_attrs') else None
            if not ref:
                continue
            at = x.get_attrs('migration')
            u, toks = Model.parse(at.normalized_ref)
            if toks[:1] == ('x-lib',) and any(a == 'parameters' and b.isdigit() for a, b in zip(toks, toks[1:])):
                # (depends on whether the path item around it was migrated, see 'moved')
                continue
            if toks[:1] == ('x-lib',) or apart(toks):
                # extension fields are not part of the object
                r, back = s.app.resolve_obj(at.normalized_ref, from_spec_version='3.0.0', to_spec_version='3.0.0')
                if real(r) is not real(at.ref_obj):
                    raise Bad('pointer', 'reference %s: its pointer %s resolves to something else' % (
                        ref, at.normalized_ref))
            elif u == s.whole_first:
                # (a reference made while its document was known in parts only
                # keeps the pointer it had in the 2.0 document)
                self.same_in(roots[u], toks, at.ref_obj, 'reference ' + ref, at.normalized_ref)
                info.count('references')
            if ref.startswith('#') and Model.parse(ref)[1] != toks:
                raise Bad('pointer', 'reference %s is bound to %s' % (ref, at.normalized_ref))

    def run(self, sc):
        info = GraphProp.run(self, sc)
        info.nontrivial = info.counts.get('moved', 0) > 0
        return info


# --------------------------------------------------------------------------

@prop
class C15(GraphProp):
    id = 'C15'
    technique = 'path items with chains and cycles of references under random histories, judged by a merging model'
    searched = 'chains and cycles of path items over several documents, orders of resolution, collections, failures'
    modes = (('A', .4), ('B', .25), ('C', .35))
    transports = ('getter', 'getter', 'dict')
    rule = ('one case = one document set rich in path item references, one history; every item and every merged '
            'item is compared with the model after every operation; non-trivial: a merged item was compared')

    def extra_knobs(self, rng):
        return {'pathrefs': rng.choice([0.7, 0.9]), 'pathcycle': rng.random() < 0.5,
                'pext': rng.choice([0.3, 0.7, 0.95]), 'wholes': rng.random() < 0.5,
                'size': rng.choice([2, 3, 4]), 'pref': rng.choice([0.2, 0.4])}

    def history(self, rng, sc, g):
        sc['merges'] = sum(1 for n in g.nodes if n[1] == 'PathItem' and n[3] is not None)
        g.used = [l for l in getattr(g, 'used', ()) if any(
            n[0] == l and n[1] == 'PathItem' for n in g.nodes)]
        hist.history(rng, sc, g, n=rng.choice([1, 2, 4, 6]), split=0.4)
        if rng.random() < 0.3:
            hist.arm(rng, sc, 0.3, prepare=0.3, steps=0.2)
            out = []
            for op in sc['ops']:
                out.append(op)
                if op.get('faults'):
                    out.append({k: v for k, v in op.items() if k != 'faults'})
            sc['ops'] = out

    def after(self, s, i, op, out, info):
        if not out.ok and not out.skipped and not failing(out.fired):
            self.must_succeed(op, out)
        self.check(s, info)

    def end(self, s, sc, info):
        from pyopenapi import utils
        for x in edits.reach([h.obj for h in s.handles if not s.deferred(h)], 4000):
            if type(x).__name__ != 'PathItem' or not hasattr(x.get_attrs('migration'), 'final_obj'):
                continue
            f = utils.final(x)
            if x.ref:
                info.count('merged')
                if f is not x.get_attrs('migration').final_obj:
                    raise Bad('merge', 'final() of a path item that refers to %s is not its merged form' % x.ref)
            elif f is not x:
                raise Bad('merge', 'final() of a path item without reference is another one')

    def run(self, sc):
        info = GraphProp.run(self, sc)
        info.nontrivial = info.counts.get('merged', 0) > 0
        return info


# --------------------------------------------------------------------------

LOCALES = ['utf-8', 'ascii', 'latin-1', 'cp1252', 'shift_jis']


OWN_NAMES = ('swagger.json', 'swagger.yaml', 'swagger.yml', 'resource_list.json')


@prop
class C17(GraphProp):
    id = 'C17'
    technique = 'the same history executed over several deliveries of the same documents, results compared'
    searched = 'formats, encodings, locales, chunkings, transports, redirections, latencies and histories'
    stubs = 'network (sockets below http.client), disk (below io.TextIOWrapper), getter callback, URL hook'
    quick = (60000, 40)
    rule = ('one case = one document set and history, executed once per delivery (dictionary first, two or '
            'three others); non-trivial: a second delivery was compared and at least one reference followed')

    def gen(self, rng):
        mode = self.pick_mode(rng)
        base = rng.choice(['http', 'file'])
        sc, g = hist.scenario(rng, self.id, mode, {'scheme': 'file'} if base == 'file' else {}, 'dict')
        hist.history(rng, sc, g, n=rng.choice([0, 1, 2, 4]))
        if base == 'file':
            trs = ['file', 'file', 'getter', 'hook', 'file']
        else:
            trs = ['http', 'hook', 'mirror', 'getter', 'http']
        dels = []
        for t in rng.sample(trs, rng.choice([1, 2, 3])):
            st = g.styles()
            for u in st:
                if st[u]['fmt'] == 'yaml':
                    st[u]['intcodes'] = rng.random() < 0.5
                    st[u]['alias'] = rng.random() < 0.3
                    if rng.random() < 0.3:
                        st[u]['lead'] = rng.choice(['\n', '---\n', '\ufeff', '# {"a": 1}\n', '%YAML 1.1\n---\n'])
                    if rng.random() < 0.1:
                        st[u]['tail'] = rng.choice(['...\n', '\n\n', '# end\n'])
                else:
                    if rng.random() < 0.3:
                        st[u]['lead'] = rng.choice([' ', '\n', '\r\n', '\ufeff', '\t', '\n\t '])
                    if rng.random() < 0.2:
                        st[u]['indent'] = rng.choice([0, '\t'])
                    if rng.random() < 0.1:
                        st[u]['tail'] = rng.choice(['\n', ' ', '\t\n'])
                if rng.random() < 0.1:
                    st[u]['crlf'] = True
                if t in ('file', 'hook') and rng.random() < 0.12 and not u.endswith(OWN_NAMES):
                    # the location is a directory, or does not show the extension
                    js = st[u]['fmt'] == 'json'
                    ext = ['/swagger.json', '/resource_list.json'] if js else ['/swagger.yaml', '/swagger.yml']
                    if '.' not in u.rsplit('/', 1)[1] and not any(v.startswith(u + '.') for v in st):
                        ext = ext + ['.json' if js else '.yaml'] * 4
                    st[u]['ext'] = rng.choice(ext)
            d = {'transport': t, 'locale': rng.choice(LOCALES), 'styles': st, 'ops': {}}
            if rng.random() < 0.4:
                for i in range(len(sc['ops'])):
                    d['ops'][str(i)] = [{'at': 'fetch', 'n': rng.randrange(3),
                                         'kind': rng.choice(['slow', 'chop'])}]
            dels.append(d)
        sc['deliveries'] = dels
        return sc

    def valid(self, sc):
        return bool(sc['deliveries']) and GraphProp.valid(self, sc)

    def shrink(self, sc):
        for i in range(len(sc['deliveries'])):
            if len(sc['deliveries']) > 1:
                c = copy.deepcopy(sc)
                del c['deliveries'][i]
                yield c
        for i, d in enumerate(sc['deliveries']):
            if d['locale'] != 'utf-8':
                c = copy.deepcopy(sc)
                c['deliveries'][i]['locale'] = 'utf-8'
                yield c
            if d['ops']:
                c = copy.deepcopy(sc)
                c['deliveries'][i]['ops'] = {}
                yield c
            for u in d['styles']:
                for k in list(d['styles'][u]):
                    if k != 'fmt':
                        c = copy.deepcopy(sc)
                        del c['deliveries'][i]['styles'][u][k]
                        yield c
                if d['styles'][u].get('fmt') != 'json':
                    c = copy.deepcopy(sc)
                    c['deliveries'][i]['styles'][u]['fmt'] = 'json'
                    yield c

    def run(self, sc):
        info = Info()
        ref = self.execute(sc, 'dict', 'utf-8', {}, {}, info)
        for d in sc['deliveries']:
            got = self.execute(sc, d['transport'], d['locale'], d['styles'], d['ops'], info)
            how = '%s, locale %s' % (d['transport'], d['locale'])
            for h, x in zip(ref.handles, got.handles):
                try:
                    diff = compare_graphs(h.obj, x.obj)
                except Exception as e:
                    diff = '%s while comparing: %s' % (type(e).__name__, e)
                if diff:
                    raise Bad('delivery', '%s delivered by %s: %s' % (jref(*h.loc), how, diff))
            info.count('deliveries')
            info.count('delivery:' + d['transport'])
        info.nontrivial = info.counts.get('bound', 0) > 0
        return info

    def execute(self, sc, transport, locale, styles, faults, info):
        docs = {u: {'doc': d['doc'], 'style': styles.get(u, {'fmt': 'json'})} for u, d in sc['docs'].items()}
        with counting(self.steps) as st:
            s = Session(dict(sc, docs=docs, transport=transport, locale=locale), budget=BUDGET, steps=st)
            with s.world.installed():
                for i, op in enumerate(sc['ops']):
                    op = dict(op, faults=faults.get(str(i), []))
                    out = s.do(i, op)
                    try:
                        self.must_succeed(op, out)
                    except Bad as e:
                        raise Bad(e.cls, 'delivered by %s, locale %s: %s' % (transport, locale, e.msg))
                try:
                    self.check(s, info, finals=True)
                except Bad as e:
                    raise Bad(e.cls, 'delivered by %s, locale %s: %s' % (transport, locale, e.msg))
        info.take(s)
        return s

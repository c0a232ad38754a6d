"""The properties: how a scenario is drawn, how it is run and judged."""
import copy
import hashlib
import json
import random

from . import hist
from .model import Bad, Model, Checker, compare_graphs, freeze_graph, canonical, real
from .session import Session, App, Steps, make_resolver, MODE_VER, ROOTKIND
from .tables import jref
from .world import World, FAILING, KINDS

BUDGET = 3000000            # library steps per operation before "does not end"


class Info(object):
    """what a run reports besides its verdict"""

    def __init__(self):
        self.events = []
        self.counts = {}
        self.sim = 0.0
        self.nontrivial = False
        self.extra = {}

    def take(self, s):
        w = s.world
        self.events.extend(w.events)
        self.events.extend(s.log)
        for k, v in w.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.sim += w.now
        self.count('operations', sum(1 for l in s.log if l[2] != 'skip'))
        self.count('operations_failed', sum(1 for l in s.log if 'failed' in str(l[2])))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sig(self):
        return hashlib.blake2b(json.dumps(self.events, sort_keys=True, default=str).encode(),
                               digest_size=8).hexdigest()


class Prop(object):
    id = None
    level = 'exploration'
    twin = False
    quick = (60000, 40)         # runs, seconds
    thorough = (2000000, 600)
    steps = False
    rule = ''
    technique = 'random histories of load, migrate and resolve over generated document sets, checked against a reference model'
    searched = 'document sets (names, references, cycles, several documents) and histories of operations'
    stubs = 'getter callback'
    real_parts = 'pyopenapi (all of it), yaml, json'

    def gen(self, rng):
        raise NotImplementedError

    def run(self, sc):
        raise NotImplementedError

    def valid(self, sc):
        """does a shrunk scenario still make sense?"""
        return True

    def known(self, sc, bad, entry):
        """is this violation the listed finding ``entry``?"""
        return False


REG = {}


def prop(cls):
    REG[cls.id] = cls()
    return cls


class counting(object):
    """library steps bounded while inside"""

    force = False       # set when a run that took too long is run again

    def __init__(self, on):
        self.on = on or counting.force
        self.st = None

    def __enter__(self):
        if self.on:
            self.st = Steps()
            self.st.counting = False
            self.st.start()
        return self.st

    def __exit__(self, *a):
        if self.st is not None:
            self.st.stop()


def has_steps(sc):
    return any(f['at'] == 'step' for op in sc['ops'] for f in op.get('faults', ()))


def canonical_digest(frozen):
    return hashlib.blake2b(json.dumps(canonical(frozen)).encode(), digest_size=12).hexdigest()


def digest(obj):
    return canonical_digest(freeze_graph(obj))


def named_there(m, op):
    try:
        m.raw((op['url'], tuple(op['toks'])))
        return True
    except Exception:
        return False


class GraphProp(Prop):
    """histories over generated document sets; subclasses hook in"""
    modes = (('A', .35), ('B', .3), ('C', .35))
    knobs = {}
    transports = ('getter',)
    finals = True
    pyaml = 0.25            # share of runs with documents written in YAML
    pfault = 0.0            # share of runs in which operations fail
    rule = ('one case = one generated document set with one history of operations (and faults); '
            'non-trivial: at least one reference was followed and at least one operation besides '
            'the first happened or more than one document was fetched')

    def pick_mode(self, rng):
        x = rng.random()
        for m, p in self.modes:
            if x < p:
                return m
            x -= p
        return self.modes[-1][0]

    def gen(self, rng):
        mode = self.pick_mode(rng)
        kn = dict(self.knobs)
        kn.update(self.extra_knobs(rng))
        sc, g = hist.scenario(rng, self.id, mode, kn, rng.choice(self.transports),
                              fmt=None if rng.random() < self.pyaml else 'json')
        self.history(rng, sc, g)
        if self.pfault and rng.random() < self.pfault:
            self.trouble(rng, sc)
        return sc

    def trouble(self, rng, sc):
        """some operations fail, and are asked for again"""
        hist.arm(rng, sc, rng.choice([0.2, 0.5]), prepare=0.2)
        out = []
        for op in sc['ops']:
            out.append(op)
            if op.get('faults') and (rng.random() < 0.8 or op is sc['ops'][0]):
                out.append({k: v for k, v in op.items() if k != 'faults'})
        sc['ops'] = out

    wide = 0.0              # share of runs with lots of small parts

    def extra_knobs(self, rng):
        return {'wide': rng.choice([20, 40, 80, 140])} if rng.random() < self.wide else {}

    def history(self, rng, sc, g):
        hist.history(rng, sc, g)

    def run(self, sc):
        info = Info()
        with counting(self.steps or has_steps(sc)) as st:
            s = Session(sc, budget=BUDGET, steps=st)
            with s.world.installed():
                self.body(s, sc, info)
        info.take(s)
        info.nontrivial = info.counts.get('bound', 0) > 0 and (
            len([l for l in s.log if l[2] != 'skip']) > 1 or
            len([f for f in s.world.fetch_log if f[2]]) > 1)
        return info

    def body(self, s, sc, info):
        for i, op in enumerate(sc['ops']):
            self.before(s, i, op, info)
            out = s.do(i, op)
            self.after(s, i, op, out, info)
        self.end(s, sc, info)

    def before(self, s, i, op, info):
        pass

    def after(self, s, i, op, out, info):
        pass

    def end(self, s, sc, info):
        pass

    def valid(self, sc):
        m = Model({u: d['doc'] for u, d in sc['docs'].items()}, MODE_VER[sc['mode']][0])
        if sc['root'] not in sc['docs'] or not all(d['doc'] for d in sc['docs'].values()):
            return False
        starts = []
        for op in sc['ops']:
            if op['op'] == 'miss' and named_there(m, op):
                return False
            if op['op'] in ('open', 'load'):
                starts.append(((op['url'], ()), ROOTKIND[m.version]))
            elif op['op'] == 'resolve':
                starts.append(((op['url'], tuple(op['toks'])), op['kind']))
        m.closure(starts)
        return bool(starts)

    # -- pieces used by several properties ------------------------------------
    def must_succeed(self, op, out):
        if not out.ok and not out.skipped and not failing(out.fired):
            raise Bad('failed', 'operation %s %s failed: %s %s' % (
                op['op'], op.get('url', '') + ('#/' + '/'.join(op['toks']) if op.get('toks') else ''),
                out.exc, getattr(out, 'msg', '')))

    def check_new(self, s, i, info, cache=None, ident=None, finals=None):
        """look at what operation ``i`` handed out"""
        for h in s.handles:
            if h.op == i and not s.deferred(h):
                c = s.check_handle(h, self.finals if finals is None else finals, ident, cache)
                if cache is None:
                    info.count('nodes', c.nodes)
                    info.count('bound', c.bound)

    def check(self, s, info, ident=None, finals=None):
        n, b = s.check_all(finals=self.finals if finals is None else finals, ident=ident)
        info.count('nodes', n)
        info.count('bound', b)


@prop
class C01(GraphProp):
    id = 'C01'
    pfault = 0.2

    def history(self, rng, sc, g):
        hist.history(rng, sc, g)
        sc['values'] = rng.randint(1, 1 << 30)

    def after(self, s, i, op, out, info):
        self.must_succeed(op, out)
        if op['op'] in ('open', 'migrate') and out.ok and out.obj is not None:
            now = (s.app.original_spec_version, s.app.current_spec_version)
            if now != (s.src_ver, op.get('to', s.dst_ver)):
                raise Bad('version', 'after operation %d (%s to %s) the App says it went from %s to %s' % (
                    i, op['op'], op.get('to', s.dst_ver), now[0], now[1]))
        self.check_new(s, i, info)

    def end(self, s, sc, info):
        self.check(s, info)
        if sc.get('values'):
            self.values(s, sc, info)

    def values(self, s, sc, info):
        """pointers which name plain values, in documents which are there"""
        rng = random.Random(sc['values'])
        starts = [(h.loc, h.kind) for h in s.handles if h.loc[0] in s.ready]
        if not starts:
            return
        found = []
        for loc, kind in sorted(s.model.closure(starts)):
            if not s.inside(loc) or loc[0] not in s.ready:
                continue
            raw = s.model.raw(loc)
            if s.src_ver != s.dst_ver and (kind != 'Schema' or loc[1][:1] != ('definitions',)):
                continue
            if isinstance(raw, dict) and kind in s.model.table and not s.model.isref(raw, kind):
                found.extend((loc, f) for f in s.model.table[kind].get('fields', ()) if f in raw
                             and f not in ('type', 'format', 'discriminator'))
        for loc, f in rng.sample(found, min(4, len(found))):
            toks = loc[1] + (f,)
            cur = s.model.raw(loc)[f]
            while isinstance(cur, (dict, list)) and cur and rng.random() < .7:
                t = rng.choice(sorted(cur)) if isinstance(cur, dict) else str(rng.randrange(len(cur)))
                toks += (t,)
                cur = cur[int(t)] if isinstance(cur, list) else cur[t]
            if cur is None:
                continue
            where = jref(loc[0], toks)
            try:
                got, _ = s.app.resolve_obj(where, from_spec_version=s.src_ver, to_spec_version=s.dst_ver)
            except Exception as e:
                raise Bad('failed', 'resolving the value at %s failed: %s %s' % (where, type(e).__name__, str(e)[:200]))
            if type(got) is not type(cur) or got != cur:
                raise Bad('content', 'the value at %s is %r, not %r' % (where, got, cur))
            info.count('values')


@prop
class C02(GraphProp):
    id = 'C02'
    wide = 0.02
    pfault = 0.2
    technique = 'random histories compared with the same operation on a new App'
    rule = ('one case = one generated document set with one history; up to four of its results are '
            'compared with those of new Apps; non-trivial: at least one reference was followed and '
            'the history has at least two operations')

    def history(self, rng, sc, g):
        hist.history(rng, sc, g, n=rng.choice([1, 2, 3, 4, 6, 8]))

    def after(self, s, i, op, out, info):
        self.must_succeed(op, out)

    def end(self, s, sc, info, limit=4):
        todo, seen = [], set()
        for h in reversed(s.handles):
            key = (h.loc, h.kind, h.ver)
            if key in seen or s.deferred(h):
                continue
            seen.add(key)
            todo.append(h)
        for h in todo[:limit]:
            ops = [{'op': 'open', 'url': sc['root']}]
            if h.loc != (sc['root'], ()) or h.kind != ROOTKIND[s.src_ver]:
                if h.loc[1] or h.kind != ROOTKIND[s.src_ver]:
                    ops.append(hist.resolve_op(h.loc, h.kind, to=h.ver))
                else:
                    ops.append({'op': 'open', 'url': h.loc[0]})
            f = Session(dict(sc, ops=ops), budget=BUDGET, steps=s.steps)
            with f.world.installed():
                for j, op in enumerate(ops):
                    out = f.do(j, op)
                    if not out.ok:
                        raise Bad('failed', 'on a new App, %s failed: %s %s' % (op, out.exc, getattr(out, 'msg', '')))
            fh = next(x for x in reversed(f.handles) if (x.loc, x.kind, x.ver) == (h.loc, h.kind, h.ver))
            info.count('compared')
            try:
                diff = compare_graphs(h.obj, fh.obj)
            except Exception as e:
                diff = '%s while comparing: %s' % (type(e).__name__, e)
            if diff:
                raise Bad('history', '%s (operation %d) differs from what a new App gives: %s' % (
                    jref(*h.loc), h.op, diff))
        info.count('bound', sum(1 for d in sc['docs'].values() if '"$ref"' in json.dumps(d['doc'])))


@prop
class C03(GraphProp):
    id = 'C03'
    wide = 0.02
    pfault = 0.2
    modes = (('A', .4), ('C', .4), ('B', .2))
    finals = False

    def history(self, rng, sc, g):
        hist.history(rng, sc, g, n=rng.choice([1, 2, 3, 4, 6, 8]), split=0.5)

    def run(self, sc):
        self.ident = {}
        return GraphProp.run(self, sc)

    def after(self, s, i, op, out, info):
        self.must_succeed(op, out)
        self.check_new(s, i, info, ident=self.ident)

    def end(self, s, sc, info):
        self.check(s, info, ident=self.ident)


def safe_digest(h):
    return canonical_digest(safe_freeze(h))


def safe_freeze(h):
    try:
        return freeze_graph(h.obj)
    except ReferenceError:
        raise Bad('dangling', '%s (operation %d): dead reference' % (jref(*h.loc), h.op))
    except Exception as e:
        raise Bad('content', '%s (operation %d): %s while reading it: %s' % (
            jref(*h.loc), h.op, type(e).__name__, str(e)[:200]))


class Watch(object):
    """remembers what every result looked like and insists that it stays so"""

    def __init__(self, s, finals=True):
        self.s, self.finals = s, finals
        self.known = {}
        self.compared = 0

    def look(self, when):
        s = self.s
        for h in s.handles:
            if id(h) not in self.known and s.deferred(h):
                continue
            d = safe_freeze(h)
            old = self.known.get(id(h))
            if old is None:
                s.check_handle(h, self.finals)
                self.known[id(h)] = (h, d)
            elif old[1] != d and canonical(old[1]) != canonical(d):
                try:
                    s.check_handle(h, self.finals)
                except Bad as e:
                    raise Bad('changed', '%s (operation %d) is not what it was, %s: %s' % (
                        jref(*h.loc), h.op, when, e))
                raise Bad('changed', '%s (operation %d) is not what it was, %s' % (
                    jref(*h.loc), h.op, when))
            self.compared += 1


@prop
class C04(GraphProp):
    id = 'C04'
    wide = 0.02
    technique = 'histories with garbage collections, failures and remove_dummy; everything handed out is looked at after every step'
    searched = 'histories, collection points, failure points'
    quick = (60000, 40)

    def history(self, rng, sc, g):
        faulty = rng.random() < 0.5
        hist.history(rng, sc, g, n=rng.choice([2, 3, 4, 6]), rd=rng.choice([0, 0.3, 0.8]), split=0.2)
        ops = []
        for op in sc['ops']:
            ops.append(op)
            if rng.random() < 0.5:
                ops.append({'op': 'gc'})
        sc['ops'] = ops
        if faulty:
            hist.arm(rng, sc, 0.4, prepare=0.2, steps=0.2)
            # what failed is asked for again, or not
            out = []
            for op in sc['ops']:
                out.append(op)
                if op.get('faults') and rng.random() < 0.7:
                    out.append({k: v for k, v in op.items() if k != 'faults'})
            sc['ops'] = out

    def run(self, sc):
        info = Info()
        with counting(self.steps or has_steps(sc)) as st:
            s = Session(sc, budget=BUDGET, steps=st, weak=True)
            self.watch = Watch(s)
            with s.world.installed():
                self.body(s, sc, info)
        info.take(s)
        info.count('compared', self.watch.compared)
        info.nontrivial = self.watch.compared > len(self.watch.known)
        return info

    def after(self, s, i, op, out, info):
        if not out.ok and not out.skipped and not out.fired:
            self.must_succeed(op, out)
        self.watch.look('after operation %d (%s)' % (i, op['op']))


@prop
class C05(GraphProp):
    id = 'C05'
    wide = 0.02
    technique = 'the fetch log of the simulated transports is compared with what a model says is needed'
    searched = 'document sets, histories, transports, failures and sharing of a Resolver'
    transports = ('getter', 'getter', 'dict', 'http', 'file', 'hook', 'mirror')
    stubs = 'network (sockets below http.client), disk (below io.TextIOWrapper), getter callback, URL hook'

    def history(self, rng, sc, g):
        hist.history(rng, sc, g, n=rng.choice([1, 2, 4, 6]), repeat=0.3)
        if rng.random() < 0.3:
            hist.arm(rng, sc, 0.3)
            sc['ops'] += [{k: v for k, v in o.items() if k != 'faults'} for o in sc['ops']]
        sc['second'] = rng.random() < 0.4

    def run(self, sc):
        info = Info()
        with counting(self.steps) as st:
            s = Session(sc, budget=BUDGET, steps=st)
            self.good = set()
            with s.world.installed():
                self.body(s, sc, info)
                if sc.get('second'):
                    # another application on the same Resolver
                    s2 = Session(sc, world=s.world, resolver=s.resolver, budget=BUDGET, steps=st)
                    self.body(s2, sc, info)
                    info.count('second_app')
        info.take(s)
        info.nontrivial = len(self.good) > 1
        return info

    def before(self, s, i, op, info):
        self.mark = len(s.world.fetch_log)

    def after(self, s, i, op, out, info):
        new = s.world.fetch_log[self.mark:]
        if op['op'] == 'load':
            need = {op['url']}
        elif op['op'] in ('open', 'migrate'):
            need = s.model.docs_needed([((op['url'], ()), ROOTKIND[s.src_ver])])
        elif op['op'] == 'resolve':
            need = s.model.docs_needed([((op['url'], tuple(op['toks'])), op['kind'])])
        elif op['op'] == 'miss':
            need = {op['url']}
        else:
            need = set()
        for _, url, ok in new:
            info.count('fetches')
            if url in self.good:
                raise Bad('refetch', 'operation %d (%s) fetched %s, which had been fetched before' % (i, op['op'], url))
            if url not in need:
                raise Bad('needless', 'operation %d (%s) fetched %s, which it does not need' % (i, op['op'], url))
            if ok:
                self.good.add(url)
        if not out.fired:
            self.must_succeed(op, out)
            if not out.skipped and not need <= self.good and not need & (s.unready | {u for u, _ in s.loose}):
                raise Bad('unfetched', 'operation %d (%s) ended without fetching %s' % (
                    i, op['op'], sorted(need - self.good)))


class Faulty(GraphProp):
    transports = ('getter', 'getter', 'dict', 'http', 'file', 'hook', 'mirror')
    stubs = 'network (sockets below http.client), disk (below io.TextIOWrapper), getter callback, URL hook'
    pyaml = 0.4
    prepare = 0.1
    stepf = 0.0
    prob = 0.6

    def history(self, rng, sc, g):
        hist.history(rng, sc, g, n=rng.choice([0, 1, 2, 4, 6]))
        hist.arm(rng, sc, rng.choice([0.3, 0.6, 0.9]), prepare=self.prepare, steps=self.stepf)
        # failed operations are tried again, sometimes into the next fault
        out = []
        for op in sc['ops']:
            out.append(op)
            while op.get('faults') and rng.random() < 0.7:
                op = {k: v for k, v in op.items() if k != 'faults'}
                if rng.random() < 0.3:
                    t = {'ops': [op], 'docs': sc['docs'], 'transport': sc['transport']}
                    hist.arm(rng, t, 1.0, prepare=self.prepare, steps=self.stepf)
                out.append(op)
        sc['ops'] = out


def failing(fired):
    return [f for f in fired if f in FAILING or f.startswith(('prepare:', 'step:'))]


@prop
class C06(Faulty):
    id = 'C06'
    technique = 'every kind of delivery fault on simulated network, disk and callbacks, at every operation'
    searched = 'fault kinds, fault positions, transports and histories'
    rule = ('one case = one document set, one history, faults armed on its operations; non-trivial: '
            'at least one fault that cannot be survived happened')

    def history(self, rng, sc, g):
        Faulty.history(self, rng, sc, g)
        if rng.random() < 0.15:
            # the same without any fault: nothing may fail
            for op in sc['ops']:
                op.pop('faults', None)

    def run(self, sc):
        info = GraphProp.run(self, sc)
        info.nontrivial = info.counts.get('failing_fired', 0) > 0
        return info

    def after(self, s, i, op, out, info):
        bad = failing(out.fired)
        if out.skipped:
            return
        info.count('failing_fired', len(bad))
        if bad and out.ok:
            raise Bad('swallowed', 'operation %d (%s) succeeded although %s happened' % (
                i, op['op'], ', '.join(bad)))
        if not bad and not out.ok:
            self.must_succeed(op, out)
        if out.ok:
            self.check_new(s, i, info)

    def end(self, s, sc, info):
        self.check(s, info)


def compare_fresh(p, s, sc, info, limit=4):
    """results at the end of a history against those of new Apps"""
    C02.end(p, s, sc, info, limit)


@prop
class C07(Faulty):
    id = 'C07'
    technique = 'fault sequences followed by retries, compared with fault-free executions'
    searched = 'fault kinds, fault positions (fetches, hooks, single bytecode steps) and histories'
    prepare = 0.2
    stepf = 0.25
    rule = ('one case = one document set, one history with faults, a retry of everything that failed '
            'and a comparison with new Apps; non-trivial: at least one operation failed and was retried')

    def run(self, sc):
        info = GraphProp.run(self, sc)
        info.nontrivial = info.counts.get('retried', 0) > 0
        return info

    def body(self, s, sc, info):
        failed = []
        for i, op in enumerate(sc['ops']):
            out = s.do(i, op)
            if out.skipped or not out.ok:
                op2 = {k: v for k, v in op.items() if k != 'faults'}
                if op2 not in failed:
                    failed.append(op2)
                if not out.skipped and not failing(out.fired):
                    self.must_succeed(op, out)
        # faults have stopped
        n = len(sc['ops'])
        for j, op in enumerate(failed):
            out = s.do(n + j, op)
            if out.skipped:
                continue
            self.must_succeed(op, out)
            info.count('retried')
        for u in sorted(s.unready):
            n += 1
            self.must_succeed({'op': 'migrate', 'url': u}, s.do(n + len(failed), {'op': 'migrate', 'url': u}))
        self.check(s, info)
        compare_fresh(self, s, sc, info)


@prop
class C08(Faulty):
    id = 'C08'
    technique = 'failures injected at fetches, hooks and arbitrary steps; earlier results are compared before and after'
    searched = 'fault kinds, fault positions (fetches, hooks, single steps) and histories'
    prepare = 0.25
    stepf = 0.35
    rule = ('one case = one document set, one history in which operations fail at arbitrary points; '
            'non-trivial: an operation failed when at least one earlier result existed')

    def history(self, rng, sc, g):
        hist.history(rng, sc, g, n=rng.choice([2, 3, 4, 6]), split=0.2, rd=rng.choice([0, 0, 0.3]),
                     again=rng.choice([0, 0.1, 0.5]))
        first = dict(sc['ops'][0])
        hist.arm(rng, sc, 0.6, prepare=self.prepare, steps=self.stepf)
        if rng.random() < 0.7:
            sc['ops'][0] = first        # most histories start well

    def run(self, sc):
        self.nt = False
        info = GraphProp.run(self, sc)
        info.nontrivial = self.nt
        return info

    def body(self, s, sc, info):
        self.watch = Watch(s)
        GraphProp.body(self, s, sc, info)
        info.count('compared', self.watch.compared)

    def before(self, s, i, op, info):
        self.versions = (s.app.original_spec_version, s.app.current_spec_version)
        s.mid = None

    def after(self, s, i, op, out, info):
        if out.ok or out.skipped:
            self.watch.look('after operation %d (%s)' % (i, op['op']))
            return
        if not failing(out.fired):
            self.must_succeed(op, out)
        now = (s.app.original_spec_version, s.app.current_spec_version)
        if now != (s.mid or self.versions):
            raise Bad('version', 'the failed operation %d (%s) changed the spec versions of the App from %s to %s' % (
                i, op['op'], self.versions, now))
        if self.watch.known:
            self.nt = True
        self.watch.look('after operation %d (%s) failed' % (i, op['op']))
        # what was obtained before is obtained again, and it is the same
        rk = ROOTKIND[s.src_ver]
        past = [h for h in s.handles if h.kind != rk and not s.deferred(h)]
        n = len(s.handles)
        for h in past[-3:]:
            op2 = hist.resolve_op(h.loc, h.kind, to=h.ver)
            out2 = s.do(1000 + i, op2)
            self.must_succeed(op2, out2)
            info.count('repeated')
            if h.ver != s.src_ver:
                # a whole may have replaced its parts since
                if safe_digest(s.handles[-1]) != safe_digest(h):
                    raise Bad('changed', 'after the failed operation %d (%s), %s is not what it was before' % (
                        i, op['op'], jref(*h.loc)))
            elif real(s.handles[-1].obj) is not real(h.obj):
                raise Bad('identity', 'after the failed operation %d (%s), %s is another object than before' % (
                    i, op['op'], jref(*h.loc)))
        for h in [h for h in s.handles[:n] if h.kind == rk and not s.deferred(h)][-2:]:
            obj = s.app.load_obj(h.loc[0])
            if h.ver != s.src_ver:
                obj = s.app.migrate_obj(obj, h.loc[0], h.ver)
            if real(obj) is not real(h.obj):
                raise Bad('identity', 'after the failed operation %d (%s), %s is another object than before' % (
                    i, op['op'], h.loc[0]))
        del s.handles[n:]


@prop
class C09(Faulty):
    id = 'C09'
    technique = 'simulated files and connections are accounted for after every operation, collector off'
    searched = 'fault kinds, positions within the I/O calls and histories'
    transports = ('http', 'file', 'hook', 'mirror')
    prepare = 0.05
    rule = ('one case = one document set delivered over simulated files or connections, one history with '
            'faults; collector off; non-trivial: at least one file or connection was opened and a fault happened')

    def history(self, rng, sc, g):
        Faulty.history(self, rng, sc, g)
        if rng.random() < 0.15:
            for op in sc['ops']:
                op.pop('faults', None)

    def run(self, sc):
        info = GraphProp.run(self, sc)
        info.nontrivial = info.counts.get('opened', 0) > 0 and any(k.startswith('fault:') for k in info.counts)
        return info

    def after(self, s, i, op, out, info):
        left = s.world.open_handles()
        if left:
            raise Bad('leak', 'operation %d (%s, %r) left open: %s' % (i, op['op'], out, ', '.join(left)))

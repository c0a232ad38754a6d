"""C18: the object tree under interleaved reads and edits.

A shadow of the tree is kept from the specifications' tables and the edits
alone; every read of the library is compared with it."""
import copy
import json
import os

from . import hist
from .model import Bad, Model, real
from .props import prop, Prop, Info, BUDGET, counting, has_steps, failing
from .session import Session, Steps, StepBudget, MODE_VER, ROOTKIND, parser_for
from .tables import PATTERNED, unext, table, esc

from pyopenapi.migration.scan import default_tree_traversal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def listed():
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            return {k['id'] for k in json.load(f)['findings'] if k['property'] == 'C18'}
    except OSError:
        return set()


class N(object):
    """a node of the shadow: 'obj', 'map' or 'list'"""

    def __init__(self, typ, kind, obj):
        self.typ, self.kind, self.obj = typ, kind, obj
        self.entries = {}       # name -> N or a plain value
        self.fields = {}
        self.memo = {}          # what the recorded finding remembers
        self.torn = False
        self.past = set()

    @property
    def keys(self):
        return list(self.entries)


def shape_of(ver, kind, name):
    """('one'|'map'|'list', kind) of the entry ``name`` of a node's kind"""
    return table(ver)[kind]['children'][name]


def kind_at(ver, node, name):
    """(shape, kind) of an entry"""
    if node.typ == 'obj':
        if node.kind == 'Reference':
            raise KeyError(name)
        return table(ver)[node.kind]['children'][name]
    if node.kind == 'secreq':           # list of maps of lists of strings
        return ('one', 'secmap')
    if node.kind == 'secmap':
        return ('list', 'str')
    return ('one', node.kind)


def grow(ver, spec, shape, kind, obj):
    """shadow of what the library built from ``spec``"""
    t = table(ver)
    if shape == 'map':
        n = N('map', kind, obj)
    elif shape == 'list':
        n = N('list', kind, obj)
    elif kind == 'secmap':
        n = N('map', 'secmap', obj)
    elif kind == 'str' or isinstance(spec, bool):
        return spec
    else:
        if kind == 'Bool|Schema':
            kind = 'Schema'
        tk = t[kind]
        if tk.get('ref') == 'ref' and isinstance(spec, dict) and '$ref' in spec:
            n = N('obj', 'Reference', obj)
            # loading makes references absolute
            n.fields = {'$ref': getattr(obj, '$ref')}
            return n
        if 'mapof' in tk:
            n = N('map', tk['mapof'], obj)
            spec = unext(spec)
        else:
            n = N('obj', kind, obj)
    if n.typ == 'obj':
        for name, v in spec.items():
            if name in t[n.kind]['children']:
                s, k = t[n.kind]['children'][name]
                if (n.kind, name) in PATTERNED:
                    v = unext(v)
                n.entries[name] = grow(ver, v, s, k, getattr(obj, name))
            elif name in t[n.kind]['fields'] or name == '$ref':
                n.fields[name] = getattr(obj, name) if name == '$ref' else v
    elif n.typ == 'map':
        for k, v in spec.items():
            s, ck = kind_at(ver, n, k)
            n.entries[k] = grow(ver, v, s, ck, obj[k])
    else:
        for i, v in enumerate(spec):
            s, ck = kind_at(ver, n, str(i))
            n.entries[str(i)] = grow(ver, v, s, ck, obj[i])
    return n


def find(n, toks):
    for t in toks:
        if not isinstance(n, N) or t not in n.entries:
            return None
        n = n.entries[t]
    return n


def paths(n, pre=(), depth=0, out=None, limit=400):
    """(tokens, node) of everything below"""
    out = [] if out is None else out
    if len(out) < limit:
        out.append((pre, n))
        for k, c in n.entries.items():
            if isinstance(c, N):
                paths(c, pre + (k,), depth + 1, out, limit)
    return out


def within(n, what):
    """is ``what`` at or below ``n``?"""
    return n is what or any(isinstance(c, N) and within(c, what) for c in n.entries.values())


def empty(c):
    return c is None or c is False or (isinstance(c, N) and c.typ != 'obj' and not c.entries)


# -- listings -----------------------------------------------------------------

def current(n):
    """{tokens: library object}: the nearest objects below a node"""
    out = {}
    for k, c in n.entries.items():
        if not isinstance(c, N):
            continue
        if c.typ == 'obj':
            out[(k,)] = c.obj
        else:
            for t, o in current(c).items():
                out[(k,) + t] = o
    return out


def coded(n):
    """the same with the names the library writes: each level of containers
    encodes the names below it once more"""
    out = {}
    for k, c in n.entries.items():
        if not isinstance(c, N):
            continue
        if c.typ == 'obj':
            out[k] = c.obj
        else:
            for t, o in coded(c).items():
                out[esc(k) + '/' + esc(t)] = o
    return out


def remembered(n):
    """what get_children gives while it never forgets what it found first"""
    if n.memo:
        return n.memo
    out = {}
    for k, c in n.entries.items():
        if not isinstance(c, N):
            continue
        if c.typ == 'obj':
            out[k] = c.obj
        else:
            for t, o in remembered(c).items():
                out[esc(k) + '/' + esc(t)] = o
    n.memo = out
    return out


def containers(n):
    for c in n.entries.values():
        if isinstance(c, N) and c.typ != 'obj':
            yield c
            for x in containers(c):
                yield x


def items(d):
    return {(k, id(v)) for k, v in d.items()}


def same(got, want):
    return items({k: real(v) for k, v in got.items()}) == items({k: real(v) for k, v in want.items()})


class Tree(object):
    def __init__(self, ver, root, info, strict=False):
        self.ver, self.root, self.info = ver, root, info
        self.known = set() if strict else listed()
        self.ever = []          # keeps every object alive: identities stay unique

    def finding(self, fid, msg):
        if fid in self.known:
            self.info.count('finding:' + fid)
        else:
            raise Bad(fid, msg)

    # -- reads ----------------------------------------------------------------
    def list(self, n, where):
        got = n.obj.get_children()
        want = current(n)
        flat = {'/'.join(esc(t) for t in k): v for k, v in want.items()}
        # keys of a container are its own names
        plain = {k[0] if len(k) == 1 else '/'.join(esc(t) for t in k): v for k, v in want.items()}
        code = coded(n)
        torn = n.torn or any(c.torn for c in containers(n))
        memo = remembered(n)
        self.ever.extend(got.values())
        self.info.count('read_list')
        if torn:
            n.memo = dict(got)
        n.past |= items({k: real(v) for k, v in code.items()}) | items({k: real(v) for k, v in got.items()})
        if same(got, flat) or same(got, plain):
            return
        if same(got, code):
            self.finding('twice-encoded', '%s: get_children names %s, the pointers are %s' % (
                where, sorted(set(got) - set(flat))[:3], sorted(set(flat) - set(got))[:3]))
            return
        if same(got, memo) or (torn and items({k: real(v) for k, v in got.items()}) <= n.past):
            self.finding('stale-children', '%s: get_children lists %s, now there are %s' % (
                where, sorted(got)[:8], sorted(plain)[:8]))
            return
        raise Bad('listing', '%s: get_children lists %s, now there are %s%s' % (
            where, sorted(got)[:8], sorted(plain)[:8],
            '' if set(got) != set(plain) else ' (other objects)'))

    def tear(self, n):
        """an interrupted listing"""
        code = coded(n)
        for c in [n] + list(containers(n)):
            c.torn = True
            c.past |= items({k: real(v) for k, v in coded(c).items()}) | \
                items({k: real(v) for k, v in c.memo.items()})

    def scan(self, n, where):
        got = sorted((p, id(real(o))) for p, o in default_tree_traversal(n.obj, []))
        want = []

        def walk(path, m):
            want.append((path, id(real(m.obj))))
            for toks, _ in current(m).items():
                walk('/'.join([path] + [esc(t) for t in toks]), find(m, toks))

        walk('#', n)
        self.info.count('read_scan')
        if got != sorted(want):
            a, b = {p for p, _ in got}, {p for p, _ in want}
            raise Bad('scan', '%s: the traversal visits %s too much, %s too little%s' % (
                where, sorted(a - b)[:5], sorted(b - a)[:5], '' if a != b else ' (other objects)'))

    def dump(self, n, where):
        self.info.count('read_dump')
        broken = self.flags(n)
        try:
            got = n.obj.dump()
        except AttributeError as e:
            if not broken:
                raise
            self.finding('dump-boolean', '%s: dump fails: %s' % (where, e))
            return
        self.same_dump(got, n, where)

    def flags(self, n):
        """boolean children at or below?"""
        return n is True or (isinstance(n, N) and any(self.flags(c) for c in n.entries.values()))

    def same_dump(self, got, n, where):
        if not isinstance(n, N):
            if got != n or type(got) is not type(n):
                raise Bad('dump', '%s: dumps %r, it is %r' % (where, got, n))
            return
        if n.typ == 'list':
            if not isinstance(got, list) or len(got) != len(n.entries):
                raise Bad('dump', '%s: dumps %r, there are %d elements' % (where, got, len(n.entries)))
            for k, c in n.entries.items():
                self.same_dump(got[int(k)], c, where + '/' + k)
            return
        if not isinstance(got, dict):
            raise Bad('dump', '%s: dumps %r' % (where, got))
        want = dict(n.entries)
        if n.typ == 'obj':
            want.update(n.fields)
        for k in got:
            if k not in want:
                raise Bad('dump', '%s: dumps %r, which is not there' % (where, k))
        for k, c in want.items():
            if k not in got:
                if n.typ == 'obj' and k in n.entries and empty(c):
                    if c is False:
                        self.finding('dump-boolean', '%s: dump drops %s' % (where, k))
                    continue
                if n.typ == 'obj' and c is None:
                    continue
                raise Bad('dump', '%s: the dump lacks %r' % (where, k))
            if k in n.fields and n.typ == 'obj':
                if got[k] != c:
                    raise Bad('dump', '%s: dumps %r: %r, it is %r' % (where, k, got[k], c))
            else:
                self.same_dump(got[k], c, where + '/' + esc(k))

    def look(self, n, where, deep=True, seen=None):
        """direct access"""
        self.info.count('read_direct')
        o = n.obj

        def eq(name, got, c):
            if isinstance(c, N):
                if got is None or real(got) is not real(c.obj):
                    raise Bad('access', '%s: %s is %r, not what was put there' % (where, name, type(got)))
                if deep:
                    self.look(c, where + '/' + esc(name), True)
            elif got != c or type(got) is not type(c):
                raise Bad('access', '%s: %s is %r, not %r' % (where, name, got, c))

        if n.typ == 'obj':
            names = [] if n.kind == 'Reference' else list(table(self.ver)[n.kind]['children'])
            for k in names:
                eq(k, getattr(o, k), n.entries.get(k))
            for k, v in n.fields.items():
                eq(k, getattr(o, k), v)
            return
        if len(o) != len(n.entries):
            raise Bad('access', '%s: has %d entries, not %d' % (where, len(o), len(n.entries)))
        if n.typ == 'map':
            for what, got in (('keys', list(o.keys())), ('iterkeys', list(o.iterkeys()))):
                if sorted(got) != sorted(n.entries):
                    raise Bad('access', '%s: %s are %s, not %s' % (where, what, got, list(n.entries)))
            by = dict(o.items())
            for k, c in n.entries.items():
                if k not in o:
                    raise Bad('access', '%s: %r is not in it' % (where, k))
                eq(k, o[k], c)
                if by[k] is not o[k] or o.get(k) is not o[k]:
                    raise Bad('access', '%s: %r differs between get, items and []' % (where, k))
        else:
            it = list(o)
            for k, c in n.entries.items():
                eq(k, o[int(k)], c)
                if it[int(k)] is not o[int(k)]:
                    raise Bad('access', '%s: iterating gives something else at %s' % (where, k))

    def point(self, n, toks, where):
        self.info.count('read_point')
        c = find(n, toks[:-1])
        if c is None:
            return False
        last = toks[-1]
        if isinstance(c, N) and last in c.entries:
            want = c.entries[last]
            if not isinstance(want, N) and c.typ != 'obj':
                return False
        elif isinstance(c, N) and c.typ == 'obj' and last in c.fields:
            want = c.fields[last]
        else:
            return False
        got = n.obj.resolve(list(toks))
        if isinstance(want, N):
            if got is None or real(got) is not real(want.obj):
                raise Bad('pointer', '%s: %s resolves to something else' % (where, '/'.join(map(esc, toks))))
        elif got != want:
            raise Bad('pointer', '%s: %s resolves to %r, it is %r' % (where, '/'.join(map(esc, toks)), got, want))
        return True

    # -- edits ----------------------------------------------------------------
    def make(self, n, name, spec, src):
        """(library object, shadow) to be put at ``name`` of ``n``"""
        shape, kind = kind_at(self.ver, n, name)
        if src is not None:
            m = find(self.root, src)
            if not isinstance(m, N) or within(m, n):
                return None
            if m.typ != {'one': 'obj'}.get(shape, shape) or self.base(m.kind) != self.base(kind):
                return None
            return m.obj, m
        if kind == 'str':
            if shape == 'one':
                return spec, spec
        if isinstance(spec, bool):
            return None
        if n.typ == 'obj':
            b = type(real(n.obj)).__children__[name]['child_builder']
        else:
            b = type(real(n.obj)).__child_builder__
        spec = copy.deepcopy(spec)
        o = b(spec, path='new', override={})
        self.ever.append(o)
        return o, grow(self.ver, spec, shape, kind, o)

    @staticmethod
    def base(kind):
        return {'ParameterDef': 'Parameter', 'ResponseDef': 'Response', 'Bool|Schema': 'Schema'}.get(kind, kind)

    @staticmethod
    def forget(n):
        n.memo, n.torn = {}, False

    def edit(self, op):
        """perform an edit on the tree and its shadow; False when it does not apply"""
        n = find(self.root, op['at'])
        if not isinstance(n, N):
            return False
        what = op['op']
        if what in ('set', 'attach'):
            if n.typ != 'obj' or n.kind == 'Reference' or op['name'] not in table(self.ver)[n.kind]['children']:
                return False
            x = self.make(n, op['name'], op.get('spec'), op.get('src'))
            if x is None or not isinstance(x[1], N):
                return False
            n.past |= items({k: real(v) for k, v in coded(n).items()})
            if what == 'set':
                setattr(n.obj, op['name'], x[0])
            else:
                n.obj.attach_child(op['name'], x[0])
                self.forget(n)
            n.entries[op['name']] = x[1]
        elif what == 'put':
            if n.typ != 'map':
                return False
            x = self.make(n, op['name'], op.get('spec'), op.get('src'))
            if x is None:
                return False
            n.obj[op['name']] = x[0]
            n.entries[op['name']] = x[1]
            self.forget(n)
        elif what in ('append', 'extend'):
            if n.typ != 'list':
                return False
            xs = []
            for spec in op['specs']:
                x = self.make(n, '0', spec, None)
                if x is None:
                    return False
                xs.append(x)
            if what == 'append':
                n.obj.append(xs[0][0])
                xs = xs[:1]
            else:
                n.obj.extend([x[0] for x in xs])
            for x in xs:
                n.entries[str(len(n.entries))] = x[1]
            self.forget(n)
        elif what == 'merge':
            if n.typ != 'obj' or n.kind != op['kind'] or n.kind == 'Reference':
                return False
            spec = copy.deepcopy(op['spec'])
            if '$ref' in spec and table(self.ver)[n.kind].get('ref') == 'ref':
                return False
            o = type(real(n.obj))(spec, path='other')
            m = grow(self.ver, spec, 'one', n.kind, o)
            self.ever.append(o)
            n.obj.merge_children(o)
            for k in table(self.ver)[n.kind]['children']:
                if empty(n.entries.get(k)) and not empty(m.entries.get(k)):
                    if not isinstance(m.entries[k], N):
                        return None         # a boolean: cannot be assigned
                    n.entries[k] = m.entries[k]
            self.forget(n)
        elif what == 'ref':
            if n.typ != 'obj' or '$ref' not in n.fields:
                return False
            setattr(n.obj, op.get('attr', 'ref'), op['to'])
            n.fields['$ref'] = op['to']
        return True


READS = ('list', 'dump', 'scan', 'look', 'point', 'ask')


@prop
class C18(Prop):
    id = 'C18'
    technique = 'random interleavings of reads and edits of loaded object trees under interruptions, compared with a shadow tree'
    searched = 'document trees, orders and places of reads and edits, points of interruption'
    stubs = 'getter callback'
    rule = ('one case = one generated document, loaded, and one interleaving of reads and edits at random depths; '
            'non-trivial: at least one read followed an edit that followed a read')
    quick = (60000, 25)

    def gen(self, rng):
        r = rng
        mode = r.choice('AC')
        ver = MODE_VER[mode][0]
        sc, g = hist.scenario(r, 'C18', mode, {}, 'getter')
        root = sc['root']
        doc = sc['docs'][root]['doc']
        m = Model({u: d['doc'] for u, d in sc['docs'].items()}, ver)
        # pieces to build new objects from
        stock = {}
        todo = [((root, ()), ROOTKIND[ver])]
        while todo:
            loc, k = todo.pop()
            stock.setdefault(Tree.base(k), []).append(m.raw(loc))
            todo.extend(m.children(loc, k))
        tree = Plan(ver, doc)
        ops = [{'op': r.choice(['load', 'load', 'open']), 'url': root}]
        pool = [((), tree.root)]
        hot = []
        for _ in range(r.choice([4, 8, 12, 20, 30])):
            everything = tree.paths()
            if hot and r.random() < 0.6:
                # near the last edit: at it, above it or below it
                h = r.choice(hot[-3:])
                x = r.random()
                near = [p for p in everything if p[0] == h[:len(p[0])] or p[0][:len(h)] == h]
                at, n = r.choice(near or everything)
            else:
                at, n = r.choice(everything)
            op = None
            if r.random() < 0.5:
                op = tree.draw_edit(r, at, n, stock, everything)
            if op is None:
                what = r.choice(['list', 'list', 'list', 'dump', 'scan', 'look', 'point', 'ask'])
                op = {'op': what, 'at': list(at)}
                if what == 'point':
                    below = [p for p in tree.paths_of(n) if p[0]]
                    if not below:
                        continue
                    to, x = r.choice(below)
                    op['to'] = list(to)
                    fs = [f for f in x.fields]
                    if x.typ == 'obj' and fs and r.random() < 0.3:
                        op['to'].append(r.choice(fs))
                if r.random() < 0.12:
                    op['faults'] = [{'at': 'step', 'n': int(10 ** r.uniform(0, 2.6)),
                                     'kind': r.choice(['interrupt', 'memory'])}]
            else:
                hot.append(tuple(op['at']))
            ops.append(op)
        ops.append({'op': 'list', 'at': []})
        for h in hot[-2:]:
            ops.append({'op': r.choice(['list', 'scan', 'dump', 'look']), 'at': list(h)})
        ops += [{'op': 'scan', 'at': []}, {'op': 'dump', 'at': []}, {'op': 'look', 'at': []}]
        sc['ops'] = ops
        return sc

    def valid(self, sc):
        return bool(sc['ops']) and sc['ops'][0]['op'] in ('load', 'open') and \
            sc['ops'][0]['url'] == sc['root'] and bool(sc['docs'][sc['root']]['doc'])

    def run(self, sc):
        info = Info()
        ver = MODE_VER[sc['mode']][0]
        with counting(has_steps(sc)) as st:
            s = Session(sc, budget=BUDGET, steps=st)
            with s.world.installed():
                self.body(s, sc, info, ver, st)
        info.take(s)
        return info

    def body(self, s, sc, info, ver, st):
        t = None
        phase = 0
        for i, op in enumerate(sc['ops']):
            if op['op'] in ('load', 'open'):
                out = s.do(i, op)
                if not out.ok:
                    raise Bad('failed', 'operation %s failed: %s %s' % (op['op'], out.exc, getattr(out, 'msg', '')))
                root = s.raws[op['url']]
                t = Tree(ver, grow(ver, sc['docs'][op['url']]['doc'], 'one', ROOTKIND[ver], root), info,
                         sc.get('strict'))
                url = op['url']
                t.look(t.root, '#')
                continue
            where = '%s #/%s' % (op['op'], '/'.join(esc(k) for k in op['at']))
            if op['op'] not in READS:
                done = t.edit(op)
                s.world.log('edit', op['op'], op['at'], done)
                s.log.append((i, op['op'], 'ok' if done else 'skip'))
                if done is None:
                    break
                if done:
                    info.count('edits')
                    info.count('edit_' + op['op'])
                    if phase == 1:
                        phase = 2
                continue
            n = find(t.root, op['at'])
            if not isinstance(n, N):
                s.log.append((i, op['op'], 'skip'))
                continue
            fault = next(iter(op.get('faults', ())), None)
            if st is not None:
                st.n, st.hit, st.limit = 0, False, BUDGET
                st.at = None
                if fault:
                    st.at, st.at_exc = fault['n'], {'interrupt': KeyboardInterrupt, 'memory': MemoryError}[fault['kind']]
                st.counting = True
            broke = False
            try:
                if op['op'] == 'list':
                    t.list(n, where)
                elif op['op'] == 'dump':
                    t.dump(n, where)
                elif op['op'] == 'scan':
                    t.scan(n, where)
                elif op['op'] == 'look':
                    t.look(n, where, deep=len(op['at']) > 0)
                elif op['op'] == 'point':
                    t.point(n, op['to'], where)
                elif op['op'] == 'ask':
                    self.ask(s, t, n, url, op, where)
            except StepBudget:
                raise Bad('hang', '%s does not end' % where)
            except (KeyboardInterrupt, MemoryError):
                if st is None or not st.hit:
                    raise
                broke = True
            finally:
                if st is not None:
                    st.counting, st.at = False, None
            if st is not None and st.hit:
                s.world.fired.append((i, 'step:' + fault['kind']))
                s.world.count('fault:step_' + fault['kind'])
                info.count('reads_interrupted')
                if op['op'] in ('list',):
                    t.tear(n)
            if phase == 0:
                phase = 1
            elif phase == 2:
                info.nontrivial = True
            s.world.log('read', op['op'], op['at'], broke)
            s.log.append((i, op['op'], 'failed' if broke else 'ok'))

    def ask(self, s, t, n, url, op, where):
        """the application resolves a pointer of the document"""
        got = s.app.spec_obj_store.get(url, '#' + ''.join('/' + esc(k) for k in op['at']), t.ver)
        t.info.count('read_ask')
        if got is None or real(got) is not real(n.obj):
            raise Bad('pointer', '%s: the application gives another object' % where)


class Plan(object):
    """while drawing: the raw tree with the edits applied"""

    def __init__(self, ver, doc):
        self.ver = ver
        self.root = grow(ver, doc, 'one', ROOTKIND[ver], Blank())

    def paths(self):
        return paths(self.root)

    def paths_of(self, n):
        return paths(n)

    def draw_edit(self, r, at, n, stock, everything):
        ver = self.ver

        def spec_for(shape, kind):
            noref = kind in table(ver) and table(ver)[kind].get('ref') is None
            kind = Tree.base(kind)
            if kind == 'str':
                one = lambda: r.choice(['s', 'a/b', 'x~y', 'text'])
            elif kind == 'secmap':
                one = lambda: {r.choice(['k', 'o/k']): r.choice([[], ['s']])}
            elif kind == 'secreq':
                one = lambda: {r.choice(['k', 'o/k']): r.choice([[], ['s']])}
            else:
                av = [x for x in stock.get(kind, ()) if not isinstance(x, bool) and not (noref and '$ref' in x)]
                if not av:
                    return None
                one = lambda: copy.deepcopy(r.choice(av))
            if shape == 'one':
                return one()
            if shape == 'map':
                return {r.choice(['k1', 'k/2', 'k~3', 'User', 'get']): one() for _ in range(r.choice([0, 1, 2]))}
            return [one() for _ in range(r.choice([0, 1, 2, 3]))]

        op = None
        if n.typ == 'obj':
            if '$ref' in n.fields and r.random() < 0.5:
                to = r.choice(['#/definitions/x', 'other.json#/a', '#/components/schemas/y'])
                n.fields['$ref'] = to
                return {'op': 'ref', 'at': list(at), 'to': to, 'attr': r.choice(['ref', '$ref'])}
            if n.kind == 'Reference':
                return None
            names = list(table(ver)[n.kind]['children'])
            if not names:
                return None
            if r.random() < 0.2:
                sp = spec_for('one', n.kind)
                if sp is None or any(isinstance(v, bool) and k in names for k, v in sp.items()):
                    return None
                if '$ref' in sp:
                    return None
                op = {'op': 'merge', 'at': list(at), 'kind': n.kind, 'spec': sp}
                m = grow(ver, copy.deepcopy(sp), 'one', n.kind, Blank())
                for k in names:
                    if empty(n.entries.get(k)) and not empty(m.entries.get(k)):
                        n.entries[k] = m.entries[k]
                return op
            have = [k for k in names if k in n.entries]
            name = r.choice(have if have and r.random() < 0.6 else names)
            shape, kind = table(ver)[n.kind]['children'][name]
            op = {'op': r.choice(['set', 'attach']), 'at': list(at), 'name': name}
        elif n.typ == 'map':
            shape, kind = kind_at(ver, n, 'x')
            keys = list(n.entries)
            name = r.choice(keys) if keys and r.random() < 0.5 else r.choice(['new', 'n/1', 'n~2', '200', 'get'])
            op = {'op': 'put', 'at': list(at), 'name': name}
        else:
            shape, kind = kind_at(ver, n, '0')
            specs = [spec_for(shape, kind) for _ in range(r.choice([1, 1, 2, 3]))]
            if any(x is None for x in specs):
                return None
            op = {'op': r.choice(['append', 'extend']), 'at': list(at), 'specs': specs}
            if op['op'] == 'append':
                del specs[1:]
            for x in specs:
                n.entries[str(len(n.entries))] = grow(ver, copy.deepcopy(x), shape, kind, Blank())
            return op
        if r.random() < 0.2:
            same = [(p, x) for p, x in everything if x.typ == {'one': 'obj'}.get(shape, shape) and
                    Tree.base(x.kind) == Tree.base(kind) and not within(x, n)]
            if same:
                src, x = r.choice(same)
                op['src'] = list(src)
                n.entries[name] = x
                return op
        sp = spec_for(shape, kind)
        if sp is None:
            return None
        op['spec'] = sp
        n.entries[name] = grow(ver, copy.deepcopy(sp), shape, kind, Blank())
        return op


class Blank(object):
    """stands for library objects while drawing"""

    def __getattr__(self, name):
        return self

    def __getitem__(self, k):
        return self

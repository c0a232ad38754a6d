"""The reference model: a small, independent JSON-reference resolver over the
raw documents, and the comparison of library objects with what it finds."""
import functools
import json
import weakref
from urllib.parse import urldefrag, urlsplit, urlunsplit

from .tables import T2, T3, ALSO2, ALSO3, PATTERNED, unext, table, unesc, jp, jref


class Bad(Exception):
    """An observation that contradicts the property being checked."""

    def __init__(self, cls, msg):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls, self.msg = cls, msg


def real(obj):
    """the object behind a weak proxy (ReferenceError when it is gone)"""
    if isinstance(obj, weakref.ProxyTypes):
        return obj.dump.__self__
    return obj


def also(ro, where):
    """the second names of members give what the first ones give"""
    for snake, name in (ALSO3 if ro.__swagger_version__ == '3.0.0' else ALSO2).get(type(ro).__name__, ()):
        try:
            a = getattr(ro, snake)
        except AttributeError:
            raise Bad('content', '%s has no %s' % (where, snake))
        b = getattr(ro, name)
        if a is not b and (hasattr(b, 'get_children') or a != b):
            raise Bad('content', '%s: %s is %r, %s is %r' % (where, snake, a, name, b))


class Where(object):
    """a place, spelled out only when somebody wants to read it"""
    __slots__ = ('fmt', 'loc', 'kind', 'tail')

    def __init__(self, loc, kind, tail='', fmt='%s as %s'):
        self.loc, self.kind, self.tail, self.fmt = loc, kind, tail, fmt

    def __add__(self, more):
        return Where(self.loc, self.kind, self.tail + more, self.fmt)

    def __str__(self):
        return self.fmt % (jref(*self.loc), self.kind) + self.tail


def join(base, ref):
    """RFC 3986, 5.2 (urllib drops empty segments)"""
    b, r = urlsplit(base), urlsplit(ref)
    if r.scheme:
        return ref
    if r.netloc:
        return urlunsplit((b.scheme, r.netloc, dots(r.path), r.query, r.fragment))
    if not r.path:
        return urlunsplit((b.scheme, b.netloc, b.path, r.query or b.query, r.fragment))
    path = r.path if r.path.startswith('/') else (b.path[:b.path.rfind('/') + 1] or '/') + r.path
    return urlunsplit((b.scheme, b.netloc, dots(path), r.query, r.fragment))


def dots(path):
    out = []
    segs = path.split('/')[1:]
    for i, t in enumerate(segs):
        if t in ('.', '..'):
            if t == '..':
                del out[-1:]
            if i == len(segs) - 1:
                out.append('')
        else:
            out.append(t)
    return '/' + '/'.join(out)


@functools.lru_cache(maxsize=100000)
def _target(ref, url):
    u, frag = urldefrag(join(url, ref) if not ref.startswith('#') else url + ref)
    return u, tuple(unesc(t) for t in frag.split('/')[1:])


class Model(object):
    def __init__(self, docs, version):
        self.docs = docs
        self.version = version
        self.table = table(version)

    # -- raw access -------------------------------------------------------
    def raw(self, loc):
        url, toks = loc
        cur = self.docs[url]
        for t in toks:
            if isinstance(cur, list) and (str(int(t)) != t or int(t) < 0):
                raise ValueError(t)     # ex. -1 or 01
            cur = cur[int(t)] if isinstance(cur, list) else cur[t]
        return cur

    def exists(self, loc):
        try:
            self.raw(loc)
            return True
        except (KeyError, IndexError, ValueError, TypeError):
            return False

    @staticmethod
    def target(ref, url):
        return _target(ref, url)

    @staticmethod
    def parse(ref):
        u, _, frag = ref.partition('#')
        return u, tuple(unesc(t) for t in frag.split('/')[1:])

    def isref(self, raw, kind):
        return (isinstance(raw, dict) and isinstance(raw.get('$ref'), str) and
                self.table.get(kind, {}).get('ref') is not None)

    # -- typed children of a location ---------------------------------------
    def children(self, loc, kind, raw=None):
        """[(toks, kind)] of typed sub-locations"""
        raw = self.raw(loc) if raw is None else raw
        url, toks = loc
        out = []
        if kind == 'Bool|Schema':
            if isinstance(raw, bool):
                return out
            kind = 'Schema'
        t = self.table.get(kind)
        if t is None:
            return out
        if self.isref(raw, kind) and t['ref'] == 'ref':
            return out
        if self.isref(raw, kind) and kind == 'Schema':
            return out
        if 'mapof' in t:
            return [((url, toks + (k,)), t['mapof']) for k in unext(raw)]
        for name, (shape, ck) in t['children'].items():
            if name not in raw or ck in ('str', 'secreq'):
                continue
            v = raw[name]
            if shape == 'one':
                if ck == 'Bool|Schema':
                    if isinstance(v, bool):
                        continue
                    ck = 'Schema'
                out.append(((url, toks + (name,)), ck))
            elif shape == 'map':
                out.extend(((url, toks + (name, k)), ck) for k in (unext(v) if (kind, name) in PATTERNED else v))
            else:
                out.extend(((url, toks + (name, str(i))), ck) for i in range(len(v)))
        return out

    def closure(self, starts):
        """all (loc, kind) reachable from the given ones, following references"""
        seen, todo = set(), list(starts)
        while todo:
            loc, kind = todo.pop()
            if (loc, kind) in seen:
                continue
            seen.add((loc, kind))
            raw = self.raw(loc)
            if self.isref(raw, kind):
                todo.append((self.target(raw['$ref'], loc[0]), self.refkind(kind)))
            todo.extend(self.children(loc, kind, raw))
        return seen

    @staticmethod
    def refkind(kind):
        return {'ParameterDef': 'Parameter', 'ResponseDef': 'Response'}.get(kind, kind)

    def docs_needed(self, starts):
        return {loc[0] for loc, _ in self.closure(starts)}

    def final(self, loc, kind, limit=200):
        """the end of a chain of references, None when it is a pure cycle"""
        seen = set()
        while True:
            raw = self.raw(loc)
            if not self.isref(raw, kind):
                return loc
            if loc in seen:
                return None
            seen.add(loc)
            loc = self.target(raw['$ref'], loc[0])

    # -- path items ----------------------------------------------------------
    def merged(self, loc):
        """member -> location that provides it, for a path item"""
        out, seen = {}, set()
        while loc not in seen:
            seen.add(loc)
            raw = self.raw(loc)
            for name in self.table['PathItem']['children']:
                if raw.get(name) and name not in out:
                    out[name] = (loc[0], loc[1] + (name,))
            if not isinstance(raw.get('$ref'), str):
                break
            loc = self.target(raw['$ref'], loc[0])
        return out


MISSING = object()


class Checker(object):
    """Compares library objects with raw documents, coinductively.

    ``lib``: module objects (o2 or o3).  One Checker instance may be used for
    several handles of one App; ``ident`` then collects which real object
    stands for which location.
    """

    def __init__(self, model, lib, ident=None, finals=False, refs=True):
        self.m, self.lib = model, lib
        self.seen = set()
        self.keep = []
        self.ident = ident
        self.finals = finals
        self.refs = refs
        self.nodes = 0
        self.bound = 0

    def cls(self, kind):
        t = self.m.table[kind]
        return getattr(self.lib, t.get('cls') or kind)

    def check(self, obj, loc, kind):
        todo = [(obj, loc, kind)]
        while todo:
            obj, loc, kind = todo.pop()
            self._one(obj, loc, kind, todo)

    def _one(self, obj, loc, kind, todo):
        m = self.m
        where = Where(loc, kind)
        raw = m.raw(loc)
        if kind == 'Bool|Schema':
            if isinstance(raw, bool):
                if obj is not raw:
                    raise Bad('content', '%s: %r instead of %r' % (where, obj, raw))
                return
            kind = 'Schema'
        if obj is None:
            raise Bad('missing', 'nothing at %s' % where)
        try:
            ro = real(obj)
        except ReferenceError:
            raise Bad('dangling', 'dead reference to %s' % where)
        except AttributeError:
            raise Bad('content', '%s: %r is not an object of the library' % (where, obj))
        key = (id(ro), loc, kind)
        if key in self.seen:
            return
        self.seen.add(key)
        self.keep.append(ro)
        self.nodes += 1
        if self.ident is not None:
            ik = (loc, m.refkind(kind))
            old = self.ident.setdefault(ik, ro)
            if old is not ro:
                raise Bad('identity', 'two objects for %s' % where)
        t = m.table[kind]
        isref = m.isref(raw, kind)
        want = self.cls(kind)
        if isref and t['ref'] == 'ref':
            want = self.lib.Reference
        if not isinstance(ro, want):
            raise Bad('type', '%s is a %s, not a %s' % (where, type(ro).__name__, want.__name__))
        if isref:
            self._ref(ro, raw, loc, kind, where, todo)
            if kind != 'PathItem':
                also(ro, where)
                return
        elif t['ref'] is not None and getattr(ro, 'ref', None):
            raise Bad('content', '%s carries a reference %r that is not in the source'
                      % (where, ro.ref))
        if 'mapof' in t:
            self._map(ro, unext(raw), loc, t['mapof'], where, todo)
            return
        also(ro, where)
        for f in t['fields']:
            got = getattr(ro, f)
            if f in raw:
                if got != raw[f] or type(got) is not type(raw[f]):
                    raise Bad('content', '%s: field %s is %r, not %r' % (where, f, got, raw[f]))
            elif got not in (None, [], 'csv', 'header'):
                raise Bad('content', '%s: field %s is %r, absent in the source' % (where, f, got))
        for name, (shape, ck) in t['children'].items():
            got = getattr(ro, name)
            here = (loc[0], loc[1] + (name,))
            if name not in raw:
                if got is not None:
                    raise Bad('content', '%s: child %s is absent in the source' % (where, name))
                continue
            if shape == 'one':
                todo.append((got, here, ck))
                continue
            if got is None:
                raise Bad('missing', '%s: no child %s' % (where, name))
            if shape == 'map':
                self._map(got, unext(raw[name]) if (kind, name) in PATTERNED else raw[name], here, ck,
                          where + '.' + name, todo)
            else:
                self._list(got, raw[name], here, ck, where + '.' + name, todo)

    def _map(self, got, raw, loc, ck, where, todo):
        if set(got.keys()) != set(str(k) for k in raw):
            raise Bad('content', '%s: keys %r, not %r' % (
                where, sorted(map(str, got.keys())), sorted(map(str, raw))))
        if ck == 'str':
            for k in raw:
                if got[k] != raw[k] or type(got[k]) is not type(raw[k]):
                    raise Bad('content', '%s[%s]: %r' % (where, k, got[k]))
            return
        for k in raw:
            todo.append((got[k], (loc[0], loc[1] + (k,)), ck))

    def _list(self, got, raw, loc, ck, where, todo):
        if len(got) != len(raw):
            raise Bad('content', '%s: %d elements, not %d' % (where, len(got), len(raw)))
        if ck in ('str', 'secreq'):
            have = got.dump()
            if have != raw:
                raise Bad('content', '%s: %r, not %r' % (where, have, raw))
            return
        for i in range(len(raw)):
            todo.append((got[i], (loc[0], loc[1] + (str(i),)), ck))

    def _ref(self, ro, raw, loc, kind, where, todo):
        m = self.m
        if not ro.ref:
            raise Bad('missing', '%s: the reference is gone' % where)
        if not self.refs:
            return
        tgt = m.target(raw['$ref'], loc[0])
        attrs = ro.get_attrs('migration')
        tobj = attrs.ref_obj if attrs else None
        if tobj is None:
            raise Bad('unbound', '%s: $ref %r has no target' % (where, raw['$ref']))
        self.bound += 1
        todo.append((tobj, tgt, m.refkind(kind)))
        if kind == 'PathItem' and self.finals:
            self._final(ro, loc, where, todo)

    def _final(self, ro, loc, where, todo):
        attrs = ro.get_attrs('migration')
        fin = getattr(attrs, 'final_obj', None)
        if fin is None:
            raise Bad('unbound', '%s: no merged path item' % where)
        want = self.m.merged(loc)
        for name, (shape, ck) in self.m.table['PathItem']['children'].items():
            got = getattr(fin, name)
            if name not in want:
                if got:
                    raise Bad('merge', '%s: merged item has %s, no one in the chain does' % (where, name))
                continue
            if not got:
                raise Bad('merge', '%s: merged item lacks %s of %s' % (where, name, jref(*want[name])))
            if shape == 'one':
                todo.append((got, want[name], ck))
            else:
                self._list(got, self.m.raw(want[name]), want[name], ck, where + '.final.' + name, todo)


# --------------------------------------------------------------------------
# model-free comparison of two object graphs (fresh App against aged App)

def _norm(v):
    return v


def compare_graphs(a, b, skip_ref_text=True, limit=200000):
    """None when the two object graphs have the same content, else a path."""
    todo, seen, keep = [(a, b, '')], set(), []
    while todo:
        x, y, path = todo.pop()
        try:
            x = real(x) if hasattr(x, 'dump') else x
            y = real(y) if hasattr(y, 'dump') else y
        except ReferenceError:
            return path + ': dangling'
        key = (id(x), id(y))
        if key in seen:
            continue
        seen.add(key)
        keep.append((x, y))
        if not hasattr(x, 'get_children'):
            if type(x) is not type(y) or x != y:
                return '%s: %r / %r' % (path, x, y)
            continue
        if type(x).__name__ != type(y).__name__:
            return '%s: %s / %s' % (path, type(x).__name__, type(y).__name__)
        if hasattr(x, 'get_attrs'):
            fields = set(type(x).__fields__) | set(type(y).__fields__)
            kids = set(type(x).__children__) | set(type(y).__children__)
            for f in sorted(fields - kids):
                if f == '$ref':
                    if bool(x.ref) != bool(y.ref):
                        return '%s: reference %r / %r' % (path, x.ref, y.ref)
                    continue
                try:
                    vx = (True, getattr(x, f))
                except Exception as e:
                    vx = (False, type(e).__name__)
                try:
                    vy = (True, getattr(y, f))
                except Exception as e:
                    vy = (False, type(e).__name__)
                if vx != vy:
                    return '%s.%s: %r / %r' % (path, f, vx, vy)
            for k in sorted(kids):
                cx, cy = getattr(x, k), getattr(y, k)
                if (cx is None) != (cy is None):
                    return '%s.%s: %r / %r' % (path, k, cx, cy)
                if cx is not None:
                    todo.append((cx, cy, path + '/' + k))
            if getattr(x, 'ref', None):
                rx = x.get_attrs('migration')
                ry = y.get_attrs('migration')
                rx = rx.ref_obj if rx else None
                ry = ry.ref_obj if ry else None
                if (rx is None) != (ry is None):
                    return '%s->: %r / %r' % (path, rx is None, ry is None)
                if rx is not None:
                    todo.append((rx, ry, path + '->'))
                fx = getattr(x.get_attrs('migration'), 'final_obj', None)
                fy = getattr(y.get_attrs('migration'), 'final_obj', None)
                if (fx is None) != (fy is None):
                    return '%s~final: %r / %r' % (path, fx is None, fy is None)
                if fx is not None:
                    todo.append((fx, fy, path + '~final'))
        elif hasattr(x, 'keys'):
            if set(x.keys()) != set(y.keys()):
                return '%s: keys %r / %r' % (path, sorted(map(str, x.keys())), sorted(map(str, y.keys())))
            for k in x.keys():
                todo.append((x[k], y[k], path + '/' + str(k)))
        else:
            if len(x) != len(y):
                return '%s: %d / %d' % (path, len(x), len(y))
            for i in range(len(x)):
                todo.append((x[i], y[i], '%s/%d' % (path, i)))
        if len(seen) > limit:
            break
    return None


_LISTS = {}


def freeze_graph(a):
    """a canonical JSON-able description of an object graph"""
    ids, out, todo = {}, [], []

    def ref(o):
        try:
            o = real(o)
        except ReferenceError:
            return 'DEAD'
        if id(o) not in ids:
            ids[id(o)] = (len(ids), o)
            todo.append(o)
        return '@%d' % ids[id(o)][0]

    def val(v):
        if hasattr(v, 'get_children'):
            return ref(v)
        return v

    ref(a)
    i = 0
    while i < len(todo):
        x = todo[i]
        i += 1
        node = {'_': type(x).__name__}
        if hasattr(x, 'get_attrs'):
            t = type(x)
            lists = _LISTS.get(t)
            if lists is None:
                kids = set(t.__children__)
                lists = _LISTS[t] = (sorted(set(t.__fields__) - kids), sorted(kids))
            for f in lists[0]:
                if f == '$ref':
                    node['$'] = bool(x.ref)
                    continue
                try:
                    v = getattr(x, f)
                except Exception as e:
                    v = 'EXC ' + type(e).__name__
                if v is not None:
                    node['.' + f] = v
            for k in lists[1]:
                v = getattr(x, k)
                if v is not None:
                    node['/' + k] = val(v)
            if getattr(x, 'ref', None):
                at = x.get_attrs('migration')
                for nm in ('ref_obj', 'final_obj'):
                    v = getattr(at, nm, None) if at else None
                    node['>' + nm] = None if v is None else ref(v)
        elif hasattr(x, 'keys'):
            for k in sorted(x.keys(), key=str):
                node['/' + str(k)] = val(x[k])
        else:
            node['[]'] = [val(v) for v in x]
        out.append(node)
    return out


def canonical(frozen):
    """the frozen graph with nodes of the same content folded into one, so that
    it does not show how often the library made a copy of something"""
    n = len(frozen)
    flat = []
    for node in frozen:
        own, links = [], []
        for k in sorted(node):
            v = node[k]
            if isinstance(v, str) and k[0] in '/>' and v[:1] == '@':
                links.append((k, int(v[1:])))
            elif k == '[]':
                for i, e in enumerate(v):
                    if isinstance(e, str) and e[:1] == '@' and e[1:].isdigit():
                        links.append(('[%d' % i, int(e[1:])))
                    else:
                        own.append('[%d=%r' % (i, e))
                own.append('[]%d' % len(v))
            else:
                own.append('%s=%s' % (k, json.dumps(v, sort_keys=True, default=repr)))
        flat.append(('|'.join(own), links))
    names = {}
    color = [names.setdefault((o, tuple(k for k, _ in l)), len(names)) for o, l in flat]
    count = len(names)
    while True:
        names = {}
        color2 = [names.setdefault((color[i], tuple(color[t] for _, t in l)), len(names))
                  for i, (_, l) in enumerate(flat)]
        color = color2
        if len(names) == count:
            break
        count = len(names)
    first = {}
    for i, c in enumerate(color):
        first.setdefault(c, i)
    order, todo, out = {color[0]: 0}, [color[0]], []
    for c in todo:
        own, links = flat[first[c]]
        row = [own]
        for k, t in links:
            d = color[t]
            if d not in order:
                order[d] = len(order)
                todo.append(d)
            row.append('%s@%d' % (k, order[d]))
        out.append(row)
    return out if n else []

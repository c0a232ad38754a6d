"""Seeded generator of cross-referencing document sets (swarm style: every
corpus has its own sizes, name families, kinds and reference habits)."""
import posixpath
from urllib.parse import urlsplit

from .tables import T2, T3, METHODS2, METHODS3, table, jref, jp

NAMES = [
    ['User', 'UserGroup', 'Use', 'User1', 'User10', 'Users', 'UserGroupList'],
    ['a', 'ab', 'abc', 'a/b', 'a~b', 'a~1b', 'a~0b', 'a b', 'a.b', 'a-b', 'a/b/c'],
    ['get', 'items', 'properties', 'definitions', 'ref', 'spec', 'schemas',
     'parameters', 'path', 'type', 'override', 'children', 'responses', 'components'],
    ['\u00e9', '\u65e5\u672c', 'Un\u00efcode', 'x{y}', 'q?z', '[0]', '1', '10', '0', '01', '11'],
    ['Pet', 'Order', 'Item', 'Node', 'Tree', 'Leaf', 'Edge', 'Error'],
    ['x-a', 'x-ab', '$ref', '$id', '-', '_', 'X-Y', '.', '..'],
]
# every word of the specifications, and words which mean something to Python
# or to the library
KEYWORDS = sorted({n for t in (T2, T3) for k in t.values() for n in list(k['fields']) + list(k['children'])} |
                  {'keys', 'values', 'update', 'pop', 'resolve', 'dump', 'attrs', 'internal', 'ref_obj', 'final_obj',
                   'normalized_ref', 'final', 'merge', 'parser', 'none', 'None', 'self', 'class', 'Schema', 'Reference',
                   'swagger', 'openapi', 'all_of', 'not_', '__init__', '__dict__', 'x'})
PATHS = ['/users', '/users/{id}', '/users~x', '/', '/user', '/users/{id}/pets',
         '/a~1b', '/v1', '/v10', '/v1/x']
CODES = ['200', '201', '404', '400', 'default', '500']


PAYLOADS = [1e30, -0.5, 1e-7, 12345678901234567890, 'yes', 'No', 'on', 'null', '~', '', ' ', '1', '1.0', '1e5', '0x1F',
            '0o17', '1_000', '12:30:45', '2001-01-01', '2001-01-01T00:00:00Z', '=', '<<', '*a', '&a', '!t', '%d', '@x', '`',
            '- x', 'a: b', 'a # b', '{a', '[a', '#', '...', '---', 'line\nline\n\nend', ' lead', 'trail ', 'tab\there',
            'q"\'q', 'back\\slash', '\U0001f600', 'cr\rcr', '\ufeffbom', 'nul\x00nul', True, False, None,
            [], {}, [[], [{}]]]


class Gen(object):
    def __init__(self, rng, mode, knobs=None):
        self.r = rng
        self.mode = mode
        self.version = '3.0.0' if mode == 'C' else '2.0'
        self.t = table(self.version)
        k = {
            'ndocs': rng.choice([1, 2, 2, 3, 3, 4]),
            'size': rng.choice([1, 2, 2, 3]),
            'depth': rng.choice([1, 2, 2, 3]),
            'pref': rng.choice([0.2, 0.4, 0.6, 0.8]),
            'pext': rng.choice([0.2, 0.5, 0.8]),
            'pdeep': rng.choice([0.0, 0.1, 0.3, 0.5]),
            'palias': rng.choice([0.0, 0.2, 0.5]),
            'families': rng.sample(range(len(NAMES) + 1), rng.choice([1, 2, 3])),
            'lone': rng.random() < 0.2,
            'decoys': rng.random() < 0.4,
            'biglist': rng.random() < 0.15,
            'fulls': rng.random() < 0.4,
            'wholes': rng.random() < 0.3,
            'purecycle': False,
            'pathrefs': rng.choice([0.0, 0.3, 0.7]),
            'pathcycle': False,
            'unicode': True,
            'special': True,
            'scheme': rng.choice(['http', 'http', 'https']),
            'antichain': False,
            'abspath': rng.random() < 0.4,
            'rich': rng.random() < 0.6,
            'ext': rng.choice([0, 0, 0.1, 0.3]),
            'extlib': rng.random() < 0.3,
            'budget': rng.choice([20, 40, 70, 70]),
            'wide': 0,
        }
        k.update(knobs or {})
        self.k = k
        self.names = list(dict.fromkeys(
            n for f in k['families'] for n in (NAMES[f] if f < len(NAMES) else rng.sample(KEYWORDS, 8))))
        if not k['special']:
            self.names = [n for n in self.names if n.isalnum() and n.isascii()]
            self.names = self.names or list(NAMES[0])
        self.docs = {}
        self.meta = {}
        self.nodes = []         # [loc, kind, depth, placeholder or None]
        self.refs = []          # [container, kind, loc]
        self.uid = 0
        self.left = k['budget']
        self.wide, self.wide2 = [], []
        self.hot = None         # the document behind the only reference to leave another

    # -- small helpers --------------------------------------------------------
    def mark(self, what):
        self.uid += 1
        s = '%s-%d' % (what, self.uid)
        if self.k['unicode'] and self.uid % 7 == 0:
            s += ' \u00fc\u65e5'
        return s

    def pick_names(self, n):
        pool = list(self.names)
        self.r.shuffle(pool)
        return pool[:n]

    def p(self, x):
        return self.r.random() < x

    # -- urls -------------------------------------------------------------------
    def urls(self):
        r, k = self.r, self.k
        if k.get('urls'):
            return [k['urls'][0]] + r.sample(k['urls'][1:], min(k['ndocs'], len(k['urls'])) - 1)
        sch = k['scheme']
        if sch == 'file':
            host = 'file:///__pyoa_sim__'
            base = r.choice(['/api', '/api/v1', '/d', '/my%20api', '/%C3%A9t%C3%A9/v1', '/100%25', '/v1.json', '/a%3Fb%23'])
            cands = [base + '/ext.json', base + '/ext.yaml', base + '/ext.yml',
                     base + '/sub/ext.json', base + '/lib.json', base + '/lib2.json',
                     '/other/ext.json', '/other/lib.json', base + '/swagger.json',
                     base + '/ext.json.json', base + '/my%20ext.json']
            root = base + r.choice(['/root.json', '/root.yaml', '/openapi.yml'])
            urls = [host + root] + [host + c for c in r.sample(cands, k['ndocs'] - 1)]
            return urls
        host = sch + '://h.sim'
        base = r.choice(['', '/api', '/api/v1', '/v1', '/v1/x', '/my%20api', '/v1.json', '/a%2Fb'])
        cands = [host + base + c for c in (
            '/ext.json', '/ext.yaml', '/ext', '/ext.json.json', '/sub/ext.json',
            '/lib.json', '/lib2.json', '/sub/deep/lib.json', '/swagger.json2', '/my%20ext.json')]
        if k.get('slashes') and self.p(0.15):
            # (a server takes these for locations of their own)
            cands = [host + base + c for c in ('/sub//ext.json', '/sub/', '/sub/x.json', '//lib.json', '/lib.json/')] + cands[:3]
        cands += [host + '/common.json', host + '/v10/ext.json',
                  sch + '://other.sim' + base + '/ext.json',
                  sch + '://h.sim:8080' + base + '/lib.json']
        root = host + base + r.choice(['/root.json', '/swagger.json', '/r', '/root.yaml'])
        if self.p(0.15):
            # documents which differ by their query only
            q = host + base + '/spec?doc='
            cands = r.sample(cands, 4) + [q + x for x in ('ext', 'lib', 'a/b.json', '1&x=..')]
            if self.p(0.5):
                root = q + 'root'
        return [root] + r.sample(cands, k['ndocs'] - 1)

    # -- placing ---------------------------------------------------------------
    def put(self, kind, loc, depth, noref=False):
        """raw content for ``kind`` at ``loc``"""
        t = self.t.get(kind)
        self.left -= 1
        if kind == 'PathItem':
            return self.ext(getattr(self, 'g_PathItem' + self.version[0])(loc, depth))
        if t and t['ref'] and not noref and depth > 0 and self.want_ref(kind, loc, depth):
            c = {'$ref': None}
            self.refs.append([c, kind, loc])
            self.nodes.append([loc, kind, depth, c])
            return c
        raw = getattr(self, 'g_' + kind + ('2' if self.version == '2.0' and hasattr(self, 'g_' + kind + '2')
                                           else ''))(loc, depth)
        self.nodes.append([loc, kind, depth, None])
        return self.ext(raw)

    def ext(self, raw):
        """extension fields: anything, and nothing to the library"""
        if self.p(self.k['ext']):
            raw[self.r.choice(['x-a', 'x-get', 'x-$ref', 'x-a/b', 'x-'])] = self.r.choice([
                {'$ref': '#/nowhere'}, {'get': 1}, {'$ref': 'http://gone.sim/x.json'}, [{'$ref': 7}],
                {'a': {'$ref': 'missing.json'}}] + self.r.sample(PAYLOADS, 4))
        return raw

    def pick(self, raw, x, *choices):
        """some of the optional members"""
        for c in choices:
            if self.rich(x):
                n, vals = c
                raw[n] = self.r.choice(vals)
        return raw

    def want_ref(self, kind, loc, depth):
        if self.mode == 'B':
            if kind == 'Parameter' and not self.b_params:
                return False
            if kind == 'Response' and not self.b_resps:
                return False
        if kind not in ('Schema',) and not self.avail(kind):
            return False
        return self.p(self.k['pref']) or self.left <= 0

    def avail(self, kind):
        return kind in self.kinds_planned

    def sub(self, parent, name, kind, loc, depth, **kw):
        return self.put(kind, (loc[0], loc[1] + (name,)), depth, **kw)

    # -- schemas (both versions) -------------------------------------------------
    def g_Schema(self, loc, depth, top=None):
        r, v3 = self.r, self.version == '3.0.0'
        raw = {'description': self.mark('schema')}
        d = depth + 1
        maxd = self.k['depth'] + 1
        room = depth <= maxd and self.left > 0
        shape = r.random()
        if not room or shape < 0.15:
            raw['type'] = r.choice(['string', 'integer', 'boolean', 'number'])
            if self.p(0.2):
                raw['format'] = 'int32'
            if self.p(0.2):
                raw['enum'] = ['x', 'y']
            if self.p(0.2):
                raw['maximum'] = 10
            if self.rich(0.3):
                raw.update(r.choice([{'minimum': 0, 'exclusiveMinimum': True}, {'maxLength': 3, 'minLength': 0},
                                     {'pattern': '^a/b~1$'}, {'multipleOf': 2}, {'title': 'T%d' % self.uid},
                                     {'readOnly': True}, {'default': 0}, {'enum': [0, 1]}]))
            if self.rich(0.1) and v3:
                raw.update(r.choice([{'nullable': True}, {'writeOnly': True}, {'deprecated': True}, {'nullable': False}]))
            if self.rich(0.05):
                raw['maximum'], raw['exclusiveMaximum'] = 1.5, self.p(0.5)
            return raw
        if shape < 0.7:
            raw['type'] = 'object'
            props = raw['properties'] = {}
            for n in self.pick_names(r.choice([1, 2, 2, 3])):
                props[n] = self.put('Schema', (loc[0], loc[1] + ('properties', n)), d)
            if self.p(0.3):
                raw['required'] = list(props)[:1]
            self.pick(raw, 0.08, ('maxProperties', [0, 9]), ('minProperties', [0, 1]), ('title', ['T']))
        elif shape < 0.85:
            raw['type'] = 'array'
            raw['items'] = self.sub(raw, 'items', 'Schema', loc, d)
            self.pick(raw, 0.1, ('maxItems', [0, 9]), ('minItems', [0, 1]), ('uniqueItems', [True, False]))
        if self.p(0.25) and self.left > 0:
            lists = ['allOf'] + (['oneOf', 'anyOf'] if v3 else [])
            ln = r.choice(lists)
            n = 12 if self.k['biglist'] and self.p(0.5) else r.choice([1, 2, 3])
            raw[ln] = [self.put('Schema', (loc[0], loc[1] + (ln, str(i))), d if n < 5 else maxd + 1)
                       for i in range(n)]
        if self.p(0.2) and self.left > 0:
            if self.p(0.3):
                raw['additionalProperties'] = self.p(0.5)
            else:
                raw['additionalProperties'] = self.sub(raw, 'additionalProperties', 'Schema', loc, d)
        if v3 and self.p(0.1) and self.left > 0:
            raw['not'] = self.sub(raw, 'not', 'Schema', loc, d)
        if self.p(0.1):
            raw['externalDocs'] = {'url': 'http://docs.sim/' + str(self.uid), 'description': self.mark('doc')}
        if self.p(0.1):
            raw['xml'] = {'name': 'x%d' % self.uid}
            self.pick(raw['xml'], 0.4, ('namespace', ['http://ns.sim']), ('prefix', ['', 'p']),
                      ('attribute', [True, False]), ('wrapped', [True, False]))
            self.ext(raw['xml'])
        if self.p(0.1) and 'properties' in raw:
            p = next(iter(raw['properties']))
            if v3:
                raw['discriminator'] = {'propertyName': p}
                if self.p(0.7):
                    raw['discriminator']['mapping'] = {'k': '#/x', 'l': 'gone.json'}
            else:
                raw['discriminator'] = p
        if self.k['decoys'] and self.p(0.4):
            decoy = {'$ref': r.choice(['#/definitions/nowhere', 'missing.json#/x',
                                       'http://gone.sim/x.json', 42])}
            where = r.choice(['example', 'default', 'enum'])
            raw[where] = [decoy] if where == 'enum' else decoy
        elif self.p(0.08):
            raw[r.choice(['example', 'default'])] = {'404': [{'7': 'x', 'y': None}, []], 'n': {'0': {}}}
        elif self.p(0.12):
            # what a loader might take for something else
            raw[r.choice(['example', 'default'])] = {
                'v': r.sample(PAYLOADS, 4), r.choice(['yes', 'null', '~', '1.5', 'true', '=', '', 'a: b', '<<']): r.choice(PAYLOADS)}
        return raw

    # -- 2.0 ----------------------------------------------------------------------
    def rich(self, x):
        return self.k['rich'] and self.p(x)

    def extdoc(self, raw, x=0.15):
        if self.rich(x):
            raw['externalDocs'] = {'url': 'http://docs.sim/%d' % self.uid}
            if self.p(0.5):
                raw['externalDocs']['description'] = self.mark('doc')

    def g_Items2(self, depth=0):
        r = self.r
        raw = {'type': r.choice(['string', 'integer', 'number'])}
        if self.rich(0.25) and depth < 2:
            raw = {'type': 'array', 'items': self.g_Items2(depth + 1)}
            if self.p(0.4):
                raw['collectionFormat'] = 'csv'
        if self.rich(0.2):
            raw.update(r.choice([{'format': 'int32'}, {'enum': ['x']}, {'maxItems': 3}, {'default': 'x'}]))
        return raw

    def typed2(self, raw, place):
        """a type that is written without a schema"""
        r = self.r
        raw['type'] = r.choice(['string', 'integer', 'array'])
        if raw['type'] == 'array':
            raw['items'] = self.g_Items2()
            if self.p(0.4):
                raw['collectionFormat'] = r.choice(['csv', 'ssv', 'pipes', 'multi']
                                                   if self.k['rich'] and place == 'query' else ['csv'])
            if self.rich(0.2):
                raw['uniqueItems'] = True
        elif self.rich(0.2):
            raw.update(r.choice([{'format': 'int64'}, {'enum': ['x', 'y']}, {'minimum': 0}, {'default': 0},
                                 {'pattern': 'x'}]))
        if place in ('query', 'formData') and self.rich(0.15):
            raw['allowEmptyValue'] = self.p(0.7)
        return raw

    def g_Parameter2(self, loc, depth, place=None):
        r = self.r
        place = place or r.choice(['query', 'query', 'header', 'path', 'body'] + (
            ['formData'] if self.k['rich'] else []))
        raw = {'name': 'p%d' % self.uid, 'in': place, 'description': self.mark('param')}
        if place == 'body':
            raw['schema'] = self.sub(raw, 'schema', 'Schema', loc, depth + 1)
            if self.rich(0.3):
                raw['required'] = self.p(0.7)
            return raw
        if place == 'path':
            raw['required'] = True
        elif self.rich(0.2):
            raw['required'] = self.p(0.6)
        if place == 'formData' and self.p(0.3):
            raw['type'] = 'file'
            return raw
        return self.typed2(raw, place)

    g_ParameterDef2 = g_Parameter2

    def g_Response2(self, loc, depth):
        raw = {'description': self.mark('resp')}
        if self.p(0.6):
            raw['schema'] = self.sub(raw, 'schema', 'Schema', loc, depth + 1)
        if self.p(0.3):
            raw['headers'] = {'X-%s' % n: self.typed2({'description': self.mark('header')}, 'header')
                              if self.k['rich'] else {'type': 'string', 'description': self.mark('header')}
                              for n in ('A', 'AB')[:self.r.choice([1, 2])]}
        if 'schema' not in raw and self.rich(0.15):
            raw['schema'] = {'type': 'file'}
        if self.k['decoys'] and self.p(0.3):
            raw['examples'] = {'application/json': {'$ref': '#/nope'}}
        return raw

    g_ResponseDef2 = g_Response2

    def params2(self, loc, depth, allow='any', n=None):
        """a legal parameters list: unique names, at most one body, a body or
        form fields; returns what the operations below may still have"""
        r, out = self.r, []
        if allow == 'any':
            allow = 'form' if self.k['rich'] and self.p(0.3) else 'body'
        used = None
        formref = depth > 3     # only operations refer to form fields
        n = n if n is not None else r.choice([0, 1, 1, 2, 3])
        if self.k['biglist'] and self.p(0.3):
            n = 12
        for i in range(n):
            l = (loc[0], loc[1] + ('parameters', str(i)))
            if self.want_ref('Parameter', l, depth) and self.left > -40:
                c = {'$ref': None}
                opt = 'plain'
                if allow == 'body' and not used:
                    # it may turn out to be either
                    opt = used = 'body'
                elif allow == 'form' and formref:
                    opt, used, formref = 'form', 'form', False
                self.refs.append([c, 'Parameter', l, {'where': opt}])
                self.nodes.append([l, 'Parameter', depth, c])
                out.append(c)
                continue
            place = r.choice(['query', 'header', 'path'] + (
                ['body'] if allow == 'body' and not used else ['formData'] * 2 if allow == 'form' else []))
            if place in ('body', 'formData'):
                used = 'body' if place == 'body' else 'form'
            self.left -= 1
            raw = self.g_Parameter2(l, depth, place)
            self.nodes.append([l, 'Parameter', depth, None])
            out.append(raw)
        return out, {'body': 'none', 'form': 'form', None: 'any'}[used]

    def g_Operation2(self, loc, depth, allow='any'):
        r = self.r
        raw = {'operationId': 'op%d' % self.uid, 'description': self.mark('op')}
        if self.p(0.3):
            raw['summary'] = self.mark('sum')
        if self.p(0.5):
            ps, _ = self.params2(loc, depth + 1, allow)
            if ps:
                raw['parameters'] = ps
        raw['responses'] = {}
        for c in r.sample(CODES, r.choice([1, 1, 2, 3])):
            raw['responses'][c] = self.put('Response', (loc[0], loc[1] + ('responses', c)), depth + 1)
        if self.p(0.2):
            raw['tags'] = ['t1', 't2'][:r.choice([1, 2])]
        if self.p(0.3):
            raw['produces'] = ['application/json', 'application/xml'][:r.choice([1, 2])]
        if self.p(0.3):
            raw['consumes'] = r.choice([['application/json'], ['application/json', 'text/xml'],
                                        ['multipart/form-data'],
                                        ['application/x-www-form-urlencoded', 'multipart/form-data']]) \
                if self.k['rich'] else ['application/json']
        if self.p(0.15):
            raw['security'] = [{'key': []}, {'oauth': ['read', 'write']}][:r.choice([0, 1, 2])]
        if self.rich(0.2):
            raw['schemes'] = r.sample(['http', 'https', 'ws', 'wss'], r.choice([1, 2, 3, 4]))
        if self.rich(0.1):
            raw['deprecated'] = self.p(0.7)
        self.extdoc(raw)
        self.ext(raw['responses'])
        return self.ext(raw)

    def g_PathItem2(self, loc, depth):
        r, raw = self.r, {}
        isref = self.p(self.k['pathrefs']) and self.avail('PathItem')
        node = [loc, 'PathItem', depth, None]
        if isref:
            raw['$ref'] = None
            self.refs.append([raw, 'PathItem', loc])
            node[3] = raw
        self.nodes.append(node)
        below = 'any'
        if self.p(0.4):
            ps, below = self.params2(loc, depth + 1)
            if ps:
                raw['parameters'] = ps
        for m in r.sample(METHODS2, r.choice([0, 1, 2] if isref else [1, 1, 2, 3])):
            self.left -= 1
            l = (loc[0], loc[1] + (m,))
            raw[m] = self.g_Operation2(l, depth + 1, allow=below)
            self.nodes.append([l, 'Operation', depth + 1, None])
        return raw

    def security2(self, names):
        out = {}
        for n in names:
            out[n] = self.r.choice([
                {'type': 'basic', 'description': self.mark('sec')},
                {'type': 'apiKey', 'name': 'k%d' % self.uid, 'in': 'header', 'description': self.mark('sec')},
                {'type': 'apiKey', 'name': 'k%d' % self.uid, 'in': 'query'},
                {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://a.sim/', 'scopes': {'read': 'r'},
                 'description': self.mark('sec')},
                {'type': 'oauth2', 'flow': 'password', 'tokenUrl': 'http://t.sim/',
                 'scopes': {'a/b': 'x', 'read': 'r'}, 'description': self.mark('sec')}])
        return out

    def info(self):
        i = {'title': self.mark('api'), 'version': '1.0'}
        self.pick(i, 0.15, ('description', ['', 'd']), ('termsOfService', ['http://tos.sim']))
        if self.p(0.3):
            i['contact'] = {'name': self.mark('me')}
            self.pick(i['contact'], 0.3, ('url', ['http://me.sim']), ('email', ['me@me.sim']))
            self.ext(i['contact'])
        if self.p(0.3):
            i['license'] = {'name': 'MIT'}
            self.pick(i['license'], 0.7, ('url', ['http://mit.sim']))
        return self.ext(i)

    def extlib(self, d, at, kinds):
        """things to refer to, kept under an extension field"""
        for kind in self.r.sample(kinds, min(len(kinds), self.r.choice([1, 2]))):
            for nm in self.pick_names(2):
                d.setdefault('x-lib', {}).setdefault(kind, {})[nm] = self.put(
                    kind, (at[0], at[1] + ('x-lib', kind, nm)), 1)

    def full2(self, url, small=False):
        r = self.r
        d = self.ext({'swagger': '2.0', 'info': self.info(), 'paths': {}})
        if self.p(0.5):
            d['host'] = 'svc.sim'
            d['basePath'] = r.choice(['/v1', '/'])
            if self.mode != 'B' and self.rich(0.2):
                del d[r.choice(['host', 'basePath'])]
            d['schemes'] = ['http', 'https'][:r.choice([1, 2])]
            if self.rich(0.3):
                d['schemes'] = r.sample(['http', 'https', 'ws', 'wss'], 2)
        if self.p(0.3):
            d['consumes'] = ['application/json'] if not self.rich(0.3) else r.sample(
                ['application/json', 'text/plain', 'application/x-www-form-urlencoded', 'multipart/form-data',
                 'application/pdf'], 2)
        if self.p(0.3):
            d['produces'] = ['application/json'] if not self.rich(0.3) else ['text/xml', 'application/json']
        if self.p(0.2):
            d['tags'] = [{'name': 't%d' % i, 'description': self.mark('tag')} for i in range(2)]
            for t in d['tags']:
                self.extdoc(t)
                self.ext(t)
        self.extdoc(d)
        if self.rich(0.2):
            d['security'] = [{'key': []}, {'oauth': ['read']}][:r.choice([1, 2])]
        n = self.k['size']
        if self.p(0.8):
            d['definitions'] = {}
            for nm in self.pick_names(r.randint(1, n + 2)):
                d['definitions'][nm] = self.put('Schema', (url, ('definitions', nm)), 1)
        if self.p(0.5):
            d['parameters'] = {}
            for nm in self.pick_names(r.randint(1, n + 1)):
                d['parameters'][nm] = self.put('ParameterDef', (url, ('parameters', nm)), 1)
        if self.p(0.5):
            d['responses'] = {}
            for nm in self.pick_names(r.randint(1, n + 1)):
                d['responses'][nm] = self.put('ResponseDef', (url, ('responses', nm)), 1)
        if self.p(0.3):
            d['securityDefinitions'] = self.security2(self.pick_names(r.choice([1, 2])))
            for nm in d['securityDefinitions']:
                self.nodes.append([(url, ('securityDefinitions', nm)), 'SecurityScheme', 1, None])
        if not small or self.p(0.6):
            for p in r.sample(PATHS, r.randint(1, n + 1)):
                d['paths'][p] = self.put('PathItem', (url, ('paths', p)), 1)
        self.ext(d['paths'])
        if self.k['extlib']:
            self.extlib(d, (url, ()), ['Schema', 'Parameter', 'Response', 'PathItem'])
        items = list(d.items())
        r.shuffle(items)
        return dict(items)

    # -- 3.0.0 --------------------------------------------------------------------
    def media(self, loc, depth):
        raw = {}
        if self.p(0.9):
            raw['schema'] = self.sub(raw, 'schema', 'Schema', loc, depth + 1)
        if self.p(0.2):
            raw['example'] = {'$ref': '#/decoy'} if self.k['decoys'] else {'a': 1}
        elif self.p(0.2) and self.k.get('mt_examples', True):
            raw['examples'] = {n: self.put('Example', (loc[0], loc[1] + ('examples', n)), depth + 1)
                               for n in self.pick_names(self.r.choice([1, 2]))}
        if self.p(0.15):
            raw['encoding'] = {}
            for n in self.pick_names(1):
                e = raw['encoding'][n] = {'contentType': 'text/x' + str(self.uid)}
                if self.p(0.7):
                    e['headers'] = {'X-H': self.put('Header', (loc[0], loc[1] + ('encoding', n, 'headers', 'X-H')), depth + 2)}
        for e in raw.get('encoding', {}).values():
            self.pick(e, 0.2, ('style', ['form', 'deepObject']), ('explode', [True, False]), ('allowReserved', [True]))
            self.ext(e)
        self.nodes.append([loc, 'MediaType', depth, None])
        return self.ext(raw)

    def content(self, loc, depth):
        return {mt: self.media((loc[0], loc[1] + ('content', mt)), depth + 1)
                for mt in self.r.sample(['application/json', 'application/xml', 'text/plain'],
                                        self.r.choice([1, 1, 2]))}

    def g_Example(self, loc, depth):
        raw = {'summary': self.mark('example')}
        if self.p(0.5):
            raw['value'] = {'$ref': '#/decoy'} if self.k['decoys'] else {'v': self.uid}
        elif self.rich(0.5):
            raw['externalValue'] = 'ex.json'
        return self.pick(raw, 0.2, ('description', ['', 'd']))

    def _phead(self, raw, loc, depth):
        s = self.r.random()
        if s < 0.7:
            raw['schema'] = self.sub(raw, 'schema', 'Schema', loc, depth + 1)
        else:
            raw['content'] = self.content(loc, depth)
        if self.p(0.2):
            raw['examples'] = {n: self.put('Example', (loc[0], loc[1] + ('examples', n)), depth + 1)
                               for n in self.pick_names(self.r.choice([1, 2]))}
        elif self.rich(0.2):
            raw['example'] = {'$ref': '#/decoy'} if self.k['decoys'] else self.r.choice(PAYLOADS)
        return self.pick(raw, 0.1, ('required', [True, False]), ('deprecated', [True]), ('allowEmptyValue', [True]),
                         ('style', ['simple', 'form']), ('explode', [True, False]), ('allowReserved', [True, False]))

    def g_Parameter(self, loc, depth):
        raw = {'name': 'p%d' % self.uid, 'in': self.r.choice(['query', 'header', 'cookie', 'path']),
               'description': self.mark('param')}
        self._phead(raw, loc, depth)
        if raw['in'] == 'path':
            raw['required'] = True
        return raw

    def g_Header(self, loc, depth):
        return self._phead({'description': self.mark('header')}, loc, depth)

    def g_RequestBody(self, loc, depth):
        return self.pick({'description': self.mark('body'), 'content': self.content(loc, depth)}, 0.3,
                         ('required', [True, False]))

    def g_Link(self, loc, depth):
        raw = {'operationId': 'op%d' % self.uid, 'description': self.mark('link')}
        if self.p(0.4):
            raw['parameters'] = {n: '$request.path.id' for n in self.pick_names(1)}
        if self.p(0.2):
            raw['server'] = {'url': 'http://s.sim'}
        if self.rich(0.2):
            raw['operationRef'] = '#/paths/~1x/get'
            del raw['operationId']
        if 'parameters' in raw and self.rich(0.5):
            raw['parameters']['any'] = self.r.choice(PAYLOADS)
        if self.rich(0.2):
            raw['requestBody'] = self.r.choice(PAYLOADS + [{'$ref': '#/decoy'}])
        return raw

    def g_Response(self, loc, depth):
        raw = {'description': self.mark('resp')}
        if self.p(0.6):
            raw['content'] = self.content(loc, depth)
        if self.p(0.3):
            raw['headers'] = {'X-%s' % n: self.put('Header', (loc[0], loc[1] + ('headers', 'X-%s' % n)), depth + 1)
                              for n in ('A', 'AB')[:self.r.choice([1, 2])]}
        if self.p(0.2):
            raw['links'] = {n: self.put('Link', (loc[0], loc[1] + ('links', n)), depth + 1)
                            for n in self.pick_names(1)}
        return raw

    def g_SecurityScheme(self, loc, depth):
        raw = {'type': 'apiKey', 'name': 'k%d' % self.uid, 'in': 'header', 'description': self.mark('sec')}
        if self.p(0.4):
            raw = {'type': 'oauth2', 'description': self.mark('sec'),
                   'flows': {'implicit': {'authorizationUrl': 'http://a.sim', 'scopes': {'read': 'r'}}}}
            if self.rich(0.7):
                fl = raw['flows'] = {}
                for n in self.r.sample(['implicit', 'password', 'clientCredentials', 'authorizationCode'],
                                       self.r.choice([1, 2, 4])):
                    fl[n] = {'scopes': self.r.choice([{'read': 'r'}, {'a/b': 'x', 'write': ''}])}
                    if n in ('implicit', 'authorizationCode'):
                        fl[n]['authorizationUrl'] = 'http://a.sim/%d' % self.uid
                    if n != 'implicit':
                        fl[n]['tokenUrl'] = 'http://t.sim/%d' % self.uid
                    self.pick(fl[n], 0.3, ('refreshUrl', ['http://r.sim']))
                    self.ext(fl[n])
                self.ext(fl)
        elif self.rich(0.4):
            raw = self.r.choice([{'type': 'http', 'scheme': 'basic'},
                                 {'type': 'http', 'scheme': 'bearer', 'bearerFormat': 'JWT'},
                                 {'type': 'openIdConnect', 'openIdConnectUrl': 'http://o.sim'}])
            raw['description'] = self.mark('sec')
        return raw

    def g_Callback(self, loc, depth):
        raw = {}
        for n in self.r.sample(['{$request.body#/url}', 'cb', '/cb~x'], self.r.choice([0, 1, 1, 1, 1, 1, 2])):
            raw[n] = self.put('PathItem', (loc[0], loc[1] + (n,)), depth + 1)
        return self.ext(raw)

    def g_Operation(self, loc, depth):
        r = self.r
        raw = {'operationId': 'op%d' % self.uid, 'description': self.mark('op'), 'responses': {}}
        if self.p(0.5):
            n = 12 if self.k['biglist'] and self.p(0.3) else r.choice([1, 1, 2, 3])
            raw['parameters'] = [self.put('Parameter', (loc[0], loc[1] + ('parameters', str(i))), depth + 1)
                                 for i in range(n)]
        if self.p(0.4):
            raw['requestBody'] = self.sub(raw, 'requestBody', 'RequestBody', loc, depth + 1)
        for c in r.sample(CODES, r.choice([1, 1, 2])):
            raw['responses'][c] = self.put('Response', (loc[0], loc[1] + ('responses', c)), depth + 1)
        if self.p(0.2) and depth < 4 and self.left > 0:
            raw['callbacks'] = {n: self.put('Callback', (loc[0], loc[1] + ('callbacks', n)), depth + 1)
                                for n in self.pick_names(1)}
        if self.p(0.2):
            raw['tags'] = ['t1', 't2']
        if self.p(0.15):
            raw['security'] = [{'key': []}, {'oauth': ['read']}]
        if self.p(0.1):
            raw['servers'] = [{'url': 'http://s%d.sim' % self.uid}]
        self.pick(raw, 0.15, ('summary', ['', 's']), ('deprecated', [True, False]))
        self.extdoc(raw)
        self.ext(raw['responses'])
        return self.ext(raw)

    def g_PathItem3(self, loc, depth):
        r, raw = self.r, {}
        isref = self.p(self.k['pathrefs']) and self.avail('PathItem')
        node = [loc, 'PathItem', depth, None]
        if isref:
            raw['$ref'] = None
            self.refs.append([raw, 'PathItem', loc])
            node[3] = raw
        self.nodes.append(node)
        if self.p(0.3):
            raw['description'] = self.mark('item')
        if self.rich(0.2):
            raw['summary'] = self.mark('summary')
        if self.p(0.4):
            raw['parameters'] = [self.put('Parameter', (loc[0], loc[1] + ('parameters', str(i))), depth + 1)
                                 for i in range(r.choice([1, 2]))]
        if self.p(0.15):
            raw['servers'] = [{'url': 'http://s%d.sim' % self.uid}]
        for m in r.sample(METHODS3, r.choice([0, 1, 2] if isref else [1, 1, 2, 3])):
            if self.left < -30:
                break
            self.left -= 1
            l = (loc[0], loc[1] + (m,))
            raw[m] = self.g_Operation(l, depth + 1)
            self.nodes.append([l, 'Operation', depth + 1, None])
        return raw

    COMP = [('schemas', 'Schema', 0.9), ('responses', 'Response', 0.4),
            ('parameters', 'Parameter', 0.4), ('examples', 'Example', 0.2),
            ('requestBodies', 'RequestBody', 0.3), ('headers', 'Header', 0.25),
            ('securitySchemes', 'SecurityScheme', 0.25), ('links', 'Link', 0.2),
            ('callbacks', 'Callback', 0.2)]

    def full3(self, url, small=False):
        r = self.r
        d = self.ext({'openapi': '3.0.0', 'info': self.info(), 'paths': {}})
        if self.p(0.3):
            d['servers'] = [{'url': 'http://s.sim/{v}', 'variables': {'v': {'default': 'x', 'enum': ['x', 'y']}}}]
            self.pick(d['servers'][0], 0.3, ('description', ['', self.mark('server')]))
            self.pick(d['servers'][0]['variables']['v'], 0.3, ('description', [self.mark('var')]))
            self.ext(d['servers'][0])
            self.ext(d['servers'][0]['variables']['v'])
        if self.p(0.2):
            d['tags'] = [{'name': 't%d' % i, 'description': self.mark('tag')} for i in range(2)]
            for t in d['tags']:
                self.extdoc(t)
                self.ext(t)
        self.extdoc(d)
        if self.p(0.15):
            d['security'] = [{'key': []}]
        n = self.k['size']
        comp = {}
        secs = list(self.COMP)
        for sec, kind, pr in secs:
            if self.p(pr) and kind in self.kinds_planned:
                comp[sec] = {}
                for nm in self.pick_names(r.randint(1, n + (1 if kind == 'Schema' else 0))):
                    comp[sec][nm] = self.put(kind, (url, ('components', sec, nm)), 1)
        if self.k['extlib'] and self.p(0.5):
            self.extlib(comp, (url, ('components',)), sorted(self.kinds_planned))
        if comp:
            d['components'] = self.ext(comp)
        if not small or self.p(0.6):
            for p in r.sample(PATHS, r.randint(1, n + 1)):
                d['paths'][p] = self.put('PathItem', (url, ('paths', p)), 1)
        self.ext(d['paths'])
        if self.k['extlib']:
            self.extlib(d, (url, ()), sorted(self.kinds_planned))
        items = list(d.items())
        r.shuffle(items)
        return dict(items)

    # -- documents without a version: libraries and single objects ----------------
    def lib(self, url):
        r, d = self.r, {}
        kinds = [k for k in self.kinds_lib]
        n = self.k['size'] + 1
        style = r.choice(['sections', 'flat', 'deep', 'list'])
        for kind in r.sample(kinds, min(len(kinds), r.choice([1, 2, 3]))) + ['Schema']:
            sec = {'Schema': 'definitions', 'Parameter': 'parameters', 'Response': 'responses',
                   'PathItem': 'paths'}.get(kind, kind.lower() + 's')
            if style == 'flat':
                base, tgt = (), d
            elif style == 'deep':
                base, tgt = ('x', sec), d.setdefault('x', {}).setdefault(sec, {})
            else:
                base, tgt = (sec,), d.setdefault(sec, {})
            if style == 'list' and kind == 'Schema' and not tgt:
                lst = d[sec] = []
                for i in range(r.choice([2, 12])):
                    lst.append(self.put(kind, (url, base + (str(i),)), 2 if i < 4 else 9))
                continue
            if isinstance(tgt, list):
                continue
            for nm in self.pick_names(r.randint(1, n)):
                if nm in tgt or nm in ('swagger', 'openapi', 'swaggerVersion', '$ref'):
                    continue
                tgt[nm] = self.put(kind, (url, base + (nm,)), 1)
        return d

    def whole(self, url):
        kind = self.r.choice([k for k in self.kinds_lib if k in ('Schema', 'PathItem', 'Response', 'Parameter')])
        return self.put(kind, (url, ()), 1 if kind != 'Schema' else 1, noref=True)

    # -- references ---------------------------------------------------------------
    def ref_text(self, src, dst):
        """how ``dst`` is written inside the document ``src``"""
        r = self.r
        url, toks = dst
        # (a whole document may also be named with an empty fragment)
        frag = jp(toks) if toks else r.choice(['', '', '#'])
        if url == src:
            s = r.random()
            if s < 0.85 and frag:
                return frag
            if not toks and s < 0.5:
                return '#'
            if s < 0.95 and self.k.get('selfurl', True) and not url.endswith('/'):
                u = urlsplit(url)
                return posixpath.basename(u.path) + ('?' + u.query if u.query else '') + frag
            return url + frag if (frag or s < 2) else frag
        a, b = urlsplit(src), urlsplit(url)
        query = '?' + b.query if b.query else ''
        if (a.scheme, a.netloc) == (b.scheme, b.netloc) and self.p(0.75):
            if self.k['abspath'] and self.p(0.3) and not b.path.startswith('//'):
                return b.path + query + frag
            if a.path == b.path and query and self.p(0.5):
                return query + frag
            if b.path.endswith('/') and '//' not in a.path + b.path and self.p(0.6):
                # a location which looks like a directory
                rel = posixpath.relpath(b.path[:-1] or '/', posixpath.dirname(a.path))
                return rel + r.choice(['', '/'] if rel.endswith('.') else ['/', '/.', '/x/..', '/./']) + query + frag
            if '//' in a.path + b.path or b.path.endswith('/'):
                at = a.path.rindex('/') + 1
                rel = b.path[at:]
                if not b.path.startswith(a.path[:at]) or not rel or rel.startswith('/'):
                    return url + frag
            else:
                rel = posixpath.relpath(b.path, posixpath.dirname(a.path))
            if not rel.startswith('.') and self.p(0.25):
                rel = './' + rel
            if '//' not in a.path + b.path and not b.path.endswith('/') and self.p(0.15):
                # the same in other words
                x = r.random()
                if x < 0.4:
                    # (there is nothing above the top)
                    rel = '../' * (a.path.count('/') - 1 + r.choice([0, 1, 1, 3])) + b.path[1:]
                elif x < 0.7:
                    rel = r.choice(['v0/../', '././', 'a/b/../../', 'v1/./../']) + rel
                else:
                    rel = posixpath.dirname(a.path)[1:].rpartition('/')[2] + '/' + posixpath.basename(b.path)
                    rel = '../' + rel if rel[0] != '/' and posixpath.dirname(a.path) == posixpath.dirname(b.path) \
                        else posixpath.relpath(b.path, posixpath.dirname(a.path))
            return rel + query + frag
        if a.scheme == b.scheme and self.k['abspath'] and self.p(0.2):
            return '//' + b.netloc + b.path + query + frag
        return url + frag

    def link(self):
        by_kind = {}
        for n in self.nodes:
            by_kind.setdefault({'ParameterDef': 'Parameter', 'ResponseDef': 'Response'}
                               .get(n[1], n[1]), []).append(n)
        done = {}
        order = {id(x[0]): i for i, x in enumerate(self.refs)}
        used = []
        shuffled = list(self.refs)
        self.r.shuffle(shuffled)
        rank = {id(x[0]): i for i, x in enumerate(shuffled)}
        lone = self.lone()
        for x in shuffled:
            c, kind, loc = x[:3]
            opt = x[3] if len(x) > 3 else {}
            cands = []
            for n in by_kind.get(kind, ()):
                if not self.allowed(n, kind, loc, opt):
                    continue
                # one reference is the only one to leave its document
                if lone is not None and (n[0][0] != loc[0]) != (c is lone):
                    continue
                cands.append(n)
            real = [n for n in cands if n[3] is None or kind == 'PathItem']
            alias = [n for n in cands if n[3] is not None and kind != 'PathItem' and
                     (self.k['purecycle'] or rank[id(n[3])] < rank[id(c)])]
            if kind == 'PathItem' and not self.k['pathcycle']:
                real = [n for n in real if n[3] is None or rank[id(n[3])] < rank[id(c)]]
            if alias and self.p(self.k['palias']):
                real = alias
            if not real:
                real = alias
            if not real:
                self.unlinked(c, kind, loc)
                continue
            ext = [n for n in real if n[0][0] != loc[0]]
            loc_ = [n for n in real if n[0][0] == loc[0]]
            pool = ext if ext and (self.p(self.k['pext']) or not loc_) else (loc_ or real)
            deep = [n for n in pool if n[2] > 1]
            top = [n for n in pool if n[2] <= 1]
            pool = deep if deep and (self.p(self.k['pdeep']) or not top) else top
            if self.k['antichain']:
                pool2 = [n for n in pool if n[0][0] in self.loadfirst or
                         not any(_nested(n[0], u) for u in used)]
                if not pool2:
                    pool2 = [n for n in real if n[0][0] in self.loadfirst or
                             not any(_nested(n[0], u) for u in used)]
                pool = pool2
                if not pool:
                    self.unlinked(c, kind, loc)
                    continue
            tgt = self.r.choice(pool)
            used.append(tgt[0])
            c['$ref'] = self.ref_text(loc[0], tgt[0])
            if c is lone:
                self.hot = tgt[0][0]
        self.used = used

    def lone(self):
        """the reference of a document which is to be the only one to leave
        it: every place in which a reference may stand is as likely"""
        if not self.k['lone'] or len(self.docs) < 2 or self.k['antichain']:
            return None
        groups = {}
        for x in self.refs:
            c, kind, loc = x[:3]
            if loc[0] == self.root and any(
                    n[0][0] != loc[0] and n[3] is None and
                    {'ParameterDef': 'Parameter', 'ResponseDef': 'Response'}.get(n[1], n[1]) == kind and
                    self.allowed(n, kind, loc, x[3] if len(x) > 3 else {}) for n in self.nodes):
                toks = [t for t in loc[1][-2:] if t not in self.names and not t.isdigit()]
                groups.setdefault((kind, tuple(toks)), []).append(c)
        return self.r.choice(groups[self.r.choice(sorted(groups))]) if groups else None

    def unlinked(self, c, kind, loc):
        """no target: turn the placeholder into a small inline object"""
        c.pop('$ref')
        for n in self.nodes:
            if n[3] is c:
                n[3] = None
        if kind == 'PathItem':
            return
        self.left = 0
        fill = {'Schema': {'type': 'string', 'description': self.mark('schema')},
                'Response': {'description': self.mark('resp')},
                'Example': {'summary': self.mark('example')},
                'Header': {'description': self.mark('header')},
                'Link': {'operationId': 'op%d' % self.uid},
                'RequestBody': {'description': self.mark('body'), 'content': {'text/plain': {}}},
                'SecurityScheme': {'type': 'http', 'scheme': 'basic', 'description': self.mark('sec')},
                'Callback': {'cb': {'description': self.mark('cb')}}}.get(kind)
        if kind == 'Parameter':
            self.uid += 1
            fill = {'name': 'p%d' % self.uid, 'in': 'query', 'description': self.mark('param')}
            if self.version == '2.0':
                fill['type'] = 'string'
        if kind == 'RequestBody':
            pass
        c.update(fill)

    def allowed(self, n, kind, loc, opt):
        tloc, tkind = n[0], n[1]
        if tloc == loc:
            return False
        if opt.get('where'):
            # an alias may lead anywhere
            raw = self.raw(tloc)
            place = 'body' if '$ref' in raw else raw.get('in')
            if opt['where'] == 'plain' and place in ('body', 'formData'):
                return False
            if opt['where'] == 'form' and place != 'formData':
                return False
        if self.k['antichain'] and tloc[0] not in self.loadfirst and _nested(tloc, loc) and kind == 'Schema' \
                and len(tloc[1]) > len(loc[1]):
            return False
        if self.mode == 'B':
            if kind in ('Parameter', 'Response'):
                raw = self.raw(tloc)
                isdef = tkind in ('ParameterDef', 'ResponseDef')
                if not isdef and ('$ref' in raw or raw.get('in') == 'formData'):
                    return False
                if tloc[0] != self.root or loc[0] != self.root or not (isdef or tloc[1][0] == 'paths'):
                    # those which are written out where they are used
                    return 'schema' in raw and raw['schema'].get('type') != 'file' and \
                        (kind == 'Response' or opt.get('where') == 'body')
            if kind == 'Schema' and not self.b_schema_ok(tloc):
                return False
        return True

    def b_schema_ok(self, loc):
        """does this pointer survive the move to 3.0.0?"""
        url, toks = loc
        return True

    def raw(self, loc):
        cur = self.docs[loc[0]]
        for t in loc[1]:
            cur = cur[int(t)] if isinstance(cur, list) else cur[t]
        return cur

    # -- all together ---------------------------------------------------------------
    def build(self):
        r, k = self.r, self.k
        urls = self.urls()
        self.root = urls[0]
        if self.version == '2.0':
            self.kinds_planned = {'Schema', 'Parameter', 'Response', 'PathItem'}
            self.kinds_lib = ['Schema', 'Parameter', 'Response', 'PathItem']
        else:
            opt = ['Response', 'Parameter', 'Example', 'RequestBody', 'Header',
                   'SecurityScheme', 'Link', 'Callback', 'PathItem']
            on = set(r.sample(opt, r.randint(3, len(opt))))
            self.kinds_planned = {'Schema'} | on
            self.kinds_lib = ['Schema'] + sorted(on)
        self.b_params = self.b_resps = True
        kinds = ['full']
        for u in urls[1:]:
            c = ['lib', 'lib']
            if k['fulls']:
                c += ['full', 'full']
            if k['wholes']:
                c += ['whole', 'whole']
            kinds.append(r.choice(c))
        self.loadfirst = {self.root}
        share = max(12, k['budget'] // len(urls))
        full = self.full2 if self.version == '2.0' else self.full3
        order = list(zip(urls, kinds))
        for u, kd in order:
            self.meta[u] = kd
            self.left = share + (10 if u == self.root else 0)
            self.docs[u] = full(u, small=u != self.root) if kd == 'full' else \
                self.lib(u) if kd == 'lib' else self.whole(u)
        self.link()
        for u in self.docs:
            if not self.docs[u]:
                # an empty document cannot be told from a damaged one
                self.docs[u].update({'get': {'responses': {'200': {'description': self.mark('resp')}}}})
        self.nodes = [n for n in self.nodes if self.exists(n[0])]
        if k['wide']:
            self.many(k['wide'])
        return self

    def many(self, n):
        """lots of small schemas: in one document, or in one document each"""
        r = self.r
        if self.p(0.5):
            u = self.root if self.p(0.3) else r.choice(sorted(self.docs))
            if self.meta[u] == 'full':
                base = ('definitions',) if self.version == '2.0' else ('components', 'schemas')
            else:
                base = ('many',)
            d = self.docs[u]
            if self.meta[u] == 'whole' or '$ref' in d:
                return
            for t in base:
                d = d.setdefault(t, {})
            locs = [(u, base + ('M%d' % i,)) for i in range(n)]
            for i, loc in enumerate(locs):
                if loc[1][-1] in d:
                    return
                d[loc[1][-1]] = {'type': 'string', 'title': self.mark('wide')} if self.p(0.8) or i == n - 1 else \
                    {'type': 'array', 'items': {'$ref': jp(locs[r.randrange(i + 1, n)][1])}}
            self.wide = locs
        else:
            host = self.root[:self.root.index('/', 9)]
            for i in range(n):
                u = host + '/many/m%d.json' % i
                self.meta[u] = 'lib'
                self.docs[u] = {'S': {'type': 'string', 'title': self.mark('wide')},
                                'T': {'title': self.mark('wide')}}
                self.wide.append((u, ('S',)))
                self.wide2.append((u, ('T',)))

    def exists(self, loc):
        try:
            self.raw(loc)
            return True
        except (KeyError, IndexError, TypeError, ValueError):
            return False

    def styles(self, fmt=None):
        """how each document is written down and delivered"""
        r, out = self.r, {}
        for u in self.docs:
            s = {'fmt': fmt or r.choice(['json', 'json', 'yaml'])}
            if s['fmt'] == 'json':
                s['indent'] = r.choice([None, 2])
                s['unicode'] = self.p(0.5)
            else:
                s['unicode'] = self.p(0.7)
            s['bytes'] = self.p(0.5)
            if self.p(0.3):
                s['chunks'] = [r.choice([1, 2, 7, 64, 500]) for _ in range(r.choice([3, 30]))]
            s['framing'] = r.choice(['length', 'length', 'chunked', 'close'])
            s['httpchunk'] = r.choice([5, 37, 1000])
            if self.p(0.1):
                s['redirect'] = True
            out[u] = s
        return out


def _nested(a, b):
    """is one location inside the other (or the same)?"""
    if a[0] != b[0] or a == b:
        return False
    n = min(len(a[1]), len(b[1]))
    return a[1][:n] == b[1][:n]


def make(rng, mode, knobs=None):
    g = Gen(rng, mode, knobs).build()
    return g

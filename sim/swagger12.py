"""Swagger 1.2 services: generator, reference model and the property C16."""
import copy
import gc
import re
from urllib.parse import urlsplit

from . import hist
from .model import Bad, real
from .props import prop, Prop, Info, BUDGET, counting, has_steps, failing, digest
from .session import App, Outcome, getter_class, make_app, Session, Handle, Unknown, StepBudget
from .world import World, FAILING, KINDS, FS_PREFIX

from pyopenapi.migration.resolve import Resolver
from pyopenapi.migration.getter import DictGetter

SEP = '!##!'
SEPS = [SEP, '::', '#/', '~1', '%%']


def enc(t):
    return t.replace('~', '~0').replace('/', '~1')


RES = [['pet', 'user', 'store', 'order'], ['pet', 'pets', 'pe', 'pet-store'],
       ['user', 'user/admin', 'user/admin/keys', 'u'], ['a', 'a~b', 'a.b', 'a~1b'],
       ['api', 'models', 'apis', 'definitions']]
IDS = [['Pet', 'Tag', 'Error', 'Order'], ['M', 'MM', 'M1', 'M10'], ['A', 'A/B', 'A~B', 'List[A]'],
       ['items', 'properties', 'id', 'ref']]
METHODS = ['GET', 'PUT', 'POST', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS']
PRIMS = [{'type': 'string'}, {'type': 'integer', 'format': 'int64'}, {'type': 'boolean'},
         {'type': 'number', 'format': 'double'}, {'type': 'string', 'format': 'date-time'}]


class Gen12(object):
    def __init__(self, rng, transport):
        self.r = rng
        self.transport = transport
        self.docs = {}
        self.n = 0
        self.resources = rng.choice(RES)
        self.ids = rng.choice(IDS)
        self.size = rng.choice([1, 1, 2, 3])

    def uniq(self, what):
        self.n += 1
        return '%s-%d' % (what, self.n)

    def p(self, x):
        return self.r.random() < x

    def service(self, k):
        r = self.r
        if self.transport == 'file':
            root = 'file://' + FS_PREFIX + r.choice(['/svc', '/a/b', '/svc/v1', '/my%20svc', '/v1.json'])
        else:
            root = r.choice(['http://h.io', 'http://h.io/api', 'https://docs.h.io/v1/x', 'http://h.io/my%20api'])
        if k:
            root += '/second'
        listing = root + r.choice(['/resource_list.json', '/list.json', '/index.yaml', '/resource_list.json'])
        if self.transport != 'file' and self.p(0.3):
            listing = root + '/api-docs'
        base = listing if listing.endswith('/api-docs') else root
        names = r.sample(self.resources, r.choice([0, 1, 2, 2, 3, 4]) if self.p(0.9) else 0)
        doc = {'swaggerVersion': '1.2', 'apiVersion': self.uniq('v'),
               'apis': [{'path': '/' + n, 'description': self.uniq('res')} for n in names]}
        if self.p(0.7):
            doc['info'] = {'title': self.uniq('title'), 'description': self.uniq('d')}
            for k, v in (('contact', 'x@h.io'), ('license', 'L'), ('licenseUrl', 'http://h.io/l'),
                         ('termsOfServiceUrl', 'http://h.io/terms')):
                if self.p(0.3):
                    doc['info'][k] = v
        auths = []
        if self.p(0.5):
            doc['authorizations'] = {}
            for n in r.sample(['oauth2', 'key', 'basic', 'a/b', 'code'], r.choice([1, 2, 3])):
                t = {'code': {'type': 'oauth2', 'grantTypes': {'authorization_code': {
                        'tokenRequestEndpoint': {'url': 'http://h.io/ask', 'clientIdName': 'i', 'clientSecretName': 's'},
                        'tokenEndpoint': {'url': 'http://h.io/token', 'tokenName': 'c'}}}},
                     'oauth2': {'type': 'oauth2', 'scopes': [{'scope': 'w:pets', 'description': self.uniq('s')}],
                                'grantTypes': {'implicit': {'loginEndpoint': {'url': 'http://h.io/login'},
                                                            'tokenName': 'tok'}}},
                     'basic': {'type': 'basicAuth'}}.get(n, {'type': 'apiKey', 'passAs': 'header', 'keyname': self.uniq('k')})
                if t['type'] == 'apiKey' and self.p(0.3):
                    t['passAs'] = 'query'
                if t['type'] == 'oauth2' and self.p(0.3):
                    t['scopes'] = [{'scope': 'r', 'description': self.uniq('s')}, {'scope': 'w'}]
                doc['authorizations'][n] = t
                auths.append(n)
        self.docs[listing] = doc
        self.used = {}
        shared = 'http://%s%s' % (r.choice(['h.io', 'api.h.io:8080', 'petstore']), '')
        suffix = r.choice([[''], ['/v1'], ['/v1', '/v2'], ['', '/v1', '/v10']])
        for n in names:
            self.docs[base + '/' + n] = self.declaration(n, shared + r.choice(suffix), auths)
        if len(names) > 1 and self.p(0.15):
            # two declarations of one resource
            a, b = (self.docs[base + '/' + n] for n in r.sample(names, 2))
            if not set(a.get('models', ())) & set(b.get('models', ())):
                a['resourcePath'] = b['resourcePath']
        return {'listing': listing, 'base': base, 'names': names}

    def declaration(self, name, base_path, auths):
        r = self.r
        d = {'swaggerVersion': '1.2', 'apiVersion': '1', 'basePath': base_path, 'resourcePath': '/' + name}
        ids = r.sample(self.ids, r.choice([0, 1, 2, 3, len(self.ids)]))
        if self.p(0.3):
            d['produces'] = ['application/json', self.uniq('application/x')]
        if self.p(0.3):
            d['consumes'] = ['application/xml', self.uniq('application/y')]
        if auths and self.p(0.3):
            d['authorizations'] = {r.choice(auths): []}
        if self.p(0.3):
            d['description'] = self.uniq('decl')
        apis = []
        pool = ['/' + name, '/%s/{id}' % name, '/common', '/common/{id}', '/%s.json' % name]
        for p in r.sample(pool, r.choice([0, 1, 1, 2, 3])):
            full = base_path + p
            ops = []
            taken = self.used.setdefault(full, set())
            for m in r.sample(METHODS, r.choice([1, 1, 2, 3])):
                if m in taken:
                    continue
                taken.add(m)
                ops.append(self.operation(m, ids, auths))
            if ops:
                api = {'path': p, 'operations': ops}
                if self.p(0.2) and len(ops) > 1:
                    # the same path listed twice
                    apis.append({'path': p, 'operations': [ops.pop()]})
                apis.append(api)
        d['apis'] = apis
        if ids or self.p(0.5):
            d['models'] = {i: self.model(i, ids) for i in ids}
        return d

    def typed(self, ids, void=False):
        r = self.r
        x = r.random()
        if void and x < 0.2:
            return {'type': 'void'}
        if ids and x < 0.5:
            i = r.choice(ids)
            return {'$ref': i} if self.p(0.4) else {'type': i}
        if x < 0.7:
            i = r.choice(ids) if ids and self.p(0.7) else None
            items = ({'$ref': i} if self.p(0.5) else {'type': i}) if i else dict(r.choice(PRIMS))
            t = {'type': 'array', 'items': items}
            if self.p(0.3):
                t['uniqueItems'] = self.p(0.7)
            return t
        return self.prim()

    def prim(self):
        """a primitive with its constraints"""
        r = self.r
        t = dict(r.choice(PRIMS))
        if t['type'] in ('integer', 'number') and self.p(0.4):
            cast = (lambda x: '%d.0' % x) if self.p(0.5) else str
            t.update(r.choice([{'minimum': cast(1)}, {'maximum': cast(9)}, {'minimum': cast(0), 'maximum': cast(5)},
                               {'minimum': cast(-3)}]))
            if t['type'] == 'number' and self.p(0.5):
                t['maximum'] = '99.5'
        if self.p(0.25):
            t['defaultValue'] = {'string': 'x', 'integer': r.choice([0, 7]), 'number': 1.5,
                                 'boolean': r.choice([True, False])}[t['type']]
        if t['type'] == 'string' and self.p(0.25):
            t['enum'] = ['x', 'y']
        return t

    def operation(self, method, ids, auths):
        r = self.r
        op = {'method': method, 'nickname': self.uniq('op'), 'summary': self.uniq('sum'), 'parameters': []}
        t = self.typed(ids, void=True)
        if '$ref' in t:
            t = {'type': t['$ref']}
        op.update(t)
        if self.p(0.3):
            op['notes'] = self.uniq('notes')
        if self.p(0.2):
            op['produces'] = ['application/json']
        if self.p(0.2):
            op['consumes'] = ['application/json', 'application/x-www-form-urlencoded']
        if auths and self.p(0.4):
            a = r.choice(auths)
            op['authorizations'] = {a: [{'scope': 'w:pets'}] if a == 'oauth2' else []}
        if self.p(0.2):
            op['deprecated'] = 'true'
        body = None
        for i in range(r.choice([0, 0, 1, 2, 3])):
            kind = r.choice(['query', 'path', 'header', 'body', 'form'])
            if kind in ('body', 'form'):
                if body not in (None, kind) or (body == 'body' and kind == 'body'):
                    continue
                body = kind
            q = {'paramType': kind, 'name': self.uniq('p'), 'description': self.uniq('pd')}
            if kind == 'path' or self.p(0.3):
                q['required'] = True
            if kind == 'body':
                q.update(self.typed(ids))
            elif self.p(0.15):
                q.update(type='array', items=dict(r.choice(PRIMS)))
                if self.p(0.4):
                    q['uniqueItems'] = True
                if kind == 'query' and self.p(0.3):
                    q['allowMultiple'] = True
            else:
                q.update(self.prim())
                if kind == 'query' and self.p(0.3):
                    q['allowMultiple'] = self.p(0.8)
                    if q['allowMultiple']:
                        q.pop('minimum', None), q.pop('maximum', None)
                        if self.p(0.3):
                            q['uniqueItems'] = True
            op['parameters'].append(q)
        if self.p(0.5):
            op['responseMessages'] = [{'code': 404, 'message': self.uniq('m')}]
        return op

    def model(self, i, ids):
        r = self.r
        m = {'id': i, 'properties': {}}
        for n in r.sample(['id', 'name', 'a/b', 'items', 'tags', '$x'], r.choice([0, 1, 2, 3])):
            m['properties'][n] = dict(self.typed(ids), description=self.uniq('prop'))
        if self.p(0.8):
            m['description'] = self.uniq('model')
        if m['properties'] and self.p(0.4):
            m['required'] = [next(iter(m['properties']))]
        subs = [x for x in ids if x != i]
        if subs and self.p(0.3):
            m['subTypes'] = r.sample(subs, r.choice([1, min(2, len(subs))]))
            m['discriminator'] = 'id'
        return m


# --------------------------------------------------------------------------

PRIMITIVES = ('integer', 'number', 'string', 'boolean', 'array', 'void')


def ref_of(t, scope, sep):
    """scoped name of the model a data type refers to"""
    n = t.get('$ref')
    if n is None and t.get('type') and t['type'] not in PRIMITIVES:
        n = t['type']
    return None if n is None else scope + sep + n


def number(t, v):
    return None if v is None else int(float(v)) if t == 'integer' else float(v)


def typed_as(t):
    """the fields of the Schema a data type becomes"""
    ty = t.get('type')
    e = {'type': ty if ty in PRIMITIVES else None, 'format': t.get('format'), 'default': t.get('defaultValue'),
         'minimum': number(ty, t.get('minimum')), 'maximum': number(ty, t.get('maximum')),
         'uniqueItems': t.get('uniqueItems'), 'enum': t.get('enum')}
    i = t.get('items')
    e['items'] = None if not i else {'type': i['type'] if i.get('type') in PRIMITIVES else None,
                                     'format': i.get('format')}
    return e


def param_as(p):
    """the fields of a parameter which is not a body"""
    e = typed_as(p)
    e['collectionFormat'] = 'csv' if e['items'] else None
    if p.get('allowMultiple') and not p.get('items'):
        d = e.pop('default')
        e.update(type='array', format=None, default=None if d is None else [d], enum=None, collectionFormat='csv',
                 items={'type': p['type'], 'format': p.get('format'), 'enum': p.get('enum')})
    elif not e['items']:
        e['uniqueItems'] = None
    return e


def expected(docs, svc, sep=SEP):
    """what the service must come out as"""
    paths, defs, tags = {}, {}, []
    hosts = set()
    for n in svc['names']:
        d = docs[svc['base'] + '/' + n]
        scope = d['resourcePath'][1:]
        if scope not in tags:
            tags.append(scope)
        for api in d['apis']:
            full = urlsplit(d['basePath'] + api['path'])
            hosts.add(full.netloc)
            item = paths.setdefault(full.path, {})
            for o in api['operations']:
                assert o['method'].lower() not in item
                auth = o.get('authorizations') or d.get('authorizations') or {}
                item[o['method'].lower()] = {
                    'id': o['nickname'], 'tag': scope, 'summary': o['summary'], 'notes': o.get('notes'),
                    'deprecated': o.get('deprecated') == 'true',
                    'params': [('formData' if p['paramType'] == 'form' else p['paramType'], p['name'],
                                p['description'], p.get('required')) for p in o['parameters']],
                    'types': [None if p['paramType'] == 'body' else param_as(p) for p in o['parameters']],
                    'bodies': [(ref_of(p, scope, sep), ref_of(p.get('items', {}), scope, sep), typed_as(p))
                               for p in o['parameters'] if p['paramType'] == 'body'],
                    'ret': (ref_of(o, scope, sep), ref_of(o.get('items', {}), scope, sep),
                            None if o['type'] == 'void' else typed_as(o)),
                    'security': sorted((k, [x.get('scope') for x in v]) for k, v in auth.items()),
                    'produces': o.get('produces') or d.get('produces'),
                    'consumes': o.get('consumes') or d.get('consumes'),
                }
        for i, m in d.get('models', {}).items():
            name = scope + sep + i
            e = defs.setdefault(name, {'allOf': set()})
            e.update(desc=m.get('description'), required=m.get('required'), disc=m.get('discriminator'),
                     props={k: (v['description'], ref_of(v, scope, sep), ref_of(v.get('items', {}), scope, sep), typed_as(v))
                            for k, v in m['properties'].items()})
            for s in m.get('subTypes', ()):
                defs.setdefault(scope + sep + s, {'allOf': set()})['allOf'].add(name)
    l = docs[svc['listing']]
    auths = {}
    for n, a in l.get('authorizations', {}).items():
        g = a.get('grantTypes', {})
        x = auths[n] = {'type': 'basic' if a['type'] == 'basicAuth' else a['type'],
                        'name': a.get('keyname'), 'in': a.get('passAs')}
        if a['type'] == 'oauth2':
            x['scopes'] = {y['scope']: y.get('description') or '' for y in a.get('scopes', ())}
            x['authorizationUrl'] = g.get('implicit', {}).get('loginEndpoint', {}).get('url')
            x['tokenUrl'] = g.get('authorization_code', {}).get('tokenEndpoint', {}).get('url')
    i = l.get('info', {})
    return {'paths': paths, 'defs': defs, 'tags': tags, 'hosts': hosts, 'auths': auths,
            'info': {'title': i.get('title'), 'description': i.get('description'), 'version': l['apiVersion'],
                     'termsOfService': i.get('termsOfServiceUrl')},
            'contact': i.get('contact'),
            'license': (i.get('license'), i.get('licenseUrl')) if i.get('license') or i.get('licenseUrl') else None}


# the objects of Swagger 1.2: fields, children (* list, % map, %* map of lists)
_T = ['type', '$ref', 'format', 'defaultValue', 'enum', 'minimum', 'maximum', 'uniqueItems']
SPEC12 = {
    'Items': (['type', '$ref', 'format'], {}),
    'Scope': (['scope', 'description'], {}),
    'LoginEndpoint': (['url'], {}),
    'Implicit': (['tokenName'], {'loginEndpoint': 'LoginEndpoint'}),
    'TokenRequestEndpoint': (['url', 'clientIdName', 'clientSecretName'], {}),
    'TokenEndpoint': (['url', 'tokenName'], {}),
    'AuthorizationCode': ([], {'tokenRequestEndpoint': 'TokenRequestEndpoint', 'tokenEndpoint': 'TokenEndpoint'}),
    'GrantTypes': ([], {'implicit': 'Implicit', 'authorization_code': 'AuthorizationCode'}),
    'Authorizations': (['scope', 'description'], {}),
    'Authorization': (['type', 'passAs', 'keyname'], {'scopes': '*Scope', 'grantTypes': 'GrantTypes'}),
    'ResponseMessage': (['code', 'message', 'responseModel'], {}),
    'Parameter': (_T + ['paramType', 'name', 'description', 'required', 'allowMultiple'], {'items': 'Items'}),
    'Operation': (_T + ['method', 'summary', 'notes', 'nickname', 'produces', 'consumes', 'deprecated'],
                  {'items': 'Items', 'authorizations': '%*Authorizations', 'parameters': '*Parameter',
                   'responseMessages': '*ResponseMessage'}),
    'Api': (['path', 'description'], {'operations': '*Operation'}),
    'Property': (_T + ['description'], {'items': 'Items'}),
    'Model': (['id', 'description', 'required', 'subTypes', 'discriminator'], {'properties': '%Property'}),
    'ApiDeclaration': (['swaggerVersion', 'apiVersion', 'basePath', 'resourcePath', 'produces', 'consumes',
                        'description'],
                       {'apis': '*Api', 'models': '%Model', 'authorizations': '%*Authorizations'}),
    'Info': (['title', 'description', 'termsOfServiceUrl', 'contact', 'license', 'licenseUrl'], {}),
    'ResourceInListing': (['path', 'description'], {}),
    'ResourceListing': (['swaggerVersion', 'apiVersion'],
                        {'apis': '*ResourceInListing', 'info': 'Info', 'authorizations': '%Authorization'}),
}


# second names of fields
ALSO = {'type': 'type_', 'id': 'id_', '$ref': 'ref', 'format': 'format_'}


def also(f):
    return ALSO.get(f) or re.sub('[A-Z]', lambda m: '_' + m.group().lower(), f)


def member(obj, f, what):
    try:
        return getattr(obj, f)
    except AttributeError:
        raise Bad('content', '%s has no %s' % (what, f))


def loaded(obj, raw, kind, what):
    """an object of Swagger 1.2 holds what its document says"""
    fields, children = SPEC12[kind]
    same(what + ' class', type(real(obj)).__name__, kind)
    for f in fields:
        v = member(obj, f, what)
        same('%s %s' % (what, f), v, raw.get(f))
        g = also(f)
        if g != f:
            same('%s %s' % (what, g), member(obj, g, what), v)
    for c, k in children.items():
        v = member(obj, c, what)
        below(v, raw.get(c), k, '%s/%s' % (what, c))
        g = also(c)
        if g != c and real(member(obj, g, what)) is not real(v):
            raise Bad('content', '%s %s is something else' % (what, g))


def below(obj, raw, kind, what):
    if raw is None:
        if obj is not None:
            raise Bad('content', '%s is not in the document' % what)
        return
    if obj is None:
        raise Bad('content', '%s is missing' % what)
    if kind[0] == '*':
        same(what + ' length', len(obj), len(raw))
        for i, x in enumerate(raw):
            below(obj[i], x, kind[1:], '%s/%d' % (what, i))
    elif kind[0] == '%':
        same(what + ' names', keys(obj), set(raw))
        for n, x in raw.items():
            below(obj[n], x, kind[1:], '%s/%s' % (what, enc(n)))
    else:
        loaded(obj, raw, kind, what)


def keys(o):
    return set() if o is None else set(o.keys())


def same(what, got, want):
    if got != want:
        raise Bad('content', '%s: %s, expected %s' % (what, str(got)[:200], str(want)[:200]))


def bound(what, ref, name, defs, v3):
    """``ref`` is a reference to the definition ``name``"""
    s = '#/components/schemas/' if v3 else '#/definitions/'
    if name is None:
        if ref is not None and getattr(ref, 'ref', None):
            raise Bad('content', '%s is a reference to %s' % (what, ref.ref))
        return 0
    if ref is None:
        raise Bad('content', '%s is missing' % what)
    same(what, ref.ref, s + enc(name))
    if real(ref.get_attrs('migration').ref_obj) is not real(defs[name]):
        raise Bad('content', '%s: its $ref %s is bound to something else' % (what, ref.ref))
    return 1


def plain(o):
    return o.dump() if hasattr(o, 'dump') else o


def fits(what, x, t, v3):
    """a Schema (or a parameter of 2.0) has the fields of a data type"""
    for f in ('type', 'format', 'default', 'minimum', 'maximum', 'uniqueItems', 'enum'):
        same('%s %s' % (what, f), plain(getattr(x, f)), t.get(f))
    if 'collectionFormat' in t and not v3:
        same(what + ' collectionFormat', x.collectionFormat if x.is_set('collectionFormat') else None, t['collectionFormat'])
    i = t['items']
    if i is None:
        same(what + ' items', x.items, None)
        return
    if x.items is None:
        raise Bad('content', '%s has no items' % what)
    if not (v3 and getattr(x.items, 'ref', None)):
        for f in i:
            same('%s items %s' % (what, f), plain(getattr(x.items, f)), i[f])


def judge(root, e, v3, info):
    """compare a migrated service with what its documents say"""
    if v3:
        defs = root.components.schemas if root.components is not None else None
        auths = root.components.securitySchemes if root.components is not None else None
    else:
        defs, auths = root.definitions, root.securityDefinitions
    same('paths', keys(root.paths), set(e['paths']))
    same('models', keys(defs), set(e['defs']))
    same('authorizations', keys(auths), set(e['auths']))
    if len(e['hosts']) == 1 and not v3:
        same('host', root.host, next(iter(e['hosts'])))
    for n, a in e['auths'].items():
        x, w = auths[n], 'authorization ' + n
        same(w + ' type', x.type, a['type'])
        same(w + ' name', x.name, a['name'])
        same(w + ' in', getattr(x, 'in'), a['in'])
        if a['type'] == 'oauth2':
            at = x
            if v3:
                flows = [f for f in ('implicit', 'authorizationCode') if getattr(x.flows, f) is not None]
                if not a['authorizationUrl']:
                    # (the flow of 1.2's authorization_code has a name neither 2.0 nor 3.0.0 knows)
                    continue
                same(w + ' flows', flows, ['implicit'])
                at = x.flows.implicit
            else:
                same(w + ' implicit', x.flow == 'implicit', bool(a['authorizationUrl']))
            same(w + ' authorizationUrl', at.authorizationUrl, a['authorizationUrl'])
            same(w + ' tokenUrl', at.tokenUrl, a['tokenUrl'])
            same(w + ' scopes', plain(at.scopes) or {}, a['scopes'])
    for f, v in e['info'].items():
        same('info ' + f, getattr(root.info, f), v)
    c, l = root.info.contact, root.info.license
    same('contact', c and c.email, e['contact'])
    same('license', l and (l.name, l.url), e['license'])
    same('tags', [t.name for t in root.tags or []], e['tags'])
    for p, item in e['paths'].items():
        x = root.paths[p]
        ms = {m for m in ('get', 'put', 'post', 'delete', 'patch', 'head', 'options') if getattr(x, m) is not None}
        same('methods of ' + p, ms, set(item))
        for m, o in item.items():
            y, w = getattr(x, m), '%s %s' % (m, p)
            same(w + ' operationId', y.operationId, o['id'])
            same(w + ' tags', list(y.tags), [o['tag']])
            same(w + ' summary', y.summary, o['summary'])
            same(w + ' deprecated', bool(y.deprecated), o['deprecated'])
            same(w + ' description', y.description, o['notes'])
            same(w + ' security', sorted((k, list(r[k])) for r in y.security or [] for k in keys(r)), o['security'])
            ps = [q for q in o['params'] if not v3 or q[0] not in ('body', 'formData')]
            ts = [t for q, t in zip(o['params'], o['types']) if not v3 or q[0] not in ('body', 'formData')]
            same(w + ' parameters', [(getattr(q, 'in'), q.name, q.description, q.required)
                                     for q in y.parameters or []], ps)
            for q, t in zip(y.parameters or [], ts):
                if t is not None:
                    fits('%s %s' % (w, q.name), q.schema if v3 else q, t, v3)
            ret = y.responses['default']
            if v3:
                info.count('operations3')
                if (y.requestBody is not None) != (len(ps) != len(o['params'])):
                    raise Bad('content', '%s: request body %s' % (w, 'missing' if y.requestBody is None else 'invented'))
                sch = None
                if ret.content:
                    sch = ret.content[next(iter(ret.content.keys()))].schema
                bodies = []
                if ret.content and o['produces']:
                    same(w + ' types of the answer', keys(ret.content), set(o['produces']))
                if o['bodies']:
                    mt = y.requestBody.content
                    bodies = [mt[k].schema for k in sorted(mt.keys())]
                    if o['consumes']:
                        same(w + ' types of the body', keys(mt), set(o['consumes']))
                elif y.requestBody is not None:
                    fs = {q[1]: (q, t) for q, t in zip(o['params'], o['types']) if q[0] == 'formData'}
                    for k in sorted(y.requestBody.content.keys()):
                        form = y.requestBody.content[k].schema
                        same('%s fields of %s' % (w, k), keys(form.properties), set(fs))
                        same('%s required fields of %s' % (w, k), list(form.required or []),
                             [q[1] for q in o['params'] if q[0] == 'formData' and q[3]])
                        for n, (q, t) in fs.items():
                            fits('%s field %s' % (w, n), form.properties[n], t, v3)
            else:
                info.count('operations2')
                same(w + ' produces', y.produces, o['produces'])
                same(w + ' consumes', y.consumes, o['consumes'])
                sch = ret.schema
                bodies = [q.schema for q in y.parameters if getattr(q, 'in') == 'body']
            for b, (r, i, t) in [(b, x) for x in o['bodies'] for b in bodies] + [(sch, o['ret'])]:
                n = bound(w + ' schema', b, r, defs, v3)
                if i is not None:
                    n += bound(w + ' items', b.items, i, defs, v3)
                info.count('bound', n)
                if t is None:
                    same(w + ' answer', b, None)
                elif r is None:
                    fits(w + ' schema', b, t, v3)
    for name, d in e['defs'].items():
        x = defs[name]
        same(name + ' description', x.description, d.get('desc'))
        same(name + ' properties', keys(x.properties), set(d.get('props', ())))
        same(name + ' required', list(x.required or []), d.get('required') or [])
        g = x.discriminator
        same(name + ' discriminator', g.propertyName if v3 and g is not None else g, d.get('disc'))
        for k, (desc, r, i, t) in d.get('props', {}).items():
            y = x.properties[k]
            if not (v3 and r):
                same('%s.%s description' % (name, k), y.description, desc)
                fits('%s.%s' % (name, k), y, t, v3)
            n = bound('%s.%s' % (name, k), y, r, defs, v3)
            if i is not None:
                n += bound('%s.%s items' % (name, k), y.items, i, defs, v3)
            info.count('bound', n)
        s = '#/components/schemas/' if v3 else '#/definitions/'
        same(name + ' allOf', sorted(a.ref for a in x.allOf or []), sorted(s + enc(a) for a in d['allOf']))
        for a in x.allOf or []:
            bound(name + ' allOf', a, next(t for t in d['allOf'] if s + enc(t) == a.ref), defs, v3)


# --------------------------------------------------------------------------

class Session12(Session):
    """One App that loads services, as one thread among others (C10)"""

    def __init__(self, sc, world=None, resolver=None, budget=None, steps=None):
        self.sc = sc
        self.world = world or World(copy.deepcopy(sc['docs']), sc['transport'])
        self.want = [expected({u: d['doc'] for u, d in sc['docs'].items()}, v, sc.get('sep', SEP))
                     for v in sc['services']]
        self.app, self.resolver = make_app(sc, sc['root'], self.world, resolver)
        self.app.world = self.world
        self.steps, self.budget = steps, budget
        self.handles, self.log, self.roots = [], [], {}
        self.info = Info()

    def runnable(self, op):
        return True

    def op_open12(self, op, i):
        k, url = op['svc'], self.sc['services'][op['svc']]['listing']
        lst = self.app.load_obj(url)
        root = self.app.migrate_obj(lst, url, op['to'])
        if self.roots.setdefault((k, op['to']), root) is not root:
            raise Bad('twice', 'opening %s again gives another object' % url)
        self.handles.append(Handle(root, (url, ()), 'ResourceListing', op['to'], i))
        return root

    def check_all(self, finals=True):
        for (k, to), root in sorted(self.roots.items(), key=lambda x: x[0]):
            judge(root, self.want[k], to == '3.0.0', self.info)


class Queue(DictGetter):
    """a getter with a queue, reading from the simulated world"""

    def __init__(self, world, urls):
        DictGetter.__init__(self, list(urls), None)
        self.world = world

    def load(self, path):
        return self.world.callback_fetch(path)


@prop
class C16(Prop):
    id = 'C16'
    technique = ('generated Swagger 1.2 services loaded under delivery faults with retries, compared with a '
                 'reference conversion of every declaration')
    searched = 'services, resource and model names, orders, fault kinds and positions, histories, sharing of a Resolver'
    stubs = 'network (sockets below http.client), disk (below io.TextIOWrapper), getter callback, URL hook'
    rule = ('one case = one or two services of up to four declarations, one or two Apps on a Resolver, one history '
            'with faults; non-trivial: a complete service was compared and at least two declarations or one '
            'failing fault took part')
    transports = ('getter', 'getter', 'dict', 'http', 'file', 'hook', 'mirror', 'queue')

    def gen(self, rng):
        tr = rng.choice(self.transports)
        g = Gen12(rng, tr)
        svcs = [g.service(0)]
        if rng.random() < 0.3:
            svcs.append(g.service(1))
        docs = {}
        for u, d in g.docs.items():
            st = {'fmt': rng.choice(['json', 'json', 'yaml']), 'unicode': rng.random() < 0.5,
                  'bytes': rng.random() < 0.5, 'framing': rng.choice(['length', 'chunked', 'close'])}
            if tr == 'file' and not u.endswith(('.json', '.yaml')):
                st['ext'] = '.json' if st['fmt'] == 'json' else '.yaml'
            if rng.random() < 0.3:
                st['chunks'] = [rng.choice([1, 2, 7, 64, 500]) for _ in range(10)]
            docs[u] = {'doc': d, 'style': st}
        nap = rng.choice([1, 1, 1, 2])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            a, v = rng.randrange(nap), rng.randrange(len(svcs))
            x = rng.random()
            if x < 0.1:
                ops.append({'op': 'gc'})
                continue
            o = {'op': 'load' if x < 0.3 else 'open' if x < 0.8 else 'resolve', 'app': a, 'svc': v,
                 'to': rng.choice(['2.0', '3.0.0', '3.0.0'])}
            if o['op'] == 'resolve':
                o['k'] = rng.randrange(1 << 16)
            ops.append(o)
        if not any(o['op'] == 'open' for o in ops):
            ops.append({'op': 'open', 'app': 0, 'svc': 0, 'to': rng.choice(['2.0', '3.0.0'])})
        sc = {'prop': 'C16', 'services': svcs, 'transport': tr, 'docs': docs, 'ops': ops, 'apps': nap,
              'locale': rng.choice(['utf-8', 'utf-8', 'ascii'])}
        if rng.random() < 0.4:
            sc['seps'] = [rng.choice(SEPS) for _ in range(nap)]
        if rng.random() < 0.7:
            self.arm(rng, sc)
        return sc

    def arm(self, rng, sc):
        tr = sc['transport']
        kinds = KINDS['getter' if tr == 'queue' else tr]
        if tr == 'queue':
            # an empty or scalar document counts as delivered: what a queue
            # then delivers is the business of its owner
            kinds = [k for k in kinds if k not in ('empty', 'scalar', 'garbage')]
        out = []
        for o in sc['ops']:
            if o['op'] != 'gc':
                t = {'ops': [o], 'docs': sc['docs'], 'transport': tr}
                for _ in range(rng.choice([0, 1, 1, 2])):
                    f = {'ops': [dict(o)], 'docs': sc['docs'], 'transport': tr}
                    hist.arm(rng, f, 1.0, kinds=kinds, prepare=0.1,
                             # (where an interrupted queue stands is the business of its owner)
                             steps=0 if tr == 'queue' else 0.15)
                    out.append(f['ops'][0])
            out.append(o)
        sc['ops'] = out

    # -- execution ---------------------------------------------------------------
    def run(self, sc):
        info = Info()
        tr = sc['transport']
        with counting(has_steps(sc)) as st:
            w = World(copy.deepcopy(sc['docs']), 'getter' if tr == 'queue' else tr, sc['locale'])
            with w.installed():
                self.body(sc, w, st, info)
        info.events = w.events
        info.sim = w.now
        for k, v in w.counts.items():
            info.count(k, v)
        info.nontrivial = info.counts.get('services', 0) > 0 and (
            max(len(s['names']) for s in sc['services']) > 1 or bool(failing([k for _, k in w.fired])))
        return info

    def body(self, sc, w, st, info):
        docs = {u: d['doc'] for u, d in sc['docs'].items()}
        seps = sc.get('seps') or [SEP] * sc['apps']
        wants = [[expected(docs, v, sep) for v in sc['services']] for sep in seps]
        tr = w.transport
        if tr in ('getter', 'dict'):
            rs = Resolver(default_getter=getter_class(w))
        elif tr in ('hook', 'mirror'):
            rs = Resolver(url_load_hook=w.hook)
        else:
            rs = Resolver()
        apps = [App(sc['services'][0]['listing'], resolver=rs, sep=sep) for sep in seps]
        for a in apps:
            a.world = w
        queues = {}
        if sc['transport'] == 'queue':
            for k, v in enumerate(sc['services']):
                queues[k] = Queue(w, [v['listing']] + [v['base'] + '/' + n for n in v['names']])
        listings, roots = {}, {}
        for i, op in enumerate(sc['ops']):
            if op['op'] == 'gc':
                gc.collect()
                continue
            a, k, v3 = op['app'], op['svc'], op['to'] == '3.0.0'
            svc = sc['services'][k]
            app, url = apps[a], svc['listing']
            if op['op'] == 'resolve' and (a, k, op['to']) not in roots:
                continue
            at = next((f for f in op.get('faults', ()) if f['at'] == 'step'), None)
            w.begin(i, op.get('faults', ()))
            w.log('op', op['op'], a, k, op['to'])
            if st is not None:
                st.n, st.hit, st.limit = 0, False, BUDGET
                if at is not None:
                    st.at, st.at_exc = at['n'], {'interrupt': KeyboardInterrupt, 'memory': MemoryError}[at['kind']]
                st.counting = True
            ok, exc, res, ptr = False, None, None, None
            try:
                if op['op'] in ('load', 'open'):
                    lst = app.load_obj(url, getter=queues.get(k))
                    res = lst
                    if op['op'] == 'open':
                        res = app.migrate_obj(lst, url, op['to'])
                else:
                    ptr, name = self.pointer(wants[a][k], op['k'])
                    res, ret = app.resolve_obj(url + '#' + ptr, from_spec_version='2.0', to_spec_version=op['to'])
                ok = True
            except StepBudget:
                raise Bad('hang', 'operation %d (%s) exceeded %d steps' % (i, op['op'], BUDGET))
            except Unknown as e:
                raise Bad('wrong-url', 'operation %d (%s) asked for %s, which is not part of the service' % (
                    i, op['op'], e))
            except BaseException as e:
                exc = '%s: %s' % (type(e).__name__, str(e)[:150])
                e.__traceback__ = None
            finally:
                if st is not None:
                    st.counting, st.at = False, None
                    if st.hit:
                        w._op_fired.append('step:' + at['kind'])
                        w.fired.append((i, 'step:' + at['kind']))
                        w.count('fault:step_' + at['kind'])
                fired = w.end()
            w.log('end', ok, exc and exc.split(':')[0])
            info.count('operations')
            hit = [f for f in failing(fired)]
            what = 'operation %d (%s of %s to %s)' % (i, op['op'], url, op['to'])
            if not ok:
                info.count('operations_failed')
                if not hit:
                    raise Bad('failed', '%s failed: %s' % (what, exc))
                continue
            if hit and not any(f.startswith('step:') for f in hit):
                raise Bad('ignored', '%s succeeded although %s happened' % (what, hit[0]))
            if op['op'] == 'resolve':
                e = roots[a, k, op['to']]
                if name is None:
                    at = e.info
                elif name[0] == 'p':
                    at = e.paths[name[1]]
                else:
                    at = (e.components.schemas if v3 else e.definitions)[name[1]]
                if real(res) is not real(at):
                    raise Bad('content', '%s: %s is something else' % (what, ptr))
                info.count('resolved')
                continue
            if listings.setdefault((a, k), lst) is not lst:
                raise Bad('twice', '%s: loading the service again gives another object' % what)
            same(what + ' declarations', sorted(lst.cached_apis), sorted(svc['names']))
            for n in svc['names']:
                loaded(lst.cached_apis[n], docs[svc['base'] + '/' + n], 'ApiDeclaration', '%s: %s' % (what, n))
            loaded(lst, docs[url], 'ResourceListing', '%s: listing' % what)
            if op['op'] == 'open':
                if roots.setdefault((a, k, op['to']), res) is not res:
                    raise Bad('twice', '%s: migrating the service again gives another object' % what)
                self.versions(app, op, what)
                judge(res, wants[a][k], v3, info)
                info.count('services')
        for (a, k, to), res in sorted(roots.items(), key=lambda x: x[0]):
            judge(res, wants[a][k], to == '3.0.0', info)
        seen = {}
        # (interrupted between delivery and taking it in: may be asked for again)
        lost = {o for o, k in w.fired if k.startswith('step:')}
        for o, u, good in w.fetch_log:
            if good:
                seen[u] = seen.get(u, 0) + (o not in lost)
        for u, n in seen.items():
            if n > 1:
                raise Bad('fetched', '%s was fetched %d times' % (u, n))
        for (a, k) in listings:
            v = sc['services'][k]
            for u in [v['listing']] + [v['base'] + '/' + n for n in v['names']]:
                if u not in seen:
                    raise Bad('fetched', '%s was never fetched' % u)
        left = w.open_handles()
        if left:
            raise Bad('open', 'still open: %s' % left)

    def versions(self, app, op, what):
        same(what + ' original version', app.original_spec_version, '1.2')
        same(what + ' current version', app.current_spec_version, op['to'])

    @staticmethod
    def pointer(e, k):
        names = [('d', n) for n in sorted(e['defs'])] + [('p', n) for n in sorted(e['paths'])]
        if not names:
            return '/info', None
        n = names[k % len(names)]
        return '/' + {'d': 'definitions', 'p': 'paths'}[n[0]] + '/' + enc(n[1]), n

    def valid(self, sc):
        docs = {u: d['doc'] for u, d in sc['docs'].items()}
        for v in sc['services']:
            l = docs[v['listing']]
            if l.get('swaggerVersion') != '1.2' or 'apiVersion' not in l:
                return False
            if [x['path'] for x in l['apis']] != ['/' + n for n in v['names']]:
                return False
            e = expected(docs, v)
            for i, d in e['defs'].items():
                if 'desc' not in d:
                    return False
            for n in v['names']:
                d = docs[v['base'] + '/' + n]
                if d.get('swaggerVersion') != '1.2' or 'basePath' not in d:
                    return False
                for m in d.get('models', {}).values():
                    m['id'], [p['description'] for p in m['properties'].values()]
                ids = set(d.get('models', {}))
                if not refs_in(d) <= ids:
                    return False
            for item in e['paths'].values():
                if not item:
                    return False
        return any(o['op'] == 'open' for o in sc['ops'])

    def shrink(self, sc):
        if sc['transport'] not in ('getter', 'queue'):
            yield dict(copy.deepcopy(sc), transport='getter')
        for k in range(len(sc['services'])):
            if len(sc['services']) > 1:
                c = copy.deepcopy(sc)
                del c['services'][k]
                c['ops'] = [dict(o, svc=0) if o.get('svc', 0) > k else o for o in c['ops'] if o.get('svc') != k or o['op'] == 'gc']
                yield c
            v = sc['services'][k]
            for j in range(len(v['names'])):
                c = copy.deepcopy(sc)
                n = c['services'][k]['names'].pop(j)
                del c['docs'][v['base'] + '/' + n]
                del c['docs'][v['listing']]['doc']['apis'][j]
                yield c


def refs_in(d):
    out = set()
    for api in d['apis']:
        for o in api['operations']:
            for t in [o, o.get('items', {})] + [x for p in o['parameters'] for x in (p, p.get('items', {}))]:
                r = t.get('$ref') or (t.get('type') if t.get('type') not in PRIMITIVES else None)
                if r:
                    out.add(r)
    for m in d.get('models', {}).values():
        for p in m['properties'].values():
            for t in (p, p.get('items', {})):
                r = t.get('$ref') or (t.get('type') if t.get('type') not in PRIMITIVES else None)
                if r:
                    out.add(r)
        out.update(m.get('subTypes', ()))
    return out

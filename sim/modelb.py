"""Comparison of 3.0.0 objects with the 2.0 documents they were made from.

Deliberately limited to what bindings and structure need (names, markers,
references, where schemas and parameters went); the finer points of the
conversion are not the business of this technique.
"""
from .model import Bad, Where, real, also
from .tables import unext, jref, METHODS2, BASE_SCHEMA

SCHEMA_KEEP = BASE_SCHEMA + ['title', 'maxProperties', 'minProperties',
                             'description', 'readOnly', 'example']


class CheckerB(object):
    def __init__(self, model, lib, finals=False, strict=False, ident=None):
        self.m, self.lib, self.finals = model, lib, finals
        self.ident = ident
        self.seen, self.keep = set(), []
        self.nodes = self.bound = 0
        self.mimes = {}         # location of a body -> what it may be sent as
        self.forms = 0          # known finding form-ref met
        self.strict = strict

    def check(self, obj, loc, kind):
        todo = [(obj, loc, kind)]
        while todo:
            obj, loc, kind = todo.pop()
            where = Where(loc, kind, '', '%s as 3.0.0 %s')
            if kind == 'Bool|Schema':
                raw = self.m.raw(loc)
                if isinstance(raw, bool):
                    if obj is not (False if raw is False else None):
                        raise Bad('content', '%s: %r' % (where, obj))
                    continue
                kind = 'Schema'
            if obj is None:
                raise Bad('missing', 'nothing at %s' % where)
            try:
                ro = real(obj)
            except ReferenceError:
                raise Bad('dangling', 'dead reference to %s' % where)
            key = (id(ro), loc, kind)
            if key in self.seen:
                continue
            self.seen.add(key)
            self.keep.append(ro)
            self.nodes += 1
            raw = self.m.raw(loc)
            getattr(self, 'k_' + kind)(ro, raw, loc, where, todo)
            also(ro, where)

    # -- helpers ------------------------------------------------------------
    def need(self, ro, cls, where):
        want = getattr(self.lib, cls)
        if not isinstance(ro, want):
            raise Bad('type', '%s is a %s, not a %s' % (where, type(ro).__name__, cls))

    def same(self, got, want, where, what):
        if got != want:
            raise Bad('content', '%s: %s is %r, not %r' % (where, what, got, want))

    def ref(self, ro, raw, loc, kind, where, todo, cls='Reference'):
        self.need(ro, cls, where)
        if not ro.ref:
            raise Bad('missing', '%s: the reference is gone' % where)
        at = ro.get_attrs('migration')
        tobj = at.ref_obj if at else None
        if tobj is None:
            raise Bad('unbound', '%s: $ref %r has no target' % (where, raw['$ref']))
        self.bound += 1
        todo.append((tobj, self.m.target(raw['$ref'], loc[0]), kind))

    def extdoc(self, ro, raw, where):
        want = raw.get('externalDocs')
        if (ro.externalDocs is None) != (want is None):
            raise Bad('content', '%s: externalDocs is %r' % (where, ro.externalDocs))
        if want is not None:
            for f in ('url', 'description'):
                self.same(getattr(ro.externalDocs, f), want.get(f), where, 'externalDocs.' + f)

    def plain(self, ro, raw, fields, where):
        for f in fields:
            self.same(getattr(ro, f), raw.get(f), where, f)

    def inherited(self, loc, name):
        """what operations of a document inherit from it"""
        d = self.m.docs[loc[0]]
        return (d.get(name) if isinstance(d, dict) and 'swagger' in d else None) or []

    def server(self, got, loc, where, scheme=None):
        d = self.m.docs[loc[0]]
        if isinstance(d, dict) and 'swagger' in d and d.get('basePath') and d.get('host'):
            self.same(got, '%s://%s%s' % (scheme or (d.get('schemes') or ['https'])[0], d['host'],
                                          d['basePath'] if d['basePath'][0] == '/' else '/' + d['basePath']),
                      where, 'server')

    def items(self, ro, raw, where):
        for f in BASE_SCHEMA:
            self.same(getattr(ro, f), raw.get(f), where, f)
        if (ro.items is None) != ('items' not in raw):
            raise Bad('content', '%s: items' % where)
        if 'items' in raw:
            self.items(ro.items, raw['items'], where + '.items')

    def stays(self, loc):
        """is this schema where it was?  (what moves has no lasting location:
        definitions of a complete document, schemas within path items and responses)"""
        d = self.m.docs[loc[0]]
        if 'swagger' in d:
            return False
        for t in loc[1]:
            if isinstance(d, dict) and ('responses' in d or 'in' in d):
                return False
            if t == 'schema':
                # of a response: written out wherever that is used
                return False
            d = d[int(t)] if isinstance(d, list) else d[t]
        return True

    # -- kinds --------------------------------------------------------------
    def k_Swagger(self, ro, raw, loc, where, todo):
        self.need(ro, 'OpenApi', where)
        self.same(ro.openapi, '3.0.0', where, 'openapi')
        if 'info' in raw:
            todo.append((ro.info, (loc[0], loc[1] + ('info',)), 'Info'))
        self.same(len(ro.servers), 1, where, 'number of servers')
        self.server(ro.servers[0].url, loc, where)
        url, toks = loc
        self.keys(ro.paths, unext(raw.get('paths')), where + '.paths')
        for k in unext(raw.get('paths')):
            todo.append((ro.paths[k], (url, toks + ('paths', k)), 'PathItem'))
        comp = ro.components
        parts = (comp.schemas, comp.parameters, comp.requestBodies,
                 comp.responses, comp.securitySchemes) if comp else (None,) * 5
        self.keys(parts[0], raw.get('definitions'), where + '.schemas')
        for k in raw.get('definitions') or {}:
            todo.append((parts[0][k], (url, toks + ('definitions', k)), 'Schema'))
        body = {k: p for k, p in (raw.get('parameters') or {}).items() if p['in'] == 'body' or p['in'] == 'formData'}
        plain = {k: p for k, p in (raw.get('parameters') or {}).items() if k not in body}
        self.keys(parts[1], plain, where + '.parameters')
        self.keys(parts[2], body, where + '.requestBodies')
        for k in plain:
            todo.append((parts[1][k], (url, toks + ('parameters', k)), 'Parameter'))
        for k in body:
            self.mimes[url, toks + ('parameters', k)] = []
            todo.append((parts[2][k], (url, toks + ('parameters', k)), 'Body'))
        self.keys(parts[3], raw.get('responses'), where + '.responses')
        for k in raw.get('responses') or {}:
            todo.append((parts[3][k], (url, toks + ('responses', k)), 'Response'))
        self.keys(parts[4], raw.get('securityDefinitions'), where + '.securitySchemes')
        for k in raw.get('securityDefinitions') or {}:
            todo.append((parts[4][k], (url, toks + ('securityDefinitions', k)), 'SecurityScheme'))
        if raw.get('tags'):
            self.same([t.name for t in ro.tags], [t['name'] for t in raw['tags']], where, 'tags')
            for t, rt in zip(ro.tags, raw['tags']):
                self.same(t.description, rt.get('description'), where, 'tag ' + rt['name'])
                self.extdoc(t, rt, where + '.tags')
        self.extdoc(ro, raw, where)
        if raw.get('security'):
            self.same(ro.security.dump(), raw['security'], where, 'security')

    def k_Info(self, ro, raw, loc, where, todo):
        self.need(ro, 'Info', where)
        self.plain(ro, raw, ('title', 'version', 'description', 'termsOfService'), where)
        for one, cls, fs in (('contact', 'Contact', ('name', 'url', 'email')), ('license', 'License', ('name', 'url'))):
            got = getattr(ro, one)
            if (got is None) != (one not in raw):
                raise Bad('content', '%s: %s is %r' % (where, one, got))
            if got is not None:
                self.plain(got, raw[one], fs, where + '.' + one)

    def k_License(self, ro, raw, loc, where, todo):
        self.need(ro, 'License', where)
        self.plain(ro, raw, ('name', 'url'), where)

    def keys(self, got, raw, where):
        g = sorted(got.keys()) if got is not None else []
        r = sorted(raw or {})
        if g != r:
            raise Bad('content', '%s: keys %r, not %r' % (where, g, r))

    def k_Schema(self, ro, raw, loc, where, todo):
        url, toks = loc
        if self.ident is not None and self.stays(loc):
            if self.ident.setdefault((loc, '3.0.0'), ro) is not ro:
                raise Bad('identity', 'two objects for %s' % where)
        if isinstance(raw.get('$ref'), str):
            self.ref(ro, raw, loc, 'Schema', where, todo)
            return
        self.need(ro, 'Schema', where)
        if raw.get('type') == 'file':
            self.same((ro.type, ro.format), ('string', 'binary'), where, 'type')
            return
        for f in SCHEMA_KEEP:
            self.same(getattr(ro, f), raw.get(f), where, f)
        if raw.get('required'):
            self.same(ro.required, raw['required'], where, 'required')
        self.extdoc(ro, raw, where)
        for sub, key, f in (('xml', 'xml', 'name'), ('discriminator', 'discriminator', 'propertyName')):
            got, want = getattr(ro, sub), raw.get(key)
            if (got is None) != (want is None):
                raise Bad('content', '%s: %s is %r' % (where, sub, got))
            if want is not None:
                if sub == 'xml':
                    self.plain(got, want, ('name', 'namespace', 'prefix', 'attribute', 'wrapped'), where + '.xml')
                else:
                    self.same(getattr(got, f), want, where, sub)
        for one in ('items', 'additionalProperties'):
            if one in raw:
                todo.append((getattr(ro, one), (url, toks + (one,)),
                             'Schema' if one == 'items' else 'Bool|Schema')
                            if not isinstance(raw[one], bool) else
                            (ro.additionalProperties, (url, toks + (one,)), 'Bool|Schema'))
            elif getattr(ro, one) is not None:
                raise Bad('content', '%s: %s absent in the source' % (where, one))
        self.keys(ro.properties, raw.get('properties'), where + '.properties')
        for k in raw.get('properties') or {}:
            todo.append((ro.properties[k], (url, toks + ('properties', k)), 'Schema'))
        n = len(ro.allOf) if ro.allOf is not None else 0
        self.same(n, len(raw.get('allOf') or []), where, 'allOf')
        for i in range(n):
            todo.append((ro.allOf[i], (url, toks + ('allOf', str(i))), 'Schema'))

    def k_Parameter(self, ro, raw, loc, where, todo):
        if isinstance(raw.get('$ref'), str):
            self.ref(ro, raw, loc, 'Parameter', where, todo)
            return
        self.need(ro, 'Parameter', where)
        for f in ('name', 'in', 'description', 'required'):
            self.same(getattr(ro, f), raw.get(f), where, f)
        self.same(ro.allowEmptyValue, raw.get('allowEmptyValue'), where, 'allowEmptyValue')
        self.items(ro.schema, raw, where) if ro.schema is not None else self.same('type' in raw, False, where, 'schema')
        self.style(ro, raw, where)

    STYLE = {'csv': {'query': ('form', False), 'path': ('simple', None), 'header': ('simple', None)},
             'ssv': {'query': ('spaceDelimited', None)}, 'pipes': {'query': ('pipeDelimited', None)},
             'multi': {'query': ('form', True)}}

    def style(self, ro, raw, where):
        want = self.STYLE.get(raw.get('collectionFormat'), {}).get(raw.get('in', 'header'))
        if want:
            self.same((ro.style, ro.explode if want[1] is not None else None), want, where, 'style')

    def body_loc(self, loc):
        raw = self.m.raw(loc)
        while isinstance(raw.get('$ref'), str):
            loc = self.m.target(raw['$ref'], loc[0])
            raw = self.m.raw(loc)
        return loc, raw

    FORM = ['application/x-www-form-urlencoded', 'multipart/form-data']
    FILE = FORM + ['application/octet-stream', 'application/pdf'] + [
        t + '/' + s for t, ss in (('image', '* gif png jpeg bmp webp'), ('audio', '* midi mpeg webm ogg wav'),
                                  ('video', '* webm ogg')) for s in ss.split()]

    def sent_as(self, place, params):
        """the media types of a request body, None when not foretold"""
        if place not in self.mimes:
            return None
        allowed, out = self.mimes[place], set()
        for p in params:
            if p['in'] == 'body':
                out |= set(allowed or ['application/json'])
            elif p.get('type') == 'file':
                out |= set(allowed) & set(self.FILE) or {'multipart/form-data'}
            else:
                out |= set(allowed) & set(self.FORM) or {'application/x-www-form-urlencoded'}
        return out

    def k_Body(self, ro, raw, loc, where, todo):
        place = loc
        loc, raw = self.body_loc(loc)
        self.need(ro, 'RequestBody', where)
        want = self.sent_as(place, [raw])
        if want is not None and (raw['in'] != 'body' or not self.filed(raw['schema'], loc)):
            self.same(set(ro.content.keys()), want, where, 'content')
        if raw['in'] == 'body':
            self.same(ro.description, raw.get('description'), where, 'description')
            self.same(bool(ro.required), bool(raw.get('required')), where, 'required')
            if not len(ro.content):
                raise Bad('content', '%s: no content' % where)
            for mt in ro.content.keys():
                todo.append((ro.content[mt].schema, (loc[0], loc[1] + ('schema',)), 'Schema'))
        else:
            self.form(ro, [(loc, loc, raw)], where, todo)

    def filed(self, raw, loc):
        """is a schema 'file' in the end?"""
        l = self.m.final((loc[0], loc[1] + ('schema',)), 'Schema')
        return l is not None and self.m.raw(l).get('type') == 'file'

    def sort_of(self, raw):
        while raw.get('type') == 'array':
            raw = raw.get('items') or {}
        return {'file': 'application/octet-stream', 'object': 'application/json'}.get(raw.get('type'), 'text/plain')

    def form(self, ro, params, where, todo):
        if not len(ro.content):
            raise Bad('content', '%s: no content' % where)
        self.same(bool(ro.required), any(p.get('required') for _, _, p in params), where, 'required')
        # fields which are files and fields which are not may be in different
        # media types when 'consumes' allows neither
        names = set()
        for mt in ro.content.keys():
            names |= set(ro.content[mt].schema.properties.keys())
        self.same(sorted(names), sorted(p['name'] for _, _, p in params), where, 'form fields')
        for mt in ro.content.keys():
            sch = ro.content[mt].schema
            here = [x for x in params if x[2]['name'] in sch.properties.keys()]
            self.same(sorted(sch.required or []), sorted(p['name'] for _, _, p in here if p.get('required')),
                      where, 'required fields')
            for l, fl, p in here:
                got = real(sch.properties[p['name']])
                at = '%s.%s' % (where, p['name'])
                if l != fl:
                    # a field given by reference: known finding form-ref, it
                    # becomes a reference to the whole converted parameter
                    if self.strict and not isinstance(self.m_final(got), self.lib.Schema):
                        raise Bad('form-ref', '%s: the reference in place of a Schema leads to a %s' % (
                            at, type(self.m_final(got)).__name__))
                    self.forms += 1
                    self.ref(got, self.m.raw(l), l, 'Body', at, todo)
                    continue
                if p.get('type') == 'file':
                    self.same((got.type, got.format), ('string', 'binary'), at, 'type')
                else:
                    self.items(got, p, at)
                self.same(bool(got.nullable), p.get('allowEmptyValue') is True, at, 'nullable')
                if mt in self.FORM:
                    en = ro.content[mt].encoding
                    if en is None or p['name'] not in en.keys():
                        raise Bad('content', '%s: no encoding in %s' % (at, mt))
                    self.same(en[p['name']].contentType, self.sort_of(p), at, 'encoding')

    def m_final(self, ro):
        while isinstance(ro, self.lib.Reference):
            ro = real(ro.get_attrs('migration').ref_obj)
        return ro

    def produced(self, place):
        """the media types of a response written at ``place``"""
        toks, op = place[1], None
        if len(toks) > 2 and toks[-2] == 'responses' and toks[-3] in METHODS2:
            op = self.m.raw((place[0], toks[:-2]))
            if 'responses' in op:
                return op.get('produces') or self.inherited(place, 'produces')
        return self.inherited(place, 'produces')

    def k_Response(self, ro, raw, loc, where, todo):
        place = loc
        if isinstance(raw.get('$ref'), str):
            floc = self.m.final(loc, 'Response')
            fraw = self.m.raw(floc)
            if 'schema' not in fraw:
                self.ref(ro, raw, loc, 'Response', where, todo)
                return
            loc, raw = floc, fraw
        self.need(ro, 'Response', where)
        self.same(ro.description, raw.get('description'), where, 'description')
        if 'schema' in raw:
            if ro.content is None or not len(ro.content):
                raise Bad('content', '%s: no content' % where)
            if raw['schema'].get('type') != 'file':
                self.same(set(ro.content.keys()), set(self.produced(place) or [
                    'application/json' if raw['schema'].get('type') == 'object' else 'text/plain']), where, 'content')
            for mt in ro.content.keys():
                if raw['schema'].get('type') == 'file':
                    self.same(mt, 'application/octet-stream', where, 'content')
                    continue
                todo.append((ro.content[mt].schema, (loc[0], loc[1] + ('schema',)), 'Schema'))
        self.keys(ro.headers, raw.get('headers'), where + '.headers')
        for k in raw.get('headers') or {}:
            h, rh = ro.headers[k], raw['headers'][k]
            self.same(h.description, rh.get('description'), where, k)
            self.items(h.schema, rh, where + '.headers.' + k)
            self.style(h, rh, where + '.headers.' + k)

    def k_SecurityScheme(self, ro, raw, loc, where, todo):
        self.need(ro, 'SecurityScheme', where)
        for f in ('type', 'description', 'name', 'in'):
            self.same(getattr(ro, f), raw.get(f), where, f)
        self.same(ro.scheme, 'basic' if raw['type'] == 'basic' else None, where, 'scheme')
        if (ro.flows is None) != (raw['type'] != 'oauth2'):
            raise Bad('content', '%s: flows is %r' % (where, ro.flows))
        if raw.get('flow'):
            for f in ('implicit', 'password', 'clientCredentials', 'authorizationCode'):
                self.same(getattr(ro.flows, f) is not None, f == raw['flow'], where, f)
            fl = getattr(ro.flows, raw['flow'])
            for f in ('authorizationUrl', 'tokenUrl'):
                self.same(getattr(fl, f), raw.get(f), where, f)
            self.same(fl.scopes.dump(), raw.get('scopes'), where, 'scopes')

    def params(self, raw, loc):
        """split parameters of an operation or path item: plain, body, forms"""
        plain, body, forms = [], None, []
        for i, p in enumerate(raw.get('parameters') or []):
            l = (loc[0], loc[1] + ('parameters', str(i)))
            fl, fr = self.body_loc(l)
            if fr['in'] == 'body':
                body = l
            elif fr['in'] == 'formData':
                forms.append((l, fl, fr))
            else:
                plain.append(l)
        return plain, body, forms

    def plist(self, got, plain, where, todo):
        n = len(got) if got is not None else 0
        self.same(n, len(plain), where, 'number of parameters')
        for i, l in enumerate(plain):
            todo.append((got[i], l, 'Parameter'))

    def k_PathItem(self, ro, raw, loc, where, todo):
        self.need(ro, 'PathItem', where)
        if isinstance(raw.get('$ref'), str):
            self.ref(ro, raw, loc, 'PathItem', where, todo, cls='PathItem')
            if self.finals:
                self.final(ro, loc, where, todo)
        elif ro.ref:
            raise Bad('content', '%s: reference %r is not in the source' % (where, ro.ref))
        plain, body, forms = self.params(raw, loc)
        self.plist(ro.parameters, plain, where, todo)
        for m in METHODS2:
            got = getattr(ro, m)
            if (got is not None) != (m in raw):
                raise Bad('content', '%s: operation %s' % (where, m))
            if got is not None:
                self.oper(got, raw, loc, m, where, todo)

    def oper(self, ro, item_raw, item_loc, m, where, todo):
        loc = (item_loc[0], item_loc[1] + (m,))
        raw = item_raw[m]
        where += '.' + m
        for f in ('summary', 'description', 'operationId', 'deprecated'):
            self.same(getattr(ro, f), raw.get(f), where, f)
        plain, body, forms = self.params(raw, loc)
        _, ibody, iforms = self.params(item_raw, item_loc)
        self.plist(ro.parameters, plain, where, todo)
        if body:
            self.mimes[body] = raw.get('consumes') or self.inherited(loc, 'consumes')
        body = body or ibody
        if body:
            todo.append((ro.requestBody, body, 'Body'))
        elif forms or iforms:
            if ro.requestBody is None:
                raise Bad('missing', '%s: no request body' % where)
            self.form(ro.requestBody, iforms + forms, where, todo)
            if not iforms:
                self.mimes[loc] = raw.get('consumes') or self.inherited(loc, 'consumes')
                self.same(set(ro.requestBody.content.keys()), self.sent_as(loc, [p for _, _, p in forms]), where, 'content')
        elif ro.requestBody is not None:
            raise Bad('content', '%s: request body out of nowhere' % where)
        self.keys(ro.responses, unext(raw.get('responses')), where + '.responses')
        for k in unext(raw.get('responses')):
            todo.append((ro.responses[k], (loc[0], loc[1] + ('responses', k)), 'Response'))
        self.extdoc(ro, raw, where)
        for f in ('tags', 'security'):
            got = getattr(ro, f)
            self.same(got.dump() if got is not None else None, raw.get(f), where, f)
        n = len(ro.servers) if ro.servers is not None else 0
        self.same([ro.servers[i].url.split(':')[0] for i in range(n)], raw.get('schemes') or [], where, 'servers')
        for i in range(n):
            self.server(ro.servers[i].url, loc, where, raw['schemes'][i])

    def k_Operation(self, ro, raw, loc, where, todo):
        il = (loc[0], loc[1][:-1])
        self.oper(ro, self.m.raw(il), il, loc[1][-1], where, todo)

    def final(self, ro, loc, where, todo):
        fin = getattr(ro.get_attrs('migration'), 'final_obj', None)
        if fin is None:
            raise Bad('unbound', '%s: no merged path item' % where)
        want = self.m.merged(loc)
        # the parameters of the first one that has any which stay parameters
        plain, seen, l = [], set(), loc
        while l not in seen and not plain:
            seen.add(l)
            r = self.m.raw(l)
            plain = self.params(r, l)[0]
            if not isinstance(r.get('$ref'), str):
                break
            l = self.m.target(r['$ref'], l[0])
        self.plist(fin.parameters, plain, where + '.final', todo)
        for m in METHODS2:
            got = getattr(fin, m)
            if (got is not None) != (m in want):
                raise Bad('merge', '%s: merged operation %s' % (where, m))
            if got is not None:
                il = (want[m][0], want[m][1][:-1])
                self.oper(got, self.m.raw(il), il, m, where + '.final', todo)

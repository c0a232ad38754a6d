"""Typed description of the documents, written from the specifications.

KIND -> {'fields': names of plain members, 'children': name -> (shape, kind),
         'ref': how a $ref may stand in its place}

shape: one / map / list / maplist (map of lists).  kind 'str' is a plain
string, 'Bool|Schema' a schema or a boolean.
ref: None, 'self' (object keeps its class and carries the $ref), 'ref' (a
Reference object stands there).
"""
BASE_SCHEMA = ['type', 'format', 'default', 'maximum', 'exclusiveMaximum',
               'minimum', 'exclusiveMinimum', 'maxLength', 'minLength',
               'maxItems', 'minItems', 'multipleOf', 'enum', 'pattern',
               'uniqueItems']


def _t(fields, children=None, ref=None, cls=None):
    return {'fields': fields, 'children': children or {}, 'ref': ref, 'cls': cls}


T2 = {
    'Swagger': _t(['swagger', 'host', 'basePath'], {
        'info': ('one', 'Info'), 'paths': ('map', 'PathItem'),
        'definitions': ('map', 'Schema'), 'parameters': ('map', 'ParameterDef'),
        'responses': ('map', 'ResponseDef'),
        'securityDefinitions': ('map', 'SecurityScheme'),
        'tags': ('list', 'Tag'), 'externalDocs': ('one', 'ExternalDocumentation'),
        'schemes': ('list', 'str'), 'consumes': ('list', 'str'),
        'produces': ('list', 'str'), 'security': ('list', 'secreq')}),
    'Info': _t(['version', 'title', 'description', 'termsOfService'],
               {'contact': ('one', 'Contact'), 'license': ('one', 'License')}),
    'Contact': _t(['name', 'url', 'email']),
    'License': _t(['name', 'url']),
    'Tag': _t(['name', 'description'], {'externalDocs': ('one', 'ExternalDocumentation')}),
    'ExternalDocumentation': _t(['description', 'url']),
    'XMLObject': _t(['name', 'namespace', 'prefix', 'attribute', 'wrapped']),
    'Items': _t(BASE_SCHEMA + ['collectionFormat'], {'items': ('one', 'Items')}),
    'Schema': _t(BASE_SCHEMA + ['maxProperties', 'minProperties', 'title',
                                'description', 'discriminator', 'readOnly',
                                'example', 'required'],
                 {'xml': ('one', 'XMLObject'),
                  'externalDocs': ('one', 'ExternalDocumentation'),
                  'items': ('one', 'Schema'), 'allOf': ('list', 'Schema'),
                  'properties': ('map', 'Schema'),
                  'additionalProperties': ('one', 'Bool|Schema')}, 'self'),
    'Parameter': _t(BASE_SCHEMA + ['name', 'in', 'required', 'collectionFormat',
                                   'description', 'allowEmptyValue'],
                    {'schema': ('one', 'Schema'), 'items': ('one', 'Items')}, 'ref'),
    'Header': _t(BASE_SCHEMA + ['collectionFormat', 'description'],
                 {'items': ('one', 'Items')}),
    'Response': _t(['description', 'examples'],
                   {'schema': ('one', 'Schema'), 'headers': ('map', 'Header')}, 'ref'),
    'Operation': _t(['operationId', 'deprecated', 'description', 'summary'],
                    {'tags': ('list', 'str'), 'consumes': ('list', 'str'),
                     'produces': ('list', 'str'), 'schemes': ('list', 'str'),
                     'parameters': ('list', 'Parameter'),
                     'responses': ('map', 'Response'),
                     'security': ('list', 'secreq'),
                     'externalDocs': ('one', 'ExternalDocumentation')}),
    'PathItem': _t([], {m: ('one', 'Operation') for m in
                        ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')},
                   'self'),
    'SecurityScheme': _t(['type', 'description', 'name', 'in', 'flow',
                          'authorizationUrl', 'tokenUrl'],
                         {'scopes': ('map', 'str')}),
}
T2['PathItem']['children']['parameters'] = ('list', 'Parameter')
T2['ParameterDef'] = dict(T2['Parameter'], ref=None, cls='Parameter')
T2['ResponseDef'] = dict(T2['Response'], ref=None, cls='Response')

SCHEMA3 = ['title', 'multipleOf', 'maximum', 'exclusiveMaximum', 'minimum',
           'exclusiveMinimum', 'maxLength', 'minLength', 'pattern', 'maxItems',
           'minItems', 'uniqueItems', 'maxProperties', 'minProperties',
           'required', 'enum', 'type', 'description', 'format', 'default',
           'nullable', 'readOnly', 'writeOnly', 'example', 'deprecated']
T3 = {
    'OpenApi': _t(['openapi'], {
        'info': ('one', 'Info'), 'servers': ('list', 'Server'),
        'paths': ('map', 'PathItem'), 'components': ('one', 'Components'),
        'security': ('list', 'secreq'), 'tags': ('list', 'Tag'),
        'externalDocs': ('one', 'ExternalDocumentation')}),
    'Info': _t(['title', 'description', 'termsOfService', 'version'],
               {'contact': ('one', 'Contact'), 'license': ('one', 'License')}),
    'Contact': _t(['name', 'url', 'email']),
    'License': _t(['name', 'url']),
    'Tag': _t(['name', 'description'], {'externalDocs': ('one', 'ExternalDocumentation')}),
    'ExternalDocumentation': _t(['description', 'url']),
    'Server': _t(['url', 'description'], {'variables': ('map', 'ServerVariable')}),
    'ServerVariable': _t(['default', 'description'], {'enum': ('list', 'str')}),
    'Example': _t(['summary', 'description', 'value', 'externalValue'], {}, 'ref'),
    'XML_': _t(['name', 'namespace', 'prefix', 'attribute', 'wrapped']),
    'Discriminator': _t(['propertyName'], {'mapping': ('map', 'str')}),
    'Schema': _t(SCHEMA3, {
        'discriminator': ('one', 'Discriminator'), 'xml': ('one', 'XML_'),
        'externalDocs': ('one', 'ExternalDocumentation'),
        'allOf': ('list', 'Schema'), 'oneOf': ('list', 'Schema'),
        'anyOf': ('list', 'Schema'), 'not': ('one', 'Schema'),
        'items': ('one', 'Schema'), 'properties': ('map', 'Schema'),
        'additionalProperties': ('one', 'Bool|Schema')}, 'ref'),
    'Parameter': _t(['name', 'in', 'description', 'required', 'deprecated',
                     'allowEmptyValue', 'style', 'explode', 'allowReserved',
                     'example'],
                    {'examples': ('map', 'Example'), 'schema': ('one', 'Schema'),
                     'content': ('map', 'MediaType')}, 'ref'),
    'Header': _t(['description', 'required', 'deprecated', 'allowEmptyValue',
                  'style', 'explode', 'allowReserved', 'example'],
                 {'examples': ('map', 'Example'), 'schema': ('one', 'Schema'),
                  'content': ('map', 'MediaType')}, 'ref'),
    'Encoding': _t(['contentType', 'style', 'explode', 'allowReserved'],
                   {'headers': ('map', 'Header')}),
    'MediaType': _t(['example'], {'schema': ('one', 'Schema'),
                                  'examples': ('map', 'Example'),
                                  'encoding': ('map', 'Encoding')}),
    'RequestBody': _t(['description', 'required'],
                      {'content': ('map', 'MediaType')}, 'ref'),
    'Link': _t(['operationRef', 'operationId', 'requestBody', 'description'],
               {'server': ('one', 'Server'), 'parameters': ('map', 'str')}, 'ref'),
    'Response': _t(['description'], {'headers': ('map', 'Header'),
                                     'content': ('map', 'MediaType'),
                                     'links': ('map', 'Link')}, 'ref'),
    'OAuthFlow': _t(['authorizationUrl', 'tokenUrl', 'refreshUrl'],
                    {'scopes': ('map', 'str')}),
    'OAuthFlows': _t([], {'implicit': ('one', 'OAuthFlow'),
                          'password': ('one', 'OAuthFlow'),
                          'clientCredentials': ('one', 'OAuthFlow'),
                          'authorizationCode': ('one', 'OAuthFlow')}),
    'SecurityScheme': _t(['type', 'description', 'name', 'in', 'scheme',
                          'bearerFormat', 'openIdConnectUrl'],
                         {'flows': ('one', 'OAuthFlows')}, 'ref'),
    'Operation': _t(['summary', 'description', 'operationId', 'deprecated'],
                    {'externalDocs': ('one', 'ExternalDocumentation'),
                     'tags': ('list', 'str'),
                     'parameters': ('list', 'Parameter'),
                     'requestBody': ('one', 'RequestBody'),
                     'responses': ('map', 'Response'),
                     'callbacks': ('map', 'Callback'),
                     'security': ('list', 'secreq'),
                     'servers': ('list', 'Server')}),
    'PathItem': _t(['summary', 'description'],
                   dict([(m, ('one', 'Operation')) for m in
                         ('get', 'put', 'post', 'delete', 'options', 'head',
                          'patch', 'trace')] +
                        [('servers', ('list', 'Server')),
                         ('parameters', ('list', 'Parameter'))]), 'self'),
    'Callback': {'fields': [], 'children': {}, 'ref': 'ref', 'cls': None,
                 'mapof': 'PathItem'},
    'Components': _t([], {
        'schemas': ('map', 'Schema'), 'responses': ('map', 'Response'),
        'parameters': ('map', 'Parameter'), 'examples': ('map', 'Example'),
        'requestBodies': ('map', 'RequestBody'), 'headers': ('map', 'Header'),
        'securitySchemes': ('map', 'SecurityScheme'), 'links': ('map', 'Link'),
        'callbacks': ('map', 'Callback')}),
}

# second names of members, as class -> [(second name, name)]
def _also(**k):
    def snake(n):
        return {'in': 'in_', 'type': 'type_', '$ref': 'ref', 'enum': 'enum_', 'format': 'format_', 'xml': 'xml_',
                'not': 'not_', 'openIdConnectUrl': 'openid_connect_url'}.get(n) or ''.join(
                    '_' + c.lower() if c.isupper() else c for c in n)
    return {c: [(snake(n), n) for n in v.split()] for c, v in k.items()}


ALSO2 = _also(
    Header='collectionFormat', Info='termsOfService', Operation='operationId externalDocs',
    Parameter='in collectionFormat allowEmptyValue', PathItem='$ref', Reference='$ref',
    Schema='$ref maxProperties minProperties readOnly externalDocs allOf additionalProperties',
    SecurityScheme='type in', Swagger='basePath securityDefinitions externalDocs')
ALSO3 = _also(
    Components='requestBodies securitySchemes', Discriminator='propertyName', Encoding='contentType allowReserved',
    Example='externalValue', Header='in allowEmptyValue allowReserved', Info='termsOfService',
    Link='operationRef operationId requestBody', OAuthFlow='authorizationUrl tokenUrl refreshUrl',
    OAuthFlows='clientCredentials authorizationCode', OpenApi='externalDocs',
    Operation='externalDocs operationId requestBody', Parameter='in allowEmptyValue allowReserved',
    PathItem='$ref', Reference='$ref', SecurityScheme='type in bearerFormat openIdConnectUrl',
    ServerVariable='enum', Tag='externalDocs',
    Schema='multipleOf exclusiveMaximum exclusiveMinimum maxLength minLength maxItems minItems uniqueItems '
           'maxProperties minProperties enum type format readOnly writeOnly xml externalDocs allOf oneOf anyOf not '
           'additionalProperties')

METHODS2 = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
METHODS3 = METHODS2 + ('trace',)


# maps of patterned members, which may be mixed with extension fields
PATTERNED = {('Swagger', 'paths'), ('Operation', 'responses'), ('OpenApi', 'paths')}


def unext(raw):
    return {k: v for k, v in (raw or {}).items() if not k.startswith('x-')}


def table(version):
    return T2 if version == '2.0' else T3


def esc(tok):
    return tok.replace('~', '~0').replace('/', '~1')


def unesc(tok):
    return tok.replace('~1', '/').replace('~0', '~')


def jp(toks):
    return '#' + ''.join('/' + esc(t) for t in toks)


def jref(url, toks):
    return url + ('#' + ''.join('/' + esc(t) for t in toks) if toks else '')

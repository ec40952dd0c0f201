"""What the Swagger 1.2 / 2.0 and OpenAPI 3.0 specifications say about each
object, as the library exposes it: fields (and the kind of value they carry),
children (and the type of object they hold), defaults, required and restricted
keys, aliases.  This is the reference the generic object checks are driven by;
it is written down here and never read out of the code under test.

kinds of fields:  s string, b boolean, i integer, n number, a any JSON value,
                  as list of strings, al list of any JSON values
child types:      ('o', Cls) object, ('r', Cls) object or Reference,
                  ('b', type) boolean or type, ('m', type) map, ('l', type) list,
                  ('s',) string
"""

NUM = ('n',)


def o(c):
    return ('o', c)


def r(c):
    return ('r', c)


def m(t):
    return ('m', t)


def l(t):
    return ('l', t)


S = ('s', )
SEC = l(m(l(S)))


class Obj(object):
    def __init__(self, fields='', children=None, required='', defaults=None,
                 restricted='', aliases='', keep_empty='', writable=''):
        self.fields = {}
        for part in fields.split():
            name, _, kind = part.partition(':')
            self.fields[name] = kind or 's'
        self.children = dict(children or {})
        self.required = set(required.split())
        self.defaults = dict(defaults or {})
        self.restricted = set(restricted.split())
        self.writable = set(writable.split())
        # an empty container under these keys differs from an absent one
        self.keep_empty = set(keep_empty.split()) | {
            k for k in self.required if k in self.children}
        self.aliases = {}
        for part in aliases.split():
            alias, _, key = part.partition('=')
            self.aliases[alias] = key


def snake(*names):
    out = []
    for name in names:
        s = ''.join('_' + c.lower() if c.isupper() else c for c in name)
        out.append('%s=%s' % (s, name))
    return ' '.join(out) + ' '


# --------------------------------------------------------------------- 1.2
_DT12 = ('type $ref format defaultValue:a enum:al minimum:s maximum:s '
         'uniqueItems:b ')
_DT12_A = ('type_=type ref=$ref format_=format ' +
           snake('defaultValue', 'uniqueItems'))
V12 = {
    'Items': Obj('$ref type format', aliases='ref=$ref type_=type format_=format'),
    'Scope': Obj('scope description', required='scope'),
    'LoginEndpoint': Obj('url', required='url'),
    'Implicit': Obj('tokenName', {'loginEndpoint': o('LoginEndpoint')},
                    required='loginEndpoint',
                    aliases=snake('tokenName', 'loginEndpoint')),
    'TokenRequestEndpoint': Obj('url clientIdName clientSecretName',
                                required='url',
                                aliases=snake('clientIdName', 'clientSecretName')),
    'TokenEndpoint': Obj('url tokenName', required='url',
                         aliases=snake('tokenName')),
    'AuthorizationCode': Obj('', {
        'tokenRequestEndpoint': o('TokenRequestEndpoint'),
        'tokenEndpoint': o('TokenEndpoint')},
        aliases=snake('tokenRequestEndpoint', 'tokenEndpoint')),
    'GrantTypes': Obj('', {'implicit': o('Implicit'),
                           'authorization_code': o('AuthorizationCode')}),
    'Authorizations': Obj('scope description'),
    'Authorization': Obj('type passAs keyname', {
        'scopes': l(o('Scope')), 'grantTypes': o('GrantTypes')},
        aliases='type_=type ' + snake('passAs', 'grantTypes')),
    'ResponseMessage': Obj('code:i message responseModel',
                           required='code message',
                           aliases=snake('responseModel')),
    'Parameter': Obj(_DT12 + 'paramType name description required:b '
                     'allowMultiple:b', {'items': o('Items')},
                     required='paramType name',
                     aliases=_DT12_A + snake('paramType', 'allowMultiple')),
    'Operation': Obj(_DT12 + 'method summary notes nickname produces:as '
                     'consumes:as deprecated', {
                         'items': o('Items'),
                         'authorizations': m(l(o('Authorizations'))),
                         'parameters': l(o('Parameter')),
                         'responseMessages': l(o('ResponseMessage'))},
                     required='method nickname', aliases=_DT12_A + snake('responseMessages')),
    'Api': Obj('path description', {'operations': l(o('Operation'))},
               required='path'),
    'Property': Obj(_DT12 + 'description', {'items': o('Items')},
                    aliases=_DT12_A),
    'Model': Obj('id description required:as subTypes:as discriminator',
                 {'properties': m(o('Property'))}, required='id properties',
                 aliases='id_=id ' + snake('subTypes')),
    'ApiDeclaration': Obj('swaggerVersion apiVersion basePath resourcePath '
                          'produces:as consumes:as description', {
                              'apis': l(o('Api')), 'models': m(o('Model')),
                              'authorizations': m(l(o('Authorizations')))},
                          required='swaggerVersion basePath apis',
                          aliases=snake('swaggerVersion', 'apiVersion',
                                        'basePath', 'resourcePath')),
    'Info': Obj('title description termsOfServiceUrl contact license '
                'licenseUrl', required='title description',
                aliases=snake('termsOfServiceUrl', 'licenseUrl')),
    'ResourceInListing': Obj('path description'),
    'ResourceListing': Obj('swaggerVersion apiVersion', {
        'apis': l(o('ResourceInListing')), 'info': o('Info'),
        'authorizations': m(o('Authorization'))},
        required='swaggerVersion',
        aliases=snake('swaggerVersion', 'apiVersion')),
}

# --------------------------------------------------------------------- 2.0
_BS = ('type format default:a maximum:n exclusiveMaximum:b minimum:n '
       'exclusiveMinimum:b maxLength:i minLength:i maxItems:i minItems:i '
       'multipleOf:n enum:al pattern uniqueItems:b ')
_BS_A = ('type_=type format_=format ' + snake(
    'exclusiveMaximum', 'exclusiveMinimum', 'maxLength', 'minLength',
    'maxItems', 'minItems', 'multipleOf', 'uniqueItems'))
_CF = {'collectionFormat': 'csv'}
_CF_A = snake('collectionFormat')
V20 = {
    'Reference': Obj('$ref', aliases='ref=$ref', writable='$ref'),
    'XMLObject': Obj('name namespace prefix attribute:b wrapped:b'),
    'ExternalDocumentation': Obj('description url'),
    'Tag': Obj('name description', {'externalDocs': o('ExternalDocumentation')},
               aliases=snake('externalDocs')),
    'Items': Obj(_BS + 'collectionFormat', {'items': o('Items')}, defaults=_CF,
                 aliases=_BS_A + _CF_A),
    'Schema': Obj(_BS + '$ref maxProperties:i minProperties:i title '
                  'description discriminator readOnly:b example:a required:as', {
                      'xml': o('XMLObject'),
                      'externalDocs': o('ExternalDocumentation'),
                      'items': o('Schema'), 'allOf': l(o('Schema')),
                      'properties': m(o('Schema')),
                      'additionalProperties': ('b', o('Schema'))},
                  defaults={'required': []}, writable='$ref',
                  aliases=_BS_A + 'ref=$ref ' + snake(
                      'maxProperties', 'minProperties', 'readOnly',
                      'externalDocs', 'allOf', 'additionalProperties')),
    'Contact': Obj('name url email'),
    'License': Obj('name url'),
    'Info': Obj('version title description termsOfService', {
        'contact': o('Contact'), 'license': o('License')},
        aliases=snake('termsOfService')),
    'Parameter': Obj(_BS + 'name in required:b collectionFormat description '
                     'allowEmptyValue:b', {'schema': o('Schema'),
                                           'items': o('Items')}, defaults=_CF,
                     aliases=_BS_A + _CF_A + 'in_=in ' + snake('allowEmptyValue')),
    'Header': Obj(_BS + 'collectionFormat description', {'items': o('Items')},
                  defaults=_CF, aliases=_BS_A + _CF_A),
    'Response': Obj('description examples:a', {
        'schema': o('Schema'), 'headers': m(o('Header'))}),
    'Operation': Obj('operationId deprecated:b description summary', {
        'tags': l(S), 'consumes': l(S), 'produces': l(S), 'schemes': l(S),
        'parameters': l(r('Parameter')), 'responses': m(r('Response')),
        'security': SEC, 'externalDocs': o('ExternalDocumentation')},
        keep_empty='security consumes produces',
        aliases=snake('operationId', 'externalDocs')),
    'PathItem': Obj('$ref', dict({k: o('Operation') for k in (
        'get', 'put', 'post', 'delete', 'options', 'head', 'patch')},
        parameters=l(r('Parameter'))), aliases='ref=$ref', writable='$ref'),
    'SecurityScheme': Obj('type description name in flow authorizationUrl '
                          'tokenUrl', {'scopes': m(S)},
                          aliases='type_=type in_=in'),
    'Swagger': Obj('swagger host basePath', {
        'info': o('Info'), 'schemes': l(S), 'consumes': l(S), 'produces': l(S),
        'paths': m(o('PathItem')), 'definitions': m(o('Schema')),
        'parameters': m(o('Parameter')), 'responses': m(o('Response')),
        'securityDefinitions': m(o('SecurityScheme')), 'security': SEC,
        'tags': l(o('Tag')), 'externalDocs': o('ExternalDocumentation')},
        aliases=snake('basePath', 'securityDefinitions', 'externalDocs')),
}

# ------------------------------------------------------------------- 3.0.0
_P3 = ('description required:b deprecated:b allowEmptyValue:b style explode:b '
       'allowReserved:b example:a ')
_P3_C = {'examples': m(r('Example')), 'schema': r('Schema'),
         'content': m(o('MediaType'))}
_P3_A = 'in_=in ' + snake('allowEmptyValue', 'allowReserved')
V30 = {
    'Reference': Obj('$ref', required='$ref', aliases='ref=$ref',
                     writable='$ref'),
    'Contact': Obj('name url email'),
    'License': Obj('name url', required='name'),
    'Info': Obj('title description termsOfService version', {
        'contact': o('Contact'), 'license': o('License')},
        required='title version', aliases=snake('termsOfService')),
    'ServerVariable': Obj('default description', {'enum': l(S)},
                          required='default', aliases='enum_=enum'),
    'Server': Obj('url description', {'variables': m(o('ServerVariable'))},
                  required='url'),
    'Example': Obj('summary description value:a externalValue',
                   aliases=snake('externalValue')),
    'XML_': Obj('name namespace prefix attribute:b wrapped:b'),
    'ExternalDocumentation': Obj('description url', required='url'),
    'Discriminator': Obj('propertyName', {'mapping': m(S)},
                         aliases=snake('propertyName')),
    'Schema': Obj('title multipleOf:n maximum:n exclusiveMaximum:b minimum:n '
                  'exclusiveMinimum:b maxLength:i minLength:i pattern '
                  'maxItems:i minItems:i uniqueItems:b maxProperties:i '
                  'minProperties:i required:as enum:al type description format '
                  'default:a nullable:b readOnly:b writeOnly:b example:a '
                  'deprecated:b', {
                      'discriminator': o('Discriminator'), 'xml': o('XML_'),
                      'externalDocs': o('ExternalDocumentation'),
                      'allOf': l(r('Schema')), 'oneOf': l(r('Schema')),
                      'anyOf': l(r('Schema')), 'not': r('Schema'),
                      'items': r('Schema'), 'properties': m(r('Schema')),
                      'additionalProperties': ('b', r('Schema'))},
                  aliases='enum_=enum type_=type format_=format xml_=xml '
                  'not_=not ' + snake(
                      'multipleOf', 'exclusiveMaximum', 'exclusiveMinimum',
                      'maxLength', 'minLength', 'maxItems', 'minItems',
                      'uniqueItems', 'maxProperties', 'minProperties',
                      'readOnly', 'writeOnly', 'externalDocs', 'allOf',
                      'oneOf', 'anyOf', 'additionalProperties')),
    'Parameter': Obj('name in ' + _P3, _P3_C, required='name in',
                     aliases=_P3_A),
    'Header': Obj('name in ' + _P3, _P3_C, restricted='name in',
                  defaults={'in': 'header'}, aliases=_P3_A),
    'Encoding': Obj('contentType style explode:b allowReserved:b',
                    {'headers': m(r('Header'))},
                    aliases=snake('contentType', 'allowReserved')),
    'MediaType': Obj('example:a', {
        'schema': r('Schema'), 'examples': m(r('Example')),
        'encoding': m(o('Encoding'))}),
    'RequestBody': Obj('description required:b', {
        'content': m(o('MediaType'))}, required='content'),
    'Link': Obj('operationRef operationId requestBody:a description', {
        'server': o('Server'), 'parameters': m(S)},
        aliases=snake('operationRef', 'operationId', 'requestBody')),
    'Response': Obj('description', {
        'headers': m(r('Header')), 'content': m(o('MediaType')),
        'links': m(r('Link'))}, required='description'),
    'OAuthFlow': Obj('authorizationUrl tokenUrl refreshUrl', {
        'scopes': m(S)}, required='scopes', aliases=snake(
            'authorizationUrl', 'tokenUrl', 'refreshUrl')),
    'OAuthFlows': Obj('', {k: o('OAuthFlow') for k in (
        'implicit', 'password', 'clientCredentials', 'authorizationCode')},
        aliases=snake('clientCredentials', 'authorizationCode')),
    'SecurityScheme': Obj('type description name in scheme bearerFormat '
                          'openIdConnectUrl', {'flows': o('OAuthFlows')},
                          required='type',
                          aliases='type_=type in_=in openid_connect_url='
                          'openIdConnectUrl ' + snake('bearerFormat')),
    'Operation': Obj('summary description operationId deprecated:b', {
        'externalDocs': o('ExternalDocumentation'), 'tags': l(S),
        'parameters': l(r('Parameter')), 'requestBody': r('RequestBody'),
        'responses': m(r('Response')), 'security': SEC,
        'servers': l(o('Server')),
        'callbacks': m(('rc', ))}, keep_empty='security',
        aliases=snake('externalDocs', 'operationId', 'requestBody')),
    'PathItem': Obj('$ref summary description', dict({
        k: o('Operation') for k in ('get', 'put', 'post', 'delete', 'options',
                                    'head', 'patch', 'trace')},
        parameters=l(r('Parameter')), servers=l(o('Server'))),
        aliases='ref=$ref', writable='$ref'),
    'Components': Obj('', {
        'schemas': m(r('Schema')), 'responses': m(r('Response')),
        'parameters': m(r('Parameter')), 'examples': m(r('Example')),
        'requestBodies': m(r('RequestBody')), 'headers': m(r('Header')),
        'securitySchemes': m(r('SecurityScheme')), 'links': m(r('Link')),
        'callbacks': m(('rc', ))},
        aliases=snake('requestBodies', 'securitySchemes')),
    'Tag': Obj('name description', {'externalDocs': o('ExternalDocumentation')},
               required='name', aliases=snake('externalDocs')),
    'OpenApi': Obj('openapi', {
        'info': o('Info'), 'servers': l(o('Server')), 'paths': m(o('PathItem')),
        'components': o('Components'), 'security': SEC, 'tags': l(o('Tag')),
        'externalDocs': o('ExternalDocumentation')},
        aliases=snake('externalDocs')),
}

TABLES = {'1.2': V12, '2.0': V20, '3.0.0': V30}
ROOTS = {'1.2': ('ResourceListing', 'ApiDeclaration'), '2.0': ('Swagger', ),
         '3.0.0': ('OpenApi', )}


def classes(version):
    if version == '1.2':
        from pyopenapi.migration.versions.v1_2 import objects
    elif version == '2.0':
        from pyopenapi.migration.versions.v2_0 import objects
    else:
        from pyopenapi.migration.versions.v3_0_0 import objects
    return objects

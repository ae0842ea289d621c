"""known_findings.json: every genuine defect found; `case` is the input replayed on every run"""
import datetime, json, os
F = []


def known(prop, part, case, what):
    F.append(dict(property=prop, part=part, status='known', case=repr(case), what=what))


def fixed(prop, part, commit, case, what):
    F.append(dict(property=prop, part=part, status='fixed', commit=commit, case=repr(case),
                  what='fixed: property=%s %s %s' % (prop, commit, what)))


# -- C01
D = lambda calls=(), **kw: dict(doc=dict(dict(swagger='2.0', info=dict(title=u'T', version=u'1'), paths={}), **kw), calls=list(calls))
OP = lambda **kw: {'/p': {'get': dict(dict(responses={'200': {'description': u'd'}}), **kw)}}
known('C01', 'dump', dict(D(definitions={'A': {'type': 'string', 'example': {'a': []}}}), exact=True),
      'an empty list nested in a plain value (example, scopes of a security requirement) is dumped as null (an existing test pins it for scopes)')
known('C01', 'dump', D(securityDefinitions={'b': {'type': 'basic'}}, security=[{'b': []}], paths=OP(security=[])),
      "an operation's empty security list, which switches the security of the document off, is left out of the dump")
known('C01', 'dump', D(consumes=['a/b'], paths=OP(consumes=[])),
      "an operation's empty list of media types, which clears those of the document, is left out of the dump")
known('C01', 'dump', D(definitions={'A': {'type': 'string', 'example': {'a': None}}}), 'null inside a plain value (example, enum, default) can not be dumped: ValueError')
known('C01', 'dump', D(definitions={'A': {'type': 'object', 'additionalProperties': {'type': 'array', 'items': {}}}}), 'an empty Schema is dumped as null, or left out')
known('C01', 'dump', D(paths={'/p': dict(OP()['/p'], parameters=[{'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'integer'}, 'default': [2, 1, 2]}]), '/r': {'$ref': '#/paths/~1p'}}),
      'duplicates of a list (default, enum) are lost when a referenced path item is merged')
known('C01', 'dump', D(securityDefinitions={'b': {'type': 'basic'}}, security=[{'b': []}]),
      'the dump of a document whose security requirement has no scopes can not be dumped again after a reload: ValueError')
# -- C02
W = lambda fmt='json', file='swagger.json', way='abs', dir=u'd', **kw: dict(doc=D(host='api.test', schemes=['http'], **kw)['doc'], calls=[], ext=None,
                                                                           ways=[dict(way=way, fmt=fmt, dir=dir, file=file, give='str')])
fixed('C02', 'ways', '214535e', W(dir=u'd x'), 'a file in a folder whose name has a space could not be loaded')
fixed('C02', 'ways', 'adb81b7', W('yaml-flow', 'swagger.yaml'), 'YAML in flow style was refused')
fixed('C02', 'ways', 'adb81b7', dict(W('json-raw', definitions={'A': {'type': 'number', 'multipleOf': 1e-07}})), 'JSON after leading white space was read as YAML, where 1e-07 is text')
fixed('C02', 'ways', '35e2887', dict(W(way='dir', definitions={'a': {'$ref': 'other.json'}}), ext=dict(file='other.json', whole=True, schema={'type': 'string'}, name='a')),
      'relative references of a document loaded by its folder were resolved against the parent folder')
# -- C03
A = lambda base, ref: dict(names=[], base=base, ref=ref, frag=False, local=False)
fixed('C03', 'algebra', '9fbd0e3', A('http://h.test/a/s.json', '/b/f.json'), 'a reference that is an absolute path was resolved below the folder of the document')
fixed('C03', 'algebra', '9fbd0e3', A('http://h.test/a/s.json?k=1', 'f.json?v=2'), "the referring document's query was appended to relative references")
fixed('C03', 'algebra', 'f33b1b9', A('http://h.test/s.json', 'f.json'), 'relative references of a document at the root of a server got an empty path segment')
fixed('C03', 'files', 'ac50b76', {'urls': ['http://h.test/swagger.json', 'http://h.test/b.json'], 'entries': [
      {'file': 1, 'kind': 'path_item', 'name': 'ab', 'mark': 'm2', 'refs': []}, {'file': 1, 'kind': 'path_item', 'name': 'a', 'mark': 'm4', 'refs': []}],
      'root': [{'to': 1, 'style': 'rel'}, {'to': 0, 'style': 'rel'}], 'swagger': [True, False], 'order': False},
      'an object of another document was taken for one whose pointer is longer (a for ab)')
fixed('C03', 'nothing', 'df8abd7', dict(doc=dict(swagger='2.0', info={'title': u'T', 'version': u'1'}, paths={}, definitions={'a': {'type': 'string'}}), bad=[['definitions', 'a', 'dump']], abs=False, inref=None),
      'pointers into attributes and methods of objects, and below plain values, were resolved')
# -- C05
def I(item, doc=(), other=(), **kw):
    d = dict(dict(swagger='2.0', info=dict(title='t', version='1'), paths={u'/p0': item}), **dict(doc))
    return dict(dict(doc=d, other=dict(dict(parameters={}, items={}), **dict(other)), url='http://doc.test/api/swagger.json', items=[(u'/p0', item)],
                order=[(u'/p0', m) for m in item if m != 'parameters']), **kw)


Q = lambda n, w, m, **kw: dict({'name': n, 'in': w, 'type': 'string', 'description': m}, **kw)
R = {'200': {'description': u''}}
known('C05', 'inherit', I({'get': {'responses': R, 'consumes': []}}, dict(consumes=['text/json'])),
      "an operation's empty list of media types does not clear those of the document, as the specification has it")
fixed('C05', 'inherit', 'f8d4b0d', I({'parameters': [Q(u'a', 'query', u'm1'), Q(u'a', 'header', u'm2')], 'get': {'responses': R, 'parameters': [Q(u'z', 'query', u'm3')]}}),
      'of two parameters of a path item with one name but different locations only the first was inherited')
known('C05', 'inherit', I({'parameters': [Q(u'a', 'query', u'm1')], 'get': {'responses': R, 'parameters': [Q(u'a', 'header', u'm2')]}}),
      "a path item's parameter is overridden by an operation's parameter of the same name at another location (an existing test pins it)")
_op = lambda ref: {'get': {'responses': R, 'parameters': [{'$ref': ref}]}}
fixed('C05', 'inherit', 'cc19849', dict(I(_op('#/parameters/k1')), doc=dict(swagger='2.0', info=dict(title='t', version='1'), paths={u'/p0': {'$ref': 'other.json#/items/i0'}},
      parameters={'k1': Q(u'a', 'query', u'm1')}), other=dict(parameters={}, items={'i0': _op('swagger.json#/parameters/k1')})),
      'references inside a referenced path item of another document were not resolved')
# -- C06
X = lambda schema, value, where='body', read=False, **defs: dict(defs=defs, schema=schema, where=where, value=value, read=read)
fixed('C06', 'object', '66e5401', X({'additionalProperties': False}, {u'x': 1}), 'additionalProperties: false was ignored in a Schema without type and properties')
fixed('C06', 'object', '60412c4', X({'properties': {'a': {'properties': {'b': {'type': 'string', 'readOnly': True}}}}}, {u'a': {u'b': u'x'}}),
      'read-only properties of nested objects were accepted in requests')
fixed('C06', 'object', '5625c65', X({'properties': {'a': {'$ref': '#/definitions/D'}}}, {}, D={'type': 'string', 'default': u'x'}),
      'the default of a property behind a reference was not filled in')
fixed('C06', 'object', 'e317e64', X({'allOf': [{'$ref': '#/definitions/D'}, {'properties': {'b': {'type': 'string'}}}]}, {u'b': u'x', u'a': u'y'},
      D={'required': ['b'], 'properties': {'a': {'type': 'string'}}}), 'a required key declared by another member of allOf was taken for missing')
fixed('C06', 'equal', '9c0df3a', dict(defs={'A': {'properties': {'a': {'type': 'string', 'format': 'date'}}}}, schema={'$ref': '#/definitions/A'},
      a={'a': u'2001-02-01'}, b={'a': u'2001-02-01'}, same=True), 'objects that hold equal dates, bytes or uuids were not equal')
# -- C07
H = 'http://h.test/api/swagger.json'
OTHER = 'http://h.test/api/sub/o.json'
Ag = lambda uses=(), **defs: dict(defs=defs, home=dict((k, H) for k in defs), cyclic=False, uses=list(uses), order=list(defs))
_t = lambda n, **kw: dict({'type': 'string', 'title': n}, **kw)
fixed('C07', 'aggregate', '81a6a3d', Ag(A={'allOf': [{'properties': {'a': _t(u'm1')}, 'allOf': [{'properties': {'a': _t(u'm2')}}]}]}),
      'a property of a composed schema was overridden by the ones it composes itself')
fixed('C07', 'aggregate', '81a6a3d', Ag(A={'additionalProperties': {'allOf': [{'properties': {'a': _t(u'm1')}}]}}),
      'schemas of additionalProperties, and of merged parameters and responses, were not composed')
fixed('C07', 'aggregate', '1351017', Ag(A={'allOf': [dict(_t(u'm1'), example={'a': 2}), dict(_t(u'm2'), example=1)]}),
      'composing schemas failed with a TypeError when their examples (or defaults) were of different types, and mixed them otherwise')
# -- C08
fixed('C08', 'large', '501d8f2', dict(layers=[2] * 24, loops=[False] * 24, skip=False, rev=False),
      'the cycle search followed every path, so that preparing 25 definitions that share what they refer to did not come to an end')
fixed('C08', 'docs', 'e68f4ce', dict(home={'A': OTHER}, defs={'A': {'type': 'object', 'additionalProperties': {'$ref': '#/definitions/A'}}},
      uses=[('foreignbody', {'type': 'object', 'allOf': [{'$ref': '#/definitions/A'}]})], loops=[]),
      'cycles in the schema of a referenced parameter or response of another document were not detected')
# -- C09
known('C09', 'convert', {'items': [{'s': {'type': 'string', 'format': 'byte'}, 'v': b'a', 'text': False}], 'read_bytes': True},
      'byte values of a response body are not decoded from base64: b"a" is written as "YQ==" but "YQ==" is read as the bytes "YQ==" '
      '(an existing test pins the read side, so it is not repaired)')
fixed('C09', 'convert', '6387ae0', {'items': [{'s': {'type': 'boolean'}, 'v': False, 'text': True}]},
      'boolean False read back from header text "False" became True')
fixed('C09', 'convert', '003539c', {'items': [{'s': {'type': 'string', 'format': 'date'}, 'v': 86400, 'text': True}]},
      'an int timestamp, and a datetime for format date, were refused or written with a time although documented as accepted')
fixed('C09', 'refuse', '2c9b5e7', {'k': 'date', 'v': u'2000-01-01x'}, 'trailing garbage after an ISO 8601 date was ignored')
fixed('C09', 'iso', '2c9b5e7', {'text': u'2000-01-01T00:00:00.1234567+01:00',
                                'want': datetime.datetime(2000, 1, 1, 0, 0, 0, 123456, tzinfo=datetime.timezone(datetime.timedelta(0, 3600)))},
      'the time zone was dropped after a fraction finer than microseconds')

# -- C10
L = lambda base, parts, value, pos='query', shape='plain': dict(pos=pos, base=base, parts=parts, shape=shape, value=value)
fixed('C10', 'limits', '6662d71', L({'type': 'string'}, [{'maxLength': 0}], u'a'), 'maxLength and maxItems of zero were ignored')
fixed('C10', 'limits', '6662d71', L({'type': 'array', 'items': {'type': 'integer'}}, [{'maxItems': 0}], [1]), 'maxItems of zero was ignored')
fixed('C10', 'limits', '7ed5c31', L({'type': 'integer'}, [{'multipleOf': 2}], 3), 'multipleOf was ignored for integers')
fixed('C10', 'limits', '7ed5c31', L({'type': 'number'}, [{'multipleOf': 0.1}], 0.3), 'multipleOf refused 0.3 as multiple of 0.1 (binary remainder)')
fixed('C10', 'limits', 'e317e64', L({'type': 'string'}, [{}, {}], u'', 'body', 'own+allOf'), 'limits given by an allOf member below the first level were not applied')
# -- C11
fixed('C11', 'join', '75519ff', dict(pos='query', fmts=[None], uniq=[False], leaf={'type': 'string'}, value=[u'', u'', u'a'], how='list'),
      'leading empty items were lost when joining an array')
fixed('C11', 'join', 'fb86de2', dict(pos='query', fmts=[None], uniq=[True], leaf={'type': 'string'}, value=[u'c', u'b', u'a', u'd', u'e'], how='tuple'),
      'unique items given as tuple came out in arbitrary order')
# -- C12
P = lambda ps, args, path='/op': dict(params=ps, on_item=[False] * len(ps), path=path, payload=None, args=args, host='api.test', base='/v1', method='get', scheme='http', twice=False)
fixed('C12', 'place', '750702f', P([dict(name='p', type='string', required=True, **{'in': 'path'})], dict(p=u'a b'), '/op/{p}'),
      'a space in a path argument was written as + instead of %20')
fixed('C12', 'place', 'fc90c80', P([dict(name='a.b', type='string', required=True, **{'in': 'path'})], {'a.b': u'x'}, '/op/{a.b}'),
      "a path parameter with a name like 'a.b' or 'a[b]' could not be used")
known('C12', 'place', P([dict(name='self', type='string', **{'in': 'query'})], dict(self=u'x')),
      "a parameter named 'self' can not be passed: op(self=...) raises TypeError")
# -- C13
fixed('C13', 'multi', 'f9561a5', dict(params=[dict(name=u'a"b', type='string', **{'in': 'formData'}), dict(name='u', type='file', **{'in': 'formData'})],
      args={u'a"b': u'x', 'u': {'__file__': 'bytes', 'header': {}, 'data': b'1', 'filename': u'f"g'}}, order=[u'a"b', 'u'], consumes=True, handle=True),
      'quotes in names of multipart fields and files were not escaped')
# -- C17
fixed('C17', 'deliver', '04388eb', dict(decls={'200': {'description': '', 'headers': {'X-Rate': {'type': 'integer'}}}}, status=200, headers=[('x-rate', '1')],
      body=None, raw_only=False, ways=[dict(form='pairs', step='all', body='text', decl='inline', order=['h', 's'])]),
      'a declared response header was converted only when its name was spelled in the same letter case')

# -- C22
fixed('C22', 'dict', '166b732', dict(sep=u'!', keys=[[u'user', u'deleteUser']], values=[1], looks=[([u'User'], 'str')]),
      "a piece of a name found an operation: op['User'] returned deleteUser")
known('C22', 'tags', [u'get', u'a'], "an operation is found by its first tag only, though App.op documents every tag")

# -- C20
def R(s, opt=None, p=None, **kw):
    q = p or {'name': u'body', 'in': 'body', 'schema': s}
    full = kw.pop('shared', {'x': q})['x']
    o = dict(max_array_length=3, max_prop_count=4, max_str_length=5, max_byte_length=5, max_file_length=5, max_name_length=4, parameter_template={}, object_template={}, files=0)
    o.update(opt or {})
    return dict(dict(doc={'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'host': 'api.test', 'basePath': '/v1', 'definitions': kw.pop('defs', {}), 'parameters': kw.pop('ps', {}),
                     'paths': {'/p': {'parameters': [], 'post': {'operationId': 'op', 'consumes': ['application/json'], 'parameters': [q], 'responses': {'200': {'description': 'x'}}}}}},
                cyclic=False, params=[full], own=[full], opt=o, exclude=[], seed=1, again=3), **kw)
N = '8ddc31f'
fixed('C20', 'render', N, R({'type': 'integer', 'minimum': 0, 'maximum': 3}), 'limits of 0 were ignored')
fixed('C20', 'render', N, R({'type': 'integer', 'multipleOf': 7, 'minimum': 5, 'maximum': 8}), 'multipleOf rounded below the minimum')
fixed('C20', 'render', N, R({'type': 'integer', 'enum': [0]}), 'an enum value of 0 was replaced by a random number')
fixed('C20', 'render', N, R({'type': 'number', 'maximum': -1.5}), 'numbers below zero were never rendered, even with a negative maximum')
fixed('C20', 'render', N, R({'type': 'number', 'multipleOf': 0.1, 'minimum': 0, 'maximum': 1}), 'multiples of 0.1 were rendered as 0.30000000000000004')
fixed('C20', 'render', 'bcce0ba', R({'type': 'string', 'minLength': 130}), 'minLength above the default maximum was an error')
fixed('C20', 'render', 'bcce0ba', R({'type': 'string', 'maxLength': 0}), 'maxLength of 0 was ignored')
fixed('C20', 'render', 'bcce0ba', R({'type': 'string', 'enum': [u'']}), 'an empty enum value was replaced by a random string')
fixed('C20', 'render', 'bcce0ba', R({'type': 'boolean', 'enum': [False]}), 'enum [false] gave true')
fixed('C20', 'render', 'bcce0ba', R({'type': 'string', 'format': 'email', 'maxLength': 20}), 'emails ignored maxLength, and were refused by the operation')
fixed('C20', 'render', 'ce9aed8', R({'type': 'array', 'minItems': 8, 'items': {'type': 'integer'}}), 'minItems above the default maximum was an error')
fixed('C20', 'render', 'ce9aed8', R({'type': 'array', 'maxItems': 0, 'items': {'type': 'integer'}}), 'maxItems of 0 was ignored')
fixed('C20', 'render', 'ce9aed8', R({'type': 'array', 'minItems': 2, 'maxItems': 2, 'uniqueItems': True, 'items': {'type': 'string', 'enum': [u'a', u'b']}}), 'duplicates in unique arrays, which were then too short')
fixed('C20', 'render', 'ce9aed8', R({'type': 'object', 'properties': {}, 'additionalProperties': {'type': 'integer'}}), 'additionalProperties without minProperties was a TypeError')
fixed('C20', 'render', 'ce9aed8', R({'type': 'object', 'minProperties': 2, 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'integer'}}}), 'minProperties was ignored')
fixed('C20', 'render', 'ce9aed8', R({'type': 'object', 'properties': {'a': {'type': 'integer', 'readOnly': True}}}, {'max_property': True}), 'read-only properties were rendered, which the operation refuses')
fixed('C20', 'render', 'ce9aed8', R({'type': 'object', 'properties': {}, 'minProperties': 0, 'additionalProperties': {'type': 'integer'}}, {'minimal_property': True, 'max_prop_count': 20}), 'minimal rendering added properties nobody required')
fixed('C20', 'render', 'ce9aed8', R({'$ref': '#/definitions/A'}, {'max_array_length': 6}, cyclic=True, defs={'A': {'type': 'object', 'properties': {'a': {'type': 'array', 'items': {'$ref': '#/definitions/A'}}}}}),
      'rendering a tree (an array of itself) did not end')
fixed('C20', 'render', '6c21645', R(None, p={'$ref': '#/parameters/x'}, shared={'x': {'name': 'q', 'in': 'query', 'type': 'string', 'required': True}}, ps={'x': {'name': 'q', 'in': 'query', 'type': 'string', 'required': True}}),
      'parameters declared by reference were rendered under the name None')

# -- C21
def S(which, params=(), args=None, **kw):
    payload = kw.get('payload')
    return dict(dict(params=list(params), path='/p', payload=None, args=args or {}, method='post' if payload else 'get', hk=None, headers=None, join=False, sec=None, decls={'200': {'description': 'x', 'schema': {'type': 'string'}}},
                     answer=dict(status=200, headers=[('Content-Type', 'application/json')], body=b'"x"'), scheme='http', produces=None, clients=[which], again=False), **kw)
def FD(n, **kw):
    return dict(dict(name=n, type='string', **{'in': 'formData'}), **kw)
def FL(kind='bytes', data=b'abc', **h):
    return {'__file__': kind, 'header': h.get('header', {}), 'data': data, 'filename': u'f'}
T = '2fd9bb0'
fixed('C21', 'deliver', T, S('tornado', answer=dict(status=404, headers=[], body=b'')), 'TornadoClient raised HTTPError instead of returning the answer, for any status but 2xx')
fixed('C21', 'deliver', T, S('tornado', method='put'), 'TornadoClient refused to send PUT, POST or PATCH without payload')
fixed('C21', 'deliver', T, S('tornado', [{'name': 'b', 'in': 'body', 'schema': {'type': 'object'}}], {'b': {}}, payload='body', method='delete'), 'TornadoClient refused to send a payload by DELETE')
F_ = '223fe07'
fixed('C21', 'deliver', F_, S('flask', [FD('a')], {'a': u'x'}, payload='form'), 'FlaskTestClient failed with AttributeError for every form')
fixed('C21', 'deliver', F_, S('flask', [FD('a', type='array', items={'type': 'string'}, collectionFormat='multi'), FD('f', type='file')], {'a': [u'x', u'y'], 'f': FL()}, payload='file'), 'FlaskTestClient sent only the last of repeated fields beside a file')
fixed('C21', 'deliver', F_, S('flask', [FD('f', type='file')], {'f': FL('disk')}, payload='file'), 'FlaskTestClient sent files given by name as empty')
fixed('C21', 'deliver', F_, S('flask', [FD('f', type='file')], {'f': FL('text', u'abc')}, payload='file'), 'FlaskTestClient failed for streams of text')
fixed('C21', 'deliver', F_, S('flask', [FD('f', type='file')], {'f': FL(header={'Content-Type': 'image/png'})}, payload='file'), 'FlaskTestClient ignored the Content-Type of files')
fixed('C21', 'deliver', '3b09c53', S('requests', answer=dict(status=200, headers=[('X-N', '1'), ('X-N', '2')], body=b'"x"')), 'repeated headers of a response were merged into one by the client of requests')
fixed('C21', 'deliver', '5f10de2', S('requests', hk='list', headers=[('X-One', 'a'), ('x-one', 'b')], join=True), 'headers were not joined when their names differ in case')
fixed('C21', 'deliver', '7fdc39c', S('requests', [{'name': 'X-Own', 'in': 'header', 'type': 'string'}], {'X-Own': u'v'}, hk='dict', headers=[('X-One', 'a')]), "headers of the request were added to the caller's dict")
fixed('C21', 'deliver', '7fdc39c', S('requests', again=True), "options were removed from the caller's dict, so they did not apply to the next request")
for _c in ('requests', 'flask', 'tornado'):
    fixed('C21', 'deliver', '991b32d', S(_c, [FD('f', type='file')], {'f': FL()}, payload='file', again=True), 'files were empty (or closed) when a request was sent again by %s' % _c)
known('C21', 'deliver', dict(S('tornado', answer=dict(status=200, headers=[('Content-Type', 'text/plain')], body=b'plain')), exact=True),
      'TornadoClient reads every body as JSON, whatever its Content-Type (an existing test depends on it: JSON sent as text/html)')

# -- C15
def H(steps=(), params=(), args=None, schema=None, body=None, send=None, doc=None, **kw):
    d = dict(swagger='2.0', info=dict(title='t', version='1'), host='api.test', schemes=['http', 'https'],
             paths={'/p': {'post': {'operationId': 'op', 'parameters': list(params), 'responses': {'200': dict({'description': 'x'}, **({'schema': schema} if schema else {}))}}}}, **(doc or {}))
    return dict(dict(docs=[d], calls=[dict(path='/p', method='post', args=args or {}, resp=dict(status=200, body=body if body is not None else {}, headers=[]), app=0, send=dict(dict(client='requests', hk=None, join=False, sec=False), **(send or {})))],
                     steps=list(steps), headers=[(u'X-One', u'1')], pristine=False), **kw)
fixed('C15', 'history', '2b0b453', H([('build', 0, 0), ('prepare', 0, 1)]), "Request.prepare removed an item from the caller's list of schemes")
fixed('C15', 'history', '84a7e14', H(), "DictGetter emptied the caller's list of urls")
fixed('C15', 'history', '7fdc39c', H([('build', 0, 0), ('send', 0, 0)], [{'name': 'X-Own', 'in': 'header', 'type': 'string'}], {'X-Own': u'v'}, send=dict(hk='dict')), "headers of a request were added to the caller's dict, and so to his next request")
fixed('C15', 'history', '991b32d', H([('build', 0, 0), ('again', 0, 0)], [{'name': 'f', 'in': 'formData', 'type': 'file'}], {'f': {'__file__': 'bytes', 'header': {}, 'data': b'abc', 'filename': u'f'}}), 'a file was empty when its request was sent again')
fixed('C15', 'history', '90fc8f2', H([('build', 0, 0), ('send', 0, 0), ('spoil', 0, 0)], schema={'type': 'object', 'properties': {'dd': {'default': {'a': [1]}}}}), 'changing a value that came from a default changed the document, and all later answers')
known('C15', 'history', dict(H([('build', 0, 0), ('send', 0, 0)], doc={'securityDefinitions': {'k': {'type': 'apiKey', 'name': 'X-Key', 'in': 'header'}}, 'security': [{'k': []}]}), exact=True),
      'credentials applied to a request stay in it: a client without credentials sends them when it gets the same request later')

# -- C18
def L(op=None, res=None, lst=None, name=u'pet', calls=(), **kw):
    o = dict({'nickname': u'get', 'method': 'GET', 'type': 'void', 'parameters': []}, **(op or {}))
    r = dict({'swaggerVersion': '1.2', 'basePath': u'http://api.test/api', 'apis': [{'path': u'/pet', 'operations': [o]}]}, **(res or {}))
    l = dict({'swaggerVersion': '1.2', 'apiVersion': u'1', 'info': {'title': u'T', 'description': u'D'}, 'apis': [{'path': u'/' + name}]}, **(lst or {}))
    return dict(dict(listing=l, res={name: r}, sep=u'!##!', where='docs', cyclic=False, calls=list(calls)), **kw)
_p = lambda **kw: dict({'paramType': 'query', 'name': u'a'}, **kw)
_l = L(op={'type': 'string'})
_l['listing'].pop('info')
fixed('C18', 'upgrade', 'f6fc3e6', _l, 'a 1.2 resource listing without info could not be loaded')
fixed('C18', 'upgrade', 'bce6872', L(op={'type': 'string', 'parameters': [_p(type='integer', minimum=0)]}), 'a minimum of 0 (a number) was lost when converting from 1.2')
fixed('C18', 'upgrade', '5ae74c0', L(), 'an operation without return value was dumped with a null response')
fixed('C18', 'upgrade', '16f6930', L(res={'apis': []}), 'IndexError for 1.2 documents without operations')
_b = lambda a, b: dict(L(), what='host', res=dict((n, {'swaggerVersion': '1.2', 'basePath': u, 'apis': [{'path': u'/' + n, 'operations': [{'nickname': u'get', 'method': 'GET', 'type': 'void', 'parameters': []}]}]}) for n, u in ((u'one', a), (u'two', b))),
                       listing=dict(L()['listing'], apis=[{'path': u'/one'}, {'path': u'/two'}]))
for _x, _y in ((u'http://api.test', u'http://other.test'), (u'http://h', u'http://h:8080'), (u'http://h', u'https://h')):
    fixed('C18', 'refuse', '16f6930', _b(_x, _y), 'base paths %s and %s gave a document with a wrong host and broken paths' % (_x, _y))
fixed('C18', 'upgrade', '22281a6', L(op={'type': 'string'}, res={'basePath': u'https://api.test/api'}), 'an API with https base path was converted to one that offers http')
fixed('C18', 'upgrade', 'ebecdc1', L(op={'type': 'string'}, name=u'admin/user'), 'a resource with a slash in its name got an encoded tag')
fixed('C18', 'upgrade', 'ebecdc1', L(op={'type': 'A/B'}, res={'models': {u'A/B': {'id': u'A/B', 'properties': {}}}}), 'references to models with a slash in their id did not resolve')
fixed('C18', 'upgrade', 'ebecdc1', L(op={'type': 'string', 'authorizations': {u'a/b': []}}, lst={'authorizations': {u'a/b': {'type': 'basicAuth'}}}), 'an authorization with a slash in its name was renamed')
fixed('C18', 'upgrade', 'e1e157f', L(op={'type': 'string', 'parameters': [_p(type='integer', minimum=u'1', maximum=u'3', allowMultiple=True)]}), 'the range of a parameter with allowMultiple was lost')
_o = {'authorizations': {u'o': {'type': 'oauth2', 'grantTypes': {'implicit': {'loginEndpoint': {'url': u'http://a.test'}, 'tokenName': u't'}}, 'scopes': [{'scope': u'read', 'description': u'd'}]}}}
fixed('C18', 'upgrade', '5e4d66e', L(op={'type': 'string'}, res={'authorizations': {u'o': [{'scope': u'read'}]}}, lst=_o), 'scopes in the authorizations of a 1.2 resource failed with AttributeError')
fixed('C18', 'upgrade', '2e147ac', L(op={'type': 'string'}, lst={'authorizations': {u'o': dict(_o['authorizations'][u'o'], scopes=[{'scope': u'read'}])}}), 'a scope without description could not be dumped')
fixed('C18', 'upgrade', 'be7ebe6', dict(L(op={'type': 'string', 'method': 'POST', 'parameters': [{'paramType': 'body', 'name': u'body', '$ref': u'Pet', 'required': True}]}, sep=u'!--!',
      res={'models': {u'Pet': {'id': u'Pet', 'properties': {u'kind': {'type': 'string'}}, 'required': [u'kind'], 'discriminator': u'kind'}}}),
      calls=[dict(path=u'/api/pet', method='post', args={u'body': {u'kind': u'x'}}, resp=None)]), 'a discriminator was sent with the name of the resource when the separator is a custom one')
known('C18', 'upgrade', dict(L(op={'type': 'string'}, lst={'authorizations': {u'o': {'type': 'oauth2', 'grantTypes': {'authorization_code': {'tokenRequestEndpoint': {'url': u'http://a.test/r'}, 'tokenEndpoint': {'url': u'http://a.test/t'}}}}}}), exact=True),
      "the flow of an authorization code grant is converted to 'access_code' instead of 'accessCode' (an existing test asks for it)")
known('C18', 'upgrade', L(op={'type': 'string', 'authorizations': {}}, res={'authorizations': {u'k': []}}, lst={'authorizations': {u'k': {'type': 'basicAuth'}}}),
      "an empty 'authorizations' of an operation does not remove those of its resource (they can not be told apart once parsed)")
known('C18', 'upgrade', dict(L(op={'type': 'string', 'responseMessages': [{'code': 404, 'message': u'm'}]}), exact=True), 'responseMessages are not converted, so their models are not used')

# -- C19
def V(**kw):
    c = L(**kw)
    c.pop('calls')
    return c
fixed('C19', 'v12', 'fc39509', V(op={'type': 'string', 'method': None}), 'strict preparation of an invalid 1.2 document failed with an AttributeError, not the ValidationError')
fixed('C19', 'v12', '6ad25a5', V(op={'type': 'string', 'method': 'POST', 'parameters': [{'paramType': 'form', 'name': u'f', 'type': 'File'}]}), 'validation of a File parameter failed with TypeError when its operation has no consumes')
fixed('C19', 'v12', '6ad25a5', V(op={'type': 'string', 'method': 'POST', 'parameters': [{'paramType': 'form', 'name': u'f', 'type': 'File'}]}, res={'consumes': [u'multipart/form-data']}), 'consumes of the resource were ignored for File parameters')
fixed('C19', 'v12', 'dfcb81d', V(op={'type': 'string', 'authorizations': {u'nobody': []}}), 'validation failed with KeyError for unknown authorizations')
fixed('C19', 'v20', 'fc39509', dict(yaml=True, doc={'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {'/a': {'get': {'responses': {'200': {'description': 'x', 'schema': {'type': 'object', 'required': ['a'], 'properties': {'a': {'type': 'string', 'readOnly': True}}}}}}}}}),
      'documents of yaml with numbers as response codes could not be validated')

# -- C24
_c24 = {'http://h.test/api/swagger.json': {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}},
        'http://h.test/api/b.json': {'definitions': {u'a': {'$ref': 'sub/c.yaml#/definitions/a'}}}, 'http://h.test/api/sub/c.yaml': {'definitions': {u'a': {'type': 'integer'}}}}
fixed('C24', 'resolve', '981af24', dict(docs=_c24, collect=True, steps=[dict(t=('http://h.test/api/b.json#/definitions/a', 'schema'), fault=(1, 'io'), deep=False)]),
      'an object whose own references could not be resolved was returned by the next resolution, unresolved')
_l = {'type': 'array', 'items': {'type': 'integer'}, 'default': [0, 0]}
fixed('C12', 'place', 'fd1e6a6', dict(params=[dict(_l, name=u'q', **{'in': 'query'})], on_item=[False], path=u'/a', payload=None, args={}, host='api.test', base=None, method='get', scheme='http', twice=False),
      'a default list with equal items lost the repeated ones')

fixed('C13', 'plain', 'bb9b4c6', dict(schema={'type': 'string', 'format': 'uuid'}, value=u'00000000-0000-4000-8000-000000000001'), 'a text/plain body other than a string was not sent in text form but as an object')

fixed('C02', 'locale', '55af4b5', {'doc': {'swagger': '2.0', 'info': {'title': 'a', 'version': '1', 'description': u'\xe9'}, 'paths': {'/p0': {'get': {'responses': {'200': {'description': 'a'}}}}}, 'host': 'api.test', 'schemes': ['http']}, 'fmt': 'json-raw', 'file': 'swagger.json'},
      'a document with non-ASCII text could not be loaded in a process whose locale is not UTF-8')
fixed('C17', 'deliver', '555e41b', {'decls': {'200': {'description': '', 'schema': {'type': 'string'}}}, 'status': 200, 'headers': [('Content-Type', 'text/plain')], 'body': ('text', ''), 'raw_only': False, 'ways': [{'form': 'pairs', 'step': 'all', 'body': 'text', 'interim': None, 'decl': 'inline', 'order': ['h', 's']}, {'form': 'pairs', 'step': 'all', 'body': 'bytes', 'interim': None, 'decl': 'inline', 'order': ['h', 's']}]},
      'a text/plain body delivered as bytes was read as the text of a bytes literal')
def A10(shape, parts, value, base=None):
    return {'pos': 'body', 'base': base or {'type': 'array', 'items': {'type': 'integer'}}, 'parts': parts, 'shape': shape, 'value': value}
fixed('C10', 'limits', '5c9f7a0', A10('items apart', [{'minItems': 1}, {}], [1]), 'limits of an array were checked before the items composed by allOf were added')
fixed('C10', 'limits', 'e65263b', A10('untyped own', [{'minimum': 1}, {}], 0, {'type': 'integer'}), 'limits of a schema whose type comes from allOf were ignored')
fixed('C11', 'join', '5c9f7a0', {'pos': 'query', 'fmts': ['ssv'], 'uniq': [True], 'leaf': {'type': 'string', 'format': 'date'}, 'value': [u'2001-02-03', datetime.date(2001, 2, 3)], 'how': 'list'},
      'uniqueItems kept items that are the same but given in different representations')
fixed('C06', 'object', '6195d5e', {'defs': {'A': {'properties': {'a': {'type': 'array'}}}}, 'schema': {'$ref': '#/definitions/A'}, 'where': 'body', 'value': {'a': [1]}, 'read': False},
      "the items of an array without 'items' were lost")
fixed('C06', 'object', 'b16fcce', {'defs': {'B': {'additionalProperties': {'type': 'string', 'format': 'byte'}, 'allOf': [{'additionalProperties': True}]}}, 'schema': {'$ref': '#/definitions/B'}, 'where': 'body', 'value': {'x': b'ab'}, 'read': False},
      'a schema of additionalProperties was ignored when a composed schema allows any')
fixed('C10', 'limits', '7aed028', A10('own+allOf', [{}, {'maxLength': 6}], u'a@bb.cc', {'type': 'string', 'format': 'email'}), 'limits of an email declared by an allOf member were ignored')
fixed('C03', 'nothing', '53abdd6', {'doc': {'swagger': '2.0', 'info': {'title': 'T', 'version': '1'}, 'paths': {'/p0': {'get': {'responses': {'200': {'description': 'a'}}, 'parameters': [{'name': 'a', 'in': 'query', 'type': 'string'}]}}}}, 'bad': [['paths', '/p0', 'get', 'parameters', '-1']], 'abs': False, 'inref': None},
      "a pointer with the token '-1' into another document named the last item of the array")
fixed('C14', 'media', '19ba412', {'payload': 'file', 'op_c': None, 'doc_c': ['application/json'], 'op_p': None, 'doc_p': None, 'consume': None, 'produce': None, 'client': True},
      'a client sent files although multipart/form-data is not among the declared media types, which prepare() refuses')
fixed('C02', 'ways', 'a9db329', {'doc': {'swagger': '2.0', 'info': {'title': 'T', 'version': '1', 'description': 'a', 'license': {'name': 'a'}}, 'paths': {'/p0/{a}': {'put': {'responses': {'200': {'$ref': '#/responses/a'}}, 'operationId': 'op0', 'parameters': [{'name': 'a', 'in': 'path', 'type': 'string', 'format': 'date', 'required': True}]}, 'get': {'responses': {'404': {'description': 'a', 'schema': {'type': 'array', 'items': {'type': 'string'}, 'maxItems': 2, 'xml': {'prefix': 'a', 'attribute': True, 'wrapped': True}}, 'headers': {'ETag': {'type': 'boolean'}}, 'examples': {'application/json': {'a': [1, 'x']}}}, 'default': {'description': 'aa'}}, 'parameters': [{'name': 'a', 'in': 'path', 'type': 'string', 'format': 'date', 'required': True}], 'schemes': ['http'], 'tags': []}, 'post': {'responses': {'200': {'$ref': '#/responses/a'}, '400': {'description': 'a', 'headers': {'X-B': {'type': 'array', 'items': {'type': 'integer', 'format': 'int32', 'minimum': 0}, 'collectionFormat': 'pipes'}, 'ETag': {'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'csv'}}}}, 'parameters': [{'$ref': '#/parameters/a'}, {'name': 'a', 'in': 'path', 'type': 'string', 'format': 'date', 'required': True}], 'security': [{'11': ['s']}, {'11': ['s']}], 'deprecated': True, 'x-a': 'x'}}}, 'host': 'api.test', 'securityDefinitions': {'1': {'type': 'basic'}, '11': {'type': 'basic', 'description': 'a'}, '835': {'type': 'apiKey', 'name': 'aa', 'in': 'query'}}, 'security': [{'835': ['s'], '1': ['s']}, {'835': ['s'], '11': ['s']}], 'parameters': {'1': {'name': 'a', 'in': 'header', 'type': 'number', 'format': 'double', 'allowEmptyValue': True}, 'a': {'name': ']', 'in': 'query', 'type': 'string', 'format': 'email', 'required': True}}, 'responses': {'a': {'description': 'a', 'schema': {'type': 'string', 'format': 'date-time', 'default': '1970-01-01T00:00:01', 'xml': {'name': 'a'}}}}, 'schemes': ['https']}, 'calls': [{'path': '/p0/{a}', 'method': 'put', 'args': {}, 'resp': {'status': 200, 'body': None, 'headers': []}}, {'path': '/p0/{a}', 'method': 'get', 'args': {}, 'resp': {'status': 404, 'body': [], 'headers': [('ETag', 'x')]}}], 'ext': None, 'ways': [{'way': 'rel', 'fmt': 'yaml-num', 'dir': 'd', 'file': 'swagger.yml'}, {'way': 'dir', 'fmt': 'json', 'dir': 'd', 'file': 'swagger.json'}]}, 'names that are numbers (of paths, definitions, ...) could not be loaded from YAML')
fixed('C16', 'history', 'd77cf91', {'defs': {'basic auth': {'type': 'apiKey', 'name': 'api_key0', 'in': 'query'}, 'key': {'type': 'oauth2', 'flow': 'implicit', 'scopes': {'r': 'x', 'w': 'y'}, 'authorizationUrl': 'http://a.test', 'description': 'aaa'}, 's1': {'type': 'apiKey', 'name': 'k2', 'in': 'query'}, 'o-auth': {'type': 'apiKey', 'name': 'k3', 'in': 'header', 'description': 'aaa'}}, 'ops': [{'security': [{'basic auth': [], 'key': ['r']}], 'q': False}, {'security': [{'s1': [], 'o-auth': []}], 'q': True}, {'security': None, 'q': True}, {'security': [{'o-auth': [], 'basic auth': [], 'key': []}], 'q': True}], 'doc': [{'key': ['r'], 'basic auth': [], 'o-auth': []}, {'basic auth': [], 'key': ['r']}], 'actions': [('register', 'basic auth', 'a'), ('send', 0, False, ''), ('send', 3, False, 'a')], 'over': [{'name': 'api_key0', 'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': 'multi', 'in': 'query'}]}, 'an api key was attached more than once when the operation sends the query parameter of that name more than once')
fixed('C02', 'listing', '7a4a8c3', {'listing': {'swaggerVersion': '1.2', 'apis': [{'path': '/p.q', 'description': 'about p.q'}, {'path': '/user', 'description': 'about user'}], 'info': {'title': 'T', 'description': 'D', 'termsOfServiceUrl': 'http://t.test', 'contact': 'a@b.c', 'license': 'Apache', 'licenseUrl': 'http://l.test'}, 'authorizations': {'basic': {'type': 'apiKey', 'passAs': 'query', 'keyname': 'api_key'}, 'oauth2': {'type': 'basicAuth'}}}, 'res': {'p.q': {'swaggerVersion': '1.2', 'basePath': 'http://api.test', 'apis': [{'path': '/things', 'operations': [{'nickname': 'x.y', 'parameters': [{'paramType': 'form', 'name': 'f1', 'type': 'array', 'items': {'type': 'string'}}, {'paramType': 'form', 'name': 'f2', 'type': 'array', 'items': {'type': 'integer', 'format': 'int32'}, 'uniqueItems': False}, {'paramType': 'query', 'name': 'dabb', 'type': 'array', 'items': {'type': 'string'}, 'uniqueItems': False, 'required': True}], 'type': 'void', 'summary': 'short', 'deprecated': 'true', 'produces': ['application/xml'], 'method': 'POST'}]}, {'path': '/things', 'operations': [{'nickname': 'do', 'parameters': [{'paramType': 'header', 'name': 'X-c', 'type': 'number', 'required': False}, {'paramType': 'header', 'name': 'X-af', 'type': 'string', 'format': 'date', 'required': True}], 'type': 'boolean', 'deprecated': 'true', 'authorizations': {'basic': []}, 'method': 'GET'}], 'description': 'd'}], 'resourcePath': '/p.q', 'models': {'Pet': {'id': 'Pet', 'properties': {'id': {'type': 'array', 'items': {'type': 'string', 'format': 'byte'}, 'description': 'about id'}}, 'required': ['id'], 'description': 'a'}, 'List<Pet>': {'id': 'List<Pet>', 'properties': {}}, 'Pet_2': {'id': 'Pet_2', 'properties': {'name': {'type': 'integer', 'defaultValue': 5}, 'owner': {'type': 'array', 'items': {'type': 'string', 'format': 'byte'}}, 'a/b': {'$ref': 'List<Pet>'}, 'kind': {'$ref': 'List<Pet>'}}, 'description': 'h'}}}, 'user': {'swaggerVersion': '1.2', 'basePath': 'http://api.test', 'apis': [], 'authorizations': {'oauth2': [], 'basic': []}}}, 'sep': '!--!', 'where': 'json', 'cyclic': True, 'calls': [{'path': '/things', 'method': 'get', 'args': {'X-c': 588, 'X-af': datetime.date(7521, 9, 19)}, 'resp': {'status': 418, 'body': None, 'headers': []}}, {'path': '/things', 'method': 'get', 'args': {'X-af': '2012-11-02'}, 'resp': {'status': 418, 'body': False, 'headers': []}}, {'path': '/things', 'method': 'post', 'args': {'f1': ['bb', 'ab', 'b'], 'f2': [1, 1, 1], 'dabb': []}, 'resp': {'status': 418, 'body': None, 'headers': []}}], 'ways': [{'way': 'resolver', 'root': 'l.yml', 'ext': 'yaml', 'dir': 'd', 'fmt': 'yaml', 'give': 'str'}, {'way': 'create', 'root': 'resource_list.json', 'ext': 'yaml', 'dir': 'dbb', 'fmt': 'yaml-flow', 'give': 'str'}]}, "the resources of a listing in a '.yml' file were looked for in the wrong place")
fixed('C04', 'moved', '03f28bf', {'base': {'swagger': '2.0', 'info': {'title': 'T', 'version': '1'}, 'paths': {'/p0//{@}': {'parameters': [{'name': '@', 'in': 'path', 'type': 'array', 'items': {'type': 'string', 'format': 'uuid'}, 'required': True}], 'options': {'responses': {'400': {'description': 'd', 'headers': {'ETag': {'type': 'array', 'items': {'type': 'integer', 'format': 'int32'}, 'collectionFormat': 'pipes'}, 'X-A': {'type': 'string', 'format': 'email'}}}, 'default': {'description': 'd', 'headers': {'ETag': {'type': 'integer', 'format': 'int32', 'exclusiveMinimum': True}}}, '500': {'description': 'd', 'schema': {'type': 'string', 'format': 'date'}}}, 'operationId': 'op0', 'parameters': [{'name': '[', 'in': 'formData', 'type': 'string', 'format': 'email'}], 'consumes': ['application/x-www-form-urlencoded'], 'security': [{'b': []}, {'b': []}]}}}, 'basePath': '/a/b', 'schemes': ['http'], 'securityDefinitions': {'b': {'type': 'apiKey', 'name': 'xcg', 'in': 'header'}}, 'host': 'api.test'}, 'docs': {'http://h.test/api/swagger.json': {'swagger': '2.0', 'info': {'title': 'T', 'version': '1'}, 'paths': {'/p0//{@}': {'parameters': [{'name': '@', 'in': 'path', 'type': 'array', 'items': {'type': 'string', 'format': 'uuid'}, 'required': True}], 'options': {'responses': {'400': {'$ref': '#/responses/$ref'}, 'default': {'description': 'd', 'headers': {'ETag': {'type': 'integer', 'format': 'int32', 'exclusiveMinimum': True}}}, '500': {'$ref': '../api/other.json#/list/0/a~1b'}}, 'operationId': 'op0', 'parameters': [{'name': '[', 'in': 'formData', 'type': 'string', 'format': 'email'}], 'consumes': ['application/x-www-form-urlencoded'], 'security': [{'b': []}, {'b': []}]}}}, 'basePath': '/a/b', 'schemes': ['http'], 'securityDefinitions': {'b': {'type': 'apiKey', 'name': 'xcg', 'in': 'header'}}, 'host': 'api.test', 'responses': {'$ref': {'description': 'd', 'headers': {'ETag': {'type': 'array', 'items': {'type': 'integer', 'format': 'int32'}, 'collectionFormat': 'pipes'}, 'X-A': {'type': 'string', 'format': 'email'}}}}}, 'http://h.test/api/other.json': {'any': {'where/it': {'0': {'$ref': 'sub/o.yaml'}}}, 'list': [{'a/b': {'description': 'd', 'schema': {'$ref': '#/any/where~1it/0'}}}]}, 'http://h.test/api/sub/o.yaml': {'type': 'string', 'format': 'date'}}, 'calls': [{'path': '/p0//{@}', 'method': 'options', 'args': {'[': 'f@s.com', '@': []}, 'resp': {'status': 500, 'body': '1973-12-01', 'headers': []}}, {'path': '/p0//{@}', 'method': 'options', 'args': {'[': 'q@k.com', '@': ['00ffb600-0073-01fe-f400-71c10000feaa']}, 'resp': {'status': 500, 'body': '1970-12-27T23:59:05.000058-02:13', 'headers': []}}, {'path': '/p0//{@}', 'method': 'options', 'args': {'@': ['urn:uuid:7b017c39-005c-02fe-01b0-ff3500280000', '0d000400f7015a337e007501006b1900'], 'nobody': 1}, 'resp': {'status': 418, 'body': None, 'headers': [('ETag', '-1719468029')]}}, {'path': '/p0//{@}', 'method': 'options', 'args': {'[': '7@a.org'}, 'resp': {'status': 500, 'body': '1973-12-04T19:59:24.001200-02:42', 'headers': []}}], 'n': 3, 'hops': 1, 'pick': [(6, 'schema'), (5, 'response'), (5, 'response')], 'alone': True}, 'operations that refer to another document did not work (ReferenceError) when only they are kept of the application')
fixed('C06', 'equal', 'ff2a831', {'defs': {'A': {}}, 'schema': {'$ref': '#/definitions/A'}, 'a': {}, 'b': {}, 'same': True, 'pick': 0, 'others': [3, 0, True]}, 'comparing a model with what is no object failed with AttributeError, copying it with KeyError')

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(entries=F), open(os.path.join(root, 'known_findings.json'), 'w'), indent=1)

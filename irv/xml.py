"""building schema texts and looking into the observations"""
TYPES = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'intvar', 'uintvar']


def esc(s):
    return str(s).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;')


def attrs(d):
    return ''.join(' %s="%s"' % (k, esc(v)) for k, v in d.items() if v is not None)


def el(tag, a=None, body=''):
    return '<%s%s/>' % (tag, attrs(a or {})) if not body else '<%s%s>%s</%s>' % (tag, attrs(a or {}), body, tag)


def schema(fields='', rest='', version=None, dsl=None, **kw):
    a = dict(name='S', id=1, endian='little')
    if version is not None:
        a['version'] = version
    if dsl is not None:
        a['dslVersion'] = dsl
    a.update(kw)
    return '<?xml version="1.0" encoding="UTF-8"?>\n<schema%s>\n%s%s\n</schema>\n' % (attrs(a), ('<fields>%s</fields>' % fields) if fields else '', rest)


def parse_field(o, idx=-1):
    """the idx-th field of the global namespace of the first schema"""
    return o['schemas'][0]['ns'][0]['fields'][idx]

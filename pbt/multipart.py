"""an independent multipart/form-data reader"""
import re


def parse(content_type, data, encoding='utf-8'):
    """list of (name, filename or None, headers, bytes)"""
    m = re.match(r'multipart/form-data;\s*boundary="?([^";]+)"?$', content_type)
    if not m:
        raise ValueError('content type %r' % content_type)
    delim = b'--' + m.group(1).encode('ascii')
    if not data.startswith(delim + b'\r\n') and data.rstrip(b'\r\n') != delim + b'--':
        raise ValueError('payload does not start with its boundary')
    end = data.rfind(b'\r\n' + delim + b'--')
    if end < 0:
        raise ValueError('payload is not closed')
    if data[end + len(delim) + 4:].strip(b'\r\n'):
        raise ValueError('bytes after the last boundary')
    body = data[len(delim) + 2:end]
    out = []
    for part in body.split(b'\r\n' + delim + b'\r\n'):
        head, sep, content = part.partition(b'\r\n\r\n')
        if not sep:
            raise ValueError('part without header end')
        hs = {}
        for line in head.split(b'\r\n'):
            k, _, v = line.decode(encoding).partition(':')
            if k.lower() in hs:
                raise ValueError('header twice: %r' % k)
            hs[k.lower()] = v.strip()
        disp = hs.pop('content-disposition')
        m = re.match(r'form-data; name="((?:[^"\\]|\\.)*)"(?:; filename="((?:[^"\\]|\\.)*)")?$', disp, re.S)
        if not m:
            raise ValueError('disposition %r' % disp)
        out.append((unescape(m.group(1)), None if m.group(2) is None else unescape(m.group(2)), hs, content))
    return out


def unescape(s):
    """browsers write %22 %0D %0A, RFC 2388 implementations a backslash"""
    return re.sub(r'\\(["\\])', r'\1', s).replace('%22', '"').replace('%0D', '\r').replace('%0A', '\n')

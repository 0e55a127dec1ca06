"""Reference decoding of content and transfer codings (strict)."""

import zlib


class Corrupt(Exception):
    pass


def gunzip(data):
    """RFC 1952: one or more complete members."""
    out = b''
    while data:
        d = zlib.decompressobj(16 + zlib.MAX_WBITS)
        try:
            out += d.decompress(data) + d.flush()
        except zlib.error as e:
            raise Corrupt from e
        if not d.eof:
            raise Corrupt
        data = d.unused_data
    return out


def inflate(data):
    """RFC 1950 (zlib) data."""
    d = zlib.decompressobj()
    try:
        out = d.decompress(data) + d.flush()
    except zlib.error as e:
        raise Corrupt from e
    if not d.eof:
        raise Corrupt
    return out


def unbrotli(data):
    import brotli
    try:
        return brotli.decompress(data)
    except brotli.error as e:
        raise Corrupt from e


def gz(data, level=9):
    c = zlib.compressobj(level, zlib.DEFLATED, 16 + zlib.MAX_WBITS)
    return c.compress(data) + c.flush()


def deflate(data):
    return zlib.compress(data)


def br(data):
    import brotli
    return brotli.compress(data)


ENCODE = {'gzip': gz, 'x-gzip': gz, 'deflate': deflate, 'br': br}
DECODE = {'gzip': gunzip, 'x-gzip': gunzip, 'deflate': inflate, 'br': unbrotli}

"""Independent implementation of the bloscpack format (README), used as oracle.

Shares no code with bloscpack; only the native blosc codec and the standard
library's zlib/hashlib/json are common.
"""
import hashlib
import json
import struct
import zlib

import blosc

_decompress = blosc.decompress          # bound before the seams are installed
_compress = blosc.compress

CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256',
             'sha384', 'sha512']
SIZES = [0, 4, 4, 16, 20, 28, 32, 48, 64]


def digest(idx, data):
    if idx == 0:
        return b''
    if idx == 1:
        return struct.pack('<I', zlib.adler32(data) & 0xffffffff)
    if idx == 2:
        return struct.pack('<I', zlib.crc32(data) & 0xffffffff)
    return getattr(hashlib, CHECKSUMS[idx])(data).digest()


class FormatError(Exception):
    pass


class Archive(object):
    pass


def need(data, pos, n, what):
    if pos + n > len(data):
        raise FormatError('truncated in %s' % what)
    return data[pos:pos + n]


def parse_header(data):
    h = need(data, 0, 32, 'header')
    if h[:4] != b'blpk':
        raise FormatError('magic')
    (ver, opts, csum, ts, cs, lc, nch, app) = struct.unpack('<BBBBiiqq', h[4:])
    a = Archive()
    a.version, a.options, a.checksum, a.typesize = ver, opts, csum, ts
    a.chunk_size, a.last_chunk, a.nchunks, a.max_app = cs, lc, nch, app
    if ver != 3:
        raise FormatError('version %d' % ver)
    if opts & ~3:
        raise FormatError('unknown options')
    if csum > 8:
        raise FormatError('checksum id')
    a.has_offsets = bool(opts & 1)
    a.has_meta = bool(opts & 2)
    if cs < -1 or lc < -1 or nch < -1 or app < 0:
        raise FormatError('negative field')
    if cs != -1 and lc != -1 and lc > cs:
        raise FormatError('last_chunk > chunk_size')
    if nch + app > 2 ** 63 - 1:
        raise FormatError('nchunks + max_app')
    return a


def parse_meta(data, pos):
    h = need(data, pos, 32, 'metadata header')
    m = Archive()
    m.magic = h[:8].rstrip(b'\0 ').lstrip(b'\0')
    m.raw_magic = h[:8]
    m.options, m.checksum, m.codec, m.level = h[8], h[9], h[10], h[11]
    m.size, m.max_size, m.comp_size = struct.unpack('<III', h[12:24])
    m.user_codec = h[24:32]
    m.pos = pos
    if m.options:
        raise FormatError('meta options')
    if m.checksum > 8:
        raise FormatError('meta checksum id')
    if m.codec > 1:
        raise FormatError('meta codec id')
    if m.comp_size > m.max_size:
        raise FormatError('meta_comp_size > max_meta_size')
    m.payload_pos = pos + 32
    m.payload = need(data, m.payload_pos, m.comp_size, 'metadata')
    need(data, m.payload_pos, m.max_size, 'metadata preallocation')
    m.digest_pos = m.payload_pos + m.max_size
    m.digest = need(data, m.digest_pos, SIZES[m.checksum], 'metadata checksum')
    m.end = m.digest_pos + SIZES[m.checksum]
    m.ok = digest(m.checksum, m.payload) == m.digest
    return m


def meta_value(m):
    if not m.ok:
        raise FormatError('metadata checksum')
    raw = m.payload
    if m.codec == 1:
        try:
            raw = zlib.decompress(raw)
        except zlib.error as e:
            raise FormatError('metadata zlib: %s' % e)
    if len(raw) != m.size:
        raise FormatError('meta_size %d but payload has %d' % (m.size, len(raw)))
    if m.magic != b'JSON':
        raise FormatError('serializer')
    try:
        return json.loads(raw.decode('utf-8'))
    except ValueError as e:
        raise FormatError('metadata json: %s' % e)


def read_chunk(data, pos, csum, what):
    h = need(data, pos, 16, what)
    nbytes, block, ct = struct.unpack('<III', h[4:16])
    if ct < 16:
        raise FormatError('%s: ctbytes %d' % (what, ct))
    comp = need(data, pos, ct, what)
    dg = need(data, pos + ct, SIZES[csum], what + ' checksum')
    c = Archive()
    c.pos, c.comp, c.digest, c.nbytes, c.ct = pos, comp, dg, nbytes, ct
    c.typesize, c.flags = h[3], h[2]
    c.end = pos + ct + SIZES[csum]
    c.ok = digest(csum, comp) == dg
    return c


def chunk_data(c):
    if not c.ok:
        raise FormatError('chunk checksum at %d' % c.pos)
    try:
        d = _decompress(bytes(c.comp))
    except Exception as e:
        raise FormatError('chunk at %d: %s' % (c.pos, e))
    if len(d) != c.nbytes:
        raise FormatError('chunk at %d: nbytes' % c.pos)
    return d


def parse(data):
    """Sequential structural parse (checksums noted, not enforced)."""
    data = bytes(data)
    a = parse_header(data)
    if a.nchunks < 0:
        raise FormatError('unknown number of chunks')
    pos = 32
    a.meta = None
    if a.has_meta:
        a.meta = parse_meta(data, pos)
        pos = a.meta.end
    a.offsets_pos = pos
    a.offsets = None
    if a.has_offsets:
        total = a.nchunks + a.max_app
        raw = need(data, pos, 8 * total, 'offsets')
        a.offsets = list(struct.unpack('<%dq' % total, raw))
        pos += 8 * total
    a.chunks_pos = pos
    a.chunks = []
    for i in range(a.nchunks):
        c = read_chunk(data, pos, a.checksum, 'chunk %d' % i)
        a.chunks.append(c)
        pos = c.end
    a.end = pos
    a.trailing = len(data) - pos
    return a


def decode(data):
    """(payload, metadata) of a valid archive, or FormatError."""
    a = parse(data)
    md = meta_value(a.meta) if a.meta is not None else None
    return b''.join(chunk_data(c) for c in a.chunks), md


def decode_prefix(data):
    """Verified chunks in front of the first problem: list of bytes."""
    out = []
    try:
        a = parse_header(bytes(data))
        pos = 32
        if a.has_meta:
            m = parse_meta(data, pos)
            pos = m.end
        if a.has_offsets:
            pos += 8 * (a.nchunks + a.max_app)
        for i in range(a.nchunks):
            c = read_chunk(data, pos, a.checksum, 'chunk')
            out.append(chunk_data(c))
            pos = c.end
    except FormatError:
        pass
    return out


def conformance(data, payload=None, metadata=None, has_meta=None,
                expect=None, allow_trailing=False):
    """Check a written archive strictly against the README.

    Returns a list of complaints (empty: conforming).
    """
    bad = []
    try:
        a = parse(data)
    except FormatError as e:
        return ['not parsable: %s' % e]
    if a.trailing and not allow_trailing:
        bad.append('%d trailing bytes' % a.trailing)
    sizes = []
    plain = []
    for i, c in enumerate(a.chunks):
        try:
            d = chunk_data(c)
        except FormatError as e:
            bad.append('chunk %d: %s' % (i, e))
            continue
        sizes.append(len(d))
        plain.append(d)
    if len(sizes) == a.nchunks and a.nchunks > 0:
        if any(s != a.chunk_size for s in sizes[:-1]):
            bad.append('chunk sizes %s vs header chunk_size %d' %
                       (sizes[:5], a.chunk_size))
        if sizes[-1] != a.last_chunk:
            bad.append('last chunk %d vs header last_chunk %d' %
                       (sizes[-1], a.last_chunk))
    if a.nchunks <= 0:
        bad.append('nchunks %d' % a.nchunks)
    if a.has_offsets:
        for i in range(a.nchunks):
            if a.offsets[i] != (a.chunks[i].pos if i < len(a.chunks) else None):
                bad.append('offset %d is %d, chunk is at %d' %
                           (i, a.offsets[i], a.chunks[i].pos))
                break
        if any(o != -1 for o in a.offsets[a.nchunks:]):
            bad.append('unused offsets are not -1')
    elif a.max_app:
        bad.append('max_app_chunks without offsets')
    if payload is not None and b''.join(plain) != payload:
        bad.append('payload differs')
    if a.meta is not None:
        m = a.meta
        try:
            v = meta_value(m)
            if has_meta and v != metadata:
                bad.append('metadata differs')
        except FormatError as e:
            bad.append('metadata: %s' % e)
        if m.raw_magic.rstrip(b'\0 ') != b'JSON':
            bad.append('magic format %r' % m.raw_magic)
        if m.user_codec.strip(b'\0'):
            bad.append('user_codec %r without a user codec' % m.user_codec)
        if m.codec == 0 and m.level != 0:
            bad.append('meta_level %d with codec None' % m.level)
        if m.codec == 0 and m.comp_size != m.size:
            bad.append('meta_comp_size != meta_size with codec None')
        if m.codec == 1 and m.comp_size > m.size:
            bad.append('metadata compression kept although not beneficial')
    if has_meta is not None and bool(has_meta) != (a.meta is not None):
        bad.append('metadata section present: %s' % (a.meta is not None))
    for k, v in (expect or {}).items():
        got = a
        for part in k.split('.'):
            got = getattr(got, part)
        if got != v:
            bad.append('%s is %r, expected %r' % (k, got, v))
    return bad


# ---------------------------------------------------------------------------
# writer of conforming archives

def write(chunks, checksum=1, typesize=8, offsets=True, max_app=0,
          chunk_size=None, last_chunk=None, nchunks=None, meta=None,
          meta_opts=None, fill_offsets=True, trailing=b'', version=3,
          options_or=0, checksum_byte=None, prealloc_byte=b'\0'):
    """chunks: list of already blosc-compressed buffers."""
    sizes = [struct.unpack('<I', c[4:8])[0] for c in chunks]
    if chunk_size is None:
        chunk_size = sizes[0] if sizes else 0
    if last_chunk is None:
        last_chunk = sizes[-1] if sizes else 0
    n = len(chunks) if nchunks is None else nchunks
    opts = (1 if offsets else 0) | (2 if meta is not None else 0) | options_or
    out = bytearray(b'blpk' + struct.pack(
        '<BBBBiiqq', version, opts,
        checksum if checksum_byte is None else checksum_byte, typesize,
        chunk_size, last_chunk, n, max_app if offsets else 0))
    if meta is not None:
        out += write_meta(meta, **(meta_opts or {}))
    pos0 = len(out)
    tab = []
    if offsets:
        out += b'\xff' * (8 * (len(chunks) + max_app))
    for c in chunks:
        tab.append(len(out))
        out += c
        out += digest(checksum, c)
    if offsets and fill_offsets:
        out[pos0:pos0 + 8 * len(tab)] = struct.pack('<%dq' % len(tab), *tab)
    return bytes(out) + trailing


def write_meta(value, checksum=1, codec=0, level=None, extra=0, magic=b'JSON',
               options=0, raw=None, indent=None, ensure_ascii=True,
               prealloc_byte=b'\0', user_codec=b'', codec_byte=None):
    if raw is None:
        if not ensure_ascii and '\\ud' in json.dumps(value):
            ensure_ascii = True     # surrogates have no UTF-8 form
        raw = json.dumps(value, indent=indent, ensure_ascii=ensure_ascii,
                         separators=(',', ':') if indent is None else None
                         ).encode('utf-8')
    pay = raw
    if level is None:
        level = 6 if codec else 0
    if codec == 1:
        pay = zlib.compress(raw, level)
    head = magic.ljust(8, b'\0') + struct.pack(
        '<BBBBIII', options, checksum, codec if codec_byte is None else codec_byte,
        level, len(raw), len(pay) + extra, len(pay)) + user_codec.ljust(8, b'\0')
    return head + pay + prealloc_byte * extra + digest(checksum, pay)


def compress_blocks(data, blocksize, **kw):
    """Like compress, with a forced block size."""
    blosc.set_blocksize(blocksize)
    try:
        return compress(data, **kw)
    finally:
        blosc.set_blocksize(0)


def compress(data, typesize=8, clevel=7, shuffle=1, cname='blosclz'):
    return _compress(bytes(data), typesize=typesize, clevel=clevel,
                     shuffle=shuffle, cname=cname)

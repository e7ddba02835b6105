"""Damaged archives: structural and random mutations, as JSON specifications."""
import struct

from . import ref

HOW = ['flip', 'flip', 'flip', 'byte', 'byte', 'header', 'header', 'header', 'metahead', 'metahead',
       'offset', 'offset', 'chunkhead', 'chunkhead', 'cut', 'cut', 'extend', 'dup', 'remove', 'zero',
       'noise', 'swap', 'copy', 'self', 'ones', 'bignums']


def spec(rng):
    return {'how': rng.choice(HOW), 'at': round(rng.random(), 4), 'v': rng.randrange(1 << 30),
            'fix': rng.random() < .4}


FIELDS = [(4, 'B'), (5, 'B'), (6, 'B'), (7, 'B'), (8, 'i'), (12, 'i'), (16, 'q'), (24, 'q')]
META = [(0, '8s'), (8, 'B'), (9, 'B'), (10, 'B'), (11, 'B'), (12, 'I'), (16, 'I'), (20, 'I'), (24, '8s')]
EDGE = {'B': [0, 1, 2, 3, 4, 8, 9, 15, 16, 127, 128, 255],
        'i': [-1, 0, 1, 2, 15, 16, 1 << 20, 0x7fffffff, -0x80000000, 0x7fffffef, 100, 255],
        'I': [0, 1, 2, 3, 15, 16, 100, 1 << 16, 1 << 20, 1 << 31, 0xffffffff, 0xfffffffe],
        'q': [-1, 0, 1, 2, 3, 10, 255, 1 << 20, 1 << 31, 1 << 32, 1 << 60, (1 << 63) - 1, -(1 << 63), 1000],
        '8s': [b'', b'JSON', b'JSON    ', b'PICKLE', b'\0JSON', b'\xff' * 8]}


def put(b, pos, fmt, v):
    n = struct.calcsize('<' + fmt)
    if pos + n <= len(b):
        b[pos:pos + n] = struct.pack('<' + fmt, v)


def near(b, pos, fmt, d):
    """A value close to the present one, or an edge value."""
    n = struct.calcsize('<' + fmt)
    if fmt == '8s':
        return EDGE[fmt][d['v'] % len(EDGE[fmt])]
    if pos + n > len(b):
        return 0
    cur = struct.unpack('<' + fmt, bytes(b[pos:pos + n]))[0]
    if d['v'] % 3 == 0:
        new = cur + [-1, 1, 2, -2, 16, -16, cur, 7][d['v'] // 3 % 8]
    else:
        new = EDGE[fmt][d['v'] // 3 % len(EDGE[fmt])]
    bits = 8 * n
    if fmt.isupper():
        return new % (1 << bits)
    new = (new + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
    return new


def apply(blob, specs):
    """Mutated copy of blob."""
    b = bytearray(blob)
    try:
        q = ref.parse(bytes(blob))
    except ref.FormatError:
        q = None
    for d in specs:
        if not b:
            break
        at = min(len(b) - 1, int(d['at'] * len(b)))
        v, how = d['v'], d['how']
        if how == 'flip':
            b[at] ^= 1 << v % 8
        elif how == 'byte':
            b[at] = v & 255
        elif how == 'header':
            pos, fmt = FIELDS[v // 64 % len(FIELDS)]
            put(b, pos, fmt, near(b, pos, fmt, d))
        elif how == 'metahead' and q is not None and q.meta is not None:
            pos, fmt = META[v // 64 % len(META)]
            put(b, q.meta.pos + pos, fmt, near(b, q.meta.pos + pos, fmt, d))
        elif how == 'offset' and q is not None and q.offsets:
            pos = q.offsets_pos + 8 * int(d['at'] * len(q.offsets))
            put(b, pos, 'q', [near(b, pos, 'q', d), 0, 32, q.offsets_pos, pos, len(b), len(b) - 1,
                              len(b) + 1, q.chunks_pos][v // 128 % 9])
        elif how == 'chunkhead' and q is not None and q.chunks:
            pos = q.chunks[int(d['at'] * len(q.chunks))].pos
            off, fmt = [(0, 'B'), (1, 'B'), (2, 'B'), (3, 'B'), (4, 'I'), (8, 'I'), (12, 'I'),
                        (12, 'I')][v // 64 % 8]
            put(b, pos + off, fmt, near(b, pos + off, fmt, d))
            if d['fix'] and off != 12:
                c = [c for c in q.chunks if c.pos == pos][0]
                dg = ref.digest(q.checksum, bytes(b[pos:pos + c.ct]))
                b[pos + c.ct:pos + c.ct + len(dg)] = dg
        elif how == 'cut':
            del b[at:]
        elif how == 'extend':
            b += [b'\0' * 40, b'\xff' * 24, bytes(b[:64]), b'x'][v % 4]
        elif how == 'dup':
            n = 1 + v % 64
            b[at:at] = b[at:at + n]
        elif how == 'remove':
            del b[at:at + 1 + v % 64]
        elif how in ('zero', 'ones'):
            n = len(bytes(b[at:at + 1 + v % 40]))
            b[at:at + n] = (b'\0' if how == 'zero' else b'\xff') * n
        elif how == 'noise':
            import random
            n = len(bytes(b[at:at + 1 + v % 200]))
            b[at:at + n] = random.Random(v).randbytes(n)
        elif how == 'swap':
            o = v % len(b)
            n = min(8, len(b) - max(at, o))
            b[at:at + n], b[o:o + n] = b[o:o + n], b[at:at + n]
        elif how == 'copy':
            o = v % len(b)
            n = min(1 + v % 50, len(b) - max(at, o))
            b[at:at + n] = b[o:o + n]
        elif how == 'self':
            b = b[:at] + b + b[at:]
        elif how == 'bignums':
            for pos in range(8, 32, 8):
                if v >> pos & 1:
                    put(b, pos, 'q', (1 << 62) + v)
        if d['fix'] and q is not None and q.meta is not None and how in ('metahead', 'flip', 'byte', 'noise'):
            # make the checksum of the metadata right again
            m = q.meta
            if m.end <= len(b):
                comp = struct.unpack('<I', bytes(b[m.pos + 20:m.pos + 24]))[0]
                mx = struct.unpack('<I', bytes(b[m.pos + 16:m.pos + 20]))[0]
                cs = b[m.pos + 9]
                if cs <= 8 and comp <= mx and m.payload_pos + mx + ref.SIZES[cs] <= len(b):
                    dg = ref.digest(cs, bytes(b[m.payload_pos:m.payload_pos + comp]))
                    p = m.payload_pos + mx
                    b[p:p + len(dg)] = dg
    return bytes(b)

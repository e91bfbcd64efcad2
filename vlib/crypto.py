"""Independent implementations of the published algorithms."""
import hashlib, struct

M32, M64 = 0xffffffff, (1 << 64) - 1


def splitmix_byte_stream(seed, n):
    """What the driver's s: sources deliver."""
    out = bytearray()
    k = 0
    while len(out) < n:
        k += 1
        z = (seed + k * 0x9e3779b97f4a7c15) & M64
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
        z ^= z >> 31
        out += z.to_bytes(8, 'little')
    return bytes(out[:n])


class Xorshift:
    """xorshift64 (13, 7, 17); every source read takes whole words."""

    def __init__(self, seed):
        self.x = seed

    def read(self, n):
        out = bytearray()
        while len(out) < n:
            x = self.x
            x ^= (x << 13) & M64
            x ^= x >> 7
            x ^= (x << 17) & M64
            self.x = x
            out += x.to_bytes(8, 'little')
        return bytes(out[:n])


def _rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & M32


def chacha20_block(key, nonce, counter):
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + list(struct.unpack('<8I', key)) + \
        [counter & M32, counter >> 32 & M32] + list(struct.unpack('<2I', nonce))
    x = s[:]

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & M32
        x[d] = _rotl(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M32
        x[b] = _rotl(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M32
        x[d] = _rotl(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M32
        x[b] = _rotl(x[b] ^ x[c], 7)
    for _ in range(10):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    return struct.pack('<16I', *[(a + b) & M32 for a, b in zip(x, s)])


class ChaCha:
    def __init__(self, key, nonce):
        self.key, self.nonce, self.pos = key, nonce, 0

    def at(self, pos, n):
        out = b''
        b = pos // 64
        while len(out) < pos % 64 + n:
            out += chacha20_block(self.key, self.nonce, b)
            b += 1
        return out[pos % 64:pos % 64 + n]

    def read(self, n):
        r = self.at(self.pos, n)
        self.pos += n
        return r


class Zero:
    def read(self, n):
        return bytes(n)


class FileBytes:
    def __init__(self, data):
        self.d, self.p = data, 0

    def read(self, n):
        r = self.d[self.p:self.p + n]
        self.p += n
        if len(r) < n:
            raise EOFError
        return r


class Buffered:
    """The 1024 byte buffer in front of every source."""

    def __init__(self, src, reload=True):
        self.src = src
        self.reload()

    def reload(self):
        self.buf, self.pos = self.src.read(1024), 0

    def read(self, n):
        if n > 1024:
            return self.src.read(n)
        out = self.buf[self.pos:self.pos + n]
        self.pos += len(out)
        if self.pos == 1024:
            self.reload()
            if len(out) < n:
                out += self.read(n - len(out))
        return out

    def word(self, w):
        return int.from_bytes(self.read(w), 'little')

    def below(self, w, m):
        mask = (1 << m.bit_length()) - 1
        while True:
            v = self.word(w) & mask
            if v < m:
                return v

    def seek(self, pos):
        self.src.pos = pos
        self.reload()


# ------------------------------------------------------------------- argon2
def _h(data, n):
    le = struct.pack('<I', n)
    if n <= 64:
        return hashlib.blake2b(le + data, digest_size=n).digest()
    r = (n + 31) // 32 - 2
    v = hashlib.blake2b(le + data, digest_size=64).digest()
    out = v[:32]
    for _ in range(r - 1):
        v = hashlib.blake2b(v, digest_size=64).digest()
        out += v[:32]
    return out + hashlib.blake2b(v, digest_size=n - 32 * r).digest()


def _g(v, a, b, c, d):
    def f(x, y):
        return (x + y + 2 * (x & M32) * (y & M32)) & M64

    def rr(x, n):
        return (x >> n) | (x << (64 - n)) & M64
    v[a] = f(v[a], v[b])
    v[d] = rr(v[d] ^ v[a], 32)
    v[c] = f(v[c], v[d])
    v[b] = rr(v[b] ^ v[c], 24)
    v[a] = f(v[a], v[b])
    v[d] = rr(v[d] ^ v[a], 16)
    v[c] = f(v[c], v[d])
    v[b] = rr(v[b] ^ v[c], 63)


def _p(v, ix):
    w = [v[i] for i in ix]
    _g(w, 0, 4, 8, 12)
    _g(w, 1, 5, 9, 13)
    _g(w, 2, 6, 10, 14)
    _g(w, 3, 7, 11, 15)
    _g(w, 0, 5, 10, 15)
    _g(w, 1, 6, 11, 12)
    _g(w, 2, 7, 8, 13)
    _g(w, 3, 4, 9, 14)
    for i, x in zip(ix, w):
        v[i] = x


_ROWS = [[16 * i + j for j in range(16)] for i in range(8)]
_COLS = [[2 * i + 16 * j + k for j in range(8) for k in range(2)] for i in range(8)]


def _compress(x, y):
    r = [a ^ b for a, b in zip(x, y)]
    q = r[:]
    for ix in _ROWS:
        _p(q, ix)
    for ix in _COLS:
        _p(q, ix)
    return [a ^ b for a, b in zip(q, r)]


def argon2(kind, password, salt, key, ad, blocks, passes, lanes, n, trace=None):
    """kind: 0 d, 1 i, 2 id (RFC 9106). What comes up on the way is added to the trace."""
    def lp(x):
        return struct.pack('<I', len(x)) + x
    h0 = hashlib.blake2b(struct.pack('<6I', lanes, n, blocks, passes, 0x13, kind) + lp(password) + lp(salt) +
                         lp(key) + lp(ad), digest_size=64).digest()
    mp = 4 * lanes * (blocks // (4 * lanes))
    q = mp // lanes
    sl = q // 4
    B = [[None] * q for _ in range(lanes)]
    for i in range(lanes):
        for j in range(2):
            B[i][j] = list(struct.unpack('<128Q', _h(h0 + struct.pack('<II', j, i), 1024)))
    zero = [0] * 128
    for t in range(passes):
        for s in range(4):
            for l in range(lanes):
                indep = kind == 1 or (kind == 2 and t == 0 and s < 2)
                ctr, addr = 0, None
                for k in range(sl):
                    j = s * sl + k
                    if indep and (k % 128 == 0):
                        ctr += 1
                        inp = [t, l, s, mp, passes, kind, ctr] + [0] * 121
                        addr = _compress(zero, _compress(zero, inp))
                    if t == 0 and j < 2:
                        continue
                    prev = B[l][(j - 1) % q]
                    rnd = addr[k % 128] if indep else prev[0]
                    j1, j2 = rnd & M32, rnd >> 32
                    rl = l if t == 0 and s == 0 else j2 % lanes
                    if t == 0:
                        if s == 0:
                            size = j - 1
                        elif rl == l:
                            size = s * sl + k - 1
                        else:
                            size = s * sl - (1 if k == 0 else 0)
                        start = 0
                    else:
                        if rl == l:
                            size = q - sl + k - 1
                        else:
                            size = q - sl - (1 if k == 0 else 0)
                        start = (s + 1) % 4 * sl
                    x = j1 * j1 >> 32
                    z = size - 1 - (size * x >> 32)
                    new = _compress(prev, B[rl][(start + z) % q])
                    B[l][j] = new if t == 0 else [a ^ b for a, b in zip(B[l][j], new)]
    f = B[0][q - 1]
    for i in range(1, lanes):
        f = [a ^ b for a, b in zip(f, B[i][q - 1])]
    if trace is not None:
        trace += [h0, struct.pack('<128Q', *f)] + [struct.pack('<128Q', *b) for b in (B[0][0], B[0][1], B[lanes - 1][q - 1])]
    return _h(struct.pack('<128Q', *f), n)


def master_key(password, domain, token, kind=2, blocks=8, passes=8, lanes=1, trace=None):
    return argon2(kind, password, b'passgen', domain or b'', token or b'', blocks, passes, lanes, 32, trace)


# ------------------------------------------------------------------ siphash
def siphash(key, msg, n, c=2, d=4):
    k0, k1 = struct.unpack('<2Q', key)
    v = [0x736f6d6570736575 ^ k0, 0x646f72616e646f6d ^ k1, 0x6c7967656e657261 ^ k0, 0x7465646279746573 ^ k1]
    if n == 16:
        v[1] ^= 0xee

    def rot(x, b):
        return (x << b | x >> (64 - b)) & M64

    def rounds(k):
        for _ in range(k):
            v[0] = (v[0] + v[1]) & M64
            v[1] = rot(v[1], 13) ^ v[0]
            v[0] = rot(v[0], 32)
            v[2] = (v[2] + v[3]) & M64
            v[3] = rot(v[3], 16) ^ v[2]
            v[0] = (v[0] + v[3]) & M64
            v[3] = rot(v[3], 21) ^ v[0]
            v[2] = (v[2] + v[1]) & M64
            v[1] = rot(v[1], 17) ^ v[2]
            v[2] = rot(v[2], 32)
    full = len(msg) // 8 * 8
    for i in range(0, full, 8):
        m = int.from_bytes(msg[i:i + 8], 'little')
        v[3] ^= m
        rounds(c)
        v[0] ^= m
    m = (len(msg) & 255) << 56 | int.from_bytes(msg[full:], 'little')
    v[3] ^= m
    rounds(c)
    v[0] ^= m
    v[2] ^= 0xee if n == 16 else 0xff
    rounds(d)
    out = (v[0] ^ v[1] ^ v[2] ^ v[3]).to_bytes(8, 'little')
    if n == 16:
        v[1] ^= 0xdd
        rounds(d)
        out += (v[0] ^ v[1] ^ v[2] ^ v[3]).to_bytes(8, 'little')
    return out

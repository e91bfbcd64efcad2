"""Curve25519, Edwards25519, Elligator 2, Poly1305 in plain integers, written from
RFC 7748, RFC 8032 (with Blake2b as hash), RFC 8439 and RFC 9380."""
import hashlib, struct
from . import crypto

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, -1, P) % P
I = pow(2, (P - 1) // 4, P)
A = 486662


def le(b):
    return int.from_bytes(b, 'little')


def enc(x, n=32):
    return x.to_bytes(n, 'little')


# ---------------------------------------------------------------- poly1305
def poly1305(key, msg):
    r = le(key[:16]) & 0x0ffffffc0ffffffc0ffffffc0fffffff
    h = 0
    for i in range(0, len(msg), 16):
        h = (h + le(msg[i:i + 16] + b'\1')) * r % (2**130 - 5)
    return enc((h + le(key[16:])) % 2**128, 16)


# ---------------------------------------------------------------- chacha20
def stream(key, nonce8, ctr, n):
    out = b''.join(crypto.chacha20_block(key, nonce8, (ctr + i) % 2**64) for i in range((n + 63) // 64))
    return out[:n]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def hchacha(key, inp):
    c, n = le(inp[:8]), inp[8:]
    s = (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574) + struct.unpack('<8I', key) + struct.unpack('<4I', inp)
    b = struct.unpack('<16I', crypto.chacha20_block(key, n, c))
    x = [(p - q) & 0xffffffff for p, q in zip(b, s)]
    return struct.pack('<8I', *(x[:4] + x[12:]))


class Aead:
    def __init__(self, kind, key, nonce):
        if kind == 'x':
            self.key, self.nonce, self.ctr = hchacha(key, nonce[:16]), nonce[16:], 0
        elif kind == 'djb':
            self.key, self.nonce, self.ctr = key, nonce, 0
        else:
            self.key, self.nonce, self.ctr = key, nonce[4:], le(nonce[:4]) << 32

    def mac(self, auth, ad, text):
        pad = lambda x: x + bytes(-len(x) % 16)
        return poly1305(auth[:32], pad(ad) + pad(text) + struct.pack('<QQ', len(ad), len(text)))

    def write(self, ad, text):
        auth = stream(self.key, self.nonce, self.ctr, 64)
        c = xor(text, stream(self.key, self.nonce, self.ctr + 1, len(text)))
        self.key = auth[32:]
        return c, self.mac(auth, ad, c)

    def read(self, ad, mac, text):
        auth = stream(self.key, self.nonce, self.ctr, 64)
        if self.mac(auth, ad, text) != mac:
            return None
        p = xor(text, stream(self.key, self.nonce, self.ctr + 1, len(text)))
        self.key = auth[32:]
        return p


# -------------------------------------------------------------- montgomery
def trim(k):
    k = bytearray(k)
    k[0] &= 248
    k[31] = k[31] & 127 | 64
    return bytes(k)


def ladder(k, u):
    """u coordinate of k times the point with u coordinate u, k any integer."""
    x1, x2, z2, x3, z3 = u, 1, 0, u, 1
    for t in reversed(range(max(k.bit_length(), 1))):
        if k >> t & 1:
            x2, z2, x3, z3 = x3, z3, x2, z2
        a, b, c, d = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        da, cb = d * a, c * b
        x3 = (da + cb) ** 2 % P
        z3 = x1 * (da - cb) ** 2 % P
        aa, bb = a * a % P, b * b % P
        x2 = aa * bb % P
        e = aa - bb
        z2 = e * (aa + 121665 * e) % P
        if k >> t & 1:
            x2, z2, x3, z3 = x3, z3, x2, z2
    return x2 * pow(z2, P - 2, P) % P


def point(b):
    return (le(b) & (2**255 - 1)) % P


def x25519(k, u):
    return enc(ladder(le(trim(k)), point(u)))


NINE = enc(9)


def inverse(k, u):
    e = pow(le(trim(k)), -1, L)
    while e % 8:
        e += L
    return enc(ladder(e, point(u)))


# ----------------------------------------------------------------- edwards
def recover(y, sign):
    """None if there is no such point; zero has no sign."""
    xx = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(xx, (P + 3) // 8, P)
    if x * x % P != xx:
        x = x * I % P
    if x * x % P != xx:
        return None
    return (P - x) % P if x & 1 != sign else x


def decode(b):
    v = le(b)
    y = (v & (2**255 - 1)) % P
    x = recover(y, v >> 255)
    return None if x is None else (x, y, 1, x * y % P)


def encode(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return enc(y | (x & 1) << 255)


def add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def mul(k, p):
    r = (0, 1, 1, 0)
    while k:
        if k & 1:
            r = add(r, p)
        p = add(p, p)
        k >>= 1
    return r


def same(p, q):
    return (p[0] * q[2] - q[0] * p[2]) % P == 0 and (p[1] * q[2] - q[1] * p[2]) % P == 0


B = decode(enc(4 * pow(5, -1, P) % P))


def h64(*parts):
    return hashlib.blake2b(b''.join(parts)).digest()


def base(k):
    return encode(mul(k % L, B))


def keypair(seed):
    pk = base(le(trim(h64(seed)[:32])))
    return seed + pk, pk


def sign(sk, msg):
    h = h64(sk[:32])
    a, prefix = le(trim(h[:32])), h[32:]
    r = le(h64(prefix, msg)) % L
    R = base(r)
    k = le(h64(R, sk[32:], msg)) % L
    return R + enc((r + k * a) % L)


def equation(sig, pk, h):
    a, r, s = decode(pk), decode(sig[:32]), le(sig[32:])
    if a is None or r is None or s >= L:
        return False
    left = mul(8 * s, B)
    return same(left, add(mul(8, r), mul(8 * h, a)))


def check(sig, pk, msg):
    return equation(sig, pk, le(h64(sig[:32], pk, msg)) % L)


def inv(x):
    return pow(x, P - 2, P)


def to_x25519(b):
    y = point(b)
    return enc((1 + y) * inv(1 - y) % P)


def to_eddsa(b):
    u = point(b)
    return enc((u - 1) * inv(u + 1) % P)


# --------------------------------------------------------------- elligator
def elligator(b):
    r = le(b) & (2**254 - 1)
    w = -A * inv(1 + 2 * r * r) % P
    v = (w * w * w + A * w * w + w) % P
    e = pow(v, (P - 1) // 2, P)
    return enc(w if e in (0, 1) else (-w - A) % P)


def representable(b):
    u = point(b)
    return pow(-2 * u * (u + A), (P - 1) // 2, P) in (0, 1)


def low_order():
    """Encodings of all points of order 1 to 8, on the Edwards curve."""
    y = 2
    while True:
        x = recover(y, 0)
        if x is not None:
            t = mul(L, (x, y, 1, x * y % P))
            if not same(mul(4, t), (0, 1, 1, 0)):
                return [encode(mul(i, t)) for i in range(8)]
        y += 1


def on_curve(b):
    u = point(b)
    return pow(u * (u * u + A * u + 1), (P - 1) // 2, P) in (0, 1)

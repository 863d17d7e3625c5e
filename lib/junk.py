"""Datagrams no honest peer sends."""
import base64, os

ST = dict(C1=0, C2=1, C3=2, C4=3, D=4, A=5, PI=6, PO=7, X=8, PU=9, DN=0x84)


def dg(status, id=0, data=b""):
    return ((id & 0xFFFFFF) | (status << 24)).to_bytes(4, "little") + data


def rb(r, n):
    return bytes(r.randrange(256) for _ in range(n)) if n < 3000 else r.getrandbits(8 * n).to_bytes(n, "little")


def der(tag, b):
    n = len(b)
    if n < 128:
        return bytes([tag, n]) + b
    l = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([tag, 0x80 | len(l)]) + l + b


def integer(x):
    n = (x.bit_length() + 8) // 8 or 1
    return der(2, x.to_bytes(n, "big", signed=True))


def spki(n, e):
    alg = der(0x30, bytes.fromhex("06092a864886f70d010101") + b"\x05\x00")
    return der(0x30, alg + der(3, b"\0" + der(0x30, integer(n) + integer(e))))


def pem(b, kind="RSA PUBLIC KEY"):
    s = base64.b64encode(b).decode()
    return ("-----BEGIN %s-----\n" % kind + "\n".join(s[i:i + 64] for i in range(0, len(s), 64)) + "\n-----END %s-----\n" % kind).encode()


EC = der(0x30, der(0x30, bytes.fromhex("06072a8648ce3d0201") + bytes.fromhex("06082a8648ce3d030107")) +
         der(3, b"\0" + bytes.fromhex("046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c2964fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")))
ED = der(0x30, der(0x30, bytes.fromhex("06032b6570")) + der(3, b"\0" + bytes(32)))


def pubkey(r):
    """public keys of every shape"""
    x = r.randrange(16)
    if x < 3:
        n = r.choice([0, 1, 2, 3, 15, 2 ** 61 - 1, 2 ** 64, -5])
        return pem(spki(n, r.choice([3, 65537, 1])))
    if x < 8:
        bits = r.choice([64, 512, 513, 1023, 1024, 1025, 1031, 2048, 4096])
        n = r.getrandbits(bits) | 1 << (bits - 1) | r.choice([0, 1, 1])
        return pem(spki(n, r.choice([65537, 3, 1, 2, 0, -1, 2 ** 31 - 1, 2 ** 31, 2 ** 40 + 1])))
    if x == 8:
        bits = r.choice([16384, 65536, 262144])
        return pem(spki(r.getrandbits(bits) | 1 << (bits - 1) | 1, 2 ** 31 - 1))
    if x == 9:
        return pem(EC)
    if x == 10:
        return pem(ED)
    if x == 11:
        p = pem(spki(r.getrandbits(1024) | 1 << 1023 | 1, 65537))
        return p[:r.randrange(len(p))]
    if x == 12:
        p = bytearray(pem(spki(r.getrandbits(1024) | 1 << 1023 | 1, 65537)))
        for _ in range(3):
            p[r.randrange(len(p))] ^= r.choice([1, 0x20, 0xff])
        return bytes(p)
    if x == 13:
        return b"-----BEGIN RSA PUBLIC KEY-----" * r.choice([1, 50, 1500])
    if x == 14:
        return pem(der(0x30, rb(r, r.choice([0, 5, 200]))), r.choice(["RSA PUBLIC KEY", "PUBLIC KEY", "", "X" * 3000]))
    return rb(r, r.choice([0, 1, 64, 300, 60000]))


def uuid(r):
    n = r.choice([0, 1, 36, 36, 36, 255])
    return bytes(r.choice(b"0123456789abcdef-") for _ in range(n))


def connectpkt(r):
    st = r.choice(["C1", "C1", "C2", "C3", "C4"])
    u = uuid(r)
    x = r.random()
    if x < 0.15:
        body = r.choice([b"", bytes([r.choice([1, 36, 255])]), bytes([36]) + u[:r.randrange(36)], bytes([255]) + rb(r, 254), bytes([0])])
    elif st == "C1":
        body = bytes([len(u)]) + u + pubkey(r)
    elif st in ("C2", "C3"):
        body = bytes([len(u)]) + u + rb(r, r.choice([0, 1, 127, 128, 129, 256, 640, 1000, 65000]))
    else:
        body = bytes([len(u)]) + u + rb(r, r.choice([0, 1, 50]))
    return dg(ST[st], r.choice([0, 0, 5]), body)


def ignorable(r):
    """too short, or of no known type"""
    if r.random() < 0.4:
        return rb(r, r.choice([0, 1, 2, 3]))
    st = r.choice([10, 11, 15, 0x20, 0x40, 0x44, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x85, 0x86, 0x88, 0x89, 0x8a, 0xc4, 0xff])
    return dg(st, r.choice([0, 1, 2, 0xfffff, 0x100000, 0xffffff]), rb(r, r.choice([0, 0, 1, 16, 64, 65, 100, 1000, 65503])))


def forged(r):
    """of a known type"""
    x = r.random()
    if x < 0.35:
        return connectpkt(r)
    st = r.choice(["D", "D", "DN", "A", "PI", "PO", "X"])
    return dg(ST[st], r.choice([0, 1, 2, 3, 7, 0x7ffff, 0x80000, 0xfffff, 0x100000, 0xffffff]), rb(r, r.choice([0, 0, 1, 15, 16, 17, 63, 64, 65, 92, 93, 500, 65503])))

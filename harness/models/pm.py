"""Independent model of the proofmarshal encodings and hashes."""
import hashlib, uuid


def varuint(n):
    out = bytearray()
    while True:
        b = n % 128
        n //= 128
        if n:
            out.append(b + 128)
        else:
            out.append(b)
            return bytes(out)


def read_varuint(buf, pos):
    """(value, new position) or None if truncated/non-minimal"""
    v = mul = 0
    mul = 1
    start = pos
    while pos < len(buf):
        b = buf[pos]
        pos += 1
        v += (b % 128) * mul
        mul *= 128
        if b < 128:
            if b == 0 and pos - start > 1:
                return None
            return v, pos
    return None


def pack_bits(bits):
    """Bits (MSB first), zero padded to whole bytes"""
    s = ''.join('1' if b else '0' for b in bits)
    s += '0' * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, 'big') if s else b''


def enc_bits(bits):
    return varuint(len(bits)) + pack_bits(bits)


def bits_of_bytes(b):
    return tuple(int(c) for c in ''.join('{:08b}'.format(x) for x in b))


def tag(u):
    return uuid.UUID(u).bytes


DERIVE_ROOT = tag('8125d227-981c-4ca0-afa7-ab9911352c85')


def sha(b):
    return hashlib.sha256(b).digest()


def derive(t, subtag):
    return sha(DERIVE_ROOT + t + subtag)[:16]

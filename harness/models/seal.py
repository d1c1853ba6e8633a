"""Model of seal closing: which script commits to which digest."""
from harness import gen
from harness.models import btc, pm
from bitcoin.core import COutPoint
from proofchains.core.bitcoin import TxProof, TxInProof, TxOutProof
from proofchains.core.uniquebits.singleuseseal import BitcoinSingleUseSeal, BitcoinSealWitness


def forms(h):
    h20 = btc.hash160(h)
    return [b'\x6a\x20' + h, b'\xa9\x14' + h20 + b'\x87', b'\x76\xa9\x14' + h20 + b'\x88\xac']


def near_scripts(rng, h):
    """Scripts that resemble a commitment to h but are none"""
    h20 = btc.hash160(h)
    a, b, c = forms(h)
    x = bytearray(rng.choice((a, b, c)))
    x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
    y = rng.choice((a, b, c))
    import hashlib
    r = hashlib.new('ripemd160', h).digest()
    out = [bytes(x), b'\x6a\x4c\x20' + h, b'\x6a\x4d\x20\x00' + h, b'\x6a\x4e\x20\x00\x00\x00' + h, b'\xa9\x4c\x14' + h20 + b'\x87',
            b'\x76\xa9\x4c\x14' + h20 + b'\x88\xac',
            y + b'\x00', y + b'\x51', y + bytes([rng.choice((0x61, 0x61, 0x75, 0x87, 0xac, 0xff, rng.randrange(256)))]) * rng.choice((1, 1, 2, 3)),
            bytes([rng.choice((0x61, 0x61, 0xab, rng.randrange(256)))]) * rng.choice((1, 1, 2)) + y, y + b'\x20' + h, y + btc.push(y), b'\x00' + y, y[:-1], y[1:], y + y, b'\x6a\x14' + h20, b'\x6a\x21' + h + b'\x00', b'\x6a\x1f' + h[:31],
            b'\x6a\x20' + h[::-1], b'\xa9\x14' + h20[::-1] + b'\x87', b'\xa9\x14' + h[:20] + b'\x87', b'\xa9\x14' + r + b'\x87',
            b'\x76\xa9\x14' + r + b'\x88\xac', b'\xa9\x20' + h + b'\x87', b'\x76\xa9\x20' + h + b'\x88\xac',
            b'\x76\xa9\x14' + h20 + b'\x88\xad', b'\x76\xa8\x14' + h20 + b'\x88\xac', b'\xa9\x14' + h20 + b'\x88', b'\xaa\x14' + h20 + b'\x87',
            b'', b'\x6a', b'\x20' + h, b'\x6a' + h, h, b'\x00\x14' + h20, b'\x00\x20' + h, b'\x51\x20' + h,
            b'\x21' + b'\x02' + h + b'\xac', b'\x6a\x20' + pm.sha(h), b'\x6a\x20' + btc.dsha(h)]
    return [s for s in out if not commits(s, h)]      # a digest may be its own reversal


def commits(script, h):
    return len(h) == 32 and script in forms(h)


class MWitness:
    """seal: (MOut, nonce); proofs: (index, MTx)"""
    def __init__(self, op, nonce, i, tx_in, j, tx_out):
        self.op, self.nonce, self.i, self.tx_in, self.j, self.tx_out = op, nonce, i, tx_in, j, tx_out

    def closes(self):
        """Is this the spending of the seal's outpoint, with the output in the same transaction?"""
        return (self.i < len(self.tx_in.vin) and self.tx_in.vin[self.i][:2] == (self.op.h, self.op.n)
                and self.tx_in.txid() == self.tx_out.txid())

    def over(self, h):
        return self.j < len(self.tx_out.vout) and commits(self.tx_out.vout[self.j][1], h)

    def seal(self):
        return BitcoinSingleUseSeal(outpoint=COutPoint(self.op.h, self.op.n), nonce=self.nonce)

    def real(self, rng=None):
        a = TxProof(tx=self.tx_in.real())
        b = a if self.tx_out is self.tx_in and (rng is None or rng.random() < 0.5) else TxProof(tx=self.tx_out.real())
        return BitcoinSealWitness(seal=self.seal(), txinproof=TxInProof(i=self.i, txproof=a), txoutproof=TxOutProof(i=self.j, txproof=b))

"""Chain parameters and switching between chains"""
import os, random
import bitcoin
import bitcoin.core as core
from harness.worker import Suite
from harness import gen
from harness.models import btc, secp, spend
from harness.props.c34 import check58
from bitcoin import rpc
from bitcoin.core import CheckProofOfWork, CheckProofOfWorkError, CheckBlock, CheckBlockHeader, CheckBlockHeaderError, CBlock
from bitcoin.core.script import CScript
from bitcoin.messages import MsgSerializable, msg_ping, msg_verack
from bitcoin.wallet import CBitcoinAddress, CBitcoinAddressError, CBitcoinSecret, CBitcoinSecretError, P2PKHBitcoinAddress, P2SHBitcoinAddress
import io

RULE = ('random histories of chain selections, known and unknown names, with everything that depends on the chain observed after each: '
        'addresses, secrets, proof of work limits, ports, frames and the genesis block, against the published parameters. '
        'Non-trivial: distinct histories and observations.')
COINBASE = bytes.fromhex('04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261'
                         '696c6f757420666f722062616e6b73')
GENKEY = bytes.fromhex('04678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5f')
CHAINS = {
    'mainnet': dict(magic='f9beb4d9', port=8333, rpc=8332, pkh=0, sh=5, wif=128, limit=2**224 - 1, halving=210000,
                    time=1231006505, bits=0x1d00ffff, nonce=2083236893, lead='1', slead='3',
                    genesis='000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f'),
    'testnet': dict(magic='0b110907', port=18333, rpc=18332, pkh=111, sh=196, wif=239, limit=2**224 - 1, halving=210000,
                    time=1296688602, bits=0x1d00ffff, nonce=414098458, lead='mn', slead='2',
                    genesis='000000000933ea01ad0ee984209779baaec3ced90fa3f408719526f8d77f4943'),
    'regtest': dict(magic='fabfb5da', port=18444, rpc=18332, pkh=111, sh=196, wif=239, limit=2**255 - 1, halving=150,
                    time=1296688602, bits=0x207fffff, nonce=2, lead='mn', slead='2',
                    genesis='0f9188f13cb7b2c71f2a335e3a4fc328bf5beb436012afca590b1a11466e2206'),
}
MERKLE = '4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b'


def genesis(c):
    """The genesis block, put together from its published fields"""
    le = btc.le
    cb = (le(1, 4) + b'\x01' + bytes(32) + b'\xff' * 4 + bytes([len(COINBASE)]) + COINBASE + b'\xff' * 4 +
          b'\x01' + le(50 * 10**8, 8) + b'\x43\x41' + GENKEY + b'\xac' + bytes(4))
    head = le(1, 4) + bytes(32) + bytes.fromhex(MERKLE)[::-1] + le(c['time'], 4) + le(c['bits'], 4) + le(c['nonce'], 4)
    assert btc.dsha(cb).hex() == bytes.fromhex(MERKLE)[::-1].hex()
    assert btc.dsha(head)[::-1].hex() == c['genesis']
    return head + b'\x01' + cb


def compact_of(t):
    n = (t.bit_length() + 7) // 8
    w = t >> 8 * (n - 3) if n >= 3 else t << 8 * (3 - n)
    if w & 0x800000:
        w >>= 8
        n += 1
    return n << 24 | w


def o_genesis(rng, mon, name, c):
    p = bitcoin.params
    raw = genesis(c)
    b = p.GENESIS_BLOCK
    mon.same(b.GetHash(), bytes.fromhex(c['genesis'])[::-1], 'hash of the genesis block of ' + name)
    mon.same(b.serialize(), raw, 'genesis block of ' + name)
    mon.same(core.coreparams.GENESIS_BLOCK.serialize(), raw, 'genesis block of the consensus parameters of ' + name)
    mon.call('CheckBlock of the genesis block', CheckBlock, b)
    other = [genesis(CHAINS[n]) for n in CHAINS if n != name]
    for r in other:
        blk = CBlock.deserialize(r)
        bits = blk.nBits
        t = (bits & 0xffffff) << 8 * ((bits >> 24) - 3)
        if t <= c['limit']:
            mon.call('CheckBlock of another genesis block', CheckBlock, blk)
        else:
            mon.raises('a block easier than the limit of ' + name, core.ValidationError, CheckBlock, blk)


def o_work(rng, mon, name, c):
    for t in (c['limit'], c['limit'] + 1, c['limit'] >> rng.randrange(1, 200), 2**224 - 1, 2**255 - 1, 2**(rng.randrange(1, 256)) - 1, (c['limit'] + 1) * rng.choice((2, 3, 16))):
        bits = compact_of(t)
        n, w = bits >> 24, bits & 0xffffff
        t = w << 8 * (n - 3) if n >= 3 else w >> 8 * (3 - n)
        ok = 0 < t <= c['limit']
        h = bytes(32)
        if ok:
            mon.call('proof of work at the target 0x%08x on %s' % (bits, name), CheckProofOfWork, h, bits)
            if t < 2**256 - 1:
                mon.raises('proof of work over the target', CheckProofOfWorkError, CheckProofOfWork, (t + 1).to_bytes(32, 'little'), bits)
        else:
            mon.raises('target 0x%08x easier than allowed on %s' % (bits, name), CheckProofOfWorkError, CheckProofOfWork, h, bits)
        mon.state('target', (name, bits))
    mon.eq(bitcoin.params.PROOF_OF_WORK_LIMIT, c['limit'], 'proof of work limit of ' + name)
    mon.eq(core.coreparams.PROOF_OF_WORK_LIMIT, c['limit'], 'proof of work limit of ' + name)
    mon.eq(bitcoin.params.SUBSIDY_HALVING_INTERVAL, c['halving'], 'halving interval of ' + name)
    mon.eq(core.coreparams.SUBSIDY_HALVING_INTERVAL, c['halving'], 'halving interval of ' + name)


def o_address(rng, mon, name, c):
    h = gen.blob(rng, 20)
    for script, ver, cls, lead in ((b'\x76\xa9\x14' + h + b'\x88\xac', c['pkh'], P2PKHBitcoinAddress, c['lead']),
                                   (b'\xa9\x14' + h + b'\x87', c['sh'], P2SHBitcoinAddress, c['slead'])):
        a = mon.call('address on ' + name, CBitcoinAddress.from_scriptPubKey, CScript(script))
        s = str(a)
        mon.check(type(a) is cls and s == check58(bytes([ver]) + h) and s[0] in lead, 'address on ' + name, s)
        mon.same(bytes(CBitcoinAddress(s).to_scriptPubKey()), script, 'script of an address on ' + name)
        mon.state('address', s)
        for make in (lambda: cls.from_bytes(h), lambda: cls.from_bytes(h, ver), lambda: CBitcoinAddress.from_bytes(h, ver), lambda: cls.from_scriptPubKey(CScript(script))):
            b = mon.call('address from bytes', make)
            mon.check(type(b) is cls and str(b) == s and b.nVersion == ver, 'address from bytes on ' + name, str(b), s)
            mon.same(bytes(b.to_scriptPubKey()), script, 'script of an address from bytes on ' + name)
    inner = CScript(gen.data(rng, 60))
    mon.eq(str(mon.call('from_redeemScript', P2SHBitcoinAddress.from_redeemScript, inner)), check58(bytes([c['sh']]) + btc.hash160(inner)), 'address of a redeem script on ' + name)
    pub = secp.encode(secp.point(rng.randrange(1, 2**40).to_bytes(32, 'big')), rng.choice('cu'))
    mon.eq(str(mon.call('from_pubkey', P2PKHBitcoinAddress.from_pubkey, pub)), check58(bytes([c['pkh']]) + btc.hash160(pub)), 'address of a public key on ' + name)
    for n, o in CHAINS.items():
        for k, cls in (('pkh', P2PKHBitcoinAddress), ('sh', P2SHBitcoinAddress)):
            s = check58(bytes([o[k]]) + h)
            if o[k] == c[k]:
                mon.check(type(mon.call('address', CBitcoinAddress, s)) is cls, 'kind of an address', s)
            else:
                mon.raises('address of %s on %s' % (n, name), CBitcoinAddressError, CBitcoinAddress, s)
                mon.raises('address of %s on %s' % (n, name), (CBitcoinAddressError, ValueError), cls, s)


def o_secret(rng, mon, name, c):
    k = gen.int_in(rng, 1, secp.N - 1).to_bytes(32, 'big')
    comp = rng.random() < 0.5
    body = k + (b'\x01' if comp else b'')
    s = mon.call('secret on ' + name, CBitcoinSecret.from_secret_bytes, k, comp)
    mon.same(str(s), check58(bytes([c['wif']]) + body), 'secret on ' + name)
    mon.state('secret', str(s))
    for n, o in CHAINS.items():
        t = check58(bytes([o['wif']]) + body)
        if o['wif'] == c['wif']:
            mon.check(str(mon.call('secret', CBitcoinSecret, t)) == t, 'secret of ' + n)
        else:
            mon.raises('secret of %s on %s' % (n, name), CBitcoinSecretError, CBitcoinSecret, t)


def o_ports(rng, mon, name, c):
    p = bitcoin.params
    mon.eq((p.NAME, p.DEFAULT_PORT, p.RPC_PORT), (name, c['port'], c['rpc']), 'ports of ' + name)
    mon.eq(core.coreparams.NAME, name, 'name of the consensus parameters')
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'chain.conf')
    with open(path, 'w') as fd:
        fd.write('rpcuser=a\nrpcpassword=b\n')
    q = mon.call('rpc.Proxy', lambda: rng.choice((rpc.Proxy, rpc.RawProxy))(btc_conf_file=path))
    mon.eq(q._RawProxy__conn.port, c['rpc'], 'port of an rpc proxy on ' + name)
    mon.state('ports', (name, c['rpc']))


def o_frames(rng, mon, name, c):
    n = rng.getrandbits(64)
    m = rng.choice((msg_ping(nonce=n), msg_verack()))
    raw = mon.call('to_bytes', m.to_bytes, bitcoin.params)
    mon.same(raw[:4], bytes.fromhex(c['magic']), 'first bytes of a message on ' + name)
    back = mon.call('stream_deserialize', lambda: MsgSerializable.stream_deserialize(io.BytesIO(raw), params=bitcoin.params))
    mon.check(type(back) is type(m), 'message on ' + name)
    for o, d in CHAINS.items():
        if o != name:
            mon.raises('message of %s on %s' % (o, name), ValueError,
                       lambda: MsgSerializable.stream_deserialize(io.BytesIO(bytes.fromhex(d['magic']) + raw[4:]), params=bitcoin.params))
    mon.state('frame', raw)


OBSERVE = [o_genesis, o_work, o_address, o_secret, o_ports, o_frames]
UNKNOWN = ['', 'main', 'test', 'Mainnet', 'MAINNET', 'testnet3', 'mainnet ', ' mainnet', 'reg', 'regtest\n', 'signet', 'bitcoin', 'mainnet\0', 'testnet4',
           None, 0, 1, b'mainnet', b'testnet', True, 'regtestnet', 'mainnettestnet', 'm']


def history(rng, mon, i):
    try:
        name = 'mainnet'
        steps = []
        again = rng.getrandbits(64)   # the same keys, hashes and scripts come back on other chains
        # kept across selections: must not change under the user's feet
        old = bitcoin.params
        kept = (old.NAME, old.MESSAGE_START, old.DEFAULT_PORT, old.RPC_PORT, dict(old.BASE58_PREFIXES), old.GENESIS_BLOCK.GetHash())
        if i % 3 == 0:
            mon.eq(name, old.NAME, 'chain to begin with')
        for _ in range(rng.randint(1, 7)):
            if rng.random() < 0.6:
                name = rng.choice(list(CHAINS))
                mon.check(mon.call('SelectParams(%r)' % name, bitcoin.SelectParams, name) is None, 'SelectParams returned something')
                steps.append(name)
            else:
                bad = rng.choice(UNKNOWN)
                mon.raises('SelectParams(%r)' % (bad,), ValueError, bitcoin.SelectParams, bad)
                steps.append('?')
            for o in rng.sample(OBSERVE, rng.choice((1, 2, 6))):
                same = rng.random() < 0.5
                o(random.Random('%d %s' % (again, o.__name__)) if same else rng, mon, name, CHAINS[name])
                mon.event('observed ' + o.__name__[2:])
            mon.eq((old.NAME, old.MESSAGE_START, old.DEFAULT_PORT, old.RPC_PORT, old.BASE58_PREFIXES, old.GENESIS_BLOCK.GetHash()), kept, 'parameters kept across a selection')
        mon.state('history', steps)
    finally:
        bitcoin.SelectParams('mainnet')


SUITES = [Suite('history', history, 4000, 30000)]

"""Drives the key code through vectors made elsewhere; run under valgrind, or with every allocation on pages of its own

usage: ffi_driver.py vectors.json
"""
import copy, gc, json, sys


SECP256K1 = b'\x2b\x81\x04\x00\x0a'


def main():
    with open(sys.argv[1]) as fd:
        v = json.load(fd)
    from bitcoin.core.key import CECKey, CPubKey
    from bitcoin.wallet import CKey
    from bitcoin.core.script import CScript
    from bitcoin.core.scripteval import EvalScript, EvalScriptError
    from bitcoin.core import CTransaction
    x = bytes.fromhex
    n = {}

    def count(k):
        n[k] = n.get(k, 0) + 1
    bad = []

    def eq(what, got, want):
        if got != want:
            bad.append('%s: got %r, expected %r' % (what, got, want))
    live = []
    for op in v:
        kind = op[0]
        count(kind)
        if kind == 'key':
            _, secret, comp, pub, digest = op
            k = CKey(x(secret), comp)
            eq('public key', bytes(k.pub), x(pub))
            s = k.sign(x(digest))
            eq('own signature', k.pub.verify(x(digest), s), True)
            if len(s) < 80:
                eq('decoded key', CPubKey(x(pub)).verify(x(digest), s), True)
            live.append(k)
            e = CECKey()
            e.set_secretbytes(x(secret))
            e.set_compressed(comp)
            c = copy.copy(e)
            if digest < '8':
                del e           # the copy outlives the key
            else:
                live.append(e)
            eq('public key of a copied key', c.get_pubkey(), x(pub))
            eq('signature by a copied key', k.pub.verify(x(digest), c.sign(x(digest))), True)
            live.append(c)
            live.append(copy.copy(k))
        elif kind == 'pub':
            _, pub, valid = op
            p = CPubKey(x(pub))
            eq('validity of ' + pub, p.is_fullyvalid, valid)
            eq('signature under ' + pub, p.verify(bytes(32), bytes(70)), False)
            live.append(p)
        elif kind == 'verify':
            _, pub, digest, sig, want = op
            got = CPubKey(x(pub)).verify(x(digest), x(sig))
            if want is not None:
                eq('verdict on ' + sig, got, want)
        elif kind == 'priv':
            _, secret, cut, flip, pub = op
            e = CECKey()
            e.set_secretbytes(x(secret))
            der = bytearray(e.get_privkey())
            del der[len(der) - cut:]
            if flip is not None:
                der[flip % len(der)] ^= 1 << flip % 8
            f = CECKey()
            r = f.set_privkey(bytes(der))
            if not cut and flip is None:
                f.set_compressed(True)
                eq('decoded private key', f.get_pubkey(), x(pub))
            elif not r:
                # refused: the object can still be given another key
                try:
                    f.set_secretbytes(x(secret))
                except ValueError:
                    pass
            live.append(e)
        elif kind == 'ecdh':
            _, a, b, pub, want = op
            e, o = CECKey(), CECKey()
            e.set_secretbytes(x(a))
            o.set_pubkey(x(pub))
            eq('shared secret', e.get_raw_ecdh_key(o), x(want))
            del o
            gc.collect()
            o = CECKey()
            o.set_secretbytes(x(b))
            eq('shared secret', e.get_raw_ecdh_key(o), x(want))
        elif kind == 'eval':
            _, stack, prog, tx, i = op
            try:
                EvalScript([x(s) for s in stack], CScript(x(prog)), CTransaction.deserialize(x(tx)), i)
            except EvalScriptError:
                pass
        elif kind == 'sequence':
            # any operations in any order on a few keys: a result or an exception
            ks = [CECKey() for _ in range(3)]
            for what, a, b, arg in op[1]:
                k = ks[a]
                arg = x(arg)
                try:
                    if what == 'new':
                        ks[a] = CECKey()
                    elif what == 'copy':
                        ks[b] = copy.copy(k)
                    elif what == 'copy der':
                        ks[b].set_privkey(k.get_privkey())
                    elif what == 'copy pub':
                        ks[b].set_pubkey(k.get_pubkey())
                    elif what == 'ecdh':
                        k.get_raw_ecdh_key(ks[b])
                    elif what == 'get_pubkey':
                        k.get_pubkey()
                    elif what == 'get_privkey':
                        k.get_privkey()
                    elif what == 'verify':
                        k.verify(bytes(32), arg)
                    elif what == 'sign':
                        k.sign(arg)
                    elif what == 'set_privkey':
                        k.set_privkey(arg)
                        if SECP256K1 not in k.get_privkey():
                            # keys on other curves are not for use with the rest
                            ks[a] = CECKey()
                            count('key dropped')
                    elif what == 'set_compressed':
                        k.set_compressed(bool(b))
                    else:
                        getattr(k, what)(arg)
                    count('operation returned')
                except Exception:
                    count('operation refused')
            ks = None
        elif kind == 'length':
            try:
                CKey(x(op[1]))
                bad.append('secret of %d bytes accepted' % (len(op[1]) // 2))
            except ValueError:
                pass
        if len(live) > 5:
            del live[(len(live) * 7) % 5]
    live.clear()
    gc.collect()
    print('RESULT ' + json.dumps(dict(bad=bad[:5], count=n)))
    sys.stdout.flush()


main()

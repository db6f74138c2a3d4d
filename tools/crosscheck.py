#!/usr/bin/env python3
"""Cross-validate the reference hashes of the harness against Python's hashlib and hmac (development aid).
usage: jv-hashes refdump | tools/crosscheck.py"""
import sys, json, hashlib
n = 0
for l in sys.stdin:
    r = json.loads(l)
    hk = bytes.fromhex(r['hkey'])
    def H(m):
        if r['alg'] == 'md5': return hashlib.md5(m).digest()
        if r['alg'] == 'sha1': return hashlib.sha1(m).digest()
        return getattr(hashlib, r['alg'])(m, digest_size=r['out'], key=hk).digest()
    B = 128 if r['alg'] == 'blake2b' else 64
    def mac(k, m):
        if len(k) > B: k = H(k)
        k = k.ljust(B, b'\0')
        return H(bytes(x ^ 0x5c for x in k) + H(bytes(x ^ 0x36 for x in k) + m))
    m, k = bytes.fromhex(r['msg']), bytes.fromhex(r['key'])
    assert H(m).hex() == r['digest'], r
    assert mac(k, m).hex() == r['hmac'], r
    if r['alg'] in ('md5', 'sha1'):
        import hmac
        assert hmac.new(k, m, r['alg']).hexdigest() == r['hmac']
    prk, t, o, i = mac(k, m), b'', b'', 0
    while len(o) < r['n']:
        i += 1
        t = mac(prk, t + k + bytes([i]))
        o += t
    assert o[:r['n']].hex() == r['hkdf'], r
    n += 1
print('agreed on', n, 'records')

"""Contracts for messages and outputs of any length (irv/si.py): functions built on a sponge. Each kind gives the block length
in bytes, the abstract state after the setup (hspec.Sponge) and the calls; the position in the block is a parameter, the state
is arbitrary."""
from . import hspec as H
from . import high as h
from .high import inst, fresh, data, outb, ok, bits, byts, lens
from .hfips import SHA3, bitdata


class Kind:
    pass


def kind(c, name):
    K = Kind()
    K.fin = lambda: None
    if name.startswith("Keccak_Hash "):
        rate, cap, hl, d = SHA3[name.split()[1]]
        s = inst(c, "Keccak_HashInstance")
        ok(c, "Keccak_HashInitialize", c.call("Keccak_HashInitialize", s, rate, cap, 0, d))
        K.S = H.Sponge(rate)
        K.absorb = lambda p, n: ok(c, "Keccak_HashUpdate", c.call("Keccak_HashUpdate", s, p, n * 8))
        K.squeeze = lambda q, n: ok(c, "Keccak_HashSqueeze", c.call("Keccak_HashSqueeze", s, q, n * 8))
        K.suffix = H.delimited(d)
        K.fin = lambda: ok(c, "Keccak_HashFinal", c.call("Keccak_HashFinal", s, outb(c, 0)))
    elif name.startswith("TurboSHAKE"):
        cap = int(name.split()[1])
        s = inst(c, "TurboSHAKE_Instance")
        ok(c, "TurboSHAKE_Initialize", c.call("TurboSHAKE_Initialize", s, cap))
        K.S = H.Sponge(1600 - cap, 12)
        K.absorb = lambda p, n: ok(c, "TurboSHAKE_Absorb", c.call("TurboSHAKE_Absorb", s, p, n))
        K.squeeze = lambda q, n: ok(c, "TurboSHAKE_Squeeze", c.call("TurboSHAKE_Squeeze", s, q, n))
        K.suffix = H.delimited(0x0B)
        K.fin = lambda: ok(c, "TurboSHAKE_AbsorbDomainSeparationByte", c.call("TurboSHAKE_AbsorbDomainSeparationByte", s, 0x0B))
    else:
        fn, sec = name[:-3], int(name[-3:])
        r = H.RATE[sec] // 8
        K.S = H.Sponge(8 * r)
        (pc, cu) = bitdata(c, 40, "custom")
        s = inst(c, f"{fn}_Instance")
        if fn == "cSHAKE":
            ok(c, "Initialize", c.call(f"cSHAKE{sec}_Initialize", s, 0, h.NULL, 0, pc, 40))
            K.S.absorb(H.bytepad(H.encode_string([]) + H.encode_string(cu), r))
        else:
            (pk, key) = bitdata(c, 128, "key")
            ok(c, "Initialize", c.call(f"KMAC{sec}_Initialize", s, pk, 128, 0, pc, 40))
            K.S.absorb(H.bytepad(H.encode_string(H.str_bits("KMAC")) + H.encode_string(cu), r))
            K.S.absorb(H.bytepad(H.encode_string(key), r))
        K.absorb = lambda p, n: ok(c, "Update", c.call(f"{fn}{sec}_Update", s, p, n * 8))
        K.squeeze = lambda q, n: ok(c, "Squeeze", c.call(f"{fn}{sec}_Squeeze", s, q, n * 8))
        K.suffix = [0, 0]

        def fin():
            ok(c, "Final", c.call(f"{fn}{sec}_Final", s, outb(c, 0)))
            if fn == "KMAC":
                K.S.absorb(H.right_encode(0))
        K.fin = fin
    K.r = K.S.r // 8
    return K


def feed(c, K, n):
    p, b = bitdata(c, 8 * n)
    K.absorb(p, n)
    K.S.absorb(b)


def finish(c, K):
    K.fin()
    K.S.finish(K.suffix)


def take(c, name, K, n):
    q = outb(c, n)
    K.squeeze(q, n)
    c.req(f"{name}: output", c.get(q, n), byts(K.S.squeeze(8 * n)))


def absorb_any(c, name, k, rem=None, short=False):
    """{any state, k bytes of a block absorbed} Update(data, N) {N bytes absorbed}, for every N"""
    def start():
        K = kind(c, name)
        feed(c, K, K.r + k)
        return K
    if c.native or short:
        K = start()
        for n in lens(K.r, k):
            fresh(c)
            c.at(f"{name}: update of {n} bytes at position {k}")
            K = start()
            feed(c, K, n)
            finish(c, K)
            take(c, name, K, K.r)
        if c.native:
            n = (1 << 32) + K.r + 5

            def run(d, piece):
                K = kind(c, name)
                K.absorb(d, k)
                for i in range(0, n, piece):
                    K.absorb(c.off(d, i), min(piece, n - i))
                K.fin()
                q = outb(c, 32)
                K.squeeze(q, 32)
                return c.get(q, 32)
            h.huge(c, name, n, run)
        return
    c.at(f"{name}: update of any length at position {k}")
    K = start()
    h.any_absorb(c, K.S, K.r, K.absorb, rem)
    finish(c, K)
    take(c, name, K, K.r)


def squeeze_any(c, name, k, rem=None, short=False):
    """{any state, k bytes of a block output} Squeeze(output, N) {the next N bytes}, for every N"""
    def start():
        K = kind(c, name)
        feed(c, K, 3)
        finish(c, K)
        take(c, name, K, k)
        return K
    if c.native or short:
        r = kind(c, name).r
        for n in lens(r, k):
            fresh(c)
            c.at(f"{name}: squeeze of {n} bytes at position {k}")
            K = start()
            take(c, name, K, n)
            take(c, name, K, 1)
        return
    c.at(f"{name}: squeeze of any length at position {k}")
    K = start()
    h.any_squeeze(c, K.S, K.r, K.squeeze, rem)
    take(c, name, K, 1)


def oneshot(c, name):
    """-> block length, rounds, suffix, fixed output length or None, call(input, n, output, m), prefix, right end of the input"""
    if name in SHA3:
        rate, cap, hl, d = SHA3[name]
        fn = name.replace("-", "_")
        call = (lambda p, n, q, m: c.call(fn, q, p, n)) if hl else (lambda p, n, q, m: c.call(fn, q, m, p, n))
        return rate // 8, 24, H.delimited(d), hl // 8 or None, call, [], lambda m: []
    if name.startswith("TurboSHAKE"):
        cap = int(name.split()[1])
        return 200 - cap // 8, 12, H.delimited(0x1F), None, lambda p, n, q, m: c.call("TurboSHAKE", cap, p, n, 0x1F, q, m), [], lambda m: []
    fn, sec = name[:-3], int(name[-3:])
    r = H.RATE[sec] // 8
    (pc, cu) = bitdata(c, 40, "custom")
    if fn == "cSHAKE":
        return r, 24, [0, 0], None, lambda p, n, q, m: c.call(name, p, n * 8, q, m * 8, h.NULL, 0, pc, 40), \
            H.bytepad(H.encode_string([]) + H.encode_string(cu), r), lambda m: []
    (pk, key) = bitdata(c, 128, "key")
    return r, 24, [0, 0], None, lambda p, n, q, m: c.call(name, pk, 128, p, n * 8, q, m * 8, pc, 40), \
        H.bytepad(H.encode_string(H.str_bits("KMAC")) + H.encode_string(cu), r) + H.bytepad(H.encode_string(key), r), lambda m: H.right_encode(8 * m)


def message_any(c, name, m=9, rem=None, short=False):
    """f(message of any length) with an output of m bytes"""
    if c.native or short:
        r = oneshot(c, name)[0]
        for n in lens(r):
            fresh(c)
            c.at(f"{name} of {n} bytes")
            r, nr, sfx, fixed, call, pre, end = oneshot(c, name)
            p, b = bitdata(c, 8 * n)
            q = outb(c, fixed or m)
            ok(c, name, call(p, n, q, fixed or m))
            c.req(f"{name}: value", c.get(q, fixed or m), byts(H.sponge(pre + b + end(m), sfx, 8 * r, 8 * (fixed or m), nr)))
        if c.native and name in SHA3:
            n = (1 << 32) + r + 5
            inc = "Keccak_Hash " + name

            def run(d, piece):
                q = outb(c, fixed or m)
                if piece == n:
                    ok(c, name, call(d, n, q, fixed or m))
                else:
                    K = kind(c, inc)
                    for i in range(0, n, piece):
                        K.absorb(c.off(d, i), min(piece, n - i))
                    K.fin()
                    K.squeeze(q, fixed or m)
                return c.get(q, fixed or m)
            if c.has("Keccak_HashInitialize"):
                h.huge(c, name, n, run)
        return
    r, nr, sfx, fixed, call, pre, end = oneshot(c, name)
    c.at(f"{name} of a message of any length")
    S = H.Sponge(8 * r, nr)
    S.absorb(pre)
    m = fixed or m
    q = outb(c, m)
    h.any_absorb(c, S, r, lambda d, n: ok(c, name, call(d, n, q, m)), rem)
    S.absorb(end(m))
    S.finish(sfx)
    c.req(f"{name}: value", c.get(q, m), byts(S.squeeze(8 * m)))


def output_any(c, name, n=3, rem=None, short=False, eager=True):
    """f(message of n bytes) with an output of any length"""
    if c.native or short:
        r = oneshot(c, name)[0]
        for m in lens(r):
            fresh(c)
            c.at(f"{name} of {n} bytes, output {m}")
            r, nr, sfx, fixed, call, pre, end = oneshot(c, name)
            p, b = bitdata(c, 8 * n)
            q = outb(c, m)
            ok(c, name, call(p, n, q, m))
            c.req(f"{name}: value", c.get(q, m), byts(H.sponge(pre + b + end(m), sfx, 8 * r, 8 * m, nr)))
        return
    r, nr, sfx, fixed, call, pre, end = oneshot(c, name)
    S = H.Sponge(8 * r, nr)
    S.absorb(pre)
    p, b = bitdata(c, 8 * n)
    c.at(f"{name} of {n} bytes, output of any length")
    S.absorb(b)
    S.finish(sfx)
    h.any_squeeze(c, S, r, lambda q, N: ok(c, name, call(p, n, q, N)), rem, eager)


for f in (absorb_any, squeeze_any, message_any, output_any):
    f.anylen = True

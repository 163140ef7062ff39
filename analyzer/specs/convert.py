"""C15: bit and byte conversions"""
import bdd
from values import *
from registry import spec


@spec('C15', 150,
      'Bit-provenance analysis of the four conversion functions: every input bit is a distinct atom; every output bit must be exactly '
      'the prescribed input atom (or constant false for padding) for every length in the partition.',
      ['conversions are analysed per length; lengths outside the partition behave like their neighbours'])
def c15(c):
    I = c.interp('compat')
    ns = list(range(0, 140)) + [255, 256, 257, 376, 377, 378, 383, 384, 385, 511, 512, 754, 755, 768, 1023, 1024, 1025, 4096]
    if c.thorough:
        ns = sorted(set(ns + list(range(140, 1600)) + list(range(1600, 9000, 97))))
    ns = c.sizes(ns, 70000, unit=8)
    c.partition = {'bit_lengths': ns}
    U = 'bls_gadgets::utils::'
    try:
        be, le = c.fn(I, U + 'bits_be_to_bytes_le'), c.fn(I, U + 'bits_le_to_bytes_le')
        tbe, tle = c.fn(I, U + 'bytes_le_to_bits_be'), c.fn(I, U + 'bytes_le_to_bits_le')
    except Exception:
        raise

    def pack(fn, rev, n):
        bits = [Bool(bdd.atom(('in', i))) for i in range(n)]
        v, st = c.run(I, fn, [Seq(bits, 'slice')])
        r = c.panicfree(I, 1, fn.name)
        if r:
            return r
        if v is None:
            return '%s never returns' % fn.name
        order = [b.b for b in (bits[::-1] if rev else bits)]
        order += [0] * (-n % 8)
        want = Seq([Int('u8', bits=order[i:i + 8]) for i in range(0, len(order), 8)])
        if n == 10:
            c.sample('%s(10 bits) = %s' % (fn.name, show(v)))
        return c.same(v, want, 1, '%s of %d bits' % (fn.name, n))

    def unpack(fn, rev, nb, take):
        s = bytes_sym('x', nb)
        v, st = c.run(I, fn, [s, Int('usize', v=take)])
        r = c.panicfree(I, 1, fn.name)
        if r:
            return r
        if v is None:
            return '%s never returns' % fn.name
        bits = [Bool(b) for x in s.items() for b in x.tobits(8)][:take]
        return c.same(v, Seq(bits[::-1] if rev else bits), 1, '%s of %d bytes taking %d' % (fn.name, nb, take))
    for n in ns:
        c.pob('bits_be_to_bytes_le/%d' % n, lambda n=n: pack(be, True, n))
        c.pob('bits_le_to_bytes_le/%d' % n, lambda n=n: pack(le, False, n))
        nb = (n + 7) // 8
        for extra in (0, 1):
            c.pob('bytes_le_to_bits_be/%d of %d' % (n, nb + extra), lambda n=n, nb=nb, extra=extra: unpack(tbe, True, nb + extra, n))
            c.pob('bytes_le_to_bits_le/%d of %d' % (n, nb + extra), lambda n=n, nb=nb, extra=extra: unpack(tle, False, nb + extra, n))

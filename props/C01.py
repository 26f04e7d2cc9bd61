"""C01: collection IDs are a fixed function of the collection name"""
from props.common import *
import props.C02 as C02
TITLE = 'Collection IDs are a fixed function of the collection name'
HARNESS = ['c01.cpp']
ASSUMPTIONS = ['the block recursion of MurmurHash3 x86_32 is a ghost function BLK defined by its recurrence', 'names are shorter than 2^31 bytes', 'little-endian reads, as on the platforms podio supports']
NOTE = 'MurmurHash3_x86_32 is proved equal to the reference recurrence for every length and content (loop invariant with a ghost function); CollectionIDTable::add is proved to assign that hash of the whole name. Frame::put using exactly this ID is proved in C04; here it is exercised on concrete Frames.'
modules = core('MurmurHash3.cpp', 'CollectionIDTable.cc')

def rotl(x, r): return z3.RotateLeft(x, r)
C1, C2 = bvv(0xcc9e2d51, 32), bvv(0x1b873593, 32)
def mixk(k): return rotl(k * C1, 15) * C2
def mixh(h, k): return rotl(h ^ mixk(k), 13) * 5 + bvv(0xe6546b64, 32)
def fmix(h):
    h = h ^ z3.LShR(h, 16); h = h * bvv(0x85ebca6b, 32)
    h = h ^ z3.LShR(h, 13); h = h * bvv(0xc2b2ae35, 32)
    return h ^ z3.LShR(h, 16)

def murmur(c):
    s = z3.Const('bytes', StrS)
    ln = c.bv('len', 32); seed = c.bv('seed', 32)
    out = c.ptr('out')
    c.assume(ln >= 0)
    BLK = z3.Function('BLK', z3.BitVecSort(64), z3.BitVecSort(32))
    byte = lambda i: schar(s, i)
    K = lambda j: z3.Concat(byte(simp(j * 4 + 3)), byte(simp(j * 4 + 2)), byte(simp(j * 4 + 1)), byte(simp(j * 4)))
    nb = z3.ZeroExt(32, z3.LShR(ln, 2))
    c.assume(BLK(bvv(0)) == seed)
    def cand(eng, st, v, v0, n):
        if z3.is_expr(v0) and z3.is_bv(v0) and v0.size() == 32 and z3.eq(simp(v0), seed):
            def f(m): return BLK(simp(m))
            f.step = lambda m: [BLK(simp(m + 1)) == mixh(BLK(m), K(m))]      # the definition of BLK
            return f
    c.eng.loop_candidates.append(cand)
    c.eng.loop_instances.append(nb); c.eng.unify = True
    outs = c.run(r'^MurmurHash3_x86_32\(', [stdlib.bufptr(c.eng, s), ln, seed, out])
    t0 = nb * 4
    z = lambda i: z3.ZeroExt(24, byte(simp(t0 + i)))
    h = BLK(nb); r = ln & 3
    k = z3.If(r == 3, (z(2) << 16) ^ (z(1) << 8) ^ z(0), z3.If(r == 2, (z(1) << 8) ^ z(0), z(0)))
    spec = fmix(z3.If(r == 0, h, h ^ mixk(k)) ^ ln)
    for o in outs:
        if o.kind == 'throw':
            c.prove(o, 'hashing does not throw', False); continue
        c.prove(o, 'the result is MurmurHash3 x86_32 of all bytes', o.st.mem.get(out, 32) == spec)

CONTRACTS = [('MurmurHash3_x86_32', murmur), ('CollectionIDTable::add', C02.add)]

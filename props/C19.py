"""C19: versions"""
from props.common import *
TITLE = 'Version numbers compare lexicographically and round-trip their encoding'
MODEL = False
HARNESS = [('c19.cpp', {'model': False, 'core': False})]
NOTE = 'the operators of Version and the encoding macros are proved for all 2^48 versions (all 2^96 pairs). decode_version is consteval and leaves no code; the functions that reproduce its three casts around the real decoding macros are generated in a client translation unit, and decode_version itself is called there and in the harness on constants.'
ASSUMPTIONS = ['PODIO_VERSION pastes a suffix to integer literals; for the proof UINT64_C is redefined as a cast so that it takes variables', 'decode_version (consteval) applies the decoding macros part by part: the whole function is only evaluated on constants']
CLIENT = '''#include "podio/podioVersion.h"
#undef UINT64_C
#define UINT64_C(x) ((unsigned long)(x))   // the macro pastes a suffix to literals; this allows variables
using V = podio::version::Version;
extern "C" {
bool c_lt(const V* a, const V* b) { return *a < *b; }
bool c_le(const V* a, const V* b) { return *a <= *b; }
bool c_gt(const V* a, const V* b) { return *a > *b; }
bool c_ge(const V* a, const V* b) { return *a >= *b; }
bool c_eq(const V* a, const V* b) { return *a == *b; }
bool c_ne(const V* a, const V* b) { return *a != *b; }
unsigned long c_enc(unsigned short a, unsigned short b, unsigned short c) { return PODIO_VERSION(a, b, c); }
unsigned long c_major(unsigned long v) { return PODIO_MAJOR_VERSION(v); }
unsigned long c_minor(unsigned long v) { return PODIO_MINOR_VERSION(v); }
unsigned long c_patch(unsigned long v) { return PODIO_PATCH_VERSION(v); }
}
'''
def modules(b): return [('client_c19.cc', CLIENT)]
CLS = 'podio::version::Version'

def val(c, st, p):
    return z3.Concat(*[term(st.mem.get(p.add(c.field(CLS, f)), 16)) for f in ('major', 'minor', 'patch')])

def op(name, spec):
    def f(c):
        a, b = c.ptr('a'), c.ptr('b')
        x, y = val(c, c.st, a), val(c, c.st, b)
        for o in c.run(f'^c_{name}$', [a, b]):
            if o.kind == 'throw':
                c.prove(o, 'comparison does not throw', False); continue
            r = o.val if z3.is_bool(o.val) else term(o.val) != 0
            c.prove(o, f'{name} is the lexicographic order of (major, minor, patch)', r == spec(x, y))
            c.prove(o, 'the versions are unchanged', z3.And(val(c, o.st, a) == x, val(c, o.st, b) == y))
    return f

def enc(c):
    a, b, d = c.bv('a', 16), c.bv('b', 16), c.bv('c', 16)
    for o in c.run('^c_enc$', [a, b, d]):
        v = term(o.val)
        # comparison of 48-bit concatenations is the lexicographic order, so this is also the order lemma
        c.prove(o, 'the encoding is the concatenation of the parts, so it orders like the version', v == z3.ZeroExt(16, z3.Concat(a, b, d)))
        for nm, part in (('major', a), ('minor', b), ('patch', d)):
            for q in c.run(f'^c_{nm}$', [v], o.st.fork()):
                c.prove(q, f'decoding gives the {nm} part back', term(q.val) == z3.ZeroExt(48, part))
                c.prove(q, f'the cast to 16 bits in decode_version loses nothing ({nm})', z3.Extract(15, 0, term(q.val)) == part)

CONTRACTS = [(f'Version::operator {n}', op(n, s)) for n, s in [
    ('lt', z3.ULT), ('le', z3.ULE), ('gt', z3.UGT), ('ge', z3.UGE), ('eq', lambda x, y: x == y), ('ne', lambda x, y: x != y)]] + [('PODIO_VERSION / PODIO_*_VERSION', enc)]

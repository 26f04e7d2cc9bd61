"""C03: parameter store"""
from props.common import *
TITLE = 'Parameter store returns exactly what was last set, per type and key'
HARNESS = [('c03.cpp', {'model': False})]
ASSUMPTIONS = ['std::map, std::vector and std::string fulfil their standard contracts', 'GenericParameters is instantiated with the supported types only (int, float, double, std::string)']
NOTE = 'set, get, getN, getKeys, getKeysAndValues and copy construction are proved for every state of the store, every key and every value against one map from key to list of values per type; loadFrom and the string literal / initializer list overloads are covered by the bounded run-time contracts only.'
CLS = 'podio::GenericParameters'
TY = {'int': ('int', '_intMap', 32), 'float': ('float', '_floatMap', 32), 'double': ('double', '_doubleMap', 64), 'string': ('std::string', '_stringMap', None)}
CLIENT = '''#include "podio/GenericParameters.h"
#include "podio/Frame.h"
using podio::GenericParameters;
using std::string; using std::vector;
extern "C" {
'''
for n, (t, m, w) in TY.items():
    CLIENT += f'''void set_{n}(GenericParameters& p, const string& k, const {t}& v) {{ p.set<{t}>(k, v); }}
void setv_{n}(GenericParameters& p, const string& k, const vector<{t}>& v) {{ p.set<vector<{t}>>(k, v); }}
void get_{n}(const GenericParameters& p, const string& k, std::optional<{t}>& r) {{ r = p.get<{t}>(k); }}
bool has_{n}(const GenericParameters& p, const string& k, {t}& r) {{ auto o = p.get<{t}>(k); if (o.has_value()) r = *o; return o.has_value(); }}
bool hasv_{n}(const GenericParameters& p, const string& k, vector<{t}>& r) {{ auto o = p.get<vector<{t}>>(k); if (o.has_value()) r = *o; return o.has_value(); }}
size_t getN_{n}(const GenericParameters& p, const string& k) {{ return p.getN<{t}>(k); }}
void keys_{n}(const GenericParameters& p, vector<string>& r) {{ r = p.getKeys<{t}>(); }}
void load_{n}(GenericParameters& p, vector<string>&& k, vector<vector<{t}>>&& v) {{ p.loadFrom<{t}, vector>(std::move(k), std::move(v)); }}
'''
    CLIENT += f'void kv_{n}(const GenericParameters& p, std::tuple<vector<string>, vector<vector<{t}>>>& r) {{ r = p.getKeysAndValues<{t}>(); }}\n'
CLIENT += '''void set_chars(GenericParameters& p, const string& k, const char* v) { p.set(k, v); }
void copy_store(const GenericParameters& p, void* q) { new (q) GenericParameters(p); }
}
'''
modules = model(CLIENT, core=('GenericParameters.cc',))
MODEL = False

class Store:
    """the abstract state: type -> key -> list of values"""
    def __init__(s, c, name='store', p=None):
        s.c = c; s.p = p or c.ptr(name)
        s.m = {n: MapView(c, s.p.add(c.field(CLS, m)), STR, f'std::vector<{full(t)}>') for n, (t, m, w) in TY.items()}
    def has(s, st, n, k): return s.m[n].has(st, k)
    def len(s, st, n, k): return s.m[n].seq(k).len(st)
    def at(s, st, n, k, i): return s.m[n].seq(k).at(st, i, full(TY[n][0]))
    def touch(s, st):
        for n in TY:
            k = z3.Const('k0', StrS); s.has(st, n, k); s.len(st, n, k); s.at(st, n, k, bvv(0)); s.m[n].size(st)
    def eq(s, n, st0, st1, k, t=None):
        """both states know the same under key k"""
        t = t or s
        i = z3.BitVec('i', 64)
        return z3.And(s.has(st0, n, k) == t.has(st1, n, k), z3.Implies(s.has(st0, n, k), z3.And(s.len(st0, n, k) == t.len(st1, n, k),
                      z3.ForAll([i], z3.Implies(z3.ULT(i, s.len(st0, n, k)), s.at(st0, n, k, i) == t.at(st1, n, k, i))))))
    def others(s, n, st0, st1, key=None, t=None):
        k = z3.Const('k', StrS); i = z3.BitVec('i', 64)
        b = s.eq(n, st0, st1, k, t)
        return z3.ForAll([k], z3.Implies(k != key, b) if key is not None else b)
def full(t): return STR if t == 'std::string' else t

def value(c, n, name='v'):
    t, m, w = TY[n]
    if n == 'string':
        return c.string(name)
    p = c.ptr(name); x = z3.BitVec(name, w); c.st.mem.put(p, w, x)
    return p, x

def frame(c, o, s, n, k):
    for q in TY:
        c.prove(o, f'other keys are unchanged ({q})' if q == n else f'values of other types are unchanged ({q})', s.others(q, c.pre, o.st, k if q == n else None))

def setters(n):
    def one(c):
        s = Store(c); s.touch(c.st); kp, k = c.string('key'); vp, v = value(c, n)
        for o in c.run(f'^set_{n}$', [s.p, kp, vp]):
            if o.kind == 'throw':
                c.prove(o, 'set does not throw', False); continue
            c.prove(o, 'the value is stored as a list of one element', z3.And(s.has(o.st, n, k), s.len(o.st, n, k) == 1, s.at(o.st, n, k, bvv(0)) == v))
            frame(c, o, s, n, k)
    def vec(c):
        s = Store(c); s.touch(c.st); kp, k = c.string('key'); vp = c.ptr('v'); V = c.vec(vp)
        T = full(TY[n][0]); V.len(c.st); V.at(c.st, bvv(0), T)
        i = z3.BitVec('i', 64)
        for o in c.run(f'^setv_{n}$', [s.p, kp, vp]):
            if o.kind == 'throw':
                c.prove(o, 'set does not throw', False); continue
            c.prove(o, 'the values are stored, all of them in order', z3.And(s.has(o.st, n, k), s.len(o.st, n, k) == V.len(c.pre),
                    z3.ForAll([i], z3.Implies(z3.ULT(i, V.len(c.pre)), s.at(o.st, n, k, i) == V.at(c.pre, i, T)))))
            frame(c, o, s, n, k)
    return [(f'GenericParameters::set<{TY[n][0]}>', one), (f'GenericParameters::set<std::vector<{TY[n][0]}>>', vec)]

def getters(n):
    T = full(TY[n][0])
    def one(c):
        s = Store(c); s.touch(c.st); kp, k = c.string('key'); rp, r0 = value(c, n, 'r')
        for o in c.run(f'^has_{n}$', [s.p, kp, rp]):
            if o.kind == 'throw':
                c.prove(o, 'get does not throw', False); continue
            known = z3.And(s.has(c.pre, n, k), s.len(c.pre, n, k) != 0)
            r = stdlib.get_str(c.eng, o.st, rp) if n == 'string' else term(o.st.mem.get(rp, TY[n][2]))
            c.prove(o, 'a value is returned exactly if one was stored', boolean(o) == known)
            c.prove(o, 'it is the first of the stored values', z3.Implies(known, r == s.at(c.pre, n, k, bvv(0))))
            for q in TY:
                c.prove(o, f'reading changes nothing ({q})', s.others(q, c.pre, o.st))
    def vec(c):
        s = Store(c); s.touch(c.st); kp, k = c.string('key'); rp = c.ptr('r'); R = c.vec(rp); R.len(c.st)
        i = z3.BitVec('i', 64)
        for o in c.run(f'^hasv_{n}$', [s.p, kp, rp]):
            if o.kind == 'throw':
                c.prove(o, 'get does not throw', False); continue
            known = s.has(c.pre, n, k)
            c.prove(o, 'values are returned exactly if some were stored', boolean(o) == known)
            c.prove(o, 'they are the stored values, all of them in order', z3.Implies(known, z3.And(R.len(o.st) == s.len(c.pre, n, k), z3.ForAll([i], z3.Implies(z3.ULT(i, s.len(c.pre, n, k)), R.at(o.st, i, T) == s.at(c.pre, n, k, i))))))
            for q in TY:
                c.prove(o, f'reading changes nothing ({q})', s.others(q, c.pre, o.st))
    def num(c):
        s = Store(c); s.touch(c.st); kp, k = c.string('key')
        for o in c.run(f'^getN_{n}$', [s.p, kp]):
            if o.kind == 'throw':
                c.prove(o, 'getN does not throw', False); continue
            c.prove(o, 'the number of stored values, 0 if there are none', term(o.val) == z3.If(s.has(c.pre, n, k), s.len(c.pre, n, k), bvv(0)))
    def keys(c):
        s = Store(c); s.touch(c.st); rp = c.ptr('r'); R = c.vec(rp); R.len(c.st)
        i, j = z3.BitVecs('i j', 64); k = z3.Const('k', StrS)
        for o in c.run(f'^keys_{n}$', [s.p, rp]):
            if o.kind == 'throw':
                c.prove(o, 'getKeys does not throw', False); continue
            N = R.len(o.st)
            c.prove(o, 'as many keys as are stored', N == s.m[n].size(c.pre))
            c.prove(o, 'every returned key is stored', z3.ForAll([i], z3.Implies(z3.ULT(i, N), s.has(c.pre, n, R.at(o.st, i, STR)))))
            c.prove(o, 'every stored key is returned', z3.ForAll([k], z3.Implies(s.has(c.pre, n, k), z3.Exists([i], z3.And(z3.ULT(i, N), R.at(o.st, i, STR) == k)))))
            c.prove(o, 'no key is returned twice', z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, N), z3.ULT(j, N), R.at(o.st, i, STR) == R.at(o.st, j, STR)), i == j)))
    def kv(c):
        s = Store(c); s.touch(c.st); rp = c.ptr('r')
        V = c.vec(rp); K = c.vec(rp.add(24))
        V.len(c.st); K.len(c.st)
        i, j = z3.BitVecs('i j', 64); k = z3.Const('k', StrS)
        zV = stdlib.types(c.eng).size('std::vector<int>')
        for o in c.run(f'^kv_{n}$', [s.p, rp]):
            if o.kind == 'throw':
                c.prove(o, 'getKeysAndValues does not throw', False); continue
            N = K.len(o.st)
            key = lambda i: K.at(o.st, i, STR)
            vv = lambda i: SeqView(c, V.p.elem(i, zV))
            c.prove(o, 'as many keys as are stored, with one list of values each', z3.And(N == s.m[n].size(c.pre), V.len(o.st) == N))
            c.prove(o, 'every returned key is stored', z3.ForAll([i], z3.Implies(z3.ULT(i, N), s.has(c.pre, n, key(i)))))
            c.prove(o, 'every stored key is returned', z3.ForAll([k], z3.Implies(s.has(c.pre, n, k), z3.Exists([i], z3.And(z3.ULT(i, N), key(i) == k)))))
            c.prove(o, 'no key is returned twice', z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, N), z3.ULT(j, N), key(i) == key(j)), i == j)))
            c.prove(o, 'each key comes with exactly its values', z3.ForAll([i, j], z3.Implies(z3.ULT(i, N), z3.And(vv(i).len(o.st) == s.len(c.pre, n, key(i)),
                    z3.Implies(z3.ULT(j, vv(i).len(o.st)), vv(i).at(o.st, j, T) == s.at(c.pre, n, key(i), j))))))
    t = TY[n][0]
    return [(f'GenericParameters::get<{t}>', one), (f'GenericParameters::get<std::vector<{t}>>', vec), (f'GenericParameters::getN<{t}>', num), (f'GenericParameters::getKeys<{t}>', keys), (f'GenericParameters::getKeysAndValues<{t}>', kv)]

def copies(c):
    s = Store(c); s.touch(c.st); q = c.ptr('copy')
    for o in c.run('^copy_store$', [s.p, q]):
        if o.kind == 'throw':
            c.prove(o, 'copying does not throw', False); continue
        t = Store(c, p=q)
        for n in TY:
            c.prove(o, f'the copy holds the same values ({n})', s.others(n, c.pre, o.st, t=t))
            c.prove(o, f'the original is unchanged ({n})', s.others(n, c.pre, o.st))
        mtx = [o.st.mem.get(q.add(c.field(CLS, f)), 64) for f in ('m_intMtx', 'm_floatMtx', 'm_stringMtx', 'm_doubleMtx')]
        c.prove(o, 'the copy has mutexes of its own, one per type', all(isinstance(m, Ptr) and m.root.kind == 'new' for m in mtx) and len({m.root.id for m in mtx}) == 4)

CONTRACTS = []
for n in TY:
    CONTRACTS += setters(n) + getters(n)
CONTRACTS += [('GenericParameters copy constructor', copies)]

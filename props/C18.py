"""C18: user data collections"""
from props.common import *
TITLE = 'User data collections behave like the vector of values they store'
HARNESS = [('c18.cpp', {'model': False})]
MODEL = False
TYPES = {'float': (32, 'f32'), 'double': (64, 'f64'), 'int8_t': (8, 'signed char'), 'int16_t': (16, 'short'), 'int32_t': (32, 'int'), 'int64_t': (64, 'long'),
         'uint8_t': (8, 'unsigned char'), 'uint16_t': (16, 'unsigned short'), 'uint32_t': (32, 'unsigned int'), 'uint64_t': (64, 'unsigned long')}
CLIENT = '#include "podio/UserDataCollection.h"\n#include <new>\n#include <vector>\n'
for T in TYPES:
    CLIENT += f'''using C_{T} = podio::UserDataCollection<{T}>;
extern "C" {{
void ctor_{T}(C_{T}* c) {{ new (c) C_{T}(); }}
void fromvec_{T}(C_{T}* c, std::vector<{T}>& v) {{ new (c) C_{T}(std::move(v)); }}
void move_{T}(C_{T}* c, C_{T}& o) {{ new (c) C_{T}(std::move(o)); }}
void assign_{T}(C_{T}& c, C_{T}& o) {{ c = std::move(o); }}
void from_{T}(C_{T}* c, const std::vector<{T}>& v) {{ new (c) C_{T}(C_{T}::from(v)); }}
void push_{T}(C_{T}& c, const {T}& v) {{ c.push_back(v); }}
{T}* create_{T}(C_{T}& c) {{ return &c.create(); }}
{T}* index_{T}(C_{T}& c, size_t i) {{ return &c[i]; }}
const {T}* cindex_{T}(const C_{T}& c, size_t i) {{ return &c[i]; }}
{T}* at_{T}(C_{T}& c, size_t i) {{ return &c.at(i); }}
const {T}* cat_{T}(const C_{T}& c, size_t i) {{ return &c.at(i); }}
void resize_{T}(C_{T}& c, size_t n) {{ c.resize(n); }}
void clear_{T}(C_{T}& c) {{ c.C_{T}::clear(); }}
size_t size_{T}(const C_{T}& c) {{ return c.C_{T}::size(); }}
bool empty_{T}(const C_{T}& c) {{ return c.C_{T}::empty(); }}
void setid_{T}(C_{T}& c, uint32_t i) {{ c.C_{T}::setID(i); }}
uint32_t getid_{T}(const C_{T}& c) {{ return c.C_{T}::getID(); }}
bool hasid_{T}(const C_{T}& c) {{ return c.C_{T}::hasID(); }}
bool subset_{T}(const C_{T}& c) {{ return c.C_{T}::isSubsetCollection(); }}
void setsubset_{T}(C_{T}& c, bool b) {{ c.C_{T}::setSubsetCollection(b); }}
void buffers_{T}(podio::CollectionWriteBuffers* r, C_{T}& c) {{ *r = c.C_{T}::getBuffers(); }}
void prepare_{T}(C_{T}& c) {{ c.C_{T}::prepareForWrite(); c.C_{T}::prepareAfterRead(); }}
{T}* begin_{T}(C_{T}& c) {{ return &*c.begin(); }}
size_t range_{T}(C_{T}& c) {{ return c.end() - c.begin(); }}
size_t crange_{T}(const C_{T}& c) {{ return c.end() - c.begin(); }}
std::vector<{T}>* vec_{T}(C_{T}& c) {{ return &c.vec(); }}
}}
'''
def modules(b):
    return [('client_userdata.cc', CLIENT), f'{B.REPO}/src/UserDataCollection.cc']
ASSUMPTIONS = ['std::vector itself behaves as specified by the C++ standard (contracts of podver/stdlib.py)', 'sizes stay below 2^40']
NOTE = 'every operation of the template is proved for all ten supported value types, all contents and all arguments.'

class Coll:
    def __init__(t, c, T, name='coll', this=None):
        t.c, t.T = c, T; t.w = TYPES[T][0]; t.z = t.w // 8
        base = f'podio::UserDataCollection<{CPP[T]}, void>'
        t.this = this or c.ptr(name)
        f = lambda n: t.this.add(c.field(base, n))
        t.vp = f('_vec'); t.v = c.vec(t.vp); t.idp = f('m_collectionID'); t.vpp = f('_vecPtr'); t.refs = f('m_refCollections'); t.vm = f('m_vecmem_info')
        if this is None:
            c.dynamic(t.this, f'N5podio18UserDataCollectionI{MANG[T]}vEE')
    def el(t, i): return t.vp.elem(i, t.z)
    def n(t, st): return t.v.len(st)
    def at(t, st, i): return term(st.mem.get(t.el(i), t.w), st.mem)
    def id(t, st): return term(st.mem.get(t.idp, 32))
    def small(t): t.at(t.c.st, bvv(0)); t.c.assume(z3.ULT(t.n(t.c.st), bvv(1 << 40)))
    def same(t, st, n, at):
        i = z3.BitVec('i', 64)
        return z3.And(t.n(st) == n, z3.ForAll([i], z3.Implies(z3.ULT(i, n), t.at(st, i) == at(i))))
    def kept(t, a, b):
        return z3.And(t.same(b, t.n(a), lambda i: t.at(a, i)), t.id(a) == t.id(b))
CPP = {'float': 'float', 'double': 'double', 'int8_t': 'signed char', 'int16_t': 'short', 'int32_t': 'int', 'int64_t': 'long', 'uint8_t': 'unsigned char', 'uint16_t': 'unsigned short', 'uint32_t': 'unsigned int', 'uint64_t': 'unsigned long'}

def nothrow(c, outs, what):
    for o in outs:
        if o.kind == 'throw':
            c.prove(o, what + ' does not throw', False)
        else:
            yield o

def construct(T):
    def f(c):
        t = Coll(c, T)
        for o in nothrow(c, c.run(f'^ctor_{T}$', [t.this]), 'construction'):
            c.prove(o, 'a new collection is empty', t.n(o.st) == 0)
        v = c.vec(c.ptr('values')); src = Coll(c, T, this=v.p); src.vp = v.p; src.v = v
        src.at(c.st, bvv(0)); c.assume(z3.ULT(v.len(c.st), bvv(1 << 40)))
        for name, what in (('fromvec', 'from a vector'), ('from', 'from a range')):
            for o in nothrow(c, c.run(f'^{name}_{T}$', [t.this, v.p], c.st.fork()), 'construction'):
                c.prove(o, f'a collection made {what} holds exactly its values in order', t.same(o.st, v.len(c.pre), lambda i: src.at(c.pre, i)))
    return f

def moves(T):
    def f(c):
        t = Coll(c, T); u = Coll(c, T, 'other'); t.small(); u.small(); u.id(c.st); t.id(c.st)
        for name in ('move', 'assign'):
            for o in nothrow(c, c.run(f'^{name}_{T}$', [t.this, u.this], c.st.fork()), 'moving'):
                pre, st = c.pre, o.st
                c.prove(o, 'moving transfers all values in order', t.same(st, u.n(pre), lambda i: u.at(pre, i)))
                c.prove(o, 'moving transfers the ID', t.id(st) == u.id(pre))
                c.prove(o, 'the collection moved from is empty', u.n(st) == 0)
    return f

def adding(T):
    def f(c):
        t = Coll(c, T); t.small(); t.id(c.st)
        vp = c.ptr('value'); val = term(c.st.mem.get(vp, t.w))
        i = z3.BitVec('i', 64)
        for o in nothrow(c, c.run(f'^push_{T}$', [t.this, vp], c.st.fork()), 'push_back'):
            c.prove(o, 'push_back appends the value and keeps the others', t.same(o.st, t.n(c.pre) + 1, lambda i: z3.If(i == t.n(c.pre), val, t.at(c.pre, i))))
            c.prove(o, 'push_back keeps the ID', t.id(o.st) == t.id(c.pre))
        for o in nothrow(c, c.run(f'^create_{T}$', [t.this], c.st.fork()), 'create'):
            c.prove(o, 'create appends a zero and keeps the others', t.same(o.st, t.n(c.pre) + 1, lambda i: z3.If(i == t.n(c.pre), bvv(0, t.w), t.at(c.pre, i))))
            c.prove(o, 'create returns the new element', c.eng.peq(o.st, o.val, t.el(t.n(c.pre))))
        n = c.bv('count'); st2 = c.st.fork(); st2.assume(z3.ULT(n, bvv(1 << 40)))
        for o in nothrow(c, c.run(f'^resize_{T}$', [t.this, n], st2), 'resize'):
            c.prove(o, 'resize keeps the values that fit and fills up with zeros', t.same(o.st, n, lambda i: z3.If(z3.ULT(i, t.n(c.pre)), t.at(c.pre, i), bvv(0, t.w))))
            c.prove(o, 'resize keeps the ID', t.id(o.st) == t.id(c.pre))
        for o in nothrow(c, c.run(f'^clear_{T}$', [t.this], c.st.fork()), 'clear'):
            c.prove(o, 'clear removes all values', t.n(o.st) == 0)
    return f

def access(T):
    def f(c):
        t = Coll(c, T); t.small(); t.id(c.st)
        i = c.bv('index')
        for name in ('index', 'cindex'):
            st = c.st.fork(); st.assume(z3.ULT(i, t.n(st)))
            for o in nothrow(c, c.run(f'^{name}_{T}$', [t.this, i], st), 'indexed access'):
                c.prove(o, 'indexed access refers to the value at this position', c.eng.peq(o.st, o.val, t.el(i)))
                c.prove(o, 'indexed access changes nothing', t.kept(c.pre, o.st))
        for name in ('at', 'cat'):
            outs = c.run(f'^{name}_{T}$', [t.this, i], c.st.fork())
            c.raises(outs, 'checked access throws exactly beyond the end', z3.UGE(i, t.n(c.pre)))
            for o in outs:
                if o.kind == 'ret':
                    c.prove(o, 'checked access refers to the value at this position', c.eng.peq(o.st, o.val, t.el(i)))
                c.prove(o, 'checked access changes nothing', t.kept(c.pre, o.st))
        for name, spec in (('size', lambda o: term(o.val) == t.n(c.pre)), ('empty', lambda o: boolean(o) == (t.n(c.pre) == 0)), ('range', lambda o: term(o.val) == t.n(c.pre)), ('crange', lambda o: term(o.val) == t.n(c.pre)),
                           ('begin', lambda o: c.eng.peq(o.st, o.val, t.el(bvv(0)))), ('vec', lambda o: c.eng.peq(o.st, o.val, t.vp))):
            for o in nothrow(c, c.run(f'^{name}_{T}$', [t.this], c.st.fork()), name):
                c.prove(o, f'{name} agrees with the stored values', spec(o))
                c.prove(o, f'{name} changes nothing', t.kept(c.pre, o.st))
    return f

def identity(T):
    def f(c):
        t = Coll(c, T); t.small(); t.id(c.st)
        i = c.bv('id', 32); b = z3.Bool('subset')
        for o in nothrow(c, c.run(f'^setid_{T}$', [t.this, i], c.st.fork()), 'setID'):
            c.prove(o, 'the ID is set and the values stay', z3.And(t.id(o.st) == i, t.same(o.st, t.n(c.pre), lambda k: t.at(c.pre, k))))
        for o in nothrow(c, c.run(f'^getid_{T}$', [t.this], c.st.fork()), 'getID'):
            c.prove(o, 'the ID is reported', z3.And(term(o.val) == t.id(c.pre), t.kept(c.pre, o.st)))
        for o in nothrow(c, c.run(f'^hasid_{T}$', [t.this], c.st.fork()), 'hasID'):
            c.prove(o, 'an ID is there unless it is one of the two special values', boolean(o) == z3.And(t.id(c.pre) != bvv(2**32 - 1, 32), t.id(c.pre) != bvv(2**32 - 2, 32)))
        for o in nothrow(c, c.run(f'^setsubset_{T}$', [t.this, b], c.st.fork()), 'setSubsetCollection'):
            c.prove(o, 'declaring it a subset collection has no effect', t.kept(c.pre, o.st))
            for o2 in nothrow(c, c.run(f'^subset_{T}$', [t.this], o.st), 'isSubsetCollection'):
                c.prove(o2, 'it is never a subset collection', z3.Not(boolean(o2)))
    return f

def buffers(T):
    def f(c):
        t = Coll(c, T); t.small(); t.id(c.st)
        r = c.ptr('buffers'); W = 'podio::CollectionWriteBuffers'
        g = lambda st, n: st.mem.get(r.add(c.field(W, n)), 64)
        for o in nothrow(c, c.run(f'^buffers_{T}$', [r, t.this], c.st.fork()), 'getBuffers'):
            st = o.st
            eq = lambda p, q: c.eng.peq(st, p if isinstance(p, Ptr) else Ptr(HEAP, (Sel('h', p),)), q)
            c.prove(o, 'the write buffers expose exactly the stored values', z3.And(eq(g(st, 'vecPtr'), t.vp), eq(st.mem.get(t.vpp, 64), t.vp), eq(g(st, 'data'), t.vpp)))
            c.prove(o, 'there are no relations or vector members of others in them', z3.And(eq(g(st, 'references'), t.refs), eq(g(st, 'vectorMembers'), t.vm)))
            c.prove(o, 'the values and the ID stay', t.kept(c.pre, st))
        for o in nothrow(c, c.run(f'^prepare_{T}$', [t.this], c.st.fork()), 'preparing'):
            c.prove(o, 'preparing for writing or after reading changes nothing', t.kept(c.pre, o.st))
    return f

def from_buffers(T):
    def f(c):
        """buffers of the factory -> collection, with the functions the library registers"""
        w = Coll(c, T, this=c.ptr('vec'))
        RB = 'podio::CollectionReadBuffers'
        b = c.ptr('buffers')
        sub = z3.Bool('subset')
        ctype = CPP[T]
        for o in nothrow(c, c.run(rf'^int podio::\(anonymous namespace\)::registerUserDataCollection<{ctype}>\({ctype}\)::.lambda.\(bool\)::operator\(\)\(bool\) const$', [b, c.ptr('closure'), sub]), 'creating buffers'):
            st = o.st
            d = st.mem.get(b.add(c.field(RB, 'data')), 64)
            ok = isinstance(d, Ptr) and d.root.kind == 'new' and not d.steps
            c.prove(o, 'new buffers own an empty list of values and nothing else', ok and z3.And(stdlib.vlen(st, d) == 0, term(st.mem.get(b.add(c.field(RB, 'references')), 64)) == 0, term(st.mem.get(b.add(c.field(RB, 'vectorMembers')), 64)) == 0))
            c.prove(o, 'they have the version of user data collections', term(st.mem.get(b.add(c.field(RB, 'schemaVersion')), 32)) == 1)
        # a collection made from buffers that a reader has filled
        st0 = c.st.fork()
        dt = z3.BitVec('data', 64); dv = Ptr(HEAP, (Sel('h', dt),))
        st0.facts.append(dt != 0)
        st0.mem.put(b.add(c.field(RB, 'data')), 64, dt)
        at0 = lambda st, i: term(st.mem.get(dv.elem(i, w.z), w.w), st.mem)
        at0(st0, bvv(0)); st0.assume(z3.ULT(stdlib.vlen(st0, dv), bvv(1 << 40)))
        res = c.ptr('result')
        for o in nothrow(c, c.run(create_fn(c, T), [res, c.ptr('closure'), b, sub], st0), 'creating a collection'):
            st = o.st
            p = st.mem.get(res, 64)
            ok = isinstance(p, Ptr) and p.root.kind == 'new'
            c.prove(o, 'a collection is returned', ok)
            if ok:
                t = Coll(c, T, this=p)
                i = z3.BitVec('i', 64)
                c.prove(o, 'it holds exactly the values of the buffers in order', z3.And(t.n(st) == stdlib.vlen(c.pre, dv), z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(st)), t.at(st, i) == at0(c.pre, i)))))
            fr = [e[1] for e in st.events if e[0] == 'free']
            c.prove(o, 'the list of the buffers is freed exactly once, nothing else', len(fr) == 1 and term(fr[0], st.mem) == dt)
            c.prove(o, 'the buffers are left empty', term(st.mem.get(b.add(c.field(RB, 'data')), 64)) == 0)
    return f
MANG = dict(zip(TYPES, 'fdasilhtjm'))
def create_fn(c, T):
    r = [x for x in c.v.lookup('') if f'registerUserDataCollectionI{MANG[T]}E' in x and re.search(r'lambda.\(podio::CollectionReadBuffers&&, bool\)::operator\(\)|UlON5podio21CollectionReadBuffersEbE_clES', c.v.mods[0].dem.get(x, '') + x + next((m.dem[x] for m in c.v.mods if x in m.dem), ''))]
    r = [x for x in r if x.startswith('_ZZZN') or x.startswith('_ZZZ')]
    if len(r) != 1:
        raise Unsupported(f'{len(r)} functions create a collection of {T}')
    return r[0]

CONTRACTS = []
for T in TYPES:
    for what, f in (('construction', construct), ('move construction and assignment', moves), ('push_back, create, resize and clear', adding), ('element access, size and range', access), ('ID and subset nature', identity), ('write buffers', buffers), ('read buffers', from_buffers)):
        CONTRACTS.append((f'UserDataCollection<{T}> {what}', f(T)))

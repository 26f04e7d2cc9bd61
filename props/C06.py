"""C06: buffers are created by the factory function registered for the exact version"""
from props.common import *
TITLE = 'Buffers are created by the factory function registered for the exact version'
HARNESS = ['c06.cpp']
modules = core('CollectionBufferFactory.cc')
ASSUMPTIONS = ['versions given at registration are at least 1 and creation functions are not empty']
NOTE = 'registerCreationFunc and createBuffers are proved against a map (type, version) -> function for every state of the store, every type and version; loops over the versions are summarised inductively.'
CLS = 'podio::CollectionBufferFactory'
FT = 'std::function<podio::CollectionReadBuffers (bool)>'
RB = 'podio::CollectionReadBuffers'

class Store:
    def __init__(t, c):
        t.c = c; t.this = c.ptr('factory')
        t.map = MapView(c, t.this.add(c.field(CLS, 'm_funcMap')), STR, f'std::vector<{FT}>')
    def has(t, st, k): return t.map.has(st, k)
    def n(t, st, k): return t.map.seq(k).len(st)
    def f(t, st, k, i): return t.map.seq(k).at(st, i, FT)
    def other(t, pre, st, s):
        k = t.map.key(); i = z3.BitVec('i', 64)
        return z3.ForAll([k, i], z3.Implies(k != s, z3.And(t.has(pre, k) == t.has(st, k), z3.Implies(t.has(pre, k), z3.And(t.n(pre, k) == t.n(st, k), z3.Implies(z3.ULT(i, t.n(pre, k)), t.f(pre, k, i) == t.f(st, k, i)))))))

def register(c):
    t = Store(c); p, s = c.string('type')
    ver = c.bv('version', 32); v = z3.ZeroExt(32, ver)
    fp = c.ptr('func'); fn = z3.Const('newfn', FnS)
    c.st.mem.put(fp.sub('#fn'), FnS, fn)
    c.assume(ver != 0, fn != NULLFN)
    k = t.map.key(); c.assume(z3.ForAll([k], z3.Implies(t.has(c.st, k), z3.ULT(t.n(c.st, k), bvv(1 << 33)))))
    t.f(c.st, s, 0)
    i = z3.BitVec('i', 64)
    for o in c.run(r'^podio::CollectionBufferFactory::registerCreationFunc\(', [t.this, p, ver, fp]):
        if o.kind == 'throw':
            c.prove(o, 'registration does not throw', False); continue
        pre, st = c.pre, o.st
        n0 = z3.If(t.has(pre, s), t.n(pre, s), bvv(0))
        c.prove(o, 'the type is known afterwards', t.has(st, s))
        c.prove(o, 'versions up to the highest registered one are known', t.n(st, s) == z3.If(z3.ULT(n0, v), v, n0))
        c.prove(o, 'the function is stored for exactly this version', t.f(st, s, simp(v - 1)) == fn)
        c.prove(o, 'functions of other versions that were known stay', z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, n0), i != v - 1), t.f(st, s, i) == t.f(pre, s, i))))
        c.prove(o, 'versions below that were not known yet get this function', z3.ForAll([i], z3.Implies(z3.And(z3.ULE(n0, i), z3.ULT(i, v)), t.f(st, s, i) == fn)))
        c.prove(o, 'other types are unchanged', t.other(pre, st, s))

def create(c):
    t = Store(c); p, s = c.string('type')
    ver = c.bv('version', 32); v = z3.ZeroExt(32, ver)
    sub = z3.Bool('subset')
    ret = c.ptr('result')
    i = z3.BitVec('i', 64)
    t.f(c.st, s, 0); c.assume(z3.ULT(t.n(c.st, s), bvv(1 << 33)), z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(c.st, s)), t.f(c.st, s, i) != NULLFN)))
    fields = {'data': 64, 'references': 64, 'vectorMembers': 64, 'schemaVersion': 32}
    vals = {k: z3.BitVec('made_' + k, w) for k, w in fields.items()}
    made = {k: z3.Const('made_' + k, FnS) for k in ('createCollection', 'deleteBuffers')}
    def call(eng, st, f, a, n, ins, sret):
        st.events.append(('call', f, a[2] if sret else a[1]))
        for k, w in fields.items():
            st.mem.put(a[0].add(c.field(RB, k)), w, vals[k])
        for w in (0, 8):
            st.mem.put(a[0].add(c.field(RB, 'type') + w), 64, z3.BitVec('made_type%d' % w, 64))
        for k, x in made.items():
            st.mem.put(a[0].add(c.field(RB, k)).sub('#fn'), FnS, x)
        return None
    c.eng.fncall = call
    size = stdlib.types(c.eng).size(RB)
    for o in c.run(r'^podio::CollectionBufferFactory::createBuffers\(', [ret, t.this, p, ver, sub]):
        pre, st = c.pre, o.st
        if o.kind == 'throw':
            c.prove(o, 'createBuffers does not throw by itself', False); continue
        calls = [e for e in st.events if e[0] == 'call']
        known = z3.And(t.has(pre, s), ver != 0, z3.ULE(v, t.n(pre, s)))
        flag = st.mem.get(ret.add(size), 8) != 0
        c.prove(o, 'buffers are returned exactly for a known type and version', flag == known)
        c.prove(o, 'a creation function is called exactly once for a known version and never otherwise', z3.If(known, bvv(1), bvv(0)) == len(calls))
        for e in calls:
            a = e[2] if z3.is_expr(e[2]) and z3.is_bool(e[2]) else term(e[2]) != 0
            c.prove(o, 'it is the function registered for this type and version', e[1] == t.f(pre, s, simp(v - 1)))
            c.prove(o, 'it is asked for the requested kind', a == sub)
            for k, w in fields.items():
                c.prove(o, f'its buffers are returned unchanged ({k})', z3.Implies(flag, term(st.mem.get(ret.add(c.field(RB, k)), w), st.mem) == vals[k]))
            for k, x in made.items():
                c.prove(o, f'its buffers are returned unchanged ({k})', z3.Implies(flag, stdlib.getfn(st, ret.add(c.field(RB, k))) == x))
        c.prove(o, 'the store is unchanged', z3.And(t.other(pre, st, s), t.has(pre, s) == t.has(st, s), z3.Implies(t.has(pre, s), t.n(pre, s) == t.n(st, s))))

CONTRACTS = [('CollectionBufferFactory::registerCreationFunc', register), ('CollectionBufferFactory::createBuffers', create)]

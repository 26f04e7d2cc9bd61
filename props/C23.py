"""C23: ownership of I/O buffers"""
from props.common import *
from props.C12 import TYPES
TITLE = 'I/O buffers are owned by exactly one holder and freed exactly once'
HARNESS = ['c23.cpp']
RB = 'podio::CollectionReadBuffers'
CLIENT = MODEL_INC + LINK_INC + '''#include "podio/CollectionBuffers.h"
extern "C" {
void move(podio::CollectionReadBuffers* r, podio::CollectionReadBuffers& b) { new (r) podio::CollectionReadBuffers(std::move(b)); }
void assign(podio::CollectionReadBuffers& r, podio::CollectionReadBuffers& b) { r = std::move(b); }
void destroy(podio::CollectionReadBuffers& b) { b.~CollectionReadBuffers(); }
void fresh(podio::CollectionReadBuffers* r) { new (r) podio::CollectionReadBuffers(); }
void fromwrite(podio::CollectionReadBuffers* r, const podio::CollectionWriteBuffers& b) { new (r) podio::CollectionReadBuffers(b); }
}
'''
modules = model(CLIENT, r'/(Hit|Cluster|Part|Info)(Collection|CollectionData)\.cc', '/DatamodelLinks.cc', core=('UserDataCollection.cc',))
FnS = stdlib.FnS; NULLFN = stdlib.NULLFN

class Buffers:
    def __init__(b, c, p):
        b.c, b.p = c, p
        b.at = {m: p.add(c.field(RB, m)) if c.field(RB, m) else p for m in ('data', 'references', 'vectorMembers', 'schemaVersion', 'type', 'createCollection', 'deleteBuffers')}
    def ptr(b, st, m): return term(st.mem.get(b.at[m], 64), st.mem)
    def version(b, st): return term(st.mem.get(b.at['schemaVersion'], 32))
    def tlen(b, st): return term(st.mem.get(b.at['type'], 64), st.mem)
    def tptr(b, st): return term(st.mem.get(b.at['type'].add(8), 64), st.mem)
    def fn(b, st, m): return stdlib.getfn(st, b.at[m])
    def all(b, st): return [b.ptr(st, 'data'), b.ptr(st, 'references'), b.ptr(st, 'vectorMembers'), b.version(st), b.tlen(st), b.tptr(st), b.fn(st, 'createCollection'), b.fn(st, 'deleteBuffers')]
    def holds(b, st, v): return z3.And(*[x == y for x, y in zip(b.all(st), v)])
    def empty(b, st): return z3.And(*[x == 0 for x in b.all(st)[:3]], b.version(st) == 0, b.tlen(st) == 0)

def moves(c):
    a, b, r = Buffers(c, c.ptr('a')), Buffers(c, c.ptr('b')), Buffers(c, c.ptr('r'))
    va, vb = a.all(c.st), b.all(c.st)
    def call(eng, st, f, args, n, ins, sret):
        w = Buffers(c, args[1])
        st.events.append(('deleted', f, w.p, w.all(st)))
    c.eng.fncall = call
    deleted = lambda o: [e for e in o.st.events if e[0] == 'deleted']
    def quiet(o):
        c.prove(o, 'nothing is freed', z3.BoolVal(not deleted(o) and not frees(o)))
    for o in nothrow(c, c.run('^move$', [r.p, a.p], c.st.fork()), 'move construction'):
        c.prove(o, 'the new buffers hold everything the old ones held', r.holds(o.st, va))
        c.prove(o, 'the source is left empty', a.empty(o.st))
        c.prove(o, 'the source no longer frees anything', a.fn(o.st, 'deleteBuffers') == NULLFN)
        quiet(o)
    for o in nothrow(c, c.run('^fresh$', [r.p], c.st.fork()), 'default construction'):
        c.prove(o, 'new buffers are empty and free nothing', z3.And(r.empty(o.st), r.fn(o.st, 'deleteBuffers') == NULLFN))
    for o in nothrow(c, c.run('^assign$', [a.p, b.p], c.st.fork()), 'move assignment'):
        d = deleted(o)
        c.prove(o, 'what the target held before is freed exactly once, if it was its to free', z3.BoolVal(len(d) == 1) == (va[7] != NULLFN) if len(d) < 2 else False)
        for e in d:
            c.prove(o, 'it is freed by its own deleter and in full', z3.And(e[1] == va[7], *[x == y for x, y in zip(e[3][:6], va[:6])], z3.BoolVal(repr(e[2]) == repr(a.p))))
        c.prove(o, 'the target holds everything the source held', a.holds(o.st, vb))
        c.prove(o, 'the source is left empty', z3.And(b.empty(o.st), b.fn(o.st, 'deleteBuffers') == NULLFN))
        c.prove(o, 'nothing else is freed', z3.BoolVal(not frees(o)))
    for o in nothrow(c, c.run('^assign$', [a.p, a.p], c.st.fork()), 'self assignment'):
        c.prove(o, 'assignment to itself changes nothing', a.holds(o.st, va)); quiet(o)
    for o in nothrow(c, c.run('^destroy$', [a.p], c.st.fork()), 'destruction'):
        d = deleted(o)
        c.prove(o, 'what nobody took over is freed exactly once', z3.BoolVal(len(d) == 1) == (va[7] != NULLFN) if len(d) < 2 else False)
        for e in d:
            c.prove(o, 'it is freed by its own deleter and in full', z3.And(e[1] == va[7], *[x == y for x, y in zip(e[3][:6], va[:6])]))
        c.prove(o, 'nothing else is freed', z3.BoolVal(not frees(o)))
    w = c.ptr('w'); W = 'podio::CollectionWriteBuffers'
    for o in nothrow(c, c.run('^fromwrite$', [r.p, w], c.st.fork()), 'construction from write buffers'):
        for m in ('data', 'references', 'vectorMembers'):
            c.prove(o, f'they refer to the same {m}', r.ptr(o.st, m) == term(o.st.mem.get(w.add(c.field(W, m)) if c.field(W, m) else w, 64), o.st.mem))
        c.prove(o, 'they own nothing', r.fn(o.st, 'deleteBuffers') == NULLFN); quiet(o)

def registrations(c, want):
    """run the static initialisers (of the modules that mention the type, if that is enough); the creation functions they register: name -> (version, function, state)"""
    c.eng.static_init = 'first'
    made = {}
    for s, p in (('podio::CollectionBufferFactory::mutInstance()', 'factory'), ('podio::SchemaEvolution::mutInstance()', 'evolution'), ('podio::DatamodelRegistry::mutInstance()', 'registry')):
        c.eng.contracts.append((lambda d, s=s: d == s, lambda eng, st, a, ins, dem, p=p: c.ptr(p)))
    c.eng.contracts.append((lambda d: 'DatamodelRegistry::registerDatamodel' in d, lambda eng, st, a, ins, dem: c.bv('registry_index')))
    def create(eng, st, a, ins, dem):
        t = stdlib.get_str(eng, st, a[1])
        n = next((b.decode() for b, x in eng.strlits.items() if eng.valid(st, x == t)), None)
        if n is None:
            raise Unsupported('name of a registered type')
        made[n] = (term(a[2]), stdlib.getfn(st, a[3]), c.v.mods[0])
    c.eng.contracts.append((lambda d: 'CollectionBufferFactory::registerCreationFunc' in d, create))
    c.eng.contracts.append((lambda d: 'SchemaEvolution::registerEvolutionFunc' in d, lambda eng, st, a, ins, dem: None))
    lit = 'c"' + want + '\\00"'
    for mods in ([m for m in c.v.mods if any(lit in t for t in m._gtext.values())], c.v.mods):
        for m in mods:
            for fn in m._ftext:
                if fn.startswith('_GLOBAL__sub_I_') and want not in made:
                    c.run(fn, [], c.st.fork(), mod=m)
    c.eng.static_init = False
    return made

def nrefs(n):
    if n in LINKS:
        return 2, None
    if n.startswith('podio::UserData'):
        return None, None
    return len(TYPES[n][2]) + len(TYPES[n][3]), len(TYPES[n][4])
USER = ('float', 'double', 'int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t')
def typename(n):
    if n in LINKS:
        return f'podio::LinkCollection<{LINKS[n][1]},{LINKS[n][2]}>'
    return n if n in USER and False else Kind(n).C if n in KINDS else n
NAMES = list(KINDS) + list(LINKS) + [f'podio::UserDataCollection<{t}>' for t in USER]

def factory(n):
    def f(c):
        made = registrations(c, typename(n))
        c.prove(c.st, 'a creation function is registered for the type', z3.BoolVal(typename(n) in made))
        if typename(n) not in made:
            return
        version, fn, _ = made[typename(n)]
        sub = z3.Bool('subset')
        r = Buffers(c, c.ptr('result'))
        nr, nv = nrefs(n)
        new = lambda o, p: isinstance(p, Ptr) and p.root.kind == 'new' and not p.steps
        k = 0
        c.pre = c.st.fork()
        creators = None
        for o in stdlib.run_closure(c.eng, c.st.fork(), fn, [sub], r.p):
            if c.eng.check(o.st.facts, (), 2000) == z3.unsat:
                continue
            k += 1
            st = o.st
            if o.kind == 'throw':
                c.prove(o, 'creating buffers does not throw', False); continue
            data, refs, vecs = (st.mem.get(r.at[m], 64) for m in ('data', 'references', 'vectorMembers'))
            c.prove(o, 'there are data buffers exactly if it is no subset collection', (r.ptr(st, 'data') != 0) if nr is None else (r.ptr(st, 'data') == 0) == sub)
            for m, p in (('data', data), ('references', refs), ('vectorMembers', vecs)):
                c.prove(o, f'{m} is a new allocation of its own', z3.Or(r.ptr(st, m) == 0, z3.BoolVal(new(o, p))))
            c.prove(o, 'the version is the one it is registered for', r.version(st) == version)
            c.prove(o, 'the type is the one it is registered for', stdlib.view(c.eng, st, r.tlen(st), st.mem.get(r.at['type'].add(8), 64)) == c.eng.lit(typename(n).encode()))
            c.prove(o, 'the buffers know how to create a collection and how to free what they hold', z3.And(r.fn(st, 'createCollection') != NULLFN, r.fn(st, 'deleteBuffers') != NULLFN))
            if nr is not None:
                c.prove(o, 'there is one list of references per relation, or a single one for subset collections', stdlib.vlen(st, refs) == z3.If(sub, bvv(1), bvv(nr)))
                for i in range(max(nr, 1)):
                    c.prove(o, f'list {i} of references exists', z3.Implies(z3.ULT(i, stdlib.vlen(st, refs)), term(st.mem.get(refs.elem(bvv(i), 8), 64), st.mem) != 0))
            if nv is not None:
                c.prove(o, 'there is one buffer per vector member, and none for subset collections', stdlib.vlen(st, vecs) == z3.If(sub, bvv(0), bvv(nv)))
                for i in range(nv):
                    c.prove(o, f'buffer {i} of vector members exists', z3.Implies(z3.Not(sub), term(st.mem.get(vecs.elem(bvv(i), 40).add(32), 64), st.mem) != 0))
            made_by = (r.fn(st, 'createCollection'), r.fn(st, 'deleteBuffers'))
            if creators is None:
                creators = []
            if not any(z3.eq(made_by[1], x[1]) for x in creators):
                creators.append(made_by)
        if not k:
            raise Unsupported('no reachable path')
        # the deleter and the creator, for any buffers of this type
        for mk, dl in creators[:4]:
            dispose(c, n, nr, nv, dl)
            take_over(c, n, nr, nv, mk)
    return f

def dispose(c, n, nr, nv, dl):
    b = Buffers(c, c.ptr('buffers')); h = lambda t: Ptr(HEAP, (Sel('h', t),))
    st = c.st.fork()
    data, refs, vecs = (b.ptr(st, m) for m in ('data', 'references', 'vectorMembers'))
    if nr is not None:
        st.assume(refs != 0)
    st.assume(z3.Or(data == 0, z3.And(data != refs, data != vecs)), z3.Or(refs == 0, refs != vecs))
    mem = []
    if nv:
        st.assume(z3.Implies(data != 0, z3.And(vecs != 0, stdlib.vlen(st, h(vecs)) == nv)))
        for i in range(nv):
            t = term(st.mem.get(h(vecs).elem(bvv(i), 40).add(32), 64), st.mem)
            st.assume(z3.Implies(data != 0, z3.And(t != data, t != refs, t != vecs, *[t != x for x in mem])))
            mem.append(t)
    for o in nothrow(c, stdlib.run_closure(c.eng, st, dl, [b.p]), 'freeing buffers'):
        fr = [term(x, o.st.mem) for x in frees(o)]
        once = lambda x: z3.Sum([z3.If(y == x, 1, 0) for y in fr]) if fr else z3.IntVal(0)
        for what, x, cond in [('data', data, data != 0), ('references', refs, refs != 0), ('vectorMembers', vecs, vecs != 0)] + [(f'vector member {i}', x, z3.And(data != 0, x != 0)) for i, x in enumerate(mem)]:
            if nr is None and what != 'data':
                continue
            c.prove(o, f'{what}: freed exactly once if it is still there', z3.Implies(x != 0, once(x) == z3.If(cond, 1, 0)) if what[:8] != 'vector m' else z3.Implies(z3.And(x != 0, data != 0), once(x) == 1))
        allowed = lambda y: z3.Or(y == 0, y == data, y == refs, y == vecs, *[z3.And(data != 0, y == x) for x in mem])
        for y in fr:
            c.prove(o, 'nothing else is freed', allowed(y))
        c.prove(o, 'the buffers no longer refer to what was freed', z3.And(b.ptr(o.st, 'data') == 0, *([b.ptr(o.st, m) == 0 for m in ('references', 'vectorMembers')] if nr is not None else [])))

def take_over(c, n, nr, nv, mk):
    """creating a collection from buffers of the kind asked for"""
    b = Buffers(c, c.ptr('buffers')); h = lambda t: Ptr(HEAP, (Sel('h', t),))
    st = c.st.fork(); sub = z3.Bool('subset_collection'); r = c.ptr('collection')
    data, refs, vecs = (b.ptr(st, m) for m in ('data', 'references', 'vectorMembers'))
    st.assume(*[z3.Or(x == 0, OLD(x)) for x in (data, refs, vecs)])
    if nr is None:
        st.assume(data != 0)
    else:
        st.assume((data == 0) == sub, refs != 0, refs != vecs, z3.Or(data == 0, z3.And(data != refs, data != vecs)))
    mem = []
    if nv is not None:
        st.assume(vecs != 0, stdlib.vlen(st, h(vecs)) == z3.If(sub, bvv(0), bvv(nv)))
        for i in range(nv):
            t = term(st.mem.get(h(vecs).elem(bvv(i), 40).add(32), 64), st.mem)
            st.assume(z3.Implies(z3.Not(sub), z3.And(t != 0, OLD(t), t != data, t != refs, t != vecs, *[t != x for x in mem])))
            mem.append(t)
    st.assume(z3.Implies(data != 0, z3.ULT(stdlib.vlen(st, h(data)), 1 << 31)))
    c.pre = st.fork()
    for o in nothrow(c, stdlib.run_closure(c.eng, st, mk, [b.p, sub], r), 'creating a collection'):
        if c.eng.check(o.st.facts, (), 2000) == z3.unsat:
            continue
        st = o.st
        fr = [term(x, st.mem) for x in frees(o)]
        once = lambda x: z3.Sum([z3.If(y == x, 1, 0) for y in fr]) if fr else z3.IntVal(0)
        coll = st.mem.get(r, 64)
        c.prove(o, 'a new collection is returned', z3.BoolVal(isinstance(coll, Ptr) and coll.root.kind == 'new' and not coll.steps))
        c.prove(o, 'the buffers no longer hold what the collection took over', z3.And(*[b.ptr(st, m) == 0 for m in ('data',) + (('references', 'vectorMembers') if nr is not None else ())]))
        for i, y in enumerate(fr):
            c.prove(o, 'only the buffers are freed', z3.Or(y == 0, z3.Not(OLD(y)), y == refs, y == vecs, *([y == data] if nr is None else [])))
        if nr is not None:
            for what, x in (('references', refs), ('vectorMembers', vecs)):
                c.prove(o, f'the {what} are emptied and freed exactly once', z3.Implies(x != 0, once(x) == 1))
            k = Kind(n); t = Coll(c, k, this=coll)
            c.prove(o, 'the collection is of the kind asked for', t.subset(st) == sub)
            mod = next(m for m in c.v.mods if m.record(k.data))
            got = lambda f: term(st.mem.get(t.d(f), 64), st.mem)
            c.prove(o, 'the collection holds the data, if it is no subset collection', got('m_data') == z3.If(sub, bvv(0), data))
            for i, m in enumerate(TYPES[n][4] if nv else ()):
                c.prove(o, f'the collection holds the buffer of vector member {m}', got(f'm_vec_{m}') == z3.If(sub, bvv(0), mem[i]))
        else:
            c.prove(o, 'the data buffer is emptied and freed exactly once', once(data) == 1)

CONTRACTS = [('CollectionReadBuffers: moving and destroying', moves)] + [(f'buffers of {typename(n)}', factory(n)) for n in NAMES]
ASSUMPTIONS = ['fewer than 2^31 objects per collection', 'buffers given to a creation function are of the kind (plain or subset) asked for and hold the lists of that kind', 'std::function, std::unique_ptr, std::vector and std::string behave as their (assumed) contracts say', 'the path on which a creation function throws because of malformed data is not covered', 'one thread at a time owns the buffers']
NOTE = 'move construction, move assignment (also to itself), destruction and construction from write buffers are proved for all contents; for every data type, link and user data type the registered creation function is found by executing the static initialisers, and the buffers it makes, their deleter and their collection creator are proved to allocate, hand over and free everything exactly once.'

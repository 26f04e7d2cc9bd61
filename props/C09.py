"""C09: identity of the objects in a collection"""
from props.common import *
import re
TITLE = 'Objects in a collection are identified by collection ID and position'
HARNESS = ['c09.cpp']
ASSUMPTIONS = ['a collection has fewer than 2^31 - 1 objects (the index is a 32 bit integer)', 'the objects of a collection and the control blocks of handles are distinct allocations', 'no address is used again for another object during one call', 'std::vector, std::deque and std::for_each behave as specified by the C++ standard (contracts of podver/stdlib.py)']
NOTE = 'element access, create, push_back, setID, prepareAfterRead and getObjectID of four generated datatypes and of a link collection are proved for every collection; so are construction and clear(), which deletes every object exactly once.'
LIMIT = 150
TOTAL = 240
ALL = ['Hit', 'Cluster', 'Part', 'Info', 'Link']
CLIENT = MODEL_INC + LINK_INC + '#include <new>\nextern "C" {\n'
for n in ALL:
    k = Kind(n)
    CLIENT += f'''size_t size_{n}(const {k.C}& c) {{ return c.{k.C}::size(); }}
bool empty_{n}(const {k.C}& c) {{ return c.{k.C}::empty(); }}
void index_{n}({k.M}* r, {k.C}& c, size_t i) {{ new (r) {k.M}(c[i]); }}
void cindex_{n}({k.T}* r, const {k.C}& c, size_t i) {{ new (r) {k.T}(c[i]); }}
void at_{n}({k.M}* r, {k.C}& c, size_t i) {{ new (r) {k.M}(c.at(i)); }}
void cat_{n}({k.T}* r, const {k.C}& c, size_t i) {{ new (r) {k.T}(c.at(i)); }}
void create_{n}({k.M}* r, {k.C}& c) {{ new (r) {k.M}(c.create()); }}
void push_{n}({k.C}& c, const {k.M}& o) {{ c.push_back(o); }}
void cpush_{n}({k.C}& c, const {k.T}& o) {{ c.push_back(o); }}
void setid_{n}({k.C}& c, uint32_t i) {{ c.{k.C}::setID(i); }}
void make_{n}({k.C}* r) {{ new (r) {k.C}(); }}
void wipe_{n}({k.C}& c) {{ c.{k.C}::clear(); }}
void after_{n}({k.C}& c) {{ c.{k.C}::prepareAfterRead(); }}
uint32_t getid_{n}(const {k.C}& c) {{ return c.{k.C}::getID(); }}
uint64_t objid_{n}(const {k.T}& o) {{ auto i = o.getObjectID(); return uint64_t(uint32_t(i.index)) | uint64_t(i.collectionID) << 32; }}
uint64_t mobjid_{n}(const {k.M}& o) {{ auto i = o.getObjectID(); return uint64_t(uint32_t(i.index)) | uint64_t(i.collectionID) << 32; }}
'''
CLIENT = CLIENT.replace('c.HitClusterLinkCollection::', 'c.podio::LinkCollection<Hit, Cluster>::')
CLIENT += '''void args_Hit(MutableHit* r, HitCollection& c, unsigned long long id, double e) { new (r) MutableHit(c.create(id, e)); }
void args_Cluster(MutableCluster* r, ClusterCollection& c, double e) { new (r) MutableCluster(c.create(e)); }
void args_Part(ns::MutablePart* r, ns::PartCollection& c, double e, int p) { new (r) ns::MutablePart(c.create(e, p)); }
}
'''
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

def access(n):
    def f(c):
        t = Coll(c, n); t.assume()
        i = c.bv('i'); r = c.ptr('result'); h = UHandle(c, n, 'result', r, False)
        for o in nothrow(c, c.run(f'^size_{n}$', [t.this], c.st.fork()), 'size'):
            c.prove(o, 'the size is the number of objects', z3.And(term(o.val) == t.n(c.pre), t.kept(c.pre, o.st)))
        for o in nothrow(c, c.run(f'^empty_{n}$', [t.this], c.st.fork()), 'empty'):
            c.prove(o, 'empty without objects', z3.And(boolean(o) == (t.n(c.pre) == 0), t.kept(c.pre, o.st)))
        for name in ('index', 'cindex', 'at', 'cat'):
            st = c.st.fork()
            if 'at' not in name:
                st.assume(z3.ULT(i, t.n(st)))
            outs = c.run(f'^{name}_{n}$', [r, t.this, i], st)
            c.raises(outs, f'{name} throws exactly beyond the end', z3.UGE(i, t.n(c.pre)))
            for o in outs:
                c.prove(o, f'{name} changes nothing', t.kept(c.pre, o.st))
                if o.kind == 'ret':
                    c.prove(o, f'{name} returns a handle to the object at this position, which owns nothing', z3.And(h.obj(o.st) == t.entry(c.pre, i), h.ctrl(o.st) == 0))
                    c.prove(o, 'nothing is freed', not frees(o))
    return f

def creates(n, fn, *extra):
    def f(c):
        t = Coll(c, n); t.assume()
        r = c.ptr('result'); h = UHandle(c, n, 'result', r, False)
        args = [x() if callable(x) else x for x in extra]
        for o in c.run(f'^{fn}_{n}$', [r, t.this] + [z3.Const(f'arg{i}', stdlib_sort(x)) for i, x in enumerate(extra)]):
            pre, st = c.pre, o.st
            c.prove(o, 'objects are created exactly by collections that own their objects', t.subset(pre) if o.kind == 'throw' else z3.Not(t.subset(pre)))
            if o.kind == 'throw':
                c.prove(o, 'a refused creation changes nothing', t.kept(pre, st))
                continue
            m = t.n(pre); e = t.entry(st, m)
            c.prove(o, 'the objects that were there keep their positions and one is added at the end', t.same_list(pre, st, m + 1))
            c.prove(o, 'no other object changes its ID', t.same_ids(pre, st, e))
            frame(c, o, 'no other object changes in any way')
            c.prove(o, 'the new object has the next free position as its index and the ID of the collection', z3.And(z3.SignExt(32, t.index(st, e)) == m, t.cid(st, e) == t.id(pre)))
            c.prove(o, 'the new object is none of those that were there', z3.And(e != 0, z3.ForAll([z3.BitVec('i', 64)], z3.Implies(z3.ULT(z3.BitVec('i', 64), m), t.entry(pre, z3.BitVec('i', 64)) != e))))
            c.prove(o, 'the returned handle refers to the new object and does not own it', z3.And(h.obj(st) == e, h.ctrl(st) == 0))
            c.prove(o, 'ID and subset nature of the collection stay', z3.And(t.id(st) == t.id(pre), t.subset(st) == t.subset(pre)))
            t.check_inv(o)
    return f
def stdlib_sort(w):
    return z3.BitVecSort(w) if isinstance(w, int) else w

def pushes(n):
    def f(c):
        t = Coll(c, n); t.assume()
        h = UHandle(c, n, 'object')
        x = h.obj(c.st)
        c.assume(x != 0); t.apart(h)
        for o in c.run(f'^push_{n}$', [t.this, h.p]):
            pre, st = c.pre, o.st
            tracked = t.index(pre, x) >= 0; un = t.index(pre, x) == bvv(-1, 32)
            c.prove(o, 'refused exactly if an owning collection gets an object with an owner or a subset collection one without', (z3.Not if o.kind == 'ret' else lambda q: q)(z3.If(t.subset(pre), z3.Not(tracked), z3.Not(un))))
            if o.kind == 'throw':
                c.prove(o, 'a refused object changes nothing', t.kept(pre, st))
                continue
            m = t.n(pre)
            c.prove(o, 'the objects that were there keep their positions and the object is added at the end', z3.And(t.same_list(pre, st, m + 1), t.entry(st, m) == x))
            c.prove(o, 'an owning collection gives it the next free position as its index and the ID of the collection', z3.Implies(z3.Not(t.subset(pre)), z3.And(z3.SignExt(32, t.index(st, x)) == m, t.cid(st, x) == t.id(pre))))
            c.prove(o, 'no other object changes its ID', t.same_ids(pre, st, x))
            frame(c, o, 'no other object changes in any way', x, h.ctrl(pre))
            c.prove(o, 'a subset collection changes no ID at all', z3.Implies(t.subset(pre), t.same_ids(pre, st)))
            c.prove(o, 'ID and subset nature of the collection stay', z3.And(t.id(st) == t.id(pre), t.subset(st) == t.subset(pre)))
            t.check_inv(o)
    return f

def set_id(n):
    def f(c):
        t = Coll(c, n); t.assume(); d = c.bv('id', 32)
        for o in nothrow(c, c.run(f'^setid_{n}$', [t.this, d]), 'setID'):
            pre, st = c.pre, o.st
            i, x = z3.BitVecs('i x', 64)
            c.prove(o, 'the collection has the new ID', t.id(st) == d)
            c.prove(o, 'its objects stay in their places', z3.And(t.same_list(pre, st), t.subset(st) == t.subset(pre)))
            c.prove(o, 'all objects of an owning collection get the new collection ID', z3.Implies(z3.Not(t.subset(pre)), z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(pre)), t.cid(st, t.entry(st, i)) == d))))
            c.prove(o, 'no index changes', z3.ForAll([x], t.index(st, x) == t.index(pre, x)))
            c.prove(o, 'no other object changes its ID', z3.ForAll([x], z3.Or(t.cid(st, x) == t.cid(pre, x), z3.And(z3.Not(t.subset(pre)), z3.Exists([i], z3.And(z3.ULT(i, t.n(pre)), t.entry(pre, i) == x))))))
            t.check_inv(o)
        for o in nothrow(c, c.run(f'^getid_{n}$', [t.this], c.st.fork()), 'getID'):
            c.prove(o, 'the ID of the collection is reported', z3.And(term(o.val) == t.id(c.pre), t.kept(c.pre, o.st)))
    return f

def after_read(n):
    def f(c):
        t = Coll(c, n); t.assume()
        data = c.st.mem.get(t.d('m_data'), 64); dv = Ptr(HEAP, (Sel('h', term(data)),))
        c.assume(z3.Implies(z3.Not(t.prepared(c.st)), t.n(c.st) == 0))
        m = lambda st: stdlib.vlen(st, dv)
        c.assume(z3.Implies(z3.Not(t.subset(c.st)), z3.And(term(data) != 0, OLD(term(data)))), z3.ULT(m(c.st), bvv((1 << 31) - 1)))
        for o in nothrow(c, c.run(f'^after_{n}$', [t.this]), 'prepareAfterRead'):
            pre, st = c.pre, o.st
            own = z3.And(z3.Not(t.subset(pre)), z3.Not(t.prepared(pre)))
            c.prove(o, 'one object is made for every element of the buffers, the objects of a collection that is ready stay', z3.And(z3.Implies(own, t.n(st) == m(pre)), z3.Implies(z3.Not(own), t.same_list(pre, st))))
            c.prove(o, 'ID and subset nature of the collection stay', z3.And(t.id(st) == t.id(pre), t.subset(st) == t.subset(pre)))
            c.prove(o, 'the collection is ready', t.prepared(st))
            t.check_inv(o)
            i, j = z3.BitVecs('i j', 64)
            frame(c, o, 'no object that was there before changes in any way')
    return f

def made(n):
    def f(c):
        r = c.ptr('collection'); t = Coll(c, n, 'collection', r)
        for o in nothrow(c, c.run(f'^make_{n}$', [r]), 'construction'):
            st = o.st
            c.prove(o, 'a new collection is empty, owns its objects and is not ready for writing', z3.And(t.n(st) == 0, z3.Not(t.subset(st)), z3.Not(t.prepared(st))))
            t.check_inv(o)
            frame(c, o, 'no existing object changes')
    return f

GONE = Root('ghost', 'objects deleted')
def t_at(eng, v, st): return Ptr(HEAP, (Sel('h', term(v, st.mem)),))
def deletions(c, handles=True):
    """deleting an object runs its destructor, which is seen through this contract: no object is deleted twice; it frees the object and what belongs to it"""
    interfaces(c)
    virt0 = c.eng.virtual
    def delete(eng, st, p, ins):
        g = Ptr(GONE, ('#arr', Sel('e', term(p, st.mem), 8)))
        eng.safety(st.fork(), z3.Or(z3.Not(OBJECT(term(p, st.mem))), term(st.mem.get(g, 64)) == 0), 'no object is deleted twice', ins)
        st.mem.put(g, 64, bvv(1))
        return True
    c.eng.on_free = delete
    c.eng.havoc = True
    c.eng.contracts.append((lambda d: re.match(r'podio::LinkObj<.*>::~LinkObj\(\)$', d), lambda eng, st, a, ins, dem: None))
    def virt(eng, st, obj, slot, args, ins):
        fn = st.frames[-1].f.dem
        if slot == 1 and 'Concept' not in fn:
            delete(eng, st, args[0], ins)
            return None
        if slot == 6:       # unlink of an interface value
            return None
        return virt0(eng, st, obj, slot, args, ins)
    c.eng.virtual = virt
    def handle_dtor(eng, st, a, ins, dem):
        # proved in C13: the counter goes down; the last handle frees the object if it is owned by handles (never one that is in a collection)
        m = dem.split('::~')[0]
        st.mem.put(t_at(eng, st.mem.get(a[0].add(c.field(m, 'm_ctrlBlock')), 64), st), 32, fresh('count', z3.BitVecSort(32)))
        return None
    if handles:
        c.eng.contracts.append((lambda d: re.match(r'podio::utils::MaybeSharedPtr<.*>::~MaybeSharedPtr\(\)$', d), handle_dtor))
    x = z3.BitVec('x', 64)
    g = lambda st, a: term(st.mem.get(Ptr(GONE, ('#arr', Sel('e', a, 8))), 64))
    c.assume(z3.ForAll([x], g(c.st, x) == 0, patterns=[g(c.st, x)]))
    return lambda st, a: g(st, a) != 0

def cleared(n):
    def f(c):
        t = Coll(c, n); t.assume(); t.own()
        c.assume(z3.Not(t.subset(c.st)))        # (a subset collection: C10)
        gone = deletions(c)
        c.eng.loop_instances = [t.n(c.st)]
        i, j, x = z3.BitVecs('i j x', 64)
        c.assume(z3.Implies(z3.Not(t.subset(c.st)), z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, t.n(c.st))), t.entry(c.st, i) != t.entry(c.st, j)), patterns=[z3.MultiPattern(t.entry(c.st, i), t.entry(c.st, j))])))
        for o in nothrow(c, c.run(f'^wipe_{n}$', [t.this]), 'clear'):
            pre, st = c.pre, o.st
            own = z3.Not(t.subset(pre))
            c.prove(o, 'the collection is empty', t.n(st) == 0)
            c.prove(o, 'it has to be prepared for writing again', z3.Not(t.prepared(st)))
            c.prove(o, 'ID and subset nature of the collection stay', z3.And(t.id(st) == t.id(pre), t.subset(st) == t.subset(pre)))
            c.prove(o, 'a collection that owns its objects deletes all of them', z3.Implies(z3.And(own, z3.ULT(i, t.n(pre))), gone(st, t.entry(pre, i))))
            c.prove(o, 'no other object is deleted', z3.Implies(gone(st, x), z3.And(own, z3.Exists([i], z3.And(z3.ULT(i, t.n(pre)), t.entry(pre, i) == x)))))
            t.check_inv(o)
    return f

def ids(n):
    def f(c):
        k = Kind(n); h = UHandle(c, n, 'object'); t = Coll(c, n)
        x = h.obj(c.st); c.assume(x != 0)
        for fn in ('objid', 'mobjid'):
            for o in nothrow(c, c.run(f'^{fn}_{n}$', [h.p], c.st.fork()), 'getObjectID'):
                c.prove(o, 'the object ID is the index of the object and the ID of its collection', term(o.val) == z3.Concat(t.cid(c.pre, x), t.index(c.pre, x)))
                c.prove(o, 'asking for it changes nothing', t.same_ids(c.pre, o.st))
    return f

CONTRACTS = []
for n in ALL:
    C = Kind(n).coll
    CONTRACTS += [(f'{C} element access', access(n)), (f'{C}::create', creates(n, 'create')), (f'{C}::push_back', pushes(n)), (f'{C}::setID and getID', set_id(n)), (f'{C}::prepareAfterRead', after_read(n)), (f'{C}::{Kind(n).C.split("::")[-1]}', made(n)), (f'{C}::clear', cleared(n)), (f'{Kind(n).T}::getObjectID', ids(n))]
CONTRACTS += [('HitCollection::create with values', creates('Hit', 'args', 64, 64)), ('ClusterCollection::create with values', creates('Cluster', 'args', 64)), ('PartCollection::create with values', creates('Part', 'args', 64, 32))]

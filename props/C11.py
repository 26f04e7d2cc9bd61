"""C11: buffers of a collection"""
from props.common import *
from engine import Dead
from props import C12
from props.C12 import TYPES, W, ESZ, leaves, meaning
TITLE = "Writing and reading back a collection's buffers restores the same data"
HARNESS = ['c11.cpp']
LIMIT = 300
TOTAL = 420
ALL = list(TYPES) + ['Link']
CLIENT = MODEL_INC + LINK_INC + 'extern "C" {\n'
for n in ALL:
    k = Kind(n)
    CLIENT += f'''void write_{n}(const {k.C}& c) {{ c.{k.C}::prepareForWrite(); }}
void buffers_{n}(void* r, {k.C}& c) {{ new (r) podio::CollectionWriteBuffers(c.{k.C}::getBuffers()); }}
void after_{n}({k.C}& c) {{ c.{k.C}::prepareAfterRead(); }}
bool refs_{n}({k.C}& c, const podio::ICollectionProvider* p) {{ return c.{k.C}::setReferences(p); }}
'''
CLIENT = CLIENT.replace('c.HitClusterLinkCollection::', 'c.podio::LinkCollection<Hit, Cluster>::') + '}\n'
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

LINK_T = ({'weight': 'float'}, {}, {'from': 'Hit', 'to': 'Cluster'}, {}, {})
class Buf(Coll):
    """a collection and its buffers: the list of data, the lists of references (one per relation, in the order many, single), the vector members"""
    def __init__(t, c, n, sub=None):
        super().__init__(c, n); c.eng.points = True
        t.mem, _, t.one, t.many, t.vecs = TYPES.get(n, LINK_T)
        t.dcls = t.k.obj.replace('LinkObj<Hit, Cluster>', 'LinkData') if n == 'Link' else t.k.obj[:-3] + 'Data'
        t.esz = next(m.recsize(t.dcls) for m in c.v.mods if m.record(t.dcls))
        t.doff = c.field(t.k.obj, 'data')
        st = c.st
        t.data = term(st.mem.get(t.d('m_data'), 64)); t.dv = t.hp(t.data)
        t.refs = t.d('m_refCollections')
        t.nrefs = len(t.many) + len(t.one)
        t.vectors = {'m_data': t.data}
        # one list of references per relation, and one in a subset collection
        c.assume(*([] if sub is None else [t.subset(st) == sub]))
        st.mem.put(t.refs.sub('#len'), 64, bvv(t.nrefs) if sub is False else bvv(1) if sub else z3.If(t.subset(st), bvv(1), bvv(t.nrefs)))
        for i in range(1 if sub else t.nrefs if sub is False else max(t.nrefs, 1)):
            t.vectors[f'ref {i}'] = term(st.mem.get(t.refs.elem(bvv(i), 8), 64), st.mem)
        for m in t.vecs:
            t.vectors['m_vec_' + m] = term(st.mem.get(t.d('m_vec_' + m), 64), st.mem)
    def hp(t, a): return Ptr(HEAP, (Sel('h', a),))
    def len(t, st, v): return stdlib.vlen(st, t.hp(t.vectors[v]))
    def leaf(t, st, i, off, w):
        p = t.dv.elem(i, t.esz)
        return term(st.mem.get(p.add(off) if off else p, w), st.mem)
    def oleaf(t, st, a, off, w):
        return term(st.mem.get(t.objp(a).add(t.doff + off), w), st.mem)
    def members(t):
        """(member, offset in the data, width) of every value of the plain members"""
        for m, ty in t.mem.items():
            for a, w in W[ty]:
                yield m, t.c.field(t.dcls, m) + a, w
    def cells(t):
        """(offset, width) of every value of the data"""
        for m, off, w in t.members():
            yield off, w
        for name in list(t.many) + list(t.vecs):
            for be in ('_begin', '_end'):
                yield t.c.field(t.dcls, name + be), 32
    def ref(t, st, v, i):
        """reference i in list v: (index, collection ID)"""
        p = t.hp(t.vectors[v]).elem(i, 8)
        return term(st.mem.get(p, 32), st.mem), term(st.mem.get(p.add(4), 32), st.mem)
    def distinct(t):
        """the vectors of the buffers exist and are different allocations, and none of them is an object"""
        c = t.c; i = z3.BitVec('i', 64)
        vs = list(t.vectors.values())
        c.assume(*[z3.Implies(x != 0, x != y) for q, x in enumerate(vs) for y in vs[:q]], *[z3.Implies(v != 0, z3.And(OLD(v), z3.Not(OBJECT(v)))) for v in vs])
        c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(c.st)), OBJECT(t.entry(c.st, i))), patterns=[t.entry(c.st, i)]))

def after_read(n):
    def f(c):
        t = Buf(c, n, False); t.assume(); t.distinct()
        c.assume(z3.Not(t.subset(c.st)), z3.Not(t.prepared(c.st)), t.n(c.st) == 0, z3.ULT(t.len(c.st, 'm_data'), bvv((1 << 31) - 1)))
        i = z3.BitVec('i', 64)
        for off, w in t.cells():
            t.leaf(c.st, i, off, w)
        for o in nothrow(c, c.run(f'^after_{n}$', [t.this]), 'prepareAfterRead'):
            pre, st = c.pre, o.st
            m = t.len(pre, 'm_data')
            c.prove(o, 'one object is made for every element of the data', t.n(st) == m)
            inr = z3.ULT(i, m)
            for name in t.mem:
                c.prove(o, f'{name} of every object is that of the data', z3.Implies(inr, z3.And(*[t.oleaf(st, t.entry(st, i), off, w) == t.leaf(pre, i, off, w) for q, off, w in t.members() if q == name])))
            for name in list(t.many) + list(t.vecs):
                for be in ('_begin', '_end'):
                    off = c.field(t.dcls, name + be)
                    c.prove(o, f'every object has its range of {name}', z3.Implies(inr, t.oleaf(st, t.entry(st, i), off, 32) == t.leaf(pre, i, off, 32)))
                own = term(pre.mem.get(t.d(('m_rel_' if name in t.many else 'm_vec_') + name), 64), pre.mem)
                c.prove(o, f'every object uses the list of {name} of the collection', z3.Implies(inr, term(st.mem.get(t.objp(t.entry(st, i)).add(c.field(t.k.obj, 'm_' + name)), 64), st.mem) == own))
            for name in t.one:
                c.prove(o, f'{name} is not set yet', z3.Implies(inr, term(st.mem.get(t.objp(t.entry(st, i)).add(c.field(t.k.obj, 'm_' + name)), 64), st.mem) == 0))
            frame(c, o, 'nothing that was there before changes')
    return f

def write_subset(n):
    def f(c):
        t = Buf(c, n, True); t.assume(); t.distinct()
        c.assume(t.subset(c.st), z3.Not(t.prepared(c.st)))
        i = z3.BitVec('i', 64)
        for o in nothrow(c, c.run(f'^write_{n}$', [t.this]), 'prepareForWrite'):
            pre, st = c.pre, o.st
            e = t.entry(pre, i)
            c.prove(o, 'one reference is stored for every element', t.len(st, 'ref 0') == t.n(pre))
            ix, ci = t.ref(st, 'ref 0', i)
            c.prove(o, 'the references are the IDs of the elements, in order', z3.Implies(z3.ULT(i, t.n(pre)), z3.And(ix == t.index(pre, e), ci == t.cid(pre, e))))
            for v in t.vectors:
                if v.startswith('ref') and v != 'ref 0':
                    c.prove(o, f'{v} is empty', t.len(st, v) == 0)
            c.prove(o, 'the elements stay the same', t.kept(pre, st))
            c.prove(o, 'the collection is ready', t.prepared(st))
            t.check_inv(o)
            frame(c, o, 'no object changes', only=OBJECT)
    return f

class Lists:
    """what is written: for every relation and vector member the lists of the objects one after the other"""
    def __init__(l, t):
        l.t = t; c = l.c = t.c; st = c.st
        i, p, q = z3.BitVecs('i p q', 64)
        l.off, l.own, l.n = {}, {}, t.n(st)
        for name, ty in list(t.many.items()) + list(t.vecs.items()):
            OFF = l.off[name] = z3.Function('before_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
            OWN = l.own[name] = z3.Function('owner_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
            tmp = l.tmp(name)
            L = lambda k: l.len(st, name, k)
            st.mem.put(tmp.sub('#len'), 64, l.n)
            c.assume(OFF(bvv(0)) == 0, z3.ULT(OFF(l.n), bvv((1 << 31) - 1)),
                     z3.ForAll([i], z3.Implies(z3.ULT(i, l.n), z3.And(OFF(i + 1) == OFF(i) + L(i), z3.ULE(OFF(i), OFF(i + 1)), z3.ULE(OFF(i + 1), OFF(l.n)))), patterns=[L(i)]),
                     z3.ForAll([i], z3.Implies(z3.ULE(i, l.n), z3.ULE(OFF(i), OFF(l.n))), patterns=[OFF(i)]),
                     z3.ForAll([i, p], z3.Implies(z3.And(z3.ULT(i, l.n), z3.ULE(OFF(i), p), z3.ULT(p, OFF(i) + L(i))), OWN(p) == i), patterns=[z3.MultiPattern(OFF(i), OWN(p))]))
            # each object has a list of its own, as long as its data say
            v = l.at(st, name, i)
            c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, l.n), z3.And(v != 0, OLD(v), z3.Not(OBJECT(v)), *[v != b for b in t.vectors.values()])), patterns=[v]))
            e = t.entry(st, i)
            b, en = (t.oleaf(st, e, c.field(t.dcls, name + x), 32) for x in ('_begin', '_end'))
            c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, l.n), z3.And(b == 0, z3.ZeroExt(32, en) == L(i))), patterns=[e]))
        c.eng.loop_candidates += [l.cand(name) for name in l.off]
        c.eng.loop_invariants.append(lambda eng, st, fr, n: l.written(st))
    def cand(l, name):
        OFF = l.off[name]
        def f(eng, G, v, v0, n):
            if not z3.is_bv(v0) or v0.size() not in (32, 64):
                return None
            fn = (lambda k: OFF(k)) if v0.size() == 64 else (lambda k: z3.Extract(31, 0, OFF(k)))
            fn.step = lambda k: [z3.Implies(z3.ULT(k, l.n), OFF(k + 1) == OFF(k) + l.len(l.c.pre, name, k))]
            return fn
        return f
    def tmp(l, name): return l.t.d(('m_rel_%s_tmp' if name in l.t.many else 'm_vecs_%s') % name)
    def at(l, st, name, i): return term(st.mem.get(l.tmp(name).elem(i, 8), 64), st.mem)
    def len(l, st, name, i): return stdlib.vlen(st, l.t.hp(l.at(st, name, i)))
    def rid(l, st, ty, p):
        """ID of what the handle at p refers to: (index, collection)"""
        o = term(st.mem.get(p, 64), st.mem)
        if ty == 'Energetic':
            return z3.Extract(31, 0, GID(o)), z3.Extract(63, 32, GID(o))
        cls = Kind(ty).obj; off = l.c.field(cls, 'id')
        at = lambda f: term(st.mem.get(l.t.objp(o).add(off + l.c.field('podio::ObjectID', f)), 32), st.mem)
        return z3.If(o == 0, bvv(2**32 - 1, 32), at('index')), z3.If(o == 0, bvv(2**32 - 1, 32), at('collectionID'))
    def spec(l, st, kind, name, p):
        """entry p of a written list: list of values"""
        t = l.t
        if kind == 'one':
            b = term(st.mem.get(t.objp(t.entry(st, p)).add(l.c.field(t.k.obj, 'm_' + name)), 64), st.mem)
            ix, ci = l.rid(st, t.one[name], t.hp(b))
            return [z3.If(b == 0, bvv(2**32 - 2, 32), ix), z3.If(b == 0, bvv(0, 32), ci)]
        w = l.own[name](p); q = p - l.off[name](w)
        ty = (t.many if kind == 'many' else t.vecs)[name]
        e = t.hp(l.at(st, name, w)).elem(q, ESZ[ty])
        if kind == 'many':
            return list(l.rid(st, ty, e))
        return [term(st.mem.get(e.add(o) if o else e, b), st.mem) for o, b in leaves(ty)]
    def lists(l):
        t = l.t
        return [(f'ref {i}', 'many' if name in t.many else 'one', name) for i, name in enumerate(list(t.many) + list(t.one))] + [('m_vec_' + name, 'vec', name) for name in t.vecs]
    def real(l, st, v, kind, name, p):
        t = l.t
        if kind != 'vec':
            return list(t.ref(st, v, p))
        ty = t.vecs[name]; e = t.hp(t.vectors[v]).elem(p, ESZ[ty])
        return [term(st.mem.get(e.add(o) if o else e, b), st.mem) for o, b in leaves(ty)]
    def written(l, st):
        """everything written so far is right"""
        p = z3.BitVec('p', 64); r = []
        for v, kind, name in l.lists():
            a, b = l.real(st, v, kind, name, p), l.spec(l.c.pre, kind, name, p)
            r.append((f'the entries of {v} ({name}) are those of the objects in order', z3.ForAll([p], z3.Implies(z3.ULT(p, l.t.len(st, v)), z3.And(*[x == y for x, y in zip(a, b)])), patterns=[a[0]])))
        return r

def write(n):
    def f(c):
        interfaces(c)
        c.st.mem.get(Ptr(HEAP, (Sel('h', z3.BitVec('i', 64)),)), 64)
        t = Buf(c, n, False); t.assume(); t.distinct()
        c.assume(z3.Not(t.subset(c.st)), z3.Not(t.prepared(c.st)))
        if n == 'Link':
            c.assume(t.len(c.st, 'm_data') == 0)
        i, p = z3.BitVecs('i p', 64)
        for off, w in t.cells():
            t.leaf(c.st, i, off, w); t.oleaf(c.st, i, off, w)
        l = Lists(t)
        for v, kind, name in l.lists():
            l.real(c.st, v, kind, name, p); l.spec(c.st, kind, name, p)
        for o in c.run(f'^write_{n}$', [t.this]):
            pre, st = c.pre, o.st
            if o.kind == 'throw':
                c.prove(o, 'after a failure the collection is not taken for ready', z3.Not(t.prepared(st)))
                continue
            c.prove(o, 'the data of every object are written', t.len(st, 'm_data') == t.n(pre))
            e = t.entry(pre, i); inr = z3.ULT(i, t.n(pre))
            for name in t.mem:
                c.prove(o, f'{name} is written for every object', z3.Implies(inr, z3.And(*[t.leaf(st, i, off, w) == t.oleaf(pre, e, off, w) for q, off, w in t.members() if q == name])))
            for name in l.off:
                for be, k in (('_begin', i), ('_end', i + 1)):
                    c.prove(o, f'the range of {name} written for an object is where its elements are', z3.Implies(inr, z3.ZeroExt(32, t.leaf(st, i, c.field(t.dcls, name + be), 32)) == l.off[name](k)))
            for v, kind, name in l.lists():
                c.prove(o, f'{v} has an entry for every element of {name}', t.len(st, v) == (t.n(pre) if kind == 'one' else l.off[name](t.n(pre))))
            for a, q in l.written(st):
                c.prove(o, a, q)
            c.prove(o, 'the collection is ready', t.prepared(st))
            t.check_inv(o)
            c.prove(o, 'the collection has the same objects', t.kept(pre, st))
            frame(c, o, 'no object changes', only=OBJECT)
    return f

HAS = z3.Function('provider_has', z3.BitVecSort(32), z3.BoolSort())
COLL = z3.Function('provider_collection', z3.BitVecSort(32), z3.BitVecSort(64))
def provider(c):
    """contract of ICollectionProvider::get: tells whether there is a collection with the ID, and which one"""
    def virt(eng, st, obj, slot, args, ins):
        if slot in (0, 1):
            eng.safety(st, z3.BoolVal(False), 'no handle is replaced', ins)
            raise Dead
        if slot != 2:
            raise Unsupported(f'virtual function in slot {slot}')
        cid = term(args[1], st.mem)
        old = term(st.mem.get(args[2], 64), st.mem)
        st.mem.put(args[2], 64, z3.If(HAS(cid), COLL(cid), old))
        return HAS(cid)
    c.eng.virtual = virt
def target(t, st, ty, ix, ci):
    """the object with an ID, in the collection that the provider gives"""
    k = Kind(ty)
    return term(st.mem.get(t.hp(COLL(ci)).add(t.c.field(k.coll, 'm_storage') + t.c.field(k.data, 'entries')).elem(z3.SignExt(32, ix), 8), 64), st.mem)
def entries_of(t, st, ty, ci):
    k = Kind(ty)
    return stdlib.vlen(st, t.hp(COLL(ci)).add(t.c.field(k.coll, 'm_storage') + t.c.field(k.data, 'entries')))

def refs_subset(n):
    def f(c):
        provider(c)
        t = Buf(c, n, True); t.assume(); t.distinct()
        i = z3.BitVec('i', 64)
        c.assume(t.subset(c.st), t.n(c.st) == 0)
        m = t.len(c.st, 'ref 0')
        ix, ci = t.ref(c.st, 'ref 0', i)
        c.assume(z3.ULT(m, bvv((1 << 31) - 1)),
                 z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, m), HAS(ci)), z3.And(COLL(ci) != 0, z3.ULT(z3.SignExt(32, ix), entries_of(t, c.st, n, ci)))), patterns=[ci]))
        c.eng.loop_instances = [m]
        for o in nothrow(c, c.run(f'^refs_{n}$', [t.this, c.ptr('provider')]), 'setReferences'):
            pre, st = c.pre, o.st
            c.prove(o, 'one element is made for every stored reference', t.n(st) == m)
            inr = z3.ULT(i, m)
            c.prove(o, 'every element is the object with the stored ID in the collection of that ID', z3.Implies(z3.And(inr, HAS(ci)), t.entry(st, i) == target(t, pre, n, ix, ci)))
            c.prove(o, 'an element whose collection is missing stays unset', z3.Implies(z3.And(inr, z3.Not(HAS(ci))), t.entry(st, i) == 0))
            c.prove(o, 'the result is true', boolean(o))
            frame(c, o, 'nothing that was there before changes')
    return f

def refs_owning(n):
    def f(c):
        provider(c)
        t = Buf(c, n, False)
        for name in t.many:
            t.vectors['m_rel_' + name] = term(c.st.mem.get(t.d('m_rel_' + name), 64), c.st.mem)
        t.assume(); t.distinct()
        i = z3.BitVec('i', 64); pre = c.st
        c.assume(*[v != 0 for v in t.vectors.values()])
        c.assume(z3.Not(t.subset(pre)))
        lists = [(f'ref {q}', name, ty, name in t.many) for q, (name, ty) in enumerate(list(t.many.items()) + list(t.one.items()))]
        cell = lambda st, name, i: term(st.mem.get(t.objp(t.entry(st, i)).add(c.field(t.k.obj, 'm_' + name)), 64), st.mem)
        for v, name, ty, many in lists:
            m = t.len(pre, v); ix, ci = t.ref(pre, v, i)
            c.assume(z3.ULT(m, bvv((1 << 31) - 1)), z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, m), HAS(ci), ix != bvv(2**32 - 2, 32)), z3.And(COLL(ci) != 0, z3.ULT(z3.SignExt(32, ix), entries_of(t, pre, ty, ci)))), patterns=[ci]))
            if many:
                c.assume(stdlib.vlen(pre, t.hp(term(pre.mem.get(t.d('m_rel_' + name), 64), pre.mem))) == 0)
            else:
                # objects that were read have no relation yet
                c.assume(m == t.n(pre), z3.ForAll([i], z3.Implies(z3.ULT(i, m), cell(pre, name, i) == 0), patterns=[t.entry(pre, i)]))
        c.eng.loop_instances = [t.n(pre)]
        for o in nothrow(c, c.run(f'^refs_{n}$', [t.this, c.ptr('provider')]), 'setReferences'):
            st = o.st
            for v, name, ty, many in lists:
                m = t.len(pre, v); ix, ci = t.ref(pre, v, i)
                there = z3.And(ix != bvv(2**32 - 2, 32), HAS(ci)); inr = z3.ULT(i, m)
                want = target(t, pre, ty, ix, ci)
                if many:
                    l = t.d('m_rel_' + name)
                    l = t.hp(term(pre.mem.get(l, 64), pre.mem))
                    c.prove(o, f'there is an element of {name} for every stored reference', stdlib.vlen(st, l) == m)
                    e = term(st.mem.get(l.elem(i, ESZ[ty]), 64), st.mem)
                    c.prove(o, f'an element of {name} is of nothing when its reference is or its collection is missing', z3.Implies(z3.And(inr, z3.Not(there)), e == 0))
                    c.prove(o, f'every other element of {name} is the object with the stored ID in the collection of that ID', z3.Implies(z3.And(inr, there), e == want))
                    continue
                p = cell(st, name, i)
                c.prove(o, f'{name} is not set when its reference is that of nothing or its collection is missing', z3.Implies(z3.And(inr, z3.Not(there)), p == 0))
                c.prove(o, f'{name} is the object with the stored ID in the collection of that ID', z3.Implies(z3.And(inr, there), z3.And(p != 0, term(st.mem.get(t.hp(p), 64), st.mem) == want)))
            c.prove(o, 'the result is true', boolean(o))
            c.prove(o, 'the collection has the same objects', t.kept(pre, st))
            t.check_inv(o)
    return f

def buffers(n):
    def f(c):
        t = Buf(c, n); t.assume(); t.distinct()
        r = c.ptr('out'); sub = t.subset(c.st)
        at = lambda st, m: term(st.mem.get(r.add(c.field('podio::CollectionWriteBuffers', m)), 64), st.mem)
        vm = t.d('m_vecmem_info' if n != 'Link' else 'm_vecInfo')
        if t.vecs:
            c.assume(stdlib.vlen(c.st, vm) == len(t.vecs))
        for o in nothrow(c, c.run(f'^buffers_{n}$', [r, t.this]), 'getBuffers'):
            st = o.st
            c.prove(o, 'the data are those that were prepared, and none for a subset collection', z3.And(z3.Implies(sub, at(st, 'data') == 0), z3.Implies(z3.Not(sub), z3.And(at(st, 'data') == term(t.d('m_data'), st.mem), at(st, 'vecPtr') == t.data))))
            c.prove(o, 'the references are those that were prepared', at(st, 'references') == term(t.refs, st.mem))
            c.prove(o, 'the vector members are those that were prepared', at(st, 'vectorMembers') == term(vm, st.mem))
            for q, name in enumerate(t.vecs):
                c.prove(o, f'the buffer of {name} is the one of the collection', z3.Implies(z3.Not(sub), term(st.mem.get(vm.elem(bvv(q), 40).add(32), 64), st.mem) == term(t.d('m_vec_' + name), st.mem)))
            c.prove(o, 'the collection has the same objects', t.kept(c.pre, st))
            t.check_inv(o)
            frame(c, o, 'nothing that was there before changes')
    return f

CONTRACTS = []
for n in ALL:
    C = Kind(n).C
    CONTRACTS += [(f'{C}::prepareAfterRead', after_read(n)), (f'{C}::prepareForWrite, subset', write_subset(n)), (f'{C}::setReferences, subset', refs_subset(n)), (f'{C}::getBuffers', buffers(n))]
    CONTRACTS.append((f'{C}::prepareForWrite', write(n)))
    if n != 'Part':
        CONTRACTS.append((f'{C}::setReferences', refs_owning(n)))
ASSUMPTIONS = ['a collection has fewer than 2^31 elements and references', 'the buffers of a collection are allocations of their own, and none of them is an object', 'the provider gives the same collection for the same ID during one call, and a stored position is one of that collection (what a reader guarantees; C03)',
               'the list of relations has as many entries as the constructors make', 'std::vector, std::deque and std::unique_ptr behave as the C++ standard says',
               'link collections: their list of data is empty when they are prepared for the first time',
               'the relations of objects that were just read are not set before setReferences, and their lists of related objects are empty (what prepareAfterRead makes)', 'every object of a collection that is written has lists of its own, whose range starts at 0 (C12)',
               'BOUNDED, not proved: setReferences of owning collections with relations to an interface type, and the two halves put together with readers and writers (harness: write, read back and compare, with random contents)']
NOTE = 'prepareForWrite, getBuffers and prepareAfterRead of every kind of collection (with one-to-one and one-to-many relations, relations to interfaces, vector members, links, subset collections) are proved against the compiled code for collections and lists of any size, and so is setReferences of all of them but owning collections with relations to an interface type; that one, and the way through a writer and a reader, are covered by the bounded harness.'

"""C10: subset collections"""
from props.common import *
from props import C09
TITLE = 'Subset collections reference objects and never own or re-identify them'
HARNESS = ['c10.cpp']
ASSUMPTIONS = C09.ASSUMPTIONS
NOTE = 'push_back of mutable and immutable handles, create, setSubsetCollection, clear, the destructor, move construction and move assignment of subset collections are proved for four generated datatypes and a link collection, with frame conditions over all memory of all objects.'
ALL = C09.ALL
CLIENT = C09.CLIENT + 'extern "C" {\n'
for n in ALL:
    k = Kind(n)
    q = k.coll if n == 'Link' else k.C
    d = 'LinkCollection' if n == 'Link' else k.C.split('::')[-1]
    CLIENT += f'''void subset_{n}({k.C}& c, bool b) {{ c.{q}::setSubsetCollection(b); }}
bool issubset_{n}(const {k.C}& c) {{ return c.{q}::isSubsetCollection(); }}
void clear_{n}({k.C}& c) {{ c.{q}::clear(); }}
void destroy_{n}({k.C}& c) {{ c.{q}::~{d}(); }}
void move_{n}({k.C}* r, {k.C}& c) {{ new (r) {k.C}(std::move(c)); }}
void assign_{n}({k.C}& r, {k.C}& c) {{ r.{q}::operator=(std::move(c)); }}
'''
CLIENT += '}\n'
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

def nature(n):
    def f(c):
        t = Coll(c, n); t.assume(); (t.own() if n == 'Link' else None); b = z3.Bool('subset')
        for o in c.run(f'^subset_{n}$', [t.this, b]):
            pre, st = c.pre, o.st
            bad = z3.And(b != t.subset(pre), t.n(pre) != 0)
            c.prove(o, 'changing the nature is refused exactly if the collection has objects', bad if o.kind == 'throw' else z3.Not(bad))
            c.prove(o, 'the objects stay', z3.And(t.same_list(pre, st), t.id(st) == t.id(pre), t.same_ids(pre, st, only=OBJECT)))
            c.prove(o, 'the nature is the wanted one, or as before if refused', t.subset(st) == (t.subset(pre) if o.kind == 'throw' else b))
            t.check_inv(o)
        for o in nothrow(c, c.run(f'^issubset_{n}$', [t.this], c.st.fork()), 'isSubsetCollection'):
            c.prove(o, 'the nature is reported', z3.And(boolean(o) == t.subset(c.pre), t.kept(c.pre, o.st)))
    return f

def refuses(n):
    def f(c):
        t = Coll(c, n); t.assume(); c.assume(t.subset(c.st))
        r = c.ptr('result')
        for o in c.run(f'^create_{n}$', [r, t.this]):
            c.prove(o, 'creating objects in a subset collection is refused', o.kind == 'throw')
            c.prove(o, 'nothing changes', t.kept(c.pre, o.st))
            frame(c, o, 'no object changes')
    return f

def pushes(n):
    def f(c):
        for fn in ('push', 'cpush'):
            d = FnContract(c.v, None, c.title) if False else c
            t = Coll(c, n, 'coll_' + fn); t.assume()
            h = UHandle(c, n, 'object_' + fn); x = h.obj(c.st); c.assume(x != 0); t.apart(h)
            st0 = c.st.fork(); st0.assume(t.subset(st0))
            for o in c.run(f'^{fn}_{n}$', [t.this, h.p], st0):
                pre, st = c.pre, o.st
                tracked = t.index(pre, x) >= 0
                c.prove(o, 'refused exactly if no collection owns the object', tracked if o.kind == 'ret' else z3.Not(tracked))
                c.prove(o, 'ID and nature of the collection stay', z3.And(t.id(st) == t.id(pre), t.subset(st) == t.subset(pre)))
                c.prove(o, 'the object is added at the end, or nothing if refused', t.same_list(pre, st) if o.kind == 'throw' else z3.And(t.same_list(pre, st, t.n(pre) + 1), t.entry(st, t.n(pre)) == x))
                frame(c, o, 'no object changes in any way, in particular no object ID', h.ctrl(pre))
                c.prove(o, 'the handle given stays the same', z3.And(h.obj(st) == x, h.ctrl(st) == h.ctrl(pre)))
        # an owning collection takes no immutable handle and no object of another collection
        st0 = c.st.fork(); st0.assume(z3.Not(t.subset(st0)))
        for o in c.run(f'^cpush_{n}$', [t.this, h.p], st0):
            c.prove(o, 'an owning collection refuses immutable handles', o.kind == 'throw')
            c.prove(o, 'nothing changes', t.kept(c.pre, o.st))
            frame(c, o, 'no object changes', h.ctrl(c.pre))
        st0 = c.st.fork(); st0.assume(z3.Not(t.subset(st0)), t.index(st0, x) >= 0)
        for o in c.run(f'^push_{n}$', [t.this, h.p], st0):
            c.prove(o, 'an owning collection refuses objects of another collection', o.kind == 'throw')
            c.prove(o, 'nothing changes', t.kept(c.pre, o.st))
            frame(c, o, 'no object changes', h.ctrl(c.pre))
    return f

def leaves(n):
    def f(c):
        t = Coll(c, n); t.assume(); t.own(); c.assume(t.subset(c.st))
        for fn in ('clear', 'destroy'):
            for o in nothrow(c, c.run(f'^{fn}_{n}$', [t.this], c.st.fork()), fn):
                pre, st = c.pre, o.st
                i = z3.BitVec('i', 64)
                if fn == 'clear':
                    c.prove(o, 'the collection is empty', t.n(st) == 0)
                    c.prove(o, 'ID and nature of the collection stay', z3.And(t.id(st) == t.id(pre), t.subset(st) == t.subset(pre)))
                for p in frees(o):
                    c.prove(o, 'no object is freed', z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(pre)), t.entry(pre, i) != term(p, st.mem))))
                c.prove(o, 'no object changes its ID', t.same_ids(pre, st, only=OBJECT))
                frame(c, o, 'no object changes', only=OBJECT)
    return f
def moves(n):
    def f(c):
        a = Coll(c, n, 'source'); a.assume(); a.own()
        t = Coll(c, n, 'target'); t.assume(); t.own()
        # (what an owning target does with its objects is covered by the harness of C13)
        c.assume(t.subset(c.st))
        new = c.ptr('result')
        for fn in ('move', 'assign'):
            r = Coll(c, n, 'result', new) if fn == 'move' else t
            for o in nothrow(c, c.run(f'^{fn}_{n}$', [new if fn == 'move' else t.this, a.this], c.st.fork()), fn):
                pre, st = c.pre, o.st
                c.prove(o, f'{fn}: the nature is that of the source', r.subset(st) == a.subset(pre))
                c.prove(o, f'{fn}: the ID is that of the source', r.id(st) == a.id(pre))
                c.prove(o, f'{fn}: it is prepared for I/O exactly if the source was', r.prepared(st) == a.prepared(pre))
                k = z3.BitVec('k', 64)
                c.prove(o, f'{fn}: the objects are those of the source, in order', z3.And(r.n(st) == a.n(pre), z3.ForAll([k], z3.Implies(z3.ULT(k, a.n(pre)), r.entry(st, k) == a.entry(pre, k)))))
                c.prove(o, f'{fn}: no object of the source is freed', z3.And(*[z3.ForAll([k], z3.Implies(z3.ULT(k, a.n(pre)), a.entry(pre, k) != term(p, st.mem))) for p in frees(o)]))
                if fn == 'move':
                    frame(c, o, 'move: no object changes', only=OBJECT)
    return f
CONTRACTS = []
for n in ALL:
    C = Kind(n).coll
    CONTRACTS += [(f'{C}::setSubsetCollection and isSubsetCollection', nature(n)), (f'{C}::create of a subset collection', refuses(n)), (f'{C}::push_back of references', pushes(n)), (f'{C}::clear and destructor of a subset collection', leaves(n)), (f'moving {C}', moves(n))]

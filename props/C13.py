"""C13: object lifetime"""
from props.common import *
from props import C09, C10
TITLE = 'An object lives exactly as long as something owns it'
HARNESS = ['c13.cpp']
ASSUMPTIONS = ['atomic counters behave like integers that no other thread changes during a call', 'fewer than 2^31 handles share an object', 'the objects of a collection, its buffers and the control blocks of handles are distinct allocations', 'when a collection deletes its objects, the destructor of an object frees only what belongs to it (handles in its relations: the destructor of MaybeSharedPtr)'] 
NOTE = 'every operation of MaybeSharedPtr is proved against the counting specification for every state (the sum of all effects gives: an owned object is freed exactly when the last handle goes, an object handed over never). For four generated datatypes and a link collection it is proved that push_back hands the object over, that unlink gives up exactly one share, and that the destructor and move assignment of a collection that owns its objects delete each of them exactly once and nothing else.'
CLIENT = MODEL_INC + '''#include "podio/utilities/MaybeSharedPtr.h"
#include <new>
using namespace podio::utils;
struct Thing { int x; Thing(); ~Thing(); };
using P = MaybeSharedPtr<Thing>;
extern "C" {
void ctor(P* a, Thing* t) { new (a) P(t); }
void ctor_owned(P* a, Thing* t) { new (a) P(t, MarkOwned); }
void copy(P* a, const P& b) { new (a) P(b); }
void move(P* a, P& b) { new (a) P(std::move(b)); }
void destroy(P* a) { a->~P(); }
void assign(P& a, const P& b) { a = b; }
void assign_move(P& a, P& b) { a = std::move(b); }
void swap_them(P& a, P& b) { swap(a, b); }
Thing* release(P& a) { return a.release(); }
Thing* get(const P& a) { return a.get(); }
bool truth(const P& a) { return a; }
}
'''
LIMIT = 180
TOTAL = 300
ALL = C09.ALL
for n in ALL:
    CLIENT += f'extern "C" void unlink_{n}({Kind(n).M}& o) {{ o.unlink(); }}\n'
CLIENT = C10.CLIENT + CLIENT.replace(MODEL_INC, '')
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

class H2(Handle):
    """handle given by its MaybeSharedPtr directly"""
    def __init__(h, c, name, p=None):
        h.c = c; h.cls = 'Thing'; h.p = p or c.ptr(name)
        h.oo, h.co = c.field('podio::utils::MaybeSharedPtr<Thing>', 'm_ptr'), c.field('podio::utils::MaybeSharedPtr<Thing>', 'm_ctrlBlock')
    def blk(h, st, t): return (term(st.mem.get(h.at(t), 32)), term(st.mem.get(h.at(t).add(4), 8)))

def setup(c, *names):
    """valid handles: two handles with the same control block refer to the same object; a count is at least the number of handles seen"""
    c.eng.contracts.append((lambda d: d == 'Thing::~Thing()', lambda eng, st, a, ins, dem: st.events.append(('dtor', a[0]))))
    hs = [H2(c, n) for n in names]
    for h in hs:
        c.assume(h.valid(c.st))
        h.valid_blk = None
        if h.co:
            c.assume(z3.ULE(h.owned(c.st), 1))
    for i, a in enumerate(hs):
        for b in hs[i + 1:]:
            ca, cb = a.ctrl(c.st), b.ctrl(c.st)
            c.assume(z3.Implies(z3.And(ca == cb, ca != 0), z3.And(a.obj(c.st) == b.obj(c.st), z3.UGE(a.count(c.st), 2))))
            # objects and control blocks do not overlap
            c.assume(z3.Implies(ca != 0, ca != b.obj(c.st)), z3.Implies(cb != 0, cb != a.obj(c.st)))
            d = ca - cb
            c.assume(z3.Or(ca == cb, z3.UGE(d, 8)), z3.Or(ca == cb, z3.UGE(-d, 8)))
    return hs

def freed(o, what):
    return [e[1] for e in o.st.events if e[0] == what]

def released(c, o, h, cond, pre):
    """the object and control block of handle h (as of the state before) are freed exactly if cond, the object only if it is owned"""
    own = h.owned(pre) != 0
    obj, ctl = h.obj(pre), h.ctrl(pre)
    fr = [term(p, o.st.mem) for p in freed(o, 'free')]; de = [term(p, o.st.mem) for p in freed(o, 'dtor')]
    n = lambda l, x: sum([z3.If(y == x, bvv(1), bvv(0)) for y in l], bvv(0))
    one = lambda b: z3.If(b, bvv(1), bvv(0))
    last = z3.And(ctl != 0, cond)
    c.prove(o, 'the object is destroyed exactly once if this was the last owning handle and otherwise not at all', n(de, obj) == one(z3.And(last, own, obj != 0)))
    c.prove(o, 'its memory is freed exactly once in that case', z3.Implies(obj != 0, n(fr, obj) == one(z3.And(last, own))))
    c.prove(o, 'the control block is freed exactly once with the last handle and otherwise not at all', z3.Implies(ctl != 0, n(fr, ctl) == one(last)))
    c.prove(o, 'nothing else is destroyed or freed', z3.And(*[z3.Or(x == obj, x == 0) for x in de], *[z3.Or(x == obj, x == ctl, x == 0) for x in fr], z3.BoolVal(True)))

def ctor(c):
    p = H2(c, 'a'); t = z3.BitVec('thing', 64); tp = Ptr(HEAP, (Sel('h', t),))
    setup(c)
    for o in c.run('^ctor$', [p.p, tp]):
        c.prove(o, 'an unowned handle refers to the object and has no control block', z3.And(p.obj(o.st) == t, p.ctrl(o.st) == 0))
        c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))
    for o in c.run('^ctor_owned$', [p.p, tp], c.st.fork()):
        b = o.st.mem.get(p.p.add(p.co), 64)
        fresh_ = isinstance(b, Ptr) and b.root.kind == 'new' and not b.steps
        c.prove(o, 'an owned handle gets a control block of its own', fresh_)
        c.prove(o, 'the control block counts one handle and owns the object', z3.And(p.obj(o.st) == t, term(o.st.mem.get(b, 32)) == 1, term(o.st.mem.get(b.add(4), 8)) == 1) if fresh_ else False)
        c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))

def copy(c):
    b, = setup(c, 'b'); a = H2(c, 'a')
    for o in c.run('^copy$', [a.p, b.p]):
        pre, st = c.pre, o.st
        cb = b.ctrl(pre)
        c.prove(o, 'both handles refer to the same object and control block', z3.And(a.obj(st) == b.obj(pre), a.ctrl(st) == cb, b.obj(st) == b.obj(pre), b.ctrl(st) == cb))
        c.prove(o, 'one more handle is counted', z3.Implies(cb != 0, z3.And(b.blk(st, cb)[0] == b.blk(pre, cb)[0] + 1, b.blk(st, cb)[1] == b.blk(pre, cb)[1])))
        c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))

def move(c):
    b, = setup(c, 'b'); a = H2(c, 'a')
    for o in c.run('^move$', [a.p, b.p]):
        pre, st = c.pre, o.st
        cb = b.ctrl(pre)
        c.prove(o, 'the new handle takes over the object and the control block', z3.And(a.obj(st) == b.obj(pre), a.ctrl(st) == cb))
        c.prove(o, 'the old handle is empty', z3.And(b.obj(st) == 0, b.ctrl(st) == 0))
        c.prove(o, 'the count is unchanged', z3.Implies(cb != 0, z3.And(b.blk(st, cb)[0] == b.blk(pre, cb)[0], b.blk(st, cb)[1] == b.blk(pre, cb)[1])))
        c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))

def destroy(c):
    a, = setup(c, 'a')
    for o in c.run('^destroy$', [a.p]):
        pre, st = c.pre, o.st
        ca = a.ctrl(pre)
        released(c, o, a, a.count(pre) == 1, pre)
        if not freed(o, 'free'):
            c.prove(o, 'one handle less is counted', z3.Implies(ca != 0, z3.And(a.blk(st, ca)[0] == a.count(pre) - 1, a.blk(st, ca)[1] == a.owned(pre))))

def assign(c):
    a, b = setup(c, 'a', 'b')
    for o in c.run('^assign$', [a.p, b.p]):
        pre, st = c.pre, o.st
        ca, cb = a.ctrl(pre), b.ctrl(pre)
        c.prove(o, 'the handle refers to the assigned object', z3.And(a.obj(st) == b.obj(pre), a.ctrl(st) == cb, b.obj(st) == b.obj(pre), b.ctrl(st) == cb))
        released(c, o, a, z3.And(a.count(pre) == 1, ca != cb), pre)
        if not freed(o, 'free'):
            c.prove(o, 'the handles of the old object are counted', z3.Implies(z3.And(ca != 0, ca != cb), a.blk(st, ca)[0] == a.count(pre) - 1))
        c.prove(o, 'the handles of the new object are counted', z3.Implies(z3.And(cb != 0, ca != cb), z3.And(b.blk(st, cb)[0] == b.count(pre) + 1, b.blk(st, cb)[1] == b.owned(pre))))
        c.prove(o, 'assigning a handle of the same object changes no count', z3.Implies(z3.And(cb != 0, ca == cb), z3.And(b.blk(st, cb)[0] == b.count(pre), b.blk(st, cb)[1] == b.owned(pre))))

def assign_self(c):
    a, = setup(c, 'a')
    for o in c.run('^assign$', [a.p, a.p]):
        pre, st = c.pre, o.st
        ca = a.ctrl(pre)
        c.prove(o, 'self assignment changes nothing', z3.And(a.obj(st) == a.obj(pre), a.ctrl(st) == ca, z3.Implies(ca != 0, z3.And(a.blk(st, ca)[0] == a.count(pre), a.blk(st, ca)[1] == a.owned(pre)))))
        c.prove(o, 'self assignment frees nothing', not freed(o, 'free') and not freed(o, 'dtor'))

def assign_move(c):
    a, b = setup(c, 'a', 'b')
    for o in c.run('^assign_move$', [a.p, b.p]):
        pre, st = c.pre, o.st
        ca, cb = a.ctrl(pre), b.ctrl(pre)
        c.prove(o, 'the handle takes over the assigned object', z3.And(a.obj(st) == b.obj(pre), a.ctrl(st) == cb))
        c.prove(o, 'the old handle is empty', z3.And(b.obj(st) == 0, b.ctrl(st) == 0))
        released(c, o, a, a.count(pre) == 1, pre)
        c.prove(o, 'the handles of the new object are counted', z3.Implies(z3.And(cb != 0, ca != cb), z3.And(b.blk(st, cb)[0] == b.count(pre), b.blk(st, cb)[1] == b.owned(pre))))

def swap_(c):
    a, b = setup(c, 'a', 'b')
    for o in c.run('^swap_them$', [a.p, b.p]):
        pre, st = c.pre, o.st
        c.prove(o, 'the handles exchange what they refer to', z3.And(a.obj(st) == b.obj(pre), a.ctrl(st) == b.ctrl(pre), b.obj(st) == a.obj(pre), b.ctrl(st) == a.ctrl(pre)))
        for h in (a, b):
            t = h.ctrl(pre)
            c.prove(o, 'counts are unchanged', z3.Implies(t != 0, z3.And(h.blk(st, t)[0] == h.count(pre), h.blk(st, t)[1] == h.owned(pre))))
        c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))

def release(c):
    a, = setup(c, 'a')
    for o in c.run('^release$', [a.p]):
        pre, st = c.pre, o.st
        t = a.ctrl(pre)
        c.prove(o, 'the object is returned', term(o.val, st.mem) == a.obj(pre))
        c.prove(o, 'the handle still refers to it', z3.And(a.obj(st) == a.obj(pre), a.ctrl(st) == t))
        c.prove(o, 'the handles no longer own it, their number is unchanged', z3.Implies(t != 0, z3.And(a.blk(st, t)[0] == a.count(pre), a.blk(st, t)[1] == 0)))
        c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))

def observe(c):
    a, = setup(c, 'a')
    for fn, spec in (('get', lambda o: term(o.val, o.st.mem) == a.obj(c.pre)), ('truth', lambda o: boolean(o) == (a.obj(c.pre) != 0))):
        for o in c.run(f'^{fn}$', [a.p], c.st.fork()):
            t = a.ctrl(c.pre)
            c.prove(o, f'{fn} reports the object', spec(o))
            c.prove(o, f'{fn} changes nothing', z3.And(a.obj(o.st) == a.obj(c.pre), a.ctrl(o.st) == t, z3.Implies(t != 0, z3.And(a.blk(o.st, t)[0] == a.count(c.pre), a.blk(o.st, t)[1] == a.owned(c.pre)))))

def hands_over(n):
    """push_back: the collection becomes the owner"""
    def f(c):
        t = Coll(c, n); t.assume(); t.own()
        h = UHandle(c, n, 'object'); x = h.obj(c.st); b = h.ctrl(c.st)
        c.assume(z3.Not(t.subset(c.st)), x != 0, z3.Not(OBJECT(b)), CTRL(b)); t.apart(h)
        for o in c.run(f'^push_{n}$', [t.this, h.p]):
            pre, st = c.pre, o.st
            c.prove(o, 'the handle refers to the same object', z3.And(h.obj(st) == x, h.ctrl(st) == b))
            c.prove(o, 'the number of handles is unchanged', z3.Implies(b != 0, h.count(st) == h.count(pre)))
            c.prove(o, 'nothing is freed', not freed(o, 'free') and not freed(o, 'dtor'))
            if o.kind == 'throw':
                c.prove(o, 'if the object is refused its handles go on owning it', z3.Implies(b != 0, h.owned(st) == h.owned(pre)))
            else:
                c.prove(o, 'the handles no longer own the object, the collection holds it', z3.And(z3.Implies(b != 0, h.owned(st) == 0), t.entry(st, t.n(pre)) == x, t.n(st) == t.n(pre) + 1))
    return f

def unlinks(n):
    def f(c):
        h = UHandle(c, n, 'handle'); x = h.obj(c.st)
        gone = C09.deletions(c, False)
        y = z3.BitVec('y', 64); b = h.ctrl(c.st)
        c.assume(x != 0, z3.Not(OBJECT(b)), OBJECT(x), z3.ULE(h.owned(c.st), 1))
        for o in nothrow(c, c.run(f'^unlink_{n}$', [h.p]), 'unlink'):
            pre, st = c.pre, o.st
            last = z3.And(b != 0, h.count(pre) == 1)
            c.prove(o, 'the handle is empty', z3.And(h.obj(st) == 0, h.ctrl(st) == 0))
            c.prove(o, 'the object is deleted exactly if this was the last handle and the handles own it', gone(st, x) == z3.And(last, h.owned(pre) != 0))
            c.prove(o, 'no other object is deleted', z3.Implies(z3.And(OBJECT(y), gone(st, y)), y == x))
            c.prove(o, 'otherwise one handle less is counted', z3.Implies(z3.And(b != 0, z3.Not(last)), z3.And(term(st.mem.get(h.at(b), 32)) == h.count(pre) - 1, term(st.mem.get(h.at(b).add(4), 8)) == h.owned(pre))))
    return f

def owner(c, n, name='coll'):
    t = Coll(c, n, name); t.assume(); t.own()
    i, j = z3.BitVecs('i j', 64)
    c.assume(z3.Not(t.subset(c.st)))
    c.assume(z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, t.n(c.st))), t.entry(c.st, i) != t.entry(c.st, j)), patterns=[z3.MultiPattern(t.entry(c.st, i), t.entry(c.st, j))]))
    c.eng.loop_instances = [t.n(c.st)]
    return t

def deleted(c, o, t, gone):
    i, x = z3.BitVecs('i x', 64)
    c.prove(o, 'every object of the collection is deleted', z3.Implies(z3.ULT(i, t.n(c.pre)), gone(o.st, t.entry(c.pre, i))))
    c.prove(o, 'no other object is deleted', z3.Implies(z3.And(OBJECT(x), gone(o.st, x)), z3.Exists([i], z3.And(z3.ULT(i, t.n(c.pre)), t.entry(c.pre, i) == x))))

def ends(n):
    """destructor of a collection that owns its objects (a subset collection: C10)"""
    def f(c):
        t = owner(c, n); gone = C09.deletions(c)
        for o in nothrow(c, c.run(f'^destroy_{n}$', [t.this]), 'destruction'):
            deleted(c, o, t, gone)
    return f

def replaced(n):
    """move assignment to a collection that owns its objects (to a subset collection: C10)"""
    def f(c):
        a = Coll(c, n, 'source'); a.assume(); a.own()
        t = owner(c, n, 'target'); gone = C09.deletions(c)
        i, j, k = z3.BitVecs('i j k', 64)
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, a.n(c.st)), z3.ULT(j, t.n(c.st))), a.entry(c.st, i) != t.entry(c.st, j)), patterns=[z3.MultiPattern(a.entry(c.st, i), t.entry(c.st, j))]))
        for o in nothrow(c, c.run(f'^assign_{n}$', [t.this, a.this]), 'move assignment'):
            pre, st = c.pre, o.st
            deleted(c, o, t, gone)
            c.prove(o, 'the objects are those of the source, in order', z3.And(t.n(st) == a.n(pre), z3.ForAll([k], z3.Implies(z3.ULT(k, a.n(pre)), t.entry(st, k) == a.entry(pre, k)))))
            c.prove(o, 'nature, ID and readiness are those of the source', z3.And(t.subset(st) == a.subset(pre), t.id(st) == a.id(pre), t.prepared(st) == a.prepared(pre)))
            c.prove(o, 'the source has no objects any more', a.n(st) == 0)
    return f

CONTRACTS = [('MaybeSharedPtr constructors', ctor), ('MaybeSharedPtr copy constructor', copy), ('MaybeSharedPtr move constructor', move), ('MaybeSharedPtr destructor', destroy),
             ('MaybeSharedPtr assignment', assign), ('MaybeSharedPtr self assignment', assign_self), ('MaybeSharedPtr move assignment', assign_move), ('swap of MaybeSharedPtr', swap_), ('MaybeSharedPtr::release', release), ('MaybeSharedPtr::get and conversion to bool', observe)]
for n in ALL:
    C = Kind(n).coll
    CONTRACTS += [(f'{C}::push_back', hands_over(n)), (f'{Kind(n).M}::unlink', unlinks(n)), (f'{C}::~{C.split("::")[-1]}', ends(n)), (f'{C}::operator=', replaced(n))]

"""C22: interface types"""
from props.common import *
TITLE = 'Interface types expose exactly the object they hold'
HARNESS = ['c22.cpp']
ASSUMPTIONS = ['atomic counters behave like integers that no other thread changes during a call', 'a moved-from interface handle holds nothing and is only assigned to or destroyed', 'interface handles hold a model of one of the interfaced types (the constructors, the only way to make one, are proved to establish this)', 'the deleting destructor of an object frees it and changes no other object (contract assumed here, checked by the harness of C13)']
NOTE = 'construction (from immutable and mutable handles), copy and move construction and assignment, destruction, isA, as, the common getter, ID, availability, unlink, comparison and hash of a generated interface over three datatypes are proved for every held type and every object, with exact reference counts; the virtual functions are executed from the virtual tables of the compiled models.'
IF = ('Hit', 'Cluster', 'Info')
CLIENT = MODEL_INC + 'extern "C" {\n'
for n in IF:
    CLIENT += f'''void make_{n}(Energetic* r, const {n}& h) {{ new (r) Energetic(h); }}
void makem_{n}(Energetic* r, const Mutable{n}& h) {{ new (r) Energetic(h); }}
bool isA_{n}(const Energetic& e) {{ return e.isA<{n}>(); }}
void as_{n}({n}* r, const Energetic& e) {{ new (r) {n}(e.as<{n}>()); }}
'''
CLIENT += '''void copy(Energetic* r, const Energetic& e) { new (r) Energetic(e); }
void move(Energetic* r, Energetic& e) { new (r) Energetic(std::move(e)); }
void assign(Energetic& r, const Energetic& e) { r = e; }
void moveassign(Energetic& r, Energetic& e) { r = std::move(e); }
void destroy(Energetic& e) { e.~Energetic(); }
void empty(Energetic* r) { new (r) Energetic(Energetic::makeEmpty()); }
bool avail(const Energetic& e) { return e.isAvailable(); }
void id(podio::ObjectID* r, const Energetic& e) { *r = e.id(); }
void oid(podio::ObjectID* r, const Energetic& e) { *r = e.getObjectID(); }
double energy(const Energetic& e) { return e.energy(); }
void unlink_(Energetic& e) { e.unlink(); }
bool eq(const Energetic& a, const Energetic& b) { return a == b; }
bool ne(const Energetic& a, const Energetic& b) { return a != b; }
bool lt(const Energetic& a, const Energetic& b) { return a < b; }
size_t hash(const Energetic& a) { return std::hash<Energetic>{}(a); }
}
'''
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Info)\.cc', r'/(Hit|Cluster|Info)Obj\.cc')
OFF = 8          # of the value in its model, behind the pointer to the virtual table

def table(c, n):
    name = '_ZTVN9Energetic5ModelI%sEE' % mangle(n)
    mod = next((m for m in c.v.mods if m.glob(name) and m.glob(name)[2] is not None), None)
    if mod is None:
        raise Unsupported('no virtual table ' + name)
    return Ptr(c.eng.groot(name, mod)).add(16)

def objects(c):
    """contract of the deleting destructor of an object (slot 1): frees the object and changes no other one"""
    def virt(eng, st, obj, slot, args, ins):
        if slot == 1:
            st.events.append(('free', args[0])); return None
        raise Unsupported(f'virtual function in slot {slot}')
    c.eng.virtual = virt

class Iface:
    """an interface handle that holds an object of type n"""
    def __init__(i, c, n, name):
        i.c, i.n = c, n
        objects(c)
        i.p = c.ptr(name); i.model = c.ptr(name + '_model')
        c.st.mem.put(i.p, 64, i.model)
        c.st.mem.put(i.model, 64, table(c, n))
        i.h = UHandle(c, n, name + '_held', i.model.add(OFF))
        c.assume(z3.Implies(i.h.obj(c.st) != 0, OBJECT(i.h.obj(c.st))), z3.Not(OBJECT(i.h.ctrl(c.st))))
def holds(c, st, p):
    """type, object and control block an interface handle at p holds; None if it holds nothing"""
    m = st.mem.get(p, 64)
    if isinstance(m, Ptr) and m.root.kind == 'null':
        return None
    if not isinstance(m, Ptr):
        if z3.is_bv_value(z3.simplify(term(m))) and z3.simplify(term(m)).as_long() == 0:
            return None
        raise Unsupported('model of an interface handle')
    v = st.mem.get(m, 64)
    n = next((n for n in IF if isinstance(v, Ptr) and repr(v) == repr(table(c, n))), None)
    if n is None:
        raise Unsupported('dynamic type of a model')
    h = UHandle(c, n, 'value', m.add(OFF), valid=False)
    return n, h.obj(st), h.ctrl(st), h, m
def same(c, o, label, p, n, obj, ctrl):
    r = holds(c, o.st, p)
    c.prove(o, label, z3.And(r[1] == obj, r[2] == ctrl) if r and r[0] == n else False)
def counts(c, o, label, h, ctrl, d):
    """the number of owners in control block ctrl changed by d"""
    a, b = (term(s.mem.get(h.at(ctrl), 32)) for s in (c.pre, o.st))
    c.prove(o, label, z3.Implies(ctrl != 0, b == a + d))
def quiet(c, o, *but):
    frame(c, o, 'no object changes', only=OBJECT)
def nofree(c, o):
    for e in o.st.events:
        if e[0] == 'free':
            t = term(e[1], o.st.mem)
            c.prove(o, 'nothing existing is freed', z3.Or(t == 0, z3.Not(OLD(t))) if not isinstance(e[1], Ptr) or e[1].root is HEAP else e[1].root.kind != 'arg')

def make(n):
    def f(c):
        h = UHandle(c, n, 'handle'); c.assume(z3.Implies(h.obj(c.st) != 0, OBJECT(h.obj(c.st))), z3.Not(OBJECT(h.ctrl(c.st))))
        r = c.ptr('result')
        for p in ('make', 'makem'):
            for o in nothrow(c, c.run(f'^{p}_{n}$', [r, h.p], c.st.fork()), 'construction'):
                same(c, o, f'{p}: the interface handle holds the object it was made from, as this type', r, n, h.obj(c.pre), h.ctrl(c.pre))
                counts(c, o, f'{p}: one more handle refers to the object', h, h.ctrl(c.pre), 1)
                c.prove(o, 'the handle it was made from stays as it is', z3.And(h.obj(o.st) == h.obj(c.pre), h.ctrl(o.st) == h.ctrl(c.pre)))
                quiet(c, o); nofree(c, o)
    return f

def queries(n):
    def f(c):
        i = Iface(c, n, 'e'); h = i.h; k = h.k
        x = h.obj(c.st)
        ido, eo = c.field(k.obj, 'id'), c.field(k.obj, 'data') + c.field(f'{n}Data', 'energy')
        f = lambda a, w: term(c.st.mem.get(h.at(x).add(a), w))
        index, cid, en = f(ido, 32), f(ido + 4, 32), f(eo, 64)
        def after(o):
            same(c, o, 'the interface handle still holds the same object', i.p, n, x, h.ctrl(c.pre))
            quiet(c, o); nofree(c, o)
        for o in nothrow(c, c.run('^avail$', [i.p], c.st.fork()), 'isAvailable'):
            c.prove(o, 'an interface handle is available exactly if it refers to an object', boolean(o) == (x != 0)); after(o)
        for fn in ('id', 'oid'):
            r = c.ptr('result')
            for o in nothrow(c, c.run(f'^{fn}$', [r, i.p], c.st.fork()), 'id'):
                a, b = term(o.st.mem.get(r, 32)), term(o.st.mem.get(r.add(4), 32))
                c.prove(o, f'{fn}: the ID is that of the held object', z3.If(x != 0, z3.And(a == index, b == cid), z3.And(a == bvv(2**32 - 1, 32), b == bvv(2**32 - 1, 32)))); after(o)
        st = c.st.fork(); st.assume(x != 0)
        for o in nothrow(c, c.run('^energy$', [i.p], st), 'energy'):
            v = o.val
            c.prove(o, 'the common getter returns the member of the held object', (v == en if z3.is_bv(v) else z3.fpToIEEEBV(v) == en) if z3.is_expr(v) else term(v) == en); after(o)
        for o in nothrow(c, c.run('^hash$', [i.p], c.st.fork()), 'hash'):
            c.prove(o, 'the hash is that of the held object', term(o.val) == x); after(o)
        for m in IF:
            for o in nothrow(c, c.run(f'^isA_{m}$', [i.p], c.st.fork()), 'isA'):
                c.prove(o, f'isA<{m}> is {m == n}', boolean(o) == (m == n)); after(o)
            r = c.ptr('result')
            for o in c.run(f'^as_{m}$', [r, i.p], c.st.fork()):
                if m != n:
                    c.prove(o, f'as<{m}> throws a runtime_error', o.kind == 'throw' and '_ZTISt13runtime_error' in str(o.val)); after(o)
                elif o.kind == 'throw':
                    c.prove(o, f'as<{m}> does not throw', False)
                else:
                    q = UHandle(c, n, 'result', r, valid=False)
                    c.prove(o, f'as<{m}> is the held object itself', z3.And(q.obj(o.st) == x, q.ctrl(o.st) == h.ctrl(c.pre)))
                    counts(c, o, f'as<{m}>: one more handle refers to the object', h, h.ctrl(c.pre), 1); after(o)
        for o in nothrow(c, c.run('^unlink_$', [i.p], c.st.fork()), 'unlink'):
            same(c, o, 'after unlinking the handle refers to no object', i.p, n, bvv(0), bvv(0))
            released(c, o, h, x, h.ctrl(c.pre))
    return f

def released(c, o, h, x, ctrl):
    """one reference to the object was given up: the last one frees what it owned"""
    pre, st = c.pre, o.st
    cnt = term(pre.mem.get(h.at(ctrl), 32)); own = term(pre.mem.get(h.at(ctrl).add(4), 8)) != 0
    last = z3.And(ctrl != 0, cnt == 1)
    fr = [e for e in o.st.events if e[0] == 'free']
    heap = [term(e[1], st.mem) for e in fr if not (isinstance(e[1], Ptr) and e[1].root.kind == 'arg')]
    some = lambda t: z3.Or(*[q == t for q in heap]) if heap else z3.BoolVal(False)
    c.prove(o, 'if another handle remains, there is one owner less', z3.Implies(z3.And(ctrl != 0, cnt != 1), term(st.mem.get(h.at(ctrl), 32)) == cnt - 1))
    c.prove(o, 'the control block is freed exactly with the last handle', some(ctrl) == last if heap else z3.Not(last))
    for q in heap:
        c.prove(o, 'only what the last handle owned is freed', z3.Implies(z3.And(q != 0, OLD(q), OBJECT(q)), z3.And(q == x, last, own)))
    frame(c, o, 'no other object changes', x, only=OBJECT)
    c.prove(o, 'a remaining object does not change', z3.Implies(z3.Not(z3.And(last, own)), unchanged(c, o, x)))
def unchanged(c, o, x):
    fs = [z3.BoolVal(True)]
    for key in set(c.pre.mem.cells) | set(o.st.mem.cells):
        if key[0] != HEAP.id or key[1] != (0, 'h'):
            continue
        for off, (w, v) in o.st.mem.cells.get(key, {}).items():
            old = c.pre.mem.cells.get(key, {}).get(off)
            old = old[1] if old is not None and old[0] == w else o.st.mem.initial.get((key[0], key[1], off, str(w)))
            if old is not None and z3.is_array(v) and z3.is_array(old) and not z3.eq(old, v):
                fs.append(z3.Select(old, x) == z3.Select(v, x))
    return z3.And(*fs)

def transfer(n):
    def f(c):
        e = Iface(c, n, 'e'); h = e.h; x, ctl = h.obj(c.st), h.ctrl(c.st)
        r = c.ptr('result')
        for o in nothrow(c, c.run('^copy$', [r, e.p], c.st.fork()), 'copy'):
            same(c, o, 'the copy holds the same object', r, n, x, ctl)
            same(c, o, 'the original still holds it', e.p, n, x, ctl)
            a, b = o.st.mem.get(r, 64), o.st.mem.get(e.p, 64)
            c.prove(o, 'copy and original share no model', repr(a) != repr(b))
            counts(c, o, 'one more handle refers to the object', h, ctl, 1)
            quiet(c, o); nofree(c, o)
        for o in nothrow(c, c.run('^move$', [r, e.p], c.st.fork()), 'move'):
            same(c, o, 'the new handle holds the object of the old one', r, n, x, ctl)
            c.prove(o, 'a moved-from handle holds nothing', holds(c, o.st, e.p) is None)
            counts(c, o, 'as many handles refer to the object as before', h, ctl, 0)
            quiet(c, o); nofree(c, o)
        for o in nothrow(c, c.run('^destroy$', [e.p], c.st.fork()), 'destruction'):
            released(c, o, h, x, ctl)
            own = [q for q in o.st.events if q[0] == 'free' and isinstance(q[1], Ptr) and q[1].root.kind == 'arg']
            c.prove(o, 'the model is freed once', len(own) == 1 and own[0][1].root.name == 'e_model')
        for o in nothrow(c, c.run('^assign$', [e.p, e.p], c.st.fork()), 'self assignment'):
            same(c, o, 'assignment to itself keeps the held object', e.p, n, x, ctl)
            counts(c, o, 'as many handles refer to the object as before', h, ctl, 0)
            quiet(c, o)
    return f

def assign(n, m):
    def f(c):
        e, d = Iface(c, n, 'e'), Iface(c, m, 'd'); h, g = e.h, d.h
        x, ctl, y, cty = h.obj(c.st), h.ctrl(c.st), g.obj(c.st), g.ctrl(c.st)
        c.assume(z3.Or(ctl == 0, ctl != cty) if n != m else z3.BoolVal(True))
        if n == m:      # handles that share a control block share the object, and both are counted
            c.assume(z3.Implies(z3.And(ctl != 0, ctl == cty), z3.And(x == y, z3.UGE(h.count(c.st), 2))), z3.Implies(z3.And(ctl != 0, cty != 0, ctl != cty), x != y), cty != x, ctl != y)
        else:
            c.assume(z3.Or(x == 0, x != y), z3.Or(x == 0, cty != x), z3.Or(ctl == 0, ctl != y))
        for fn in ('assign', 'moveassign'):
            for o in nothrow(c, c.run(f'^{fn}$', [e.p, d.p], c.st.fork()), fn):
                same(c, o, f'{fn}: the handle assigned to holds the object of the other', e.p, m, y, cty)
                if fn == 'assign':
                    same(c, o, 'the handle assigned from keeps its object', d.p, m, y, cty)
                else:
                    c.prove(o, 'a moved-from handle holds nothing', holds(c, o.st, d.p) is None)
                up = 1 if fn == 'assign' else 0
                cnt = lambda s, q: term(s.mem.get(h.at(q), 32))
                c.prove(o, f'{fn}: references to the new object', z3.Implies(cty != 0, cnt(o.st, cty) == cnt(c.pre, cty) + up - z3.If(cty == ctl, bvv(1, 32), bvv(0, 32))))
                c.prove(o, f'{fn}: references to the old object', z3.Implies(z3.And(ctl != 0, ctl != cty, cnt(c.pre, ctl) != 1), cnt(o.st, ctl) == cnt(c.pre, ctl) - 1))
                for q in o.st.events:
                    if q[0] == 'free':
                        if isinstance(q[1], Ptr) and q[1].root.kind == 'arg':
                            c.prove(o, f'{fn}: only the model of the handle assigned to is freed', q[1].root.name == 'e_model')
                        elif not (isinstance(q[1], Ptr) and q[1].root.kind not in ('arg', 'heap')):
                            t = term(q[1], o.st.mem)
                            c.prove(o, f'{fn}: only what the last handle owned is freed', z3.Implies(z3.And(t != 0, OLD(t)), z3.And(ctl != cty, ctl != 0, cnt(c.pre, ctl) == 1, z3.Or(t == ctl, t == x))))
                frame(c, o, f'{fn}: no other object changes', x, only=OBJECT)
                c.prove(o, f'{fn}: the object is not touched unless its last handle goes', z3.Implies(z3.Not(z3.And(ctl != cty, ctl != 0, cnt(c.pre, ctl) == 1)), unchanged(c, o, x)))
        for op, spec in (('eq', x == y if n == m else z3.BoolVal(False)), ('ne', x != y if n == m else z3.BoolVal(True)), ('lt', z3.ULT(x, y))):
            for o in nothrow(c, c.run(f'^{op}$', [e.p, d.p], c.st.fork()), 'comparison'):
                c.prove(o, f'{op}: interface handles compare like the objects they hold', boolean(o) == spec); quiet(c, o); nofree(c, o)
    return f

def empty(c):
    r = c.ptr('result')
    for o in nothrow(c, c.run('^empty$', [r]), 'makeEmpty'):
        q = holds(c, o.st, r)
        c.prove(o, 'an empty interface handle refers to no object', q[1] == 0)
        for p in nothrow(c, c.run('^avail$', [r], o.st.fork()), 'isAvailable'):
            c.prove(p, 'an empty interface handle is not available', z3.Not(boolean(p)))

CONTRACTS = [(f'Energetic made from {n}', make(n)) for n in IF] + [(f'queries of Energetic holding {n}', queries(n)) for n in IF] + [(f'copying and moving of Energetic holding {n}', transfer(n)) for n in IF] \
    + [(f'assignment and comparison of Energetic holding {n} and {m}', assign(n, m)) for n in IF for m in IF] + [('Energetic::makeEmpty', empty)]

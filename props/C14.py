"""C14: clones"""
from props.common import *
from props import C12
from props.C12 import TYPES, W, ESZ, offset, leaves, meaning, result, equal, BOX, Many
TITLE = 'A clone equals its original and is independent of it'
HARNESS = ['c14.cpp']
ASSUMPTIONS = C12.ASSUMPTIONS
NOTE = 'clone of the mutable and immutable handles of four generated datatypes (covering all kinds of members and relations) and of links, with and without relations, is proved against the compiled code for every contents of the object, including objects that share their relation vectors with a collection that was read.'
CLIENT = MODEL_INC + LINK_INC + 'extern "C" {\n'
for n in list(TYPES) + list(LINKS):
    k = Kind(n)
    for p, q in (('', k.T), ('m', k.M)):
        CLIENT += f'void {p}clone_{n}({k.M}* r, const {q}& h, bool rel) {{ new (r) {k.M}(h.clone(rel)); }}\n'
CLIENT += '}\n'
modules = model(CLIENT, r'/(Mutable)?(Hit|Cluster|Part|Info)(Collection|CollectionData|Obj)?\.cc', '/DatamodelLinks.cc')

def clone(n, p):
    mem, sub, one, mny, vecs = TYPES[n]
    k = Kind(n)
    def f(c):
        h = UHandle(c, n, 'object'); x = h.obj(c.st); c.assume(x != 0, OBJECT(x), z3.Not(OBJECT(h.ctrl(c.st))))
        interfaces(c)
        q = c.ptr('result'); rel = z3.Bool('cloneRelations')
        r = UHandle(c, n, 'result', q, valid=False)
        for m, t in mem.items():
            for a, w in W[t]:
                v = term(c.st.mem.get(h.at(x).add(offset(c, n, m) + a), w))
                if t == 'bool':
                    c.assume(z3.ULE(v, 1))
        j = z3.BitVec('j', 64)
        many = {}
        for m, t in list(mny.items()) + list(vecs.items()):
            many[m] = Many(c, n, m, t, x)
            many[m].raw(c.st, j)
            if t in ('Hit', 'Cluster'):
                ctl = many[m].elem(c.st, j, 8, 64)
                c.assume(z3.ForAll([j], z3.And(z3.Not(OBJECT(ctl)), z3.Not(BOX(ctl)), OLD(ctl)), patterns=[ctl]))
        boxes = {}
        for m, t in one.items():
            old = term(c.st.mem.get(h.at(x).add(c.field(k.obj, 'm_' + m)), 64), c.st.mem)
            boxes[m] = old
            was = result(c.st, t, h.at(old))
            c.assume(z3.Not(OBJECT(old)), OLD(old), BOX(old), z3.Not(CTRL(old)))
            if t != 'Energetic':
                c.assume(z3.Implies(old != 0, z3.And(z3.Not(OBJECT(was[1])), z3.Not(BOX(was[1])), OLD(was[1]))))
        for o in nothrow(c, c.run(f'^{p}clone_{n}$', [q, h.p, rel]), 'clone'):
            pre, st = c.pre, o.st
            y = r.obj(st); yp = r.at(y)
            at = lambda off, w=64: term(st.mem.get(yp.add(off) if off else yp, w), st.mem)
            c.prove(o, 'the clone is a new object of its own', z3.And(y != 0, z3.Not(OLD(y)), r.ctrl(st) != 0, z3.Not(OLD(r.ctrl(st))), r.count(st) == 1, r.owned(st) == 1))
            c.prove(o, 'the clone is not part of any collection', at(c.field(k.obj, 'id'), 32) == bvv(2**32 - 1, 32))
            for m, t in mem.items():
                off = offset(c, n, m)
                c.prove(o, f'{m} of the clone is that of the original', z3.And(*[at(off + a, w) == term(pre.mem.get(h.at(x).add(off + a), w)) for a, w in W[t]]))
            for m, t in one.items():
                b = at(c.field(k.obj, 'm_' + m)); bp = r.at(b)
                same = equal(result(st, t, bp), result(pre, t, h.at(boxes[m])))
                c.prove(o, f'{m} of the clone is that of the original, or not set if relations are excluded', z3.If(z3.And(rel, boxes[m] != 0), z3.And(b != 0, same), b == 0))
                c.prove(o, f'{m} of the clone is independent of the original', z3.Or(b == 0, z3.Not(OLD(b))))
            for m, t in list(mny.items()) + list(vecs.items()):
                a = many[m]
                v = at(c.field(k.obj, 'm_' + m)); vp = r.at(v)
                b, e = at(offset(c, n, m + '_begin'), 32), at(offset(c, n, m + '_end'), 32)
                ln = stdlib.vlen(st, vp)
                c.prove(o, f'{m} of the clone is a valid range of a vector of its own', z3.And(v != 0, z3.Not(OLD(v)), z3.ULE(b, e), z3.ULE(z3.ZeroExt(32, e), ln)))
                c.prove(o, f'{m} of the clone has as many elements, or none if relations are excluded', z3.ZeroExt(32, e - b) == z3.If(rel, a.size, bvv(0)))
                eq = equal([meaning(t, term(st.mem.get(vp.elem(z3.ZeroExt(32, b) + j, ESZ[t]).add(o_), w), st.mem)) for o_, w in leaves(t)], a.raw(pre, z3.ZeroExt(32, a.begin(pre)) + j))
                c.prove(o, f'{m} of the clone has the elements of the original', z3.Implies(z3.And(rel, z3.ULT(j, a.size)), eq))
            frame(c, o, 'no existing object changes', only=OBJECT)
            for fr in frees(o):
                c.prove(o, 'nothing existing is freed', z3.Or(term(fr, st.mem) == 0, z3.Not(OLD(term(fr, st.mem)))))
    return f
def clone_link(n, p):
    k = Kind(n)
    def f(c):
        h = UHandle(c, n, 'object'); x = h.obj(c.st); c.assume(x != 0, OBJECT(x), z3.Not(OBJECT(h.ctrl(c.st))))
        interfaces(c)
        q = c.ptr('result'); rel = z3.Bool('cloneRelations')
        r = UHandle(c, n, 'result', q, valid=False)
        wo = c.field(k.obj, 'data') + c.field('podio::LinkData', 'weight')
        boxes = {}
        for m, t in k.ends.items():
            old = term(c.st.mem.get(h.at(x).add(c.field(k.obj, 'm_' + m)), 64), c.st.mem)
            boxes[m] = old
            was = result(c.st, t, h.at(old))
            c.assume(z3.Not(OBJECT(old)), OLD(old), BOX(old), z3.Not(CTRL(old)))
            if t != 'Energetic':
                c.assume(z3.Implies(old != 0, z3.And(z3.Not(OBJECT(was[1])), z3.Not(BOX(was[1])), OLD(was[1]))))
        for o in nothrow(c, c.run(f'^{p}clone_{n}$', [q, h.p, rel]), 'clone'):
            pre, st = c.pre, o.st
            y = r.obj(st); yp = r.at(y)
            at = lambda off, w=64: term(st.mem.get(yp.add(off) if off else yp, w), st.mem)
            c.prove(o, 'the clone is a new object of its own', z3.And(y != 0, z3.Not(OLD(y)), r.ctrl(st) != 0, z3.Not(OLD(r.ctrl(st))), r.count(st) == 1, r.owned(st) == 1))
            c.prove(o, 'the clone is not part of any collection', at(c.field(k.obj, 'id'), 32) == bvv(2**32 - 1, 32))
            c.prove(o, 'weight of the clone is that of the original', at(wo, 32) == term(pre.mem.get(h.at(x).add(wo), 32), pre.mem))
            for m, t in k.ends.items():
                b = at(c.field(k.obj, 'm_' + m)); bp = r.at(b)
                same = equal(result(st, t, bp), result(pre, t, h.at(boxes[m])))
                c.prove(o, f'{m} of the clone is that of the original, or not set if relations are excluded', z3.If(z3.And(rel, boxes[m] != 0), z3.And(b != 0, same), b == 0))
                c.prove(o, f'{m} of the clone is independent of the original', z3.Or(b == 0, z3.Not(OLD(b))))
            frame(c, o, 'no existing object changes', only=OBJECT)
            for fr in frees(o):
                c.prove(o, 'nothing existing is freed', z3.Or(term(fr, st.mem) == 0, z3.Not(OLD(term(fr, st.mem)))))
    return f
CONTRACTS = []
for n in TYPES:
    for p in ('', 'm'):
        CONTRACTS.append((f'{Kind(n).M if p else Kind(n).T}::clone', clone(n, p)))
for n in LINKS:
    for p in ('', 'm'):
        CONTRACTS.append((f'{Kind(n).M if p else Kind(n).T}::clone', clone_link(n, p)))

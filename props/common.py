"""things several properties share"""
import os, sys, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'podver'))
from contract import *
import build as B

def core(*names):
    """IR of library sources"""
    def f(b):
        return [f'{B.REPO}/src/{n}' for n in names]
    return f

HASH = z3.Function('HASH', StrS, z3.BitVecSort(32))
TABLE = 'podio::CollectionIDTable'

def use_hash(c):
    """contract of MurmurHash3_x86_32 (proved in C01): out := HASH(bytes), seed must be 0"""
    def murmur(eng, st, a, ins, dem):
        buf, ln, seed, out = a
        s = stdlib.view(eng, st, z3.SignExt(32, ln), buf)
        eng.safety(st, seed == 0, 'MurmurHash3_x86_32 is called with seed 0', ins)
        st.mem.put(out, 32, HASH(s))
    c.eng.contracts.append((lambda d: d.startswith('MurmurHash3_x86_32'), murmur))

class Table:
    """CollectionIDTable seen through its abstraction"""
    def __init__(t, c, this=None):
        t.c = c
        t.this = this or c.ptr('table')
        t.ids = c.vec(t.this.add(c.field(TABLE, 'm_collectionIDs')))
        t.names = c.vec(t.this.add(c.field(TABLE, 'm_names')))
    def n(t, st): return t.names.len(st)
    def name(t, st, i): return t.names.at(st, i, STR)
    def id(t, st, i): return t.ids.at(st, i, 'unsigned int')
    def inv(t, st):
        n = t.n(st); i, j = z3.BitVecs('i j', 64)
        return {'names and IDs have the same length': t.ids.len(st) == n,
                'names are pairwise distinct': z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, n), i != j), t.name(st, i) != t.name(st, j))),
                'IDs are pairwise distinct': z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, n), i != j), t.id(st, i) != t.id(st, j)))}
    def assume(t):
        t.c.assume(*t.inv(t.c.st).values(), z3.ULT(t.n(t.c.st), bvv(1 << 40)))
    def same(t, st0, st1):
        i = z3.BitVec('i', 64)
        return z3.And(t.n(st0) == t.n(st1), t.ids.len(st0) == t.ids.len(st1), t.kept(st0, st1))
    def kept(t, st0, st1):
        i = z3.BitVec('i', 64)
        return z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(st0)), z3.And(t.name(st0, i) == t.name(st1, i), t.id(st0, i) == t.id(st1, i))))
    def has(t, st, s):
        i = z3.BitVec('i', 64)
        return z3.Exists([i], z3.And(z3.ULT(i, t.n(st)), t.name(st, i) == s))
    def hasid(t, st, d):
        i = z3.BitVec('i', 64)
        return z3.Exists([i], z3.And(z3.ULT(i, t.n(st)), t.id(st, i) == d))

def is_set(c, o, p):
    """(engaged, value pointer) of an optional<uint32_t> result returned in registers or memory"""
    raise NotImplementedError

MODEL_INC = '''#include "vmodel/HitCollection.h"
#include "vmodel/ClusterCollection.h"
#include "vmodel/InfoCollection.h"
#include "vmodel/PartCollection.h"
#include "vmodel/Energetic.h"
'''
LINK_INC = '''#include "vmodel/HitHitLinkCollection.h"
#include "vmodel/HitClusterLinkCollection.h"
#include "vmodel/ClusterEnergeticLinkCollection.h"
'''
def model(client, *parts, core=()):
    """IR of a client translation unit and of generated sources (regexes on file names) of our own data model"""
    def f(b):
        r = [(f'client_{zlib.crc32(client.encode())}.cc', client)]
        for u in b.model_units():
            t = open(u).read()
            if any(re.search(p, t) for p in parts):
                r.append(u)
        return r + [f'{B.REPO}/src/{n}' for n in core]
    return f

def boolean(o):
    return o.val if z3.is_bool(o.val) else term(o.val) != 0

class Handle:
    """a user layer handle: MaybeSharedPtr{object, control block} at the start of the handle object"""
    def __init__(h, c, cls, name, p=None, valid=True):
        h.c, h.cls = c, cls
        h.p = p or c.ptr(name)
        h.oo, h.co = c.field(f'podio::utils::MaybeSharedPtr<{cls}Obj>', 'm_ptr'), c.field(f'podio::utils::MaybeSharedPtr<{cls}Obj>', 'm_ctrlBlock')
        if valid:
            c.assume(h.valid(c.st))
    def obj(h, st): return term(st.mem.get(h.p.add(h.oo), 64), st.mem)
    def ctrl(h, st): return term(st.mem.get(h.p.add(h.co), 64), st.mem)
    def at(h, t): return Ptr(HEAP, (Sel('h', t),))
    def count(h, st): return term(st.mem.get(h.at(h.ctrl(st)), 32))
    def owned(h, st): return term(st.mem.get(h.at(h.ctrl(st)).add(4), 8))
    def valid(h, st):
        """the control block, if any, counts at least this handle, and is an object of its own"""
        c = h.ctrl(st)
        return z3.Implies(c != 0, z3.And(h.count(st) != 0, z3.ULT(h.count(st), bvv(1 << 31, 32)), c != h.obj(st)))

KINDS = {'Hit': 'Hit', 'Cluster': 'Cluster', 'Part': 'ns::Part', 'Info': 'Info'}
LINKS = {'Link': ('HitClusterLink', 'Hit', 'Cluster'), 'HHLink': ('HitHitLink', 'Hit', 'Hit'), 'CELink': ('ClusterEnergeticLink', 'Cluster', 'Energetic')}
OLD = z3.Function('exists_before', z3.BitVecSort(64), z3.BoolSort())
CTRL = stdlib.IS_CTRL
OBJECT = stdlib.IS_OBJECT      # an object of a datatype (and not, say, a control block or a buffer)
class Kind:
    """names of the classes of one datatype"""
    def __init__(k, name):
        k.name = name
        if name in LINKS:
            n, f, t = LINKS[name]
            k.ends = {'from': f, 'to': t}
            k.cls, k.mut = f'podio::LinkT<{f}, {t}>', ''
            k.T, k.M, k.C = n, 'Mutable' + n, n + 'Collection'
            k.obj, k.coll, k.data = f'podio::LinkObj<{f}, {t}>', f'podio::LinkCollection<{f}, {t}>', f'podio::LinkCollectionData<{f}, {t}>'
            k.mcoll = f'N5podio14LinkCollectionI{mangle(f)}{mangle(t) if t != f else "S1_"}EE'
        else:
            q = KINDS[name]
            k.T, k.M, k.C = q, re.sub(r'(\w+)$', r'Mutable\1', q), q + 'Collection'
            k.obj, k.coll, k.data = q + 'Obj', q + 'Collection', q + 'CollectionData'
            k.mcoll = mangle(k.coll)
            k.re = name
def mangle(q):
    p = q.split('::')
    return f'{len(q)}{q}' if len(p) == 1 else 'N' + ''.join(f'{len(x)}{x}' for x in p) + 'E'

class Coll:
    """a generated collection seen through its abstraction: subset nature, ID, and the list of its objects"""
    def __init__(t, c, kind, name='coll', this=None):
        t.c = c; t.blocks = []; t.k = kind if isinstance(kind, Kind) else Kind(kind)
        t.this = this or c.ptr(name)
        k = t.k
        t.f = lambda n: t.this.add(c.field(k.coll, n))
        t.subp, t.idp, t.prep = t.f('m_isSubsetColl'), t.f('m_collectionID'), t.f('m_isPrepared')
        t.store = t.f('m_storage')
        t.d = lambda n: t.store.add(c.field(k.data, n))
        t.ep = t.d('entries')
        t.ido = c.field(k.obj, 'id')
        c.st.ghost.setdefault('alloc0', OLD)
        if this is None:
            c.dynamic(t.this, k.mcoll)
    def subset(t, st): return term(st.mem.get(t.subp, 8)) != 0
    def id(t, st): return term(st.mem.get(t.idp, 32))
    def prepared(t, st): return term(st.mem.get(t.prep, 8)) != 0
    def n(t, st): return stdlib.vlen(st, t.ep)
    def entry(t, st, i): return term(st.mem.get(t.ep.elem(i, 8), 64), st.mem)
    def objp(t, a): return Ptr(HEAP, (Sel('h', a),))
    def index(t, st, a): return term(st.mem.get(t.objp(a).add(t.ido), 32))
    def cid(t, st, a): return term(st.mem.get(t.objp(a).add(t.ido + 4), 32))
    def inv(t, st):
        """data structure invariant: an owning collection holds distinct objects, the object at position i has index i and the ID of the collection"""
        n = t.n(st); i, j = z3.BitVecs('i j', 64)
        return {'no object is null': z3.ForAll([i], z3.Implies(z3.ULT(i, n), t.entry(st, i) != 0), patterns=[t.entry(st, i)]),
                **t.buffers(st),
                # (that the objects exist matters only before a call)
                'every object is identified by its position and the ID of the collection': z3.Implies(z3.Not(t.subset(st)), z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And(z3.SignExt(32, t.index(st, t.entry(st, i))) == i, t.cid(st, t.entry(st, i)) == t.id(st))), patterns=[t.entry(st, i)]))}
    def buffers(t, st):
        """the buffers that writing needs exist: data, vector members and one list of references per relation if it owns its objects, one list of references otherwise"""
        c = t.c
        fs = next(m for m in c.v.mods if m.record(t.k.data)); fs = [f[0] for f in fs.fields(fs.record(t.k.data))]
        lists = [f for f in fs if f.startswith('m_rel_') and not f.endswith('_tmp')]
        rels = len(lists)
        val = lambda p: term(st.mem.get(p, 64), st.mem)
        refs = t.d('m_refCollections'); n = stdlib.vlen(st, refs)
        own = [val(t.d(f)) != 0 for f in fs if f == 'm_data' or f.startswith('m_vec_')]
        sub = t.subset(st)
        return {'a collection that owns its objects has its data buffers': z3.Implies(z3.Not(sub), z3.And(*own)),
                'the lists of related objects exist all or not at all': z3.Or(z3.And(*[val(t.d(f)) == 0 for f in lists]), z3.And(*[val(t.d(f)) != 0 for f in lists])),
                'there is one list of references per relation, and one in a subset collection': n == z3.If(sub, bvv(1), bvv(rels)),
                'the lists of references exist': z3.And(*[z3.Implies(z3.ULT(bvv(i), n), val(refs.elem(bvv(i), 8)) != 0) for i in range(max(rels, 1))])}
    def assume(t):
        c = t.c
        for p in (t.subp, t.prep):
            c.assume(z3.ULE(term(c.st.mem.get(p, 8)), 1))
        c.assume(z3.ULT(t.n(c.st), bvv((1 << 31) - 1)), *t.inv(c.st).values())
        i = z3.BitVec('i', 64)
        c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(c.st)), OLD(t.entry(c.st, i))), patterns=[t.entry(c.st, i)]))
    def check_inv(t, o):
        for l, q in t.inv(o.st).items():
            t.c.prove(o, 'invariant: ' + l, q)
    def own(t):
        """what the collection itself allocated is none of the objects of the datatypes"""
        c, st = t.c, t.c.st
        i = z3.BitVec('i', 64)
        c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(st)), OBJECT(t.entry(st, i))), patterns=[t.entry(st, i)]))
        for cls, base in ((t.k.coll, t.this), (t.k.data, t.store)):
            mod = next(m for m in c.v.mods if m.record(cls))
            for name, off, ty, size in mod.fields(mod.record(cls)):
                if name in ('entries', 'm_storage', 'm_vecmem_info') or name.startswith('_vptr'):
                    continue
                p = base.add(off)
                if size == 8:
                    v = term(st.mem.get(p, 64), st.mem)
                    c.assume(z3.Implies(v != 0, z3.And(OLD(v), z3.Not(OBJECT(v)))))
                elif size == 24:
                    e = term(st.mem.get(p.elem(i, 8), 64), st.mem)
                    c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, stdlib.vlen(st, p)), z3.And(e != 0, OLD(e), z3.Not(OBJECT(e)))), patterns=[e]))
                elif size > 8:
                    raise Unsupported(f'member {name} of {cls}')
    def same_list(t, a, b, m=None):
        """b holds the objects of a in the same order (and then possibly more)"""
        i = z3.BitVec('i', 64)
        return z3.And(t.n(b) == t.n(a) if m is None else t.n(b) == m, z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(a)), t.entry(b, i) == t.entry(a, i))))
    def same_ids(t, a, b, *but, only=None):
        """no object that existed in a changed its ID"""
        x = z3.BitVec('x', 64)
        e = z3.And(t.index(a, x) == t.index(b, x), t.cid(a, x) == t.cid(b, x))
        return z3.ForAll([x], z3.Implies(z3.And(OLD(x), *([only(x)] if only is not None else []), *[x != y for y in but], *[x != y for y in t.blocks]), e))
    def apart(t, h):
        """the control block of a handle is no object"""
        i = z3.BitVec('i', 64)
        b = h.ctrl(t.c.st)
        t.blocks.append(b)
        t.c.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, t.n(t.c.st)), z3.Or(b == 0, t.entry(t.c.st, i) != b)), patterns=[t.entry(t.c.st, i)]))
    def kept(t, a, b):
        return z3.And(t.same_list(a, b), t.id(a) == t.id(b), t.subset(a) == t.subset(b), t.same_ids(a, b))

def frame_part(c, o, label, x, lo, hi, *but):
    """of object x only the bytes from lo to hi change, and of all others nothing"""
    frame(c, o, label, *but, part=(x, lo, hi))
def frame(c, o, label, *but, only=None, part=None):
    """nothing in any object that existed before (and is of that kind), except those named, is changed by the call"""
    pre, st = c.pre, o.st
    but0 = but
    goals = []
    for key in set(pre.mem.cells) | set(st.mem.cells):
        if key[0] != HEAP.id:
            continue
        for off, (w, v) in st.mem.cells.get(key, {}).items():
            old = pre.mem.cells.get(key, {}).get(off)
            if old is not None and old[0] == w:
                old = old[1]
            else:
                old = st.mem.initial.get((key[0], key[1], off, str(w)))
            if old is not None and z3.is_expr(old) and z3.eq(old, v):
                continue
            if old is None or not z3.is_array(v):
                raise Unsupported(f'frame of {key} {off}')
            x = z3.BitVec('x', 64)
            but = but0 + ((part[0],) if part and part[1] <= off and off + w // 8 <= part[2] and key[1] == (0, 'h') else ())
            goals.append(z3.ForAll([x], z3.Implies(z3.And(OLD(x), *([only(x)] if only is not None else []), *[x != y for y in but]), z3.Select(old, x) == z3.Select(v, x))))
    for g in goals or [z3.BoolVal(True)]:
        c.prove(o, label, g)

class UHandle(Handle):
    """handle of a datatype of our data model; mutable and immutable handles look the same"""
    def __init__(h, c, kind, name, p=None, valid=True):
        k = h.k = kind if isinstance(kind, Kind) else Kind(kind)
        h.c = c; h.p = p or c.ptr(name)
        m = f'podio::utils::MaybeSharedPtr<{k.obj}>'.replace('>>', '> >')
        h.oo, h.co = c.field(m, 'm_ptr'), c.field(m, 'm_ctrlBlock')
        c.st.ghost.setdefault('alloc0', OLD)
        if valid:
            c.assume(h.valid(c.st), OLD(h.obj(c.st)), OLD(h.ctrl(c.st)))

def nothrow(c, outs, what):
    for o in outs:
        if o.kind == 'throw':
            c.prove(o, what + ' does not throw', False)
        else:
            yield o
def frees(o):
    return [e[1] for e in o.st.events if e[0] == 'free']

HELD = z3.Function('held', z3.BitVecSort(64), z3.BitVecSort(64))     # the object an interface value refers to (address of its Model, which never changes what it holds except by unlink)
HELD_TYPE = z3.Function('held_type', z3.BitVecSort(64), z3.BitVecSort(64))
GID = z3.Function('interface_id', z3.BitVecSort(64), z3.BitVecSort(64))     # ID of the object an interface value refers to (proved in C22 for every held type)
def interfaces(c):
    """contracts of the virtual functions of interface values of unknown held type, proved for each held type in C22:
    clone makes a new value holding the same object; the destructor and the rest change no object"""
    def virt(eng, st, obj, slot, args, ins):
        if slot == 2:
            out, this = args[0], args[1]
            q = eng.alloc(st, 'interface_model')
            t = term(q, st.mem)
            st.assume(HELD(t) == HELD(term(this, st.mem)), HELD_TYPE(t) == HELD_TYPE(term(this, st.mem)), z3.Not(OBJECT(t)))
            st.mem.put(out, 64, q)
            return None
        if slot in (0, 1):
            st.events.append(('dtor', args[0]))
            return None
        if slot == 4:
            return GID(term(args[0], st.mem))
        raise Unsupported(f'interface function in slot {slot}')
    c.eng.virtual = virt

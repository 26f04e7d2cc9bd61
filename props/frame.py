"""podio::Frame over raw data of unknown contents: state, contracts of everything it calls (C04, C05, C25)"""
from props.common import *
FnS = stdlib.FnS; NULLFN = stdlib.NULLFN
CLIENT = '''#include "podio/Frame.h"
struct MemData {
  podio::CollectionIDTable getIDTable() const;
  std::optional<podio::CollectionReadBuffers> getCollectionBuffers(const std::string& name);
  std::vector<std::string> getAvailableCollections() const;
  std::unique_ptr<podio::GenericParameters> getParameters();
  ~MemData();
};
extern "C" {
void make(podio::Frame* r, std::unique_ptr<MemData>& d) { new (r) podio::Frame(std::move(d)); }
const podio::CollectionBase* get(const podio::Frame& f, const std::string& n) { return f.get(n); }
const podio::CollectionBase* forWrite(const podio::Frame& f, const std::string& n) { return f.getCollectionForWrite(n); }
void put(podio::Frame& f, std::unique_ptr<podio::CollectionBase>& c, const std::string& n) { f.put(std::move(c), n); }
void available(std::vector<std::string>* r, const podio::Frame& f) { new (r) std::vector<std::string>(f.getAvailableCollections()); }
void name(std::optional<std::string>* r, const podio::Frame& f, uint32_t id) { new (r) std::optional<std::string>(f.getName(id)); }
void move(podio::Frame* r, podio::Frame& f) { new (r) podio::Frame(std::move(f)); }
}
'''
MODEL = False
def modules(b):
    return [('frame_client.cc', CLIENT)]
FM = 'podio::Frame::FrameModel<MemData>'
RB = 'podio::CollectionReadBuffers'
CB = 'podio::CollectionBase'
B64 = z3.BitVecSort(64); B32 = z3.BitVecSort(32)
SET = z3.ArraySort(StrS, z3.BoolSort())
TID = z3.Function('table_id', StrS, B32)         # what the ID table records for a name
TNAME = z3.Function('table_name', B32, StrS)     # ... and for an ID
KNOWN = z3.Function('table_has_id', B32, z3.BoolSort())
PARTS = ('data', 'references', 'vectorMembers')

class Bufs:
    """the contents of a CollectionReadBuffers object"""
    def __init__(b, c, p):
        b.c, b.p = c, p
        b.at = {m: p.add(c.field(RB, m)) if c.field(RB, m) else p for m in PARTS + ('schemaVersion', 'type', 'createCollection', 'deleteBuffers')}
    def all(b, st):
        g = lambda m, w=64: term(st.mem.get(b.at[m], w), st.mem)
        return [g('data'), g('references'), g('vectorMembers'), g('schemaVersion', 32), g('type'), st.mem.get(b.at['type'].add(8), 64), stdlib.getfn(st, b.at['createCollection']), stdlib.getfn(st, b.at['deleteBuffers'])]
    def put(b, st, v):
        for m, x, w in zip(PARTS + ('schemaVersion', 'type'), v, (64, 64, 64, 32, 64)):
            st.mem.put(b.at[m], w, x)
        st.mem.put(b.at['type'].add(8), 64, v[5])
        st.mem.put(b.at['createCollection'].sub('#fn'), FnS, v[6])
        st.mem.put(b.at['deleteBuffers'].sub('#fn'), FnS, v[7])
    def clear(b, st):
        for m in PARTS:
            st.mem.put(b.at[m], 64, bvv(0))
        st.mem.put(b.at['deleteBuffers'].sub('#fn'), FnS, NULLFN)

class Frame:
    def __init__(f, c, dispatch=True, but=None):
        """but: a name that may have been retrieved by ID although it is still raw"""
        f.c = c; f.this = c.ptr('frame_model')
        at = lambda m: f.this.add(c.field(FM, m))
        f.map = MapView(c, at('m_collections'), STR, f'std::unique_ptr<{CB}>')
        f.mapMtx, f.dataMtx = c.ptr('map_mutex'), c.ptr('data_mutex')
        f.data, f.table, f.params = c.ptr('raw_data'), at('m_idTable'), c.ptr('parameters')
        f.ids = MapView(c, at('m_retrievedIDs'), 'unsigned int')
        for m, p in (('m_mapMtx', f.mapMtx), ('m_dataMtx', f.dataMtx), ('m_data', f.data), ('m_parameters', f.params)):
            c.st.mem.put(at(m), 64, p)
        if dispatch:
            c.dynamic(f.this, 'N5podio5Frame10FrameModelI7MemDataEE')
        f.given = c.ptr('given_parameters')
        f.frame = c.ptr('frame'); c.st.mem.put(f.frame, 64, f.this)
        c.st.ghost['raw'] = z3.Const('raw', SET)     # names that exist as raw data only
        c.st.ghost['n'] = 0
        s, t = z3.Consts('s t', StrS)
        for i, x in f.inv(c.st, but).items():
            c.assume(x)
        f.contracts()
        f.slots = next(m.slots(CB) for m in c.v.mods if m.record(CB))
        c.eng.virtual = f.virtual
        c.eng.fncall = f.fncall
        f.pre = c.st
    # ---- state
    def raw(f, st, s): return z3.Select(st.ghost['raw'], s)
    def has(f, st, s): return f.map.has(st, s)
    def at(f, st, s): return term(st.mem.get(f.map.val(s), 64), st.mem)
    def retrieved(f, st, i): return f.ids.has(st, i)
    def inv(f, st, but=None):
        s, t = z3.Consts('s t', StrS); i = z3.BitVec('i32', 32)
        return {'no name is both unpacked and raw': z3.ForAll([s], z3.Not(z3.And(f.has(st, s), f.raw(st, s)))),
                'every name holds a collection': z3.ForAll([s], z3.Implies(f.has(st, s), f.at(st, s) != 0)),
                'different names hold different collections': z3.ForAll([s, t], z3.Implies(z3.And(f.has(st, s), f.has(st, t), s != t), f.at(st, s) != f.at(st, t))),
                'what was retrieved by ID is no longer raw': z3.ForAll([i], z3.Implies(z3.And(f.retrieved(st, i), KNOWN(i), *([TNAME(i) != but] if but is not None else [])), z3.Not(f.raw(st, TNAME(i)))))}
    def keeps(f, c, o, what=''):
        for k, x in f.inv(o.st).items():
            c.prove(o, 'invariant: ' + k, x)
        c.prove(o, 'no lock is held afterwards', z3.BoolVal(not o.st.ghost.get('locks', ())))
    def same(f, st0, st1, but=None):
        """the names and what they hold are the same (except for name `but`)"""
        s = z3.Const('s', StrS)
        e = z3.And(f.has(st0, s) == f.has(st1, s), f.raw(st0, s) == f.raw(st1, s), z3.Implies(f.has(st0, s), f.at(st0, s) == f.at(st1, s)))
        return z3.ForAll([s], e if but is None else z3.Implies(s != but, e))
    def events(f, o): return [e for e in o.st.events if e[0] not in ('new',)]
    def free_of_locks(f, st): return z3.BoolVal(not st.ghost.get('locks', ()))
    def held(f, st, m): return stdlib.lockid(f.c.eng, st, m) in st.ghost.get('locks', ())
    def fresh(f, st, name, sort):
        st.ghost['n'] += 1
        return z3.Const(f'{name}_{st.ghost["n"]}', sort)
    def new_collection(f, st):
        """a collection that did not exist before"""
        t = f.fresh(st, 'collection', B64)
        s = z3.Const('s', StrS)
        st.assume(t != 0, z3.ForAll([s], z3.Implies(f.has(st, s), f.at(st, s) != t)))
        for e in st.events:
            if e[0] == 'create':
                st.assume(t != e[4])
        return Ptr(HEAP, (Sel('h', t),)), t
    # ---- what a Frame calls
    def contracts(f):
        c = f.c
        def on(test, h):
            c.eng.contracts.append((test if callable(test) else (lambda d, t=test: t in d.replace('[abi:cxx11]', '')), h))
        def getBuffers(eng, st, a, ins, dem):
            r, this, name = a
            k = stdlib.get_str(eng, st, name)
            flag = r.add(c.field(f'std::_Optional_payload_base<{RB}>', '_M_engaged'))
            out = Forks()
            for s, yes in stdlib.fork2(eng, st, f.raw(st, k)):
                v = None
                if yes:
                    s.ghost['raw'] = z3.Store(s.ghost['raw'], k, False)
                    n = f.fresh(s, 'buffers', B64)
                    v = [z3.BitVec(f'{n}_{m}', w) for m, w in zip(PARTS + ('version', 'typelen'), (64, 64, 64, 32, 64))]
                    ts = z3.Const(f'{n}_type', StrS)
                    s.assume(slen(ts) == v[4], z3.ULT(v[4], 1 << 31))
                    v.append(stdlib.bufptr(eng, ts)); s.ghost['typestr'] = ts
                    v += [z3.Const(f'{n}_creator', FnS), z3.Const(f'{n}_deleter', FnS)]
                    s.assume(v[6] != NULLFN, v[7] != NULLFN)
                    Bufs(c, r).put(s, v)
                s.mem.put(flag, 8, bvv(1 if yes else 0, 8))
                s.events.append(('unpack', repr(this), k, v, f.held(s, f.dataMtx)))
                out.append((s, None))
            return out
        on('MemData::getCollectionBuffers(', getBuffers)
        def rawNames(eng, st, a, ins, dem):
            r, this = a
            n = f.fresh(st, 'raw_count', B64); g = z3.Function(f'raw_name_{st.ghost["n"]}', B64, StrS); w = z3.Function(f'raw_index_{st.ghost["n"]}', StrS, B64)
            i = z3.BitVec('i', 64); s = z3.Const('s', StrS)
            st.assume(z3.ULT(n, 1 << 31), z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And(f.raw(st, g(i)), w(g(i)) == i))), z3.ForAll([s], z3.Implies(f.raw(st, s), z3.And(z3.ULT(w(s), n), g(w(s)) == s))))
            stdlib.set_vlen(st, r, n)
            st.assume(z3.ForAll([i], stdlib.elem_term(eng, st, r, 32, STR, i) == g(i)))     # a vector not used before
            st.events.append(('rawnames', repr(this), f.held(st, f.dataMtx)))
        on('MemData::getAvailableCollections(', rawNames)
        def idTable(eng, st, a, ins, dem):
            st.events.append(('getIDTable', repr(a[1]), repr(a[0])))
            st.mem.put(a[0].sub('#table'), B64, z3.BitVec('given_table', 64))
        on('MemData::getIDTable(', idTable)
        def parameters(eng, st, a, ins, dem):
            st.events.append(('getParameters', repr(a[1])))
            st.mem.put(a[0], 64, f.given)
        on('MemData::getParameters(', parameters)
        def tname(eng, st, a, ins, dem):
            r, this, i = a
            out = Forks()
            for s, yes in stdlib.fork2(eng, st, KNOWN(i)):
                if yes:
                    stdlib.set_str(s, r, TNAME(i))
                s.mem.put(r.add(32), 8, bvv(1 if yes else 0, 8))
                s.events.append(('name', repr(this), i))
                out.append((s, None))
            return out
        on('podio::CollectionIDTable::name(unsigned int) const', tname)
        def tid(eng, st, a, ins, dem):
            this, name = a
            k = stdlib.get_str(eng, st, name)
            # every name of the raw data is in the table
            yes = z3.Bool('id_known_' + str(st.ghost['n'])); st.ghost['n'] += 1
            for e in st.events:
                if e[0] == 'unpack' and e[3] is not None:
                    st.assume(z3.Implies(e[2] == k, yes))
            st.events.append(('id', repr(this), k))
            return z3.Concat(bvv(0, 24), z3.If(yes, bvv(1, 8), bvv(0, 8)), TID(k))
        on('podio::CollectionIDTable::collectionID(', tid)
        def add(eng, st, a, ins, dem):
            this, name = a
            k = stdlib.get_str(eng, st, name)
            st.events.append(('add', repr(this), k, f.held(st, f.mapMtx)))
            return TID(k)
        on('podio::CollectionIDTable::add(', add)
        def evolution(eng, st, a, ins, dem):
            return c.ptr('evolution')
        on('podio::SchemaEvolution::instance()', evolution); on('podio::SchemaEvolution::mutInstance()', evolution)
        def evolve(eng, st, a, ins, dem):
            r, this, b, version, ty = a
            old = Bufs(c, b).all(st)
            n = f.fresh(st, 'evolved', B64)
            v = [z3.BitVec(f'{n}_{m}', 64) for m in PARTS] + [z3.BitVec(f'{n}_version', 32), bvv(0), bvv(0), z3.Const(f'{n}_creator', FnS), z3.Const(f'{n}_deleter', FnS)]
            st.assume(v[0] != 0, v[6] != NULLFN, v[7] != NULLFN)
            st.events.append(('evolve', old, version, stdlib.get_str(eng, st, ty), v, f.free_of_locks(st)))
            Bufs(c, b).clear(st)
            Bufs(c, r).put(st, v)
        on('podio::SchemaEvolution::evolveBuffers(', evolve)
        def table_ctor(eng, st, a, ins, dem):
            st.events.append(('copy table', a[0]))
            if len(a) == 3:
                st.events.append(('table from', repr(a[1]), repr(a[2]), f.held(st, f.mapMtx)))
        on(lambda d: d.startswith('podio::CollectionIDTable::CollectionIDTable('), table_ctor)
        on('podio::CollectionIDTable::~CollectionIDTable(', lambda *a: None)
    def fncall(f, eng, st, fn, a, n, ins, sret):
        """the creation function of buffers (contract: C23): makes a new collection and empties the buffers"""
        if not sret or len(a) != 4:     # a deleter
            st.events.append(('deleted', fn)); return None
        r, this, b, subset = a
        old = Bufs(f.c, b).all(st)
        q, t = f.new_collection(st)
        Bufs(f.c, b).clear(st)
        st.mem.put(r, 64, q)
        st.events.append(('create', fn, old, subset, t, f.free_of_locks(st)))
        return None
    def virtual(f, eng, st, obj, slot, args, ins):
        m = f.slots.get(slot)
        t = term(args[0], st.mem)
        s = z3.Const('s', StrS)
        if m in ('prepareAfterRead', 'prepareForWrite'):
            st.events.append((m, t)); return None
        if m == 'setID':
            st.events.append((m, t, term(args[1]))); return None
        if m == '~CollectionBase()':
            st.events.append(('destroy', t)); return None
        if m == 'setReferences':
            st.events.append((m, t, repr(args[1]), f.free_of_locks(st), st.fork()))
            # it may ask the Frame for other collections, which are unpacked then
            h2, r2 = f.fresh(st, 'has', SET), f.fresh(st, 'raw', SET)
            i2 = f.fresh(st, 'retrieved', z3.ArraySort(B32, z3.BoolSort()))
            h1, r1 = stdlib.mhas(eng, st, f.map.p, STR), st.ghost['raw']
            i1 = stdlib.mhas(eng, st, f.ids.p, 'unsigned int')
            i = z3.BitVec('i32', 32)
            st.assume(z3.ForAll([s], z3.And(z3.Implies(z3.Select(h1, s), z3.Select(h2, s)), z3.Implies(z3.Select(r2, s), z3.Select(r1, s)), (z3.Or(z3.Select(h1, s), z3.Select(r1, s))) == z3.Or(z3.Select(h2, s), z3.Select(r2, s)), z3.Not(z3.And(z3.Select(h2, s), z3.Select(r2, s))))),
                      z3.ForAll([i], z3.Implies(z3.Select(i1, i), z3.Select(i2, i))))
            st.mem.put(f.map.p.sub('#has'), SET, h2)
            st.mem.put(f.map.p.sub('#size'), 64, f.fresh(st, 'size', B64))
            st.mem.put(f.ids.p.sub('#has'), z3.ArraySort(B32, z3.BoolSort()), i2)
            st.ghost['raw'] = r2
            # the Frame's invariants hold again
            for k, x in f.inv(st).items():
                st.assume(x)
            return f.fresh(st, 'success', z3.BoolSort()) if ins.ty.a == 1 else f.fresh(st, 'success', B64)
        raise Unsupported(f'virtual function {m} of a collection')
    def by_contract(f):
        """doGet by its contract (proved in C05)"""
        c = f.c
        def doget(eng, st, a, ins, dem):
            this, name, flag = a
            k = stdlib.get_str(eng, st, name); flag = flag if z3.is_bool(flag) else term(flag) != 0
            out = Forks()
            lock = f.free_of_locks(st)
            for s, there in stdlib.fork2(eng, st, f.has(st, k)):
                if there:
                    r = f.at(s, k); s.events.append(('doGet', k, flag, r, lock, s.fork()))
                    out.append((s, Ptr(HEAP, (Sel('h', r),)))); continue
                for t, raw in stdlib.fork2(eng, s, f.raw(s, k)):
                    before = t.fork()
                    if not raw:
                        t.events.append(('doGet', k, flag, bvv(0), lock, before))
                        out.append((t, Ptr(NULLR) if False else bvv(0))); continue
                    h1, r1 = stdlib.mhas(eng, t, f.map.p, STR), t.ghost['raw']
                    i1 = stdlib.mhas(eng, t, f.ids.p, 'unsigned int')
                    h2, r2, i2 = f.fresh(t, 'has', SET), f.fresh(t, 'raw', SET), f.fresh(t, 'retrieved', z3.ArraySort(B32, z3.BoolSort()))
                    x = z3.Const('s', StrS); i = z3.BitVec('i32', 32)
                    t.assume(z3.ForAll([x], z3.And(z3.Implies(z3.Select(h1, x), z3.Select(h2, x)), (z3.Or(z3.Select(h1, x), z3.Select(r1, x))) == z3.Or(z3.Select(h2, x), z3.Select(r2, x)))), z3.Select(h2, k), z3.ForAll([i], z3.Implies(z3.Select(i1, i), z3.Select(i2, i))))
                    t.mem.put(f.map.p.sub('#has'), SET, h2); t.mem.put(f.map.p.sub('#size'), 64, f.fresh(t, 'size', B64))
                    t.mem.put(f.ids.p.sub('#has'), z3.ArraySort(B32, z3.BoolSort()), i2)
                    t.ghost['raw'] = r2
                    for _, y in f.inv(t).items():
                        t.assume(y)
                    r = f.at(t, k)
                    t.events.append(('doGet', k, flag, r, lock, before))
                    out.append((t, Ptr(HEAP, (Sel('h', r),))))
            return out
        c.eng.contracts.append((lambda d: '::doGet(' in d and 'FrameModel' in d, doget))

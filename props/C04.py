"""C04: names in a Frame"""
from props.frame import *
TITLE = "A Frame's names are write-once and resolve to exactly the stored data"
HARNESS = ['c04.cpp']
T = z3.Const('T', StrS)

def put(c):
    f = Frame(c); p, s = c.string('name')
    u = c.ptr('given'); q = c.bv('collection')
    c.st.mem.put(u, 64, Ptr(HEAP, (Sel('h', q),)))
    c.assume(q != 0, z3.ForAll([T], z3.Implies(f.has(c.st, T), f.at(c.st, T) != q)))
    pre = c.st.fork()
    used = z3.Or(f.has(pre, s), f.raw(pre, s))
    for fn in ('^put$', r'^podio::Frame::FrameModel<MemData>::put\('):
        for o in c.run(fn, [f.frame if fn == '^put$' else f.this, u, p] if fn == '^put$' else [f.this, u, p], c.st.fork()):
            st = o.st; ev = f.events(o)
            of = lambda k: [e for e in ev if e[0] == k]
            f.keeps(c, o)
            c.prove(o, 'putting fails exactly if the name is in use' + (' (throws)' if o.kind == 'throw' else ' (returns)'), used if o.kind == 'throw' else z3.Not(used))
            if o.kind == 'throw':
                c.prove(o, 'a refused collection changes no name', z3.And(f.same(pre, st), *[z3.And(z3.BoolVal(e[1] == repr(f.table)), e[2] == s) for e in of('add')], *[e[1] == q for e in of('setID')]))     # (a name in use is in the table already: adding it again changes nothing; the collection itself is not kept)
                c.prove(o, 'invalid_argument is thrown', 'invalid_argument' in str(o.val))
                continue
            c.prove(o, 'the name now refers to the collection', z3.And(f.has(st, s), f.at(st, s) == q))
            c.prove(o, 'every other name refers to what it did', f.same(pre, st, but=s))
            c.prove(o, 'the collection is taken over', z3.And(term(st.mem.get(u, 64), st.mem) == 0, z3.BoolVal(not of('destroy'))))
            c.prove(o, 'the name gets an ID in the table of the Frame', z3.And(z3.BoolVal(len(of('add')) >= 1), *[z3.And(z3.BoolVal(e[1] == repr(f.table)), e[2] == s) for e in of('add')]))
            c.prove(o, 'the collection gets this ID', z3.And(z3.BoolVal(len(of('setID')) >= 1), *[e[1] == q for e in of('setID')], *[e[2] == TID(s) for e in of('setID')[-1:]]))
            c.prove(o, 'nothing is unpacked', not of('unpack') and not of('create'))
            if fn != '^put$':
                c.prove(o, 'the collection is returned', term(o.val, st.mem) == q)

def available(c):
    f = Frame(c); r = c.ptr('result')
    pre = c.st.fork()
    i, j = z3.BitVecs('i j', 64)
    for o in c.run('^available$', [r, f.frame], c.st.fork()):
        st = o.st
        if o.kind == 'throw':
            c.prove(o, 'listing the names does not throw', False); continue
        f.keeps(c, o)
        n = stdlib.vlen(st, r); at = lambda k: stdlib.elem_term(c.eng, st, r, 32, STR, k)
        c.prove(o, 'every name listed is there', z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.Or(f.has(pre, at(i)), f.raw(pre, at(i))))))
        c.prove(o, 'every name that is there is listed', z3.ForAll([T], z3.Implies(z3.Or(f.has(pre, T), f.raw(pre, T)), z3.Exists([i], z3.And(z3.ULT(i, n), at(i) == T)))))
        c.prove(o, 'no name is listed twice', z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, n), i != j), at(i) != at(j))))
        c.prove(o, 'no name changes', f.same(pre, st))
        c.prove(o, 'nothing is unpacked', not [e for e in f.events(o) if e[0] not in ('rawnames',)])

def lookup(c):
    f = Frame(c); r = c.ptr('result'); i = c.bv('id', 32)
    pre = c.st.fork()
    for o in c.run('^name$', [r, f.frame, i], c.st.fork()):
        st = o.st; ev = f.events(o)
        if o.kind == 'throw':
            c.prove(o, 'looking up a name does not throw', False); continue
        flag = st.mem.get(r.add(32), 8) != 0
        c.prove(o, 'a name is found exactly if the table has the ID', flag == KNOWN(i))
        c.prove(o, 'it is the one in the table', z3.Implies(flag, stdlib.get_str(c.eng, st, r) == TNAME(i)))
        made = [e for e in ev if e[0] == 'table from']
        want = tuple(repr(f.table.add(c.field(TABLE, m))) if c.field(TABLE, m) else repr(f.table) for m in ('m_collectionIDs', 'm_names'))
        c.prove(o, 'the table asked is a copy of that of the Frame', len(made) == 1 and set(made[0][1:3]) == set(want) and [e[1] for e in ev if e[0] == 'name'] == [repr(e[1]) for e in ev if e[0] == 'copy table'])
        c.prove(o, 'no name changes', f.same(pre, st))

def move(c):
    f = Frame(c); r = c.ptr('new_frame')
    pre = c.st.fork()
    for o in c.run('^move$', [r, f.frame], c.st.fork()):
        c.prove(o, 'moving does not throw', o.kind != 'throw')
        c.prove(o, 'the new Frame has the contents of the old one', repr(o.st.mem.get(r, 64)) == repr(f.this))
        c.prove(o, 'the old one has none', term(o.st.mem.get(f.frame, 64), o.st.mem) == 0)
        c.prove(o, 'no name changes', f.same(pre, o.st))
        c.prove(o, 'nothing is freed', not frees(o) and not f.events(o))

CONTRACTS = [('put', put), ('availableCollections', available), ('getName', lookup), ('moving', move)]
ASSUMPTIONS = ['std::unordered_map, std::vector, std::optional, std::unique_ptr and std::mutex fulfil their standard contracts', 'the raw data type is the MemData stand-in of the harness (any type with the documented FrameData interface is used only through that interface; it hands out the buffers of each name at most once and its names are in its ID table)', 'virtual functions of collections are called by contract (prepareAfterRead, setReferences and friends are the subject of C11, C13 and C14)', 'two names have different IDs (known finding hash-collision of C02)', 'one thread at a time (see C25)', 'unpacking is used by the contract proved in C05']
NOTE = 'put, getAvailableCollections, getName and the moves of Frame and FrameModel are proved for every state of the maps, every name and every content of the raw data; the typed get<CollT> and the typed put, which cast and forward, are covered by the run-time contracts of the harness (bounded).'
MODEL = True

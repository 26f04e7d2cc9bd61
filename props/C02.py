"""C02: the collection ID table is a consistent two-way mapping"""
from props.common import *
TITLE = 'The collection ID table is a consistent two-way mapping'
MODEL = False
HARNESS = [('c02.cpp', {'model': False})]
modules = core('CollectionIDTable.cc')
ASSUMPTIONS = ['the 32-bit hashes of the registered names do not collide (known finding: two names with the same hash break the mapping)', 'names are shorter than 2^31 bytes']

def add(c):
    use_hash(c)
    t = Table(c); t.assume()
    p, s = c.string('name')
    pre0 = c.st.fork()
    c.assume(z3.ULT(slen(s), 1 << 31))
    i = z3.BitVec('i', 64)
    # no collision
    c.assume(z3.Implies(z3.Not(t.has(c.st, s)), z3.Not(t.hasid(c.st, HASH(s)))))
    for o in c.run(r'^podio::CollectionIDTable::add\(', [t.this, p]):
        if o.kind == 'throw':
            c.prove(o, 'add does not throw', False); continue
        pre = c.pre; n0 = t.n(pre)
        for k, f in t.inv(o.st).items():
            c.prove(o, 'invariant: ' + k, f)
        c.prove(o, 'every registered pair stays at its position', t.kept(pre, o.st))
        c.prove(o, 'a known name changes nothing, a new one adds one entry', t.n(o.st) == z3.If(t.has(pre, s), n0, n0 + 1))
        c.prove(o, 'a known name returns its recorded ID', z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, n0), t.name(pre, i) == s), o.val == t.id(pre, i))))
        c.prove(o, 'a new name gets the hash of its bytes and is last', z3.Implies(z3.Not(t.has(pre, s)), z3.And(o.val == HASH(s), t.name(o.st, n0) == s, t.id(o.st, n0) == HASH(s))))
        c.prove(o, 'afterwards the name is found with the returned ID', z3.Exists([i], z3.And(z3.ULT(i, t.n(o.st)), t.name(o.st, i) == s, t.id(o.st, i) == o.val)))

def name(c):
    t = Table(c); t.assume()
    d = c.bv('id', 32); i = z3.BitVec('i', 64)
    r = c.ptr('result')
    for o in c.run(r'^podio::CollectionIDTable::name\(unsigned int\) const', [r, t.this, d]):
        if o.kind == 'throw':
            c.prove(o, 'name does not throw', False); continue
        eng = opt_flag(c, o, r)
        c.prove(o, 'an ID is reported exactly if it was registered', eng == t.hasid(c.pre, d))
        c.prove(o, 'the name returned is the one registered with this ID', z3.Implies(eng, z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, t.n(c.pre)), t.id(c.pre, i) == d), stdlib.get_str(c.eng, o.st, r) == t.name(c.pre, i)))))
        c.prove(o, 'the table is unchanged', t.same(c.pre, o.st))

def opt_flag(c, o, r, off=32):
    return (o.st.mem.get(r.add(off), 8) != 0) if not False else None

def collectionID(c):
    t = Table(c); t.assume()
    p, s = c.string('name'); i = z3.BitVec('i', 64)
    for o in c.run(r'^podio::CollectionIDTable::collectionID\(', [t.this, p]):
        if o.kind == 'throw':
            c.prove(o, 'collectionID does not throw', False); continue
        v = term(o.val)
        flag = z3.Extract(39, 32, v) != 0; val = z3.Extract(31, 0, v)
        c.prove(o, 'a name is reported exactly if it was registered', flag == t.has(c.pre, s))
        c.prove(o, 'the ID returned is the one registered with this name', z3.Implies(flag, z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, t.n(c.pre)), t.name(c.pre, i) == s), val == t.id(c.pre, i)))))
        c.prove(o, 'the table is unchanged', t.same(c.pre, o.st))

def present_name(c):
    t = Table(c); t.assume()
    p, s = c.string('name')
    for o in c.run(r'^podio::CollectionIDTable::present\(std', [t.this, p]):
        if o.kind == 'throw':
            c.prove(o, 'present does not throw', False); continue
        c.prove(o, 'present(name) is true exactly for registered names', o.val == t.has(c.pre, s))

def present_id(c):
    t = Table(c); t.assume()
    d = c.bv('id', 32)
    for o in c.run(r'^podio::CollectionIDTable::present\(unsigned', [t.this, d]):
        if o.kind == 'throw':
            c.prove(o, 'present does not throw', False); continue
        c.prove(o, 'present(ID) is true exactly for registered IDs', o.val == t.hasid(c.pre, d))

def ctor(move):
    def f(c):
        t = Table(c)
        ip, np = c.ptr('ids'), c.ptr('names')
        iv, nv = c.vec(ip), c.vec(np)
        i = z3.BitVec('i', 64)
        pat = r'^podio::CollectionIDTable::CollectionIDTable\(std::vector<unsigned int.*' + (r'>&&, std' if move else r'> const&, std')
        for o in c.run(pat, [t.this, ip, np]):
            if o.kind == 'throw':
                c.prove(o, 'construction does not throw', False); continue
            pre = c.pre
            c.prove(o, 'as many names and IDs as given', z3.And(t.n(o.st) == nv.len(pre), t.ids.len(o.st) == iv.len(pre)))
            c.prove(o, 'exactly the given names, in order', z3.ForAll([i], z3.Implies(z3.ULT(i, nv.len(pre)), t.name(o.st, i) == nv.at(pre, i, STR))))
            c.prove(o, 'exactly the given IDs, in order', z3.ForAll([i], z3.Implies(z3.ULT(i, iv.len(pre)), t.id(o.st, i) == iv.at(pre, i, 'unsigned int'))))
    return f

def getter(which):
    def f(c):
        t = Table(c)
        off = c.field(TABLE, 'm_names' if which == 'names' else 'm_collectionIDs')
        for o in c.run(rf'^podio::CollectionIDTable::{which}\(\) const', [t.this]):
            c.prove(o, f'{which}() refers to the table\'s own list', c.eng.peq(o.st, o.val, t.this.add(off)))
    return f

CONTRACTS = [('CollectionIDTable::add', add), ('CollectionIDTable::name', name), ('CollectionIDTable::collectionID', collectionID),
             ('CollectionIDTable::present(name)', present_name), ('CollectionIDTable::present(id)', present_id),
             ('CollectionIDTable(ids&&, names&&)', ctor(True)), ('CollectionIDTable(const ids&, const names&)', ctor(False))]

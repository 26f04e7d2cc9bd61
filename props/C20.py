"""C20: glob patterns"""
from props.common import *
TITLE = 'File name patterns are detected and expanded exactly'
MODEL = False
HARNESS = [('c20.cpp', {'model': False})]
modules = core('Glob.cc')
ASSUMPTIONS = ['glob(3) fills gl_pathc and gl_pathv with exactly the matching paths and GLOB_NOMAGIC passes names without wildcards through']
NOTE = 'is_glob_pattern is proved for every string with a ghost function for the escape state; expand_glob is proved against a contract of glob(3): the returned list is exactly gl_pathv, no match and errors throw, the result is freed exactly once.'

def detect(c):
    p, s = c.string('pattern')
    ESC = z3.Function('ESC', z3.BitVecSort(64), z3.BoolSort())
    ch = lambda i: schar(s, i)
    lit = lambda x: bvv(ord(x), 8)
    c.assume(z3.Not(ESC(bvv(0))), z3.ULT(slen(s), bvv(1 << 40)))
    i = z3.BitVec('i', 64)
    c.assume(z3.ForAll([i], ESC(i + 1) == z3.And(z3.Not(ESC(i)), ch(i) == lit('\\')), patterns=[ch(i)]))
    def cand(eng, st, v, v0, n):
        if not z3.is_expr(v0):
            return None
        if z3.is_bv(v0) and v0.size() == 8 and z3.is_bv_value(simp(v0)) and simp(v0).as_long() == 0:
            def f(m): return z3.If(ESC(simp(m)), bvv(1, 8), bvv(0, 8))
        elif z3.is_bool(v0) and z3.is_false(simp(v0)):
            def f(m): return ESC(simp(m))
        else:
            return None
        f.step = lambda m: [ESC(simp(m + 1)) == z3.And(z3.Not(ESC(m)), ch(m) == lit('\\'))]
        return f
    c.eng.loop_candidates.append(cand)
    special = lambda i: z3.And(z3.Not(ESC(i)), z3.Or(*[ch(i) == lit(x) for x in '*?[{']))
    spec = z3.Exists([i], z3.And(z3.ULT(i, slen(s)), special(i)))
    for o in c.run(r'^podio::utils::is_glob_pattern\(', [p]):
        if o.kind == 'throw':
            c.prove(o, 'does not throw', False); continue
        r = o.val if z3.is_bool(o.val) else term(o.val) != 0
        c.prove(o, 'true exactly if an unescaped *, ?, [ or { occurs', r == spec)

def expand(c):
    ret = c.ptr('result'); p, s = c.string('pattern')
    rc = c.bv('glob_status', 32); n = c.bv('pathc'); arr = c.hobj('pathv')
    c.assume(z3.ULT(n, bvv(1 << 40)))
    path = lambda i: c.st.mem.get(Ptr(HEAP, arr.steps + ('#arr', Sel('e', i, 8))), 64)
    j = z3.BitVec('j', 64); path(j)
    def glob(eng, st, a, ins, dem):
        st.events.append(('glob', stdlib.cstr(eng, st, a[0]), a[1]))
        g = a[3]
        st.mem.put(g, 64, n); st.mem.put(g.add(8), 64, arr)
        st.ghost['globs'] = [g]
        return rc
    def globfree(eng, st, a, ins, dem):
        st.events.append(('globfree', a[0]))
    c.eng.contracts.append((lambda d: d == 'glob', glob))
    c.eng.contracts.append((lambda d: d == 'globfree', globfree))
    NOMATCH = 3; BRACE, NOMAGIC, TILDE = 1 << 10, 1 << 11, 1 << 12
    for o in c.run(r'^podio::utils::expand_glob\(', [ret, p]):
        st = o.st
        g = [e for e in st.events if e[0] == 'glob']; f = [e for e in st.events if e[0] == 'globfree']
        c.prove(o, 'the pattern is expanded exactly once', len(g) == 1)
        c.prove(o, 'the pattern is passed on unchanged', g[0][1] == s)
        c.prove(o, 'brace and tilde expansion and pass-through of plain names are requested, and nothing else', term(g[0][2]) == (BRACE | NOMAGIC | TILDE))
        if o.kind == 'throw':
            c.prove(o, 'it throws exactly if there is no match or an error', rc != 0)
            continue
        v = c.vec(ret)
        c.prove(o, 'it returns exactly if the expansion succeeded', rc == 0)
        c.prove(o, 'one path per match', v.len(st) == n)
        c.prove(o, 'the paths are those of the expansion, in order', z3.ForAll([j], z3.Implies(z3.ULT(j, n), v.at(st, j, STR) == stdlib.CSTR(term(path(j))))))
        c.prove(o, 'the expansion is freed exactly once', len(f) == 1)
CONTRACTS = [('is_glob_pattern', detect), ('expand_glob', expand)]

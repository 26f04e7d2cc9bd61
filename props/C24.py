"""C24: text helpers"""
from props.common import *
import re
TITLE = 'Text helpers split and sort without losing or inventing text'
MODEL = False
HARNESS = [('c24.cpp', {'model': False, 'core': False})]
NOTE = 'sortAlphabeticaly is proved against the contract of std::ranges::sort (a permutation ordered by the comparator), and both levels of its comparator are proved to be the case-insensitive lexicographic order. splitString only composes two standard views; it is checked on concrete inputs (bounded).'
ASSUMPTIONS = ['splitString is a composition of std::views::split and std::views::transform; it is only checked on concrete strings', 'std::ranges::sort and std::lexicographical_compare fulfil their standard contracts']
CLIENT = '''#include "podio/utilities/MiscHelpers.h"
using S = std::vector<std::string>;
S c_sort(S v) { return podio::utils::sortAlphabeticaly(std::move(v)); }
'''
def modules(b): return [('client_c24.cc', CLIENT)]
TOLOWER = z3.Function('tolower', z3.BitVecSort(32), z3.BitVecSort(32))
LEX = z3.Function('lexicographic_less_ignoring_case', StrS, StrS, z3.BoolSort())

def charcmp(c):
    a, b = c.ptr('cl'), c.ptr('cr')
    x, y = term(c.st.mem.get(a, 8)), term(c.st.mem.get(b, 8))
    c.eng.contracts.append((lambda d: d == 'tolower', lambda eng, st, a, ins, dem: TOLOWER(term(a[0]))))
    # the comparator of characters, however it takes them
    best = [m.dem[f] for m in c.eng.mods for f in m._ftext if re.search(r'sortAlphabeticaly\(.*operator\(\)(<char, char>)?\((auto|char)( const)?&?, (auto|char)( const)?&?\) const$', m.dem[f]) and 'basic_string' not in m.dem[f].split('operator()')[-1]]
    if not best:
        raise Unsupported('no comparison of characters found')
    byval = [not x.rstrip().endswith('&') for x in re.search(r'\(([^()]*)\) const$', best[0]).group(1).split(',')]
    for o in c.run('^' + re.escape(best[0]) + '$', [c.ptr('self'), x if byval[0] else a, y if byval[1] else b]):
        if o.kind == 'throw':
            c.prove(o, 'does not throw', False); continue
        r = o.val if z3.is_bool(o.val) else term(o.val) != 0
        c.prove(o, 'characters are compared by their lower case form', r == (TOLOWER(z3.SignExt(24, x)) < TOLOWER(z3.SignExt(24, y))))

def lexc(c):
    def lex(eng, st, a, ins, dem):
        s = []
        for i in (0, 2):
            p, q = a[i], a[i + 1]
            if p.root.kind != 'strbuf' or q.root is not p.root:
                raise Unsupported('not the range of a string')
            eng.safety(st, z3.And(p.steps[-1].t == 0, q.steps[-1].t == slen(p.root.sterm)), 'the whole string is compared', ins)
            s.append(p.root.sterm)
        return LEX(*s)
    c.eng.contracts.append((lambda d: 'std::lexicographical_compare<' in d, lex))

def strcmp(c):
    a, x = c.string('lhs'); b, y = c.string('rhs')
    lexc(c)
    for o in c.run(r"^auto podio::utils::sortAlphabeticaly\(.*operator\(\)<std::__cxx11::basic_string<.*\(auto const&, auto const&\) const$", [c.ptr('self'), a, b]):
        if o.kind == 'throw':
            c.prove(o, 'does not throw', False); continue
        r = o.val if z3.is_bool(o.val) else term(o.val) != 0
        c.prove(o, 'names are compared lexicographically by the character order', r == LEX(x, y))

def sort(c):
    ret, v = c.ptr('result'), c.ptr('strings')
    V = c.vec(v); n0 = V.len(c.st); c.assume(z3.ULT(n0, bvv(1 << 40)))
    i = z3.BitVec('i', 64); j = z3.BitVec('j', 64)
    V.at(c.st, i, STR)
    PERM = z3.Function('PERM', z3.BitVecSort(64), z3.BitVecSort(64))
    def sorted_(eng, st, a, ins, dem):
        vec = next((x for x in a if isinstance(x, Ptr)), None)
        vec = a[1] if len(a) > 1 else vec
        w = SeqView(c, vec)
        L = w.len(st); cell = vec.elem(bvv(0), 32).sub('#str')
        old = st.fork()
        root, prefix, off, idxs = st.mem.norm(vec.elem(i, 32).sub('#str'))
        w.at(st, bvv(0), STR)
        st.events.append(('sort', L))
        key = (root.id, prefix)
        cw, arr = st.mem.cells[key][off]
        new = fresh('sorted', z3.ArraySort(z3.BitVecSort(64), StrS))
        if len(idxs) != 1:
            raise Unsupported('nested sequence')
        st.facts.append(z3.ForAll([i], z3.Implies(z3.ULT(i, L), z3.And(z3.ULT(PERM(i), L), z3.Select(new, i) == z3.Select(arr, PERM(i)))), patterns=[z3.Select(new, i)]))
        st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, L)), z3.Not(LEX(z3.Select(new, j), z3.Select(new, i))))))
        st.mem.cells[key] = dict(st.mem.cells[key]); st.mem.cells[key][off] = (cw, new)
        return None
    c.eng.contracts.append((lambda d: 'std::ranges::__sort_fn::operator()' in d, sorted_))
    for o in c.run(r'^podio::utils::sortAlphabeticaly\(', [ret, v]):
        if o.kind == 'throw':
            c.prove(o, 'does not throw', False); continue
        R = c.vec(ret)
        c.prove(o, 'the names are sorted exactly once', len([e for e in o.st.events if e[0] == 'sort']) == 1)
        c.prove(o, 'the result has as many names as the input', R.len(o.st) == n0)
        c.prove(o, 'the result is a permutation of the input', z3.ForAll([i], z3.Implies(z3.ULT(i, n0), R.at(o.st, i, STR) == V.at(c.pre, PERM(i), STR))))
        c.prove(o, 'the result is ordered by the comparator', z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, n0)), z3.Not(LEX(R.at(o.st, j, STR), R.at(o.st, i, STR))))))

CONTRACTS = [('sortAlphabeticaly: character comparison', charcmp), ('sortAlphabeticaly: name comparison', strcmp), ('sortAlphabeticaly', sort)]

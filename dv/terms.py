"""SMT term construction shared by the executor and the contract language."""
import z3
from fractions import Fraction

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
AI = z3.ArraySort(I, I)
AR = z3.ArraySort(I, R)
AB = z3.ArraySort(I, B)
SORT = {'int': I, 'real': R, 'bool': B, 'arr': AI, 'rarr': AR, 'barr': AB}

_ctr = [0]


def fresh(name, sort=I):
    _ctr[0] += 1
    if name[:1].isdigit():
        name = "v" + name
    return z3.Const('%s!%d' % (name, _ctr[0]), sort)


def iv(n):
    return z3.IntVal(n)


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def simp(t):
    return z3.simplify(t)


imul = z3.Function('imul', I, I, I)
fmul = z3.Function('fmul', R, R, R)
fdiv = z3.Function('fdiv', R, R, R)
cdiv = z3.Function('cdiv', I, I, I)
cmod = z3.Function('cmod', I, I, I)


def poly(t):
    """linear normal form: {atom tuple: coefficient}; atom () is the constant"""
    out = {}

    def add(m, c):
        v = out.get(m, (0, None))[0] + c
        out[m] = (v, None)

    atoms = {}

    def go(t, c):
        if z3.is_int_value(t):
            add((), c * t.as_long())
            return
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            for a in t.children():
                go(a, c)
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            go(ch[0], c)
            for a in ch[1:]:
                go(a, -c)
        elif k == z3.Z3_OP_UMINUS:
            go(t.arg(0), -c)
        elif k == z3.Z3_OP_MUL and any(z3.is_int_value(a) for a in t.children()):
            cc, rest = c, []
            for a in t.children():
                if z3.is_int_value(a):
                    cc *= a.as_long()
                else:
                    rest.append(a)
            if not rest:
                add((), cc)
            elif len(rest) == 1:
                go(rest[0], cc)
            else:
                x = rest[0]
                for r in rest[1:]:
                    x = mul(x, r)
                go(x, cc)
        elif k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'imul':
            ms = mono(t)
            add(ms, c)
            for a in ms:
                pass
        else:
            i = t.get_id()
            atoms[i] = t
            _keep[i] = t
            add((i,), c)

    go(t, 1)
    return {m: v[0] for m, v in out.items() if v[0] != 0}


_keep = {}


def mono(t):
    """factor multiset of an imul term (ids, sorted)"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'imul':
        return tuple(sorted(mono(t.arg(0)) + mono(t.arg(1))))
    _keep[t.get_id()] = t
    return (t.get_id(),)


def unpoly(p):
    terms = []
    for m in sorted(p, key=lambda m: (len(m), m)):
        c = p[m]
        if m == ():
            terms.append(iv(c))
            continue
        x = _keep[m[0]]
        for f in m[1:]:
            x = imul(x, _keep[f])
        terms.append(x if c == 1 else c * x)
    if not terms:
        return iv(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def norm(t):
    """canonical linear form of an Int term"""
    if not z3.is_int(t):
        return t
    return unpoly(poly(t))


def const_tree(t):
    """a choice among integer constants"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return const_tree(t.arg(1)) and const_tree(t.arg(2))
    return z3.is_int_value(t)


def mul(a, b):
    if z3.is_int_value(a) or z3.is_int_value(b):
        return norm(a * b)
    for x, y in ((a, b), (b, a)):
        if const_tree(x):
            return z3.If(x.arg(0), mul(x.arg(1), y), mul(x.arg(2), y))
    pa, pb = poly(a), poly(b)
    out = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2))
            out[m] = out.get(m, 0) + c1 * c2
    return unpoly({m: c for m, c in out.items() if c})


def rmul(a, b):
    if z3.is_rational_value(a) or z3.is_rational_value(b):
        return a * b
    return fmul(a, b)


def rdiv(a, b):
    if z3.is_rational_value(b) and b.as_fraction() != 0:
        return a / b
    return fdiv(a, b)


def exact_div(t, k):
    """t/k if every coefficient is divisible by k, else None"""
    p = poly(t)
    if all(c % k == 0 for c in p.values()):
        return unpoly({m: c // k for m, c in p.items()})
    return None


def real(x):
    f = Fraction(x)
    return z3.RealVal(f)


def toreal(t):
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t) if z3.is_int(t) else t


def tobool(t):
    if z3.is_bool(t):
        return t
    return t != 0


def toint(t):
    if z3.is_bool(t):
        if z3.is_true(t):
            return iv(1)
        if z3.is_false(t):
            return iv(0)
        return z3.If(t, iv(1), iv(0))
    return t


def sel(a, i):
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        d = poly(j - i)
        if set(d) == {()}:           # constant non-zero difference
            a = a.arg(0)
            continue
        if not d:
            return a.arg(2)
        break
    return z3.Select(a, i)


def background(text_funs, nl='uf'):
    """axioms for the uninterpreted products that occur"""
    ax = []
    a, b, c = z3.Ints('ax_a ax_b ax_c')
    x, y = z3.Reals('ax_x ax_y')
    FA = z3.ForAll
    if 'imul' in text_funs and nl == 'units':
        # index arithmetic with opaque strides: no comparisons between products
        ax += [FA([a, b], z3.Implies(a == 0, imul(a, b) == 0), patterns=[imul(a, b)]),
               FA([a, b], imul(a, b) == imul(b, a), patterns=[imul(a, b)]),
               FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0), imul(a, b) >= 0), patterns=[imul(a, b)]),
               FA([a, b], z3.Implies(z3.And(a >= 1, b >= 0), imul(a, b) >= b), patterns=[imul(a, b)]),
               FA([a, b], z3.Implies(a == 1, imul(a, b) == b), patterns=[imul(a, b)])]
    elif 'imul' in text_funs:
        ax += [
            FA([a, b], imul(a, b) == imul(b, a), patterns=[imul(a, b)]),
            FA([a, b], z3.Implies(z3.And(a >= 0, b >= 0), imul(a, b) >= 0), patterns=[imul(a, b)]),
            FA([a, b], z3.Implies(z3.And(a >= 1, b >= 0), imul(a, b) >= b), patterns=[imul(a, b)]),
            FA([a, b], z3.Implies(a == 0, imul(a, b) == 0), patterns=[imul(a, b)]),
            FA([a, b], z3.Implies(a == 1, imul(a, b) == b), patterns=[imul(a, b)]),
            FA([a, b], z3.Implies(a == -1, imul(a, b) == -b), patterns=[imul(a, b)]),
            FA([a, b, c], z3.Implies(z3.And(a < b, c >= 0), imul(a, c) + c <= imul(b, c)),
               patterns=[z3.MultiPattern(imul(a, c), imul(b, c))]),
            FA([a, b, c], z3.Implies(a + 1 == b, imul(a, c) + c == imul(b, c)),
               patterns=[z3.MultiPattern(imul(a, c), imul(b, c))]),
        ]
    if 'fmul' in text_funs:
        ax += [
            FA([x, y], fmul(x, y) == fmul(y, x), patterns=[fmul(x, y)]),
            FA([x, y], z3.Implies(x == 0, fmul(x, y) == 0), patterns=[fmul(x, y)]),
            FA([x, y], z3.Implies(x == 1, fmul(x, y) == y), patterns=[fmul(x, y)]),
            FA([x, y], z3.Implies(x == -1, fmul(x, y) == -y), patterns=[fmul(x, y)]),
        ]
    return ax

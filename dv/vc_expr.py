"""Expressions: evaluation, memory access with safety obligations, calls."""
import re
import struct
from fractions import Fraction
import z3
from terms import *
import terms
from spec import parse, SpecError
import front
import vc
from contract import C


def inner(n):
    return n.get('inner', [])


class ExprMixin:
    # ------------------------------------------------------------ arithmetic
    def divmod_(self, x, y, st):
        """C division: truncation toward zero"""
        if z3.is_int_value(x) and z3.is_int_value(y) and y.as_long() != 0:
            a, b = x.as_long(), y.as_long()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return iv(q), iv(a - q * b)
        if z3.is_int_value(y) and y.as_long() > 0:
            b = y
            q = z3.If(x >= 0, x / b, -((-x) / b))
            return q, x - b * q
        q, r = cdiv(x, y), cmod(x, y)
        if st is not None:
            st.assume(z3.Implies(z3.And(x >= 0, y > 0),
                                 z3.And(0 <= r, r < y, q >= 0, q <= x, mul(q, y) + r == x)))
        return q, r

    def overflow(self, st, v, bt, what):
        if bt in vc.RANGE and not z3.is_int_value(v):
            lo, hi = vc.RANGE[bt]
            self.ob(st, z3.And(lo <= v, v <= hi), 'no-overflow:%s@%s' % (what, self.cur_line), 'safety')
            if bt != 'int':
                pass
        return v

    def arith(self, st, op, x, y, bt, n):
        if bt in ('double', 'float'):
            x, y = toreal(toint(x)) if not z3.is_real(x) else x, toreal(toint(y)) if not z3.is_real(y) else y
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return rmul(x, y)
            if op == '/':
                return rdiv(x, y)
            raise vc.Unsupported('floating operator ' + op)
        x, y = toint(x), toint(y)
        if op in ('+', '-'):
            v = norm(x + y if op == '+' else x - y)
            return self.overflow(st, v, bt, op)
        if op == '*':
            v = mul(x, y)
            return self.overflow(st, v, bt, '*')
        if op in ('/', '%'):
            self.ob(st, y != 0, 'division-by-zero@%s' % self.cur_line, 'safety')
            if bt in ('unsigned long', 'size_t', 'unsigned int') and op == '/' and z3.is_int_value(y):
                e = exact_div(x, y.as_long())
                if e is not None:
                    return e
            q, r = self.divmod_(x, y, st)
            return q if op == '/' else r
        if op in ('&', '|', '^', '<<', '>>'):
            return self.bitop(st, op, x, y, bt)
        raise vc.Unsupported('integer operator ' + op)

    def bitop(self, st, op, x, y, bt):
        if z3.is_int_value(x) and z3.is_int_value(y):
            a, b = x.as_long(), y.as_long()
            return iv({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op])
        if op == '<<' and z3.is_int_value(y):
            return self.overflow(st, norm(x * (1 << y.as_long())), bt, '<<')
        if op == '>>' and z3.is_int_value(y):
            return x / iv(1 << y.as_long())
        # x & (2^k - 1), x & ~(2^k - 1) on non-negative x
        if op == '&':
            for u, v in ((x, y), (y, x)):
                if z3.is_int_value(v):
                    c = v.as_long()
                    if c > 0 and (c & (c + 1)) == 0:
                        self.ob(st, u >= 0, 'mask-of-nonnegative@%s' % self.cur_line, 'safety')
                        return u % iv(c + 1)
        f = z3.Function('bit_' + {'&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}[op], I, I, I)
        return f(x, y)

    def compare(self, st, op, x, y):
        if isinstance(x, (vc.Ptr, vc.ObjPtr, vc.CellPtr)) or isinstance(y, (vc.Ptr, vc.ObjPtr, vc.CellPtr)):
            if isinstance(x, vc.Ptr) and isinstance(y, vc.Ptr) and op in ('<', '<=', '>', '>='):
                if x.region is not y.region:
                    raise vc.Unsupported('ordering of pointers into different blocks')
                return {'<': x.off < y.off, '<=': x.off <= y.off, '>': x.off > y.off, '>=': x.off >= y.off}[op]
            if isinstance(x, vc.CellPtr) or isinstance(y, vc.CellPtr):
                e = z3.BoolVal(isinstance(x, vc.CellPtr) and isinstance(y, vc.CellPtr) and x.lv == y.lv)
                return e if op == '==' else z3.Not(e)
            # a stream handle next to NULL
            if isinstance(x, vc.Ptr) and x.region is None and isinstance(y, z3.ArithRef):
                x = iv(0)
            if isinstance(y, vc.Ptr) and y.region is None and isinstance(x, z3.ArithRef):
                y = iv(0)
            if isinstance(x, z3.ArithRef) and isinstance(y, z3.ArithRef):
                return x == y if op == '==' else x != y
            return self.sptr(op, x, y)
        x, y = self.coerce(x, y)
        if z3.is_bool(x) and z3.is_bool(y) and op in ('==', '!='):
            return x == y if op == '==' else x != y
        x, y = toint(x), toint(y)
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st):
        k = n.get('kind')
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr', 'CXXBindTemporaryExpr',
                 'SubstNonTypeTemplateParmExpr'):
            if k == 'MaterializeTemporaryExpr':
                v = self.ev_any(inner(n)[0], st)
                key = ('tmp', n['id'])
                st.env[key] = v
                return ('var', key, vc.base_ty(vc.tyname(n)))
            return self.lv(inner(n)[0], st)
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return self.lv(inner(n)[0], st)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = d['id']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                v = st.env.get(key)
                if isinstance(v, tuple) and v[0] == 'ref':
                    return v[1]
                if isinstance(v, tuple) and v[0] == 'objval':
                    return ('obj', v[1])
                if key not in st.env:
                    g = self.tu.byid.get(key)
                    if g is not None:
                        self.global_var(g, st)
                    else:
                        st.env[key] = vc.Poison('variable %s outside the modelled code' % d.get('name'))
                return ('var', key, vc.base_ty(vc.tyname(n)))
            raise vc.Unsupported('reference to %s' % d['kind'])
        if k == 'MemberExpr':
            o = self.obj_of(n, st)
            return ('var', ('f', o, n['name']), vc.base_ty(vc.tyname(n)))
        if k == 'ArraySubscriptExpr':
            p = self.ev_any(inner(n)[0], st)
            i = self.ev(inner(n)[1], st)
            if not isinstance(p, vc.Ptr) and isinstance(i, vc.Ptr):
                p, i = i, p
            if isinstance(p, vc.Rows):
                if not z3.is_int_value(i) or not 0 <= i.as_long() < len(p.keys):
                    raise vc.Unsupported('row index of a two-dimensional array')
                return ('var', p.keys[i.as_long()], 'int*')
            return self.elem(st, p, i)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev_any(inner(n)[0], st)
            return self.deref(st, p)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            return self.incdec(n, st)[0]
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return self.assign(n, st)
        if k == 'CompoundAssignOperator':
            return self.cassign(n, st)
        if k == 'CXXThisExpr':
            return ('obj', st.this.obj)
        if k == 'CallExpr' or k == 'CXXMemberCallExpr':
            v = self.ev_any(n, st)
            if isinstance(v, tuple) and v[0] in ('var', 'mem', 'obj'):
                return v
            key = ('tmp', n['id'])
            st.env[key] = v
            return ('var', key, vc.base_ty(vc.tyname(n)))
        if k == 'ConditionalOperator':
            c = z3.simplify(vc.tobool_any(self.ev_any(inner(n)[0], st)))
            if z3.is_true(c):
                return self.lv(inner(n)[1], st)
            if z3.is_false(c):
                return self.lv(inner(n)[2], st)
        if k == 'StringLiteral':
            key = ('str', n.get('value'))
            st.env[key] = vc.Str(n.get('value'))
            return ('var', key, 'char*')
        raise vc.Unsupported('lvalue %s at %s' % (k, self.where()))

    def global_var(self, g, st):
        t = vc.base_ty(vc.tyname(g))
        init = [x for x in inner(g) if x.get('valueCategory')]
        if init and 'const' in g.get('type', {}).get('qualType', ''):
            st.env[g['id']] = self.ev(init[0], st)
        else:
            st.env[g['id']] = self.havoc_scalar(st, g.get('name', 'g'), t)

    def obj_of(self, n, st):
        b = inner(n)[0]
        if n.get('isArrow'):
            o = self.ev_any(b, st)
        else:
            l = self.lv(b, st)
            if l[0] == 'obj':
                return l[1]
            o = self.load(l, st)
        if isinstance(o, vc.ObjPtr):
            return o.obj
        if isinstance(o, vc.CellPtr) and o.lv[0] == 'obj':
            return o.lv[1]
        if isinstance(o, tuple) and o[0] == 'objval':
            return o[1]
        if isinstance(o, vc.Ptr) and o.region is None:
            self.ob(st, z3.BoolVal(False), 'null-object@%s' % self.cur_line, 'safety')
        raise vc.Unsupported('member %s of %r' % (n.get('name'), o))

    def elem(self, st, p, i):
        if isinstance(p, vc.CellPtr) and z3.is_int_value(i) and i.as_long() == 0:
            return p.lv
        if isinstance(p, vc.Raw):
            raise vc.Unsupported('untyped memory')
        if not isinstance(p, vc.Ptr) or isinstance(p, vc.CastPtr):
            raise vc.Unsupported('subscript of %r at %s' % (p, self.where()))
        if p.region is None:
            self.ob(st, z3.BoolVal(False), 'null-dereference@%s' % self.cur_line, 'safety')
            raise vc.Unsupported('null pointer dereferenced at %s' % self.where())
        return ('mem', p.region, norm(p.off + toint(i)))

    def deref(self, st, p):
        if isinstance(p, vc.CellPtr):
            return p.lv
        if isinstance(p, vc.ObjPtr):
            return ('obj', p.obj)
        return self.elem(st, p, iv(0))

    def access(self, st, r, i, write, val=None):
        if r in st.freed:
            self.ob(st, z3.BoolVal(False), 'use-after-free:%s@%s' % (r.name, self.cur_line), 'safety')
        self.ob(st, z3.And(r.lo <= i, i < r.length), 'in-bounds:%s@%s' % (r.name, self.cur_line), 'safety')
        if st.par is not None:
            self.par_access(st, r, i, write, val)

    def load(self, l, st):
        if l[0] == 'var':
            key = l[1]
            if st.par is not None:
                v = self.par_read_var(st, key)
                if v is not None:
                    return v
            v = st.env.get(key)
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return self.load(v[1], st)
            if isinstance(v, vc.Undecided):
                v.need()
            if isinstance(v, vc.Poison):
                # reading it is an error only if the value is used; keep the mark
                return v
            if v is None:
                raise vc.Unsupported('unknown location %r at %s' % (key, self.where()))
            if isinstance(v, z3.ExprRef) and v.get_id() in self.known:
                return self.known[v.get_id()][1]
            return v
        if l[0] == 'mem':
            _, r, i = l
            self.access(st, r, i, False)
            v = sel(st.mem[r], i)
            kn = self.known.get(v.get_id())
            if kn is not None:
                v = kn[1]
            else:
                self.type_fact(st, r, v)
            if r.tracked:
                v = z3.Select(st.mem[r], i) if not hasattr(v, '_prov') else v
                w = sel(st.mem[r], i)
                v = self.wrap(w)
                v._prov = sel(st.mem[('prov', r)], i)
            return v
        if l[0] == 'obj':
            return vc.ObjPtr(l[1])
        raise vc.Unsupported('load %r' % (l,))

    def wrap(self, v):
        """a distinct python wrapper, so that provenance marks do not leak"""
        return v.__class__(v.ast, v.ctx)

    def store(self, l, v, st):
        if l[0] == 'var':
            key = l[1]
            if l[2] == 'bool' and isinstance(v, z3.ExprRef):
                v = tobool(v)
            if st.par is not None:
                if self.par_write_var(st, key, v):
                    return
            st.env[key] = v
            self.logw(key, st)
            return
        if l[0] == 'mem':
            _, r, i = l
            if not isinstance(v, z3.ExprRef):
                raise vc.Unsupported('store of %r into %s at %s' % (v, r.name, self.where()))
            if r.sort == R:
                v2 = toreal(toint(v)) if not z3.is_real(v) else v
            elif r.sort == B:
                v2 = tobool(v)
            else:
                v2 = toint(v)
            self.access(st, r, i, True, v2)
            st.mem[r] = z3.Store(st.mem[r], i, v2)
            self.logw(r, st)
            if r.tracked:
                p = getattr(v, '_prov', None)
                if p is None:
                    p = fresh('noprov')
                st.mem[('prov', r)] = z3.Store(st.mem[('prov', r)], i, p)
                self.logw(('prov', r), st)
            return
        if l[0] == 'obj':
            raise vc.Unsupported('whole-object assignment at %s' % self.where())
        raise vc.Unsupported('store %r' % (l,))

    def assign(self, n, st):
        rhs = self.ev_any(inner(n)[1], st)
        l = self.lv(inner(n)[0], st)
        if isinstance(rhs, vc.Raw):
            rhs = self.typed_alloc(rhs, vc.base_ty(vc.tyname(inner(n)[0])), st)
        self.store(l, rhs, st)
        return l

    def cassign(self, n, st):
        op = n['opcode'][:-1]
        l = self.lv(inner(n)[0], st)
        cur = self.load(l, st)
        r = self.ev(inner(n)[1], st)
        if isinstance(cur, vc.Ptr):
            v = self.ptr_add(st, cur, toint(r) if op == '+' else -toint(r))
        else:
            bt = vc.base_ty((n.get('computeResultType') or n['type']).get('desugaredQualType') or
                            (n.get('computeResultType') or n['type'])['qualType'])
            cur = self.chk(cur)
            if op in ('&', '|') and z3.is_bool(cur) and z3.is_bool(r):
                v = z3.And(cur, r) if op == '&' else z3.Or(cur, r)
            else:
                v = self.arith(st, op, cur, r, bt, n)
            lt = vc.base_ty(vc.tyname(inner(n)[0]))
            v = self.convert(st, v, bt, lt)
        self.store(l, v, st)
        return l

    def incdec(self, n, st):
        l = self.lv(inner(n)[0], st)
        cur = self.load(l, st)
        d = 1 if n['opcode'] == '++' else -1
        if isinstance(cur, vc.Ptr):
            v = self.ptr_add(st, cur, iv(d))
        else:
            cur = self.chk(cur)
            v = self.arith(st, '+', cur, iv(d) if not z3.is_real(cur) else real(d), vc.base_ty(vc.tyname(n)), n)
        self.store(l, v, st)
        return l, cur

    def ptr_add(self, st, p, i):
        if not isinstance(p, vc.Ptr) or (isinstance(p, vc.CastPtr) and p.region is not None):
            raise vc.Unsupported('pointer arithmetic on %r at %s' % (p, self.where()))
        if p.region is None:
            if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
                return p
            # null moved by the index base, and never dereferenced where the code is right
            return vc.Poison('null pointer with an offset (%s)' % self.where())
        return vc.Ptr(p.region, norm(p.off + i))

    def chk(self, v):
        if isinstance(v, vc.Poison):
            raise vc.Unsupported('use of %s at %s' % (v.why, self.where()))
        return v

    # ------------------------------------------------------------ rvalues
    def ev(self, n, st):
        v = self.ev_any(n, st)
        if isinstance(v, tuple) and v and v[0] in ('var', 'mem', 'obj'):
            v = self.load(v, st)
        return self.chk(v)

    def ev_any(self, n, st):
        k = n.get('kind')
        if '_line' in n:
            self.cur_line, self.cur_file = n['_line'], n['_file']
        f = getattr(self, 'e_' + str(k), None)
        if f is not None:
            return f(n, st)
        if n.get('valueCategory') == 'lvalue':
            l = self.lv(n, st)
            if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator'):
                return None if l is None else l
            return self.load(l, st)
        raise vc.Unsupported('expression %s at %s' % (k, self.where()))

    def _pass(self, n, st):
        return self.ev_any([c for c in inner(n) if c.get('valueCategory')][0], st)

    e_ParenExpr = e_ExprWithCleanups = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = _pass
    e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = _pass

    def e_IntegerLiteral(self, n, st):
        return iv(int(n['value']))

    def e_CharacterLiteral(self, n, st):
        return iv(int(n['value']))

    def e_FloatingLiteral(self, n, st):
        s = n['value']
        if s.lower() in ('inf', 'nan'):
            raise vc.Unsupported('literal ' + s)
        return real(Fraction(float(s)))

    def e_CXXBoolLiteralExpr(self, n, st):
        return z3.BoolVal(bool(n['value']))

    def e_StringLiteral(self, n, st):
        return vc.Str(n.get('value'))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return vc.NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, st):
        return st.this

    def e_CXXDefaultArgExpr(self, n, st):
        ch = [c for c in inner(n) if c.get('valueCategory')]
        if not ch:
            raise vc.Unsupported('default argument not in the AST at %s' % self.where())
        return self.ev_any(ch[0], st)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get('name') != 'sizeof':
            raise vc.Unsupported(n.get('name'))
        if 'argType' in n:
            t = n['argType'].get('desugaredQualType') or n['argType']['qualType']
        else:
            t = vc.tyname(inner(n)[0])
        return iv(self.sizeof(t))

    def sizeof(self, t):
        t = vc.base_ty(t)
        if t.endswith('*'):
            return 8
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            return self.sizeof(m.group(1)) * int(m.group(2))
        if t in vc.SIZES:
            return vc.SIZES[t]
        raise vc.Unsupported('sizeof ' + t)

    def convert(self, st, v, src, dst):
        """value conversion between arithmetic types"""
        if dst in ('double', 'float'):
            return v if z3.is_real(v) else toreal(toint(v))
        if dst == 'bool':
            return tobool(v)
        if dst in vc.RANGE:
            if z3.is_real(v):
                w = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                self.overflow(st, w, dst, 'float-to-int')
                return w
            p = getattr(v, '_prov', None)
            v = toint(v)
            if src in vc.RANGE and dst in vc.RANGE:
                (a, b), (c, d) = vc.RANGE[src], vc.RANGE[dst]
                if not (c <= a and b <= d):
                    if dst in ('char', 'unsigned char', 'signed char'):
                        m = v % 256
                        return m if dst == 'unsigned char' else z3.If(m >= 128, m - 256, m)
                    self.ob(st, z3.And(c <= v, v <= d), 'conversion:%s-to-%s@%s' % (src, dst, self.cur_line), 'safety')
            if p is not None and not hasattr(v, '_prov'):
                v._prov = p
            return v
        return v

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get('castKind')
        sub = [c for c in inner(n) if c.get('valueCategory')][0]
        if ck == 'LValueToRValue':
            return self.load(self.lv(sub, st), st)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'UserDefinedConversion'):
            if n.get('valueCategory') == 'lvalue':
                return self.lv(n, st) if ck == 'NoOp' else self.ev_any(sub, st)
            return self.ev_any(sub, st)
        if ck == 'ArrayToPointerDecay':
            if sub.get('kind') == 'StringLiteral':
                return vc.Str(sub.get('value'))
            l = self.lv(sub, st)
            if l[0] == 'var':
                return st.env[l[1]]
            return self.load(l, st)
        if ck == 'NullToPointer':
            return vc.NULL
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean',
                  'FloatingToBoolean'):
            v = self.ev(sub, st)
            return self.convert(st, v, vc.base_ty(vc.tyname(sub)), vc.base_ty(vc.tyname(n)))
        if ck == 'PointerToBoolean':
            v = self.ev_any(sub, st)
            if isinstance(v, vc.Poison):
                if 'null pointer with an offset' in v.why:
                    return z3.BoolVal(True)
                self.chk(v)
            return vc.tobool_any(v)
        if ck == 'BitCast':
            v = self.ev_any(sub, st)
            t = vc.base_ty(vc.tyname(n))
            if isinstance(v, vc.Raw) and t not in ('void*',):
                return self.typed_alloc(v, t, st)
            if isinstance(v, vc.Ptr) and v.region is not None and t != 'void*' and t.endswith('*'):
                e = vc.base_ty(t[:-1].strip())
                if self.same_elem(e, v.region.elem):
                    return vc.Ptr(v.region, v.off) if isinstance(v, vc.CastPtr) else v
                # another element type: only good for comparing and casting back
                return vc.CastPtr(v.region, v.off)
            return v
        if ck == 'ToVoid':
            self.ev_any(sub, st)
            return None
        raise vc.Unsupported('cast %s at %s' % (ck, self.where()))

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = \
        e_CXXConstCastExpr = e_ImplicitCastExpr

    def typed_alloc(self, raw, t, st):
        elem = vc.base_ty(t[:-1].strip())
        if elem.endswith('*') or elem in self.tu.records:
            return vc.Poison('block of ' + elem)
        sz = self.sizeof(elem)
        L = exact_div(raw.size, sz)
        if L is None:
            L = raw.size / iv(sz)
        r = self.new_region(st, 'alloc_%s@%s' % (elem, self.cur_line), elem, L)
        r.fresh = True
        self.alloc_hook(st, r)
        return vc.Ptr(r, iv(0))

    def same_elem(self, a, b):
        ch = ('char', 'unsigned char', 'signed char')
        return a == b or (a in ch and b in ch)

    def alloc_hook(self, st, r):
        pass

    def e_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            x = self.tu.byid.get(d['id'])
            for c in inner(x or {}):
                return self.ev(c, st)
            raise vc.Unsupported('enum constant ' + d.get('name', ''))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', d)
        return self.load(self.lv(n, st), st)

    def e_MemberExpr(self, n, st):
        return self.load(self.lv(n, st), st)

    def e_UnaryOperator(self, n, st):
        op = n['opcode']
        if op in ('++', '--'):
            l, old = self.incdec(n, st)
            if n.get('isPostfix'):
                return old
            return self.load_plain(l, st)
        if op == '&':
            l = self.lv(inner(n)[0], st)
            if l[0] == 'var' and isinstance(st.env.get(l[1]), vc.Ptr) and re.search(r'\[\d+\]$', vc.tyname(inner(n)[0])):
                return st.env[l[1]]
            if l[0] == 'mem':
                return vc.Ptr(l[1], l[2])
            if l[0] == 'obj':
                return vc.ObjPtr(l[1])
            return vc.CellPtr(l)
        if op == '*':
            return self.load(self.lv(n, st), st)
        if op == '!':
            v = self.ev_any(inner(n)[0], st)
            return z3.Not(vc.tobool_any(self.chk(v)))
        v = self.ev(inner(n)[0], st)
        if op == '-':
            if z3.is_real(v):
                return z3.simplify(-v) if z3.is_rational_value(v) else -v
            w = norm(-toint(v))
            return self.overflow(st, w, vc.base_ty(vc.tyname(n)), 'neg')
        if op == '+':
            return v
        if op == '~':
            w = norm(-toint(v) - 1)
            return w
        raise vc.Unsupported('unary ' + op)

    def load_plain(self, l, st):
        if l[0] == 'var':
            return st.env[l[1]]
        return sel(st.mem[l[1]], l[2])

    def guarded(self, n, st, g):
        """evaluate n under the extra assumption g; facts learned are kept guarded"""
        n0 = len(st.pc)
        st.pc.append(g)
        v = self.ev_any(n, st)
        suffix = st.pc[n0 + 1:]
        del st.pc[n0:]
        for f in suffix:
            st.pc.append(z3.Implies(g, f))
        return v

    def e_BinaryOperator(self, n, st):
        op = n['opcode']
        a, b = inner(n)
        if op == '=':
            l = self.assign(n, st)
            return self.load_plain(l, st) if l[0] != 'obj' else None
        if op == ',':
            self.ev_any(a, st)
            return self.ev_any(b, st)
        if op in ('&&', '||'):
            x = z3.simplify(vc.tobool_any(self.chk(self.ev_any(a, st))))
            if op == '&&':
                if z3.is_false(x):
                    return x
                if z3.is_true(x):
                    return vc.tobool_any(self.chk(self.ev_any(b, st)))
                y = vc.tobool_any(self.chk(self.guarded(b, st, x)))
                return z3.And(x, y)
            if z3.is_true(x):
                return x
            if z3.is_false(x):
                return vc.tobool_any(self.chk(self.ev_any(b, st)))
            y = vc.tobool_any(self.chk(self.guarded(b, st, z3.Not(x))))
            return z3.Or(x, y)
        x = self.ev_any(a, st)
        y = self.ev_any(b, st)
        if op in ('==', '!='):
            for u, v in ((x, y), (y, x)):
                if isinstance(u, vc.Poison) and 'null pointer with an offset' in u.why:
                    raise vc.Unsupported('comparison of ' + u.why)
        x, y = self.chk(x), self.chk(y)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(st, op, x, y)
        if isinstance(x, vc.Ptr) or isinstance(y, vc.Ptr):
            if op == '+':
                return self.ptr_add(st, x, toint(y)) if isinstance(x, vc.Ptr) else self.ptr_add(st, y, toint(x))
            if op == '-':
                if isinstance(y, vc.Ptr):
                    if x.region is not y.region:
                        raise vc.Unsupported('difference of pointers into different blocks')
                    return norm(x.off - y.off)
                return self.ptr_add(st, x, norm(-toint(y)))
        if isinstance(x, vc.CellPtr) or isinstance(y, vc.CellPtr):
            raise vc.Unsupported('pointer arithmetic on a scalar address')
        bt = vc.base_ty(vc.tyname(n))
        return self.arith(st, op, x, y, bt, n)

    def e_CompoundAssignOperator(self, n, st):
        l = self.cassign(n, st)
        return self.load_plain(l, st)

    def e_ConditionalOperator(self, n, st):
        a, b, c = inner(n)
        if self.is_assert_fail(c):
            # assert(): a false condition ends the program
            cv = vc.tobool_any(self.chk(self.ev_any(a, st)))
            if getattr(self.frames[-1].spec, 'asserts', 'assume') == 'prove':
                self.ob(st, cv, 'assertion-holds@%s' % self.cur_line, 'safety')
            st.assume(cv)
            return None
        cv = z3.simplify(vc.tobool_any(self.chk(self.ev_any(a, st))))
        if z3.is_true(cv):
            return self.ev_any(b, st)
        if z3.is_false(cv):
            return self.ev_any(c, st)
        x = self.guarded(b, st, cv)
        y = self.guarded(c, st, z3.Not(cv))
        if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
            x, y = self.coerce(x, y)
        return self.merge_val(cv, x, y)

    def is_assert_fail(self, n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
            n = inner(n)[0]
        if n.get('kind') != 'CallExpr':
            return False
        d, _ = self.callee_decl(n)
        return bool(d) and d.get('name') in ('__assert_fail', '__assert_rtn')

    def e_ArraySubscriptExpr(self, n, st):
        return self.load(self.lv(n, st), st)

    def e_ImplicitValueInitExpr(self, n, st):
        t = vc.base_ty(vc.tyname(n))
        return real(0) if t in ('double', 'float') else (z3.BoolVal(False) if t == 'bool' else iv(0))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    # ------------------------------------------------------------ objects
    def new_object(self, st, cls, hint):
        _ = getattr(self, '_nobj', 0)
        self._nobj = _ + 1
        obj = '%s#%d' % (hint, self._nobj)
        rec = self.tu.records.get(cls)
        for f in inner(rec or {}):
            if f.get('kind') == 'FieldDecl':
                t = vc.base_ty(vc.tyname(f))
                st.env[('f', obj, f['name'])] = self.havoc_scalar(st, obj + '.' + f['name'], t)
        return obj

    def e_CXXNewExpr(self, n, st):
        t = vc.base_ty(vc.tyname(n))
        elem = t[:-1].strip()
        if n.get('isArray'):
            ch = [c for c in inner(n) if c.get('valueCategory')]
            L = norm(toint(self.ev(ch[0], st)))
            self.ob(st, L >= 0, 'array-size@%s' % self.cur_line, 'safety')
            if elem.endswith('*') or elem in self.tu.records:
                raise vc.Unsupported('array of objects')
            r = self.new_region(st, 'new_%s@%s' % (elem, self.cur_line), elem, L)
            return vc.Ptr(r, iv(0))
        cls = elem.split('::')[-1]
        if cls in self.tu.records:
            obj = self.new_object(st, cls, 'new_' + cls)
            for c in inner(n):
                if c.get('kind') == 'CXXConstructExpr':
                    self.construct(c, st, obj)
            return vc.ObjPtr(obj)
        r = self.new_region(st, 'new_%s' % elem, elem, iv(1))
        return vc.Ptr(r, iv(0))

    def construct(self, n, st, obj):
        """run the constructor named by a CXXConstructExpr"""
        want = n.get('ctorType', {}).get('qualType') or ''
        cls = vc.base_ty(vc.tyname(n)).split('::')[-1]
        args = [a for a in inner(n) if a.get('valueCategory')]
        best = None
        for tu in [self.tu] + list(self.prog.tus.values()):
            for m, f in tu.funcs.items():
                if f.get('kind') == 'CXXConstructorDecl' and f.get('name') == cls and \
                        vc.norm_type(f['type']['qualType']) == vc.norm_type(want):
                    best = (tu, f)
                    break
            if best:
                break
        if best is None:
            rec = self.tu.records.get(cls, {})
            declared = any(c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit')
                           for c in inner(rec))
            if (want.startswith('void ()') or 'void () noexcept' in want) and rec and not declared:
                return      # trivial default constructor
            raise vc.Unsupported('constructor %s %s' % (cls, want))
        self.inline(best[0], best[1], args, st, this=vc.ObjPtr(obj), call=n)

    def ctor_init(self, ci, st):
        d = ci.get('anyInit')
        if not d:
            return
        v = None
        for c in inner(ci):
            if c.get('valueCategory'):
                e = c
                if e.get('kind') == 'CXXDefaultInitExpr':
                    return
                v = self.ev_any(e, st)
                if isinstance(v, vc.Raw):
                    v = self.typed_alloc(v, vc.base_ty(vc.tyname(e)), st)
        if v is not None:
            st.env[('f', st.this.obj, d['name'])] = v
            self.logw(('f', st.this.obj, d['name']), st)

    def e_CXXDeleteExpr(self, n, st):
        p = self.ev_any(inner(n)[0], st)
        if isinstance(p, vc.ObjPtr):
            for k in list(st.env):
                if isinstance(k, tuple) and k[0] == 'f' and k[1] == p.obj:
                    st.env[k] = vc.Poison('deleted object')
            return None
        self.free(p, st)
        return None

    def free(self, p, st):
        if isinstance(p, vc.Poison):
            self.chk(p)
        if isinstance(p, vc.Ptr) and p.region is not None:
            if p.region in st.freed:
                self.ob(st, z3.BoolVal(False), 'double-free@%s' % self.cur_line, 'safety')
            self.ob(st, p.off == 0, 'free-of-block-start@%s' % self.cur_line, 'safety')
            st.freed = st.freed | {p.region}

    def e_CXXConstructExpr(self, n, st):
        args = [a for a in inner(n) if a.get('valueCategory')]
        if len(args) == 1:
            return self.ev_any(args[0], st)
        raise vc.Unsupported('construct expression %s' % vc.tyname(n))

    # ------------------------------------------------------------ calls
    def full_args(self, args, d):
        """default arguments, taken from the declaration that states them"""
        out = []
        for i, a in enumerate(args):
            if a.get('kind') == 'CXXDefaultArgExpr' and not [c for c in inner(a) if c.get('valueCategory')]:
                for tu in [self.tu] + [t for t in self.prog.tus.values() if t is not self.tu]:
                    decls = [tu.byid.get(d['id'])] if tu is self.tu else []
                    x = self.tu.byid.get(d['id'])
                    mg = x.get('mangledName') if x else None
                    decls += [y for y in tu.byid.values() if mg and y.get('mangledName') == mg]
                    found = None
                    for x in decls:
                        ps = [p for p in inner(x or {}) if p.get('kind') == 'ParmVarDecl']
                        if i < len(ps):
                            e = [c for c in inner(ps[i]) if c.get('valueCategory')]
                            if e:
                                found = e[0]
                                break
                    if found is not None:
                        a = found
                        break
            out.append(a)
        return out

    def e_CXXMemberCallExpr(self, n, st):
        d, mem = self.callee_decl(n)
        name = d['name']
        args = self.full_args(inner(n)[1:], d)
        b = inner(mem)[0]
        if mem.get('isArrow'):
            o = self.ev_any(b, st)
        else:
            l = self.lv(b, st)
            o = vc.ObjPtr(l[1]) if l[0] == 'obj' else self.load(l, st)
        mg = self.callee_of(n)
        if mg is None:
            raise vc.Unsupported('method %s at %s' % (name, self.where()))
        return self.call(mg, args, st, o, n, name)

    def e_CallExpr(self, n, st):
        d, _ = self.callee_decl(n)
        if d is None:
            raise vc.Unsupported('indirect call at %s' % self.where())
        name = d.get('name')
        args = self.full_args(inner(n)[1:], d)
        b = getattr(self, 'b_' + str(name), None)
        mg = self.callee_of(n)
        if mg is None and name in self.reg.fns:
            mg = name       # declared extern "C"
        if b is not None and (mg is None or not self.in_repo(mg) or name in vc.TRUSTED_WRAPPERS):
            return b(n, args, st)
        if mg is None:
            raise vc.Unsupported('call to %s (no declaration) at %s' % (name, self.where()))
        return self.call(mg, args, st, None, n, name)

    def in_repo(self, mg):
        t, f = self.prog.find(mg, self.tu)
        return f is not None and f['_file'].startswith(front.REPO)

    def call(self, mg, args, st, this, n, name):
        fn = self.reg.fns.get(mg)
        self.called.add(mg)
        if fn is not None and fn.mode in ('verify', 'assume') and fn.call_cfg is not None and mg not in self.spec.inline_over:
            return self.call_contract(fn, args, st, this, n)
        t, f = self.prog.find(mg, self.tu)
        if f is None:
            b = getattr(self, 'b_' + str(name), None)
            if b is not None:
                return b(n, args, st)
            raise vc.Unsupported('no body and no contract for %s (%s) at %s' % (name, mg, self.where()))
        if len(self.paths) > 14:
            raise vc.Unsupported('recursion through %s' % name)
        return self.inline(t, f, args, st, this, n)

    def inline(self, tu, f, args, st, this=None, call=None):
        params = [p for p in inner(f) if p.get('kind') == 'ParmVarDecl']
        names = vc.Names({}, st.names)
        vals = []
        for p, a in zip(params, args):
            bt = vc.base_ty(vc.tyname(p))
            if bt.endswith('&'):
                l = self.lv(a, st)
                vals.append(('ref', l))
            else:
                v = self.ev_any(a, st)
                if isinstance(v, tuple) and v and v[0] in ('var', 'mem', 'obj'):
                    v = self.load(v, st)
                vals.append(v)
        if len(args) < len(params):
            raise vc.Unsupported('default arguments of %s' % f.get('name'))
        for p, v in zip(params, vals):
            st.env[p['id']] = v
            self.logw(p['id'], st)
            if p.get('name'):
                names.d[p['name']] = p['id']
        sv_names, sv_this, sv_ret, sv_tu = st.names, st.this, st.ret, self.tu
        sv_line, sv_file = self.cur_line, self.cur_file
        st.names, st.this, st.ret = names, this if this is not None else st.this, None
        if this is not None:
            st.names.d['this'] = ('this', this.obj)
            st.env[('this', this.obj)] = this
        self.inlined.add(f.get('mangledName', f.get('name')))
        reg = self.reg.fns.get(f.get('mangledName'))
        path = self.path + (call['id'],)
        newframe = None
        if reg is not None:
            cfg = reg.call_cfg(self, st, vals) if reg.call_cfg else dict(self.cfg)
            try:
                c = reg.make(cfg)
            except KeyError:
                # the contract's configurations are not the caller's: nothing but the body counts here
                c = None
        if reg is not None and c is not None:
            newframe = vc.Frame(c, f, path, self.frames[-1].label + '>' + reg.label)
            self.frames.append(newframe)
            sv_spec, self.spec = self.spec, c
        self.paths.append(path)
        sv_tu2 = self.tu
        self.tu = tu
        if newframe is not None:
            self.number(newframe, f)
        looped = st.looped
        try:
            body = [c for c in inner(f) if c.get('kind') == 'CompoundStmt'][0]
            for ci in [x for x in inner(f) if x.get('kind') == 'CXXCtorInitializer']:
                self.ctor_init(ci, st)
            work = st.copy()
            outs = self.exec(body, [work])
        finally:
            self.paths.pop()
            self.tu = sv_tu2
            if newframe is not None:
                self.frames.pop()
                self.spec = sv_spec
        fin = []
        for k, s in outs:
            if k not in ('n', 'r'):
                raise vc.Unsupported('stray jump in ' + f.get('name', ''))
            fin.append(s)
        if not fin:
            st.assume(z3.BoolVal(False))
            st.names, st.this, st.ret = sv_names, sv_this, sv_ret
            return None
        m = fin[0] if len(fin) == 1 else self.merge(fin)
        # the caller holds 'st': overwrite it in place
        st.env, st.mem, st.pc = m.env, m.mem, m.pc
        st.freed, st.extra, st.looped, st.par = m.freed, m.extra, m.looped, m.par
        r = m.ret
        st.names, st.this, st.ret = sv_names, sv_this, sv_ret
        self.cur_line, self.cur_file = sv_line, sv_file
        return r

    def call_contract(self, fn, args, st, this, n):
        """the caller sees the callee's contract, not its body"""
        t, f = self.prog.find(fn.mangled, self.tu)
        if f is None:
            f = self.prog.tu(fn.file).funcs.get(fn.mangled)
        if f is None:
            raise vc.Unsupported('contract for %s, which no longer exists' % fn.label)
        params = [p for p in inner(f) if p.get('kind') == 'ParmVarDecl']
        vals = []
        for p, a in zip(params, args):
            bt = vc.base_ty(vc.tyname(p))
            if bt.endswith('&'):
                vals.append(('ref', self.lv(a, st)))
            else:
                vals.append(self.chk(self.ev_any(a, st)))
        self.call_this = this
        cfg = fn.call_cfg(self, st, vals) if callable(fn.call_cfg) else dict(fn.call_cfg or {})
        c = fn.make(cfg)
        self.contracts_used.add(fn.label)
        pre = st.copy()
        pre.names = vc.Names({})
        pre.this = this
        pre.extra = {}
        for p, v in zip(params, vals):
            key = ('arg', fn.mangled, p.get('name'))
            pre.names.d[p.get('name')] = key
            pre.env[key] = v
        if this is not None:
            pre.names.d['this'] = ('arg', fn.mangled, 'this')
            pre.env[('arg', fn.mangled, 'this')] = this
        if c.stream:
            self.stream(st)
            for g in ('FI', 'FD', 'flen', 'fpos', 'fstate'):
                pre.names.d[g] = ('stream', g)
            self.ob(st, st.env[('stream', 'fstate')] == (2 if c.stream == 'open' else 0), 'call:%s@%s:file' % (fn.label, self.cur_line), 'call')
        sv_spec, self.spec = self.spec, c
        line, file_ = self.cur_line, self.cur_file
        tag = 'call:%s@%s' % (fn.label, line)
        blocks = []
        try:
            for g, s in c.ghosts:
                w = c.lets.get('ghost:' + g)
                if w is None and g in st.extra:
                    # the caller's ghost of the same name
                    pre.extra[g] = st.extra[g]
                    continue
                if w is None:
                    raise SpecError('ghost %s of %s has no value at calls' % (g, fn.label))
                if this is None and st.this is not None:
                    # ghost witnesses may speak of the calling object
                    pre.this = st.this
                    pre.extra[g] = self.sev(parse(w), pre)
                    pre.this = None
                else:
                    pre.extra[g] = self.sev(parse(w), pre)
            for d in c.params:
                if d[0] == 'arr':
                    v = pre.env[pre.names.d[d[1]]]
                    if d[4]:
                        if not isinstance(v, vc.Ptr) or v.region is not None:
                            self.ob(st, z3.BoolVal(False), tag + ':%s-null' % d[1], 'call')
                        continue
                    if not isinstance(v, vc.Ptr) or v.region is None:
                        self.ob(st, z3.BoolVal(False), tag + ':%s-not-null' % d[1], 'call')
                        continue
                    L = self.sev(parse(str(d[3])), pre)
                    Lo = self.sev(parse(c.lows[d[1]]), pre) if d[1] in c.lows else iv(0)
                    self.ob(st, z3.Implies(L > Lo, z3.And(v.off + Lo >= v.region.lo, v.off + L <= v.region.length)), tag + ':room:%s' % d[1], 'call')
                    if d[5]:
                        w = self.sev(parse(str(d[5])), pre)
                        self.ob(st, self.sptr('==', v, w), tag + ':%s-is-%s' % (d[1], d[5]), 'call')
                        c.aliasing.add((d[1], str(d[5])))
                    blocks.append((d[1], v, L, Lo))
                elif d[0] == 'obj':
                    o = this if d[1] == 'this' else pre.env[pre.names.d[d[1]]]
                    if isinstance(o, tuple) and o[0] == 'ref' and o[1][0] == 'obj':
                        o = vc.ObjPtr(o[1][1])
                    for fl, elem, length, null in d[2]:
                        v = pre.env[('f', o.obj, fl)]
                        if null in ('any', 'either'):
                            continue
                        if isinstance(v, vc.Undecided):
                            v.need()
                        if null:
                            if isinstance(v, vc.Ptr) and v.region is not None:
                                self.ob(st, z3.BoolVal(False), tag + ':%s.%s-null' % (d[1], fl), 'call')
                            continue
                        if not isinstance(v, vc.Ptr) or v.region is None:
                            self.ob(st, z3.BoolVal(False), tag + ':%s.%s-not-null' % (d[1], fl), 'call')
                            continue
                        if isinstance(length, tuple):
                            continue
                        L = self.sev(parse(str(length)), pre)
                        self.ob(st, z3.Implies(L > 0, z3.And(v.off >= v.region.lo, v.off + L <= v.region.length)), tag + ':room:%s.%s' % (d[1], fl), 'call')
                        blocks.append(('%s->%s' % (d[1], fl), v, L, iv(0)))
            # the contract speaks of separate blocks
            wr = set(e.split(' when ')[0].split('[')[0].strip() for e in c.assigns)
            for x in range(len(blocks)):
                for y in range(x):
                    (na, va, La, _), (nb, vb, Lb, _) = blocks[x], blocks[y]
                    if va.region is vb.region and (na in wr or nb in wr) and not (va.off.eq(vb.off) and c.may_alias(na, nb)):
                        self.ob(st, z3.Or(La <= 0, Lb <= 0, va.off + La <= vb.off, vb.off + Lb <= va.off),
                                tag + ':separate:%s,%s' % (na, nb), 'call')
            if st.par is not None and not c.pars and c.collective is None:
                # the callee was verified without interference: what it reads stays still
                for na, va, La, Lo in blocks:
                    self.par_bulk(st, va.region, lambda kk: z3.And(va.off + Lo <= kk, kk < va.off + La), False)
            for e, v in c.knowns:
                self.ob(st, self.spec_bool('%s == %s' % (e, int(v)), pre), tag + ':known', 'call')
            for j, e in enumerate(c.reqs):
                self.ob(st, self.spec_bool(e, pre), tag + ':requires%d' % (j + 1), 'call')
            post = pre.copy()
            post.extra = dict(pre.extra)
            # effects
            if c.stream:
                for g, sort in (('fpos', I), ('fstate', I)) + (() if c.stream == 'open' or c.file_reads else (('FI', AI), ('FD', vc.AR), ('flen', I))):
                    post.env[('stream', g)] = fresh('file_' + g, sort)
                    self.logw(('stream', g), st)
                st.assume(post.env[('stream', 'fpos')] >= 0)
            for e in c.freeing:
                if st.par is not None:
                    raise vc.Unsupported('release by a callee inside a region')
                self.free(self.sev(parse(e), pre), st)
            post.freed = st.freed
            lens = []
            for nm, elem, L in c.news:
                r = self.new_region(post, nm.split('->')[-1], elem, fresh('len'))
                lens.append((r.length, L))
                key = self.slv_key(parse(nm), pre)
                if st.par is not None:
                    raise vc.Unsupported('allocation by a callee inside a region')
                post.env[key] = vc.Ptr(r, iv(0))
                self.logw(key, st)
            for e in c.assigns:
                if e in [x[0] for x in c.news]:
                    continue
                if e in c.nulls:
                    key = self.slv_key(parse(e), pre)
                    post.env[key] = vc.Ptr(None, iv(0))
                    self.logw(key, st)
                    continue
                lhs, cond = e.split(' when ', 1) if ' when ' in e else (e, 'true')
                a = parse(lhs.strip())
                if a[0] == 'idx':
                    p = self.sev(a[1], pre)
                    if not isinstance(p, vc.Ptr) or p.region is None:
                        continue
                    r = p.region
                    m0 = post.mem[r]
                    m1 = fresh('M_' + r.name, r.asort)
                    k = fresh('k')
                    cnd = self.spec_bool(cond, pre, bound={a[2][1]: k - p.off})
                    for na, va, La, Lo in blocks:
                        if na == lhs.split('[')[0].strip() and va.region is r:
                            cnd = z3.And(cnd, va.off + Lo <= k, k < va.off + La)
                    if not z3.is_true(z3.simplify(cnd)):
                        st.assume(z3.ForAll([k], z3.Or(cnd, z3.Select(m1, k) == z3.Select(m0, k)), patterns=[z3.Select(m1, k)]))
                    post.mem[r] = m1
                    self.logw(r, st)
                    if st.par is not None:
                        self.par_bulk(st, r, lambda kk: z3.substitute(cnd, (k, kk)), True)
                else:
                    if a[0] == 'deref':
                        p = self.sev(a[1], pre)
                        l = p.lv if isinstance(p, vc.CellPtr) else ('mem', p.region, norm(p.off))
                    elif a[0] == 'fld':
                        o = self.sev(a[1], pre)
                        l = ('var', ('f', o.obj, a[2]), self.key_type(('f', o.obj, a[2])))
                    elif a[0] == 'id':
                        v = pre.env[pre.names.d[a[1]]]
                        l = v[1]
                    else:
                        raise SpecError('assigns %s' % e)
                    if l[0] == 'mem':
                        w = fresh('res', l[1].sort)
                        self.type_fact(st, l[1], w)
                        self.access(st, l[1], l[2], True)
                        post.mem[l[1]] = z3.Store(post.mem[l[1]], l[2], w)
                        self.logw(l[1], st)
                    else:
                        bt = l[2]
                        w = self.havoc_scalar(st, 'res', bt if bt in vc.RANGE or bt in ('double', 'bool') else 'int')
                        if st.par is not None:
                            tmp = st.copy()
                            self.par_write_var(st, l[1], w)
                        post.env[l[1]] = w
                        self.logw(l[1], st)
            for l, L in lens:
                st.assume(l == self.sev(parse(L), post, old=pre))
            rt = vc.base_ty(f['type']['qualType'].split('(')[0])
            if rt != 'void':
                post.extra['result'] = self.havoc_scalar(st, 'ret_' + fn.label, rt) if c.result is None else z3.BoolVal(c.result)
            for u in c.caller_uses:
                for ff in self.lemma_axiom(u):
                    st.assume(ff)
            for j, e in enumerate(c.enss if c.callers is None else c.callers):
                ex = e[1] if isinstance(e, tuple) else e
                st.assume(self.spec_bool(ex, post, old=pre))
        finally:
            self.spec = sv_spec
        for k2, v in post.env.items():
            if not (isinstance(k2, tuple) and k2[0] == 'arg'):
                st.env[k2] = v
        st.mem = post.mem
        self.cur_line, self.cur_file = line, file_
        return post.extra.get('result')

    # ------------------------------------------------------------ library calls
    def b_omp_get_thread_num(self, n, a, st):
        return self.lookup('tid', st, {})

    def b_omp_get_num_threads(self, n, a, st):
        p = st.par
        while p is not None and p.nt is None:
            p = p.outer
        return p.nt if p is not None else iv(1)

    def b_omp_get_max_threads(self, n, a, st):
        return self.maxt

    def b_omp_in_parallel(self, n, a, st):
        return iv(1 if st.par is not None else 0)

    def b_omp_get_wtime(self, n, a, st):
        return fresh('time', R)

    def _noeffect(self, n, a, st):
        for x in a:
            v = self.ev_any(x, st)
        return fresh('ioret')

    b_printf = b_fprintf = b_puts = b_perror = b_fflush = b__mm_pause = b_sprintf_ = _noeffect

    def b___builtin_expect(self, n, a, st):
        return self.ev(a[0], st)

    def alloc_(self, size, st):
        self.ob(st, size >= 0, 'allocation-size@%s' % self.cur_line, 'safety')
        return vc.Raw(size)

    def b__mm_malloc(self, n, a, st):
        return self.alloc_(norm(self.ev(a[0], st)), st)

    # ------------------------------------------------------------ one file
    def stream(self, st, **new):
        if ('stream', 'FI') not in st.env:
            raise vc.Unsupported('file input or output without a contract for the file at %s' % self.where())
        if st.par is not None:
            raise vc.Unsupported('file input or output in a parallel region')
        for g, v in new.items():
            st.env[('stream', g)] = v
            self.logw(('stream', g), st)
        return [st.env[('stream', g)] for g in ('FI', 'FD', 'flen', 'fpos', 'fstate')]

    def b_fopen(self, n, a, st):
        mode = a[1]
        while mode.get('kind') != 'StringLiteral':
            mode = inner(mode)[0]
        mode = mode.get('value').strip('"')
        FI, FD, flen, pos, state = self.stream(st)
        nm = self.ev_any(a[0], st)
        if not (isinstance(nm, vc.Str) and nm.s == 'name of the file'):
            self.ob(st, z3.BoolVal(False), 'opens-the-named-file@%s' % self.cur_line, 'safety')
        if mode.rstrip('b') not in ('r', 'w'):
            raise vc.Unsupported('fopen mode %s' % mode)
        self.ob(st, state == 0, 'one-file@%s' % self.cur_line, 'safety')
        self.trusted.add('stdio: files are read and written completely and in order; what is written is what is read back')
        h = iv(1) if self.spec.stream == 'opens' else fresh('file')
        st.assume(h >= 0)
        ok = h != 0
        self.stream(st, fstate=z3.If(ok, iv(2), iv(1)), fpos=iv(0))
        if mode[0] == 'w':
            self.stream(st, FI=z3.If(ok, fresh('file_FI', AI), FI), FD=z3.If(ok, fresh('file_FD', vc.AR), FD), flen=z3.If(ok, iv(0), flen))
        self.file_mode = mode[0]
        return h

    def b_fclose(self, n, a, st):
        self.ev_any(a[0], st)
        state = self.stream(st)[4]
        self.ob(st, state == 2, 'open-file@%s' % self.cur_line, 'safety')
        self.stream(st, fstate=iv(3))
        return fresh('ret')

    def items(self, n, a, st):
        """block or element, element type, words per element, count"""
        p = self.ev_any(a[0], st)
        sz, cnt = norm(self.ev(a[1], st)), norm(self.ev(a[2], st))
        self.ev_any(a[3], st)
        self.chk(p)
        if not z3.is_int_value(sz) or sz.as_long() not in (4, 8):
            raise vc.Unsupported('items of %s bytes in a file' % sz)
        self.ob(st, self.stream(st)[4] == 2, 'open-file@%s' % self.cur_line, 'safety')
        return p, sz.as_long(), cnt

    def b_fwrite(self, n, a, st):
        p, sz, cnt = self.items(n, a, st)
        FI, FD, flen, pos, state = self.stream(st)
        if self.file_mode != 'w':
            self.ob(st, z3.BoolVal(False), 'file-opened-for-writing@%s' % self.cur_line, 'safety')
        I2, D2 = fresh('file_FI', AI), fresh('file_FD', vc.AR)
        w = sz // 4
        end = norm(pos + cnt * w)
        k = fresh('k')
        new = I2 if w == 1 else D2
        if isinstance(p, vc.CellPtr):
            bt = self.key_type(p.lv[1]) if p.lv[0] == 'var' else p.lv[1].elem
            if not z3.is_int_value(cnt) or cnt.as_long() != 1 or self.sizeof(bt) != sz:
                raise vc.Unsupported('file item at %s' % self.where())
            src = lambda x: self.load(p.lv, st)
        elif p.region is None:
            self.ob(st, cnt == 0, 'null-pointer@%s' % self.cur_line, 'safety')
            src = lambda x: z3.IntVal(0) if w == 1 else z3.RealVal(0)
        else:
            r = p.region
            if self.sizeof(r.elem) != sz:
                raise vc.Unsupported('file items at %s' % self.where())
            self.ob(st, cnt >= 0, 'length@%s' % self.cur_line, 'safety')
            self.ob(st, z3.Implies(cnt > 0, z3.And(r.lo <= p.off, p.off + cnt <= r.length)), 'in-bounds:%s@%s' % (r.name, self.cur_line), 'safety')
            if r in st.freed:
                self.ob(st, z3.BoolVal(False), 'use-after-free@%s' % self.cur_line, 'safety')
            src = lambda x: z3.Select(st.mem[r], p.off + x)
        idx = k - pos if w == 1 else (k - pos) / 2
        inside = z3.And(pos <= k, k < end)
        hit = inside if w == 1 else z3.And(inside, (k - pos) % 2 == 0)
        st.assume(z3.ForAll([k], z3.Implies(hit, z3.Select(new, k) == src(norm(idx) if w == 1 else idx)), patterns=[z3.Select(new, k)]))
        for A, B in ((FI, I2), (FD, D2)):
            # a double that overlaps what is written is gone as well
            st.assume(z3.ForAll([k], z3.Implies(z3.Or(k >= end, k < pos if A is FI else k + 1 < pos), z3.Select(B, k) == z3.Select(A, k)), patterns=[z3.Select(B, k)]))
        self.stream(st, FI=I2, FD=D2, fpos=end, flen=z3.If(end > flen, end, flen))
        return cnt

    def b_fread(self, n, a, st):
        p, sz, cnt = self.items(n, a, st)
        FI, FD, flen, pos, state = self.stream(st)
        if self.file_mode != 'r':
            self.ob(st, z3.BoolVal(False), 'file-opened-for-reading@%s' % self.cur_line, 'safety')
        w = sz // 4
        end = norm(pos + cnt * w)
        self.ob(st, z3.Implies(cnt > 0, end <= flen), 'file-holds-what-is-read@%s' % self.cur_line, 'safety')
        A = FI if w == 1 else FD
        if isinstance(p, vc.CellPtr):
            bt = self.key_type(p.lv[1]) if p.lv[0] == 'var' else p.lv[1].elem
            if not z3.is_int_value(cnt) or cnt.as_long() != 1 or self.sizeof(bt) != sz:
                raise vc.Unsupported('file item at %s' % self.where())
            v = fresh('read')
            st.assume(z3.And(v == z3.Select(A, pos), v >= vc.INT_MIN, v <= vc.INT_MAX))
            self.store(p.lv, v, st)
        elif p.region is None:
            self.ob(st, cnt == 0, 'null-pointer@%s' % self.cur_line, 'safety')
        else:
            r = p.region
            if self.sizeof(r.elem) != sz:
                raise vc.Unsupported('file items at %s' % self.where())
            self.bulk_write(st, r, p.off, cnt, lambda k: z3.Select(A, norm(pos + (k - p.off) * w)))
        self.stream(st, fpos=end)
        return cnt

    def b_exit(self, n, a, st):
        # the run ends here
        st.assume(z3.BoolVal(False))
        return None

    def b_fscanf(self, n, a, st):
        """numbers of a text file: FI and FD hold the integer and the real reading of each, flen how many there are before the text stops being numbers"""
        fmt = a[1]
        while fmt.get('kind') != 'StringLiteral':
            fmt = inner(fmt)[0]
        fmt = fmt.get('value').strip('"').replace('\\n', ' ')
        conv = fmt.split()
        if any(x not in ('%d', '%lg', '%lld') for x in conv) or len(conv) != len(a) - 2:
            raise vc.Unsupported('fscanf format %r' % fmt)
        self.ev_any(a[0], st)
        FI, FD, flen, pos, state = self.stream(st)
        self.ob(st, state == 2, 'open-file@%s' % self.cur_line, 'safety')
        if self.file_mode != 'r':
            self.ob(st, z3.BoolVal(False), 'file-opened-for-reading@%s' % self.cur_line, 'safety')
        self.trusted.add('fscanf: delivers the numbers of the file one after the other; its result says how many were there')
        r = fresh('scanned')
        st.assume(z3.And(r >= -1, r <= len(conv), (r == len(conv)) == (pos + len(conv) <= flen)))
        for j, (x, e) in enumerate(zip(conv, a[2:])):
            p = self.chk(self.ev_any(e, st))
            l = p.lv if isinstance(p, vc.CellPtr) else self.deref(st, p)
            if x == '%lg':
                v = fresh('read', z3.RealSort())
                st.assume(z3.Implies(r > j, v == z3.Select(FD, norm(pos + j))))
            else:
                v = fresh('read')
                lo, hi = vc.RANGE['int' if x == '%d' else 'long long']
                w = z3.Select(FI, norm(pos + j))
                st.assume(z3.And(z3.Implies(z3.And(r > j, w >= lo, w <= hi), v == w), v >= lo, v <= hi))
            self.store(l, v, st)
        np = fresh('fpos')
        st.assume(z3.And(np >= pos, z3.Implies(r == len(conv), np == pos + len(conv))))
        self.stream(st, fpos=np)
        return r

    def b_malloc(self, n, a, st):
        return self.alloc_(norm(self.ev(a[0], st)), st)

    def b_malloc_huge_pages(self, n, a, st):
        self.trusted.add('malloc_huge_pages/free_huge_pages (mmap): a fresh block of the requested size')
        return self.alloc_(norm(self.ev(a[0], st)), st)

    def b_free_huge_pages(self, n, a, st):
        self.free(self.ev_any(a[0], st), st)

    def b_free(self, n, a, st):
        v = self.ev_any(a[0], st)
        self.free(v, st)

    b__mm_free = b_free

    def b_min(self, n, a, st):
        x, y = self.coerce(self.ev(a[0], st), self.ev(a[1], st))
        return z3.If(y < x, y, x)

    def b_max(self, n, a, st):
        x, y = self.coerce(self.ev(a[0], st), self.ev(a[1], st))
        return z3.If(x < y, y, x)

    def b_abs(self, n, a, st):
        x = self.ev(a[0], st)
        return z3.If(x >= 0, x, -x)

    b_fabs = b_abs

    def b_swap(self, n, a, st):
        l, m = self.lv(a[0], st), self.lv(a[1], st)
        x, y = self.load(l, st), self.load(m, st)
        self.store(l, y, st)
        self.store(m, x, st)

    def range_of(self, p, q):
        if not isinstance(p, vc.Ptr) or not isinstance(q, vc.Ptr) or p.region is not q.region or p.region is None:
            raise vc.Unsupported('iterator range at %s' % self.where())
        return p.region, p.off, q.off

    def par_bulk_read(self, st, r, lo, hi):
        if st.par is not None:
            self.par_bulk(st, r, lambda k: z3.And(lo <= k, k < hi), False)

    def b_lower_bound(self, n, a, st):
        return self.bound_search(a, st, False)

    def b_upper_bound(self, n, a, st):
        return self.bound_search(a, st, True)

    def bound_search(self, a, st, upper):
        if len(a) != 3:
            raise vc.Unsupported('comparator')
        p, q = self.ev(a[0], st), self.ev(a[1], st)
        v = self.ev(a[2], st)
        r, lo, hi = self.range_of(p, q)
        A = st.mem[r]
        self.ob(st, lo <= hi, 'iterator-range@%s' % self.cur_line, 'safety')
        self.ob(st, z3.Implies(lo < hi, z3.And(r.lo <= lo, hi <= r.length)), 'in-bounds:%s@%s' % (r.name, self.cur_line), 'safety')
        i, j = fresh('i'), fresh('j')
        self.ob(st, z3.Implies(z3.And(lo <= i, i <= j, j < hi), sel(A, i) <= sel(A, j)), 'sorted-range@%s' % self.cur_line, 'safety')
        self.par_bulk_read(st, r, lo, hi)
        F = z3.Function('ub_pos' if upper else 'lb_pos', r.asort, I, I, r.sort, I)
        # a function of the contents, the range and the key: two equal searches agree
        res = F(A, lo, hi, v)
        k = fresh('k')
        left = sel(A, k) <= v if upper else sel(A, k) < v
        right = sel(A, k) > v if upper else sel(A, k) >= v
        st.assume(z3.And(lo <= res, res <= hi))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < res), left), patterns=[z3.Select(A, k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(res <= k, k < hi), right), patterns=[z3.Select(A, k)]))
        self.trusted.add('std::%s' % ('upper_bound' if upper else 'lower_bound'))
        return vc.Ptr(r, res)

    def bulk_write(self, st, r, lo, cnt, val):
        """cells lo..lo+cnt get val(k) (k absolute)"""
        hi = norm(lo + cnt)
        self.ob(st, cnt >= 0, 'length@%s' % self.cur_line, 'safety')
        self.ob(st, z3.Implies(cnt > 0, z3.And(r.lo <= lo, hi <= r.length)), 'in-bounds:%s@%s' % (r.name, self.cur_line), 'safety')
        if r in st.freed:
            self.ob(st, z3.BoolVal(False), 'use-after-free@%s' % self.cur_line, 'safety')
        if st.par is not None:
            self.par_bulk(st, r, lambda k: z3.And(lo <= k, k < hi), True)
        A = st.mem[r]
        Bm = fresh('M_' + r.name, r.asort)
        k = fresh('k')
        st.assume(z3.ForAll([k], z3.Select(Bm, k) == z3.If(z3.And(lo <= k, k < hi), val(k), z3.Select(A, k)),
                            patterns=[z3.Select(Bm, k)]))
        st.mem[r] = Bm
        self.logw(r, st)

    def count_of(self, st, nbytes, r):
        sz = self.sizeof(r.elem)
        e = exact_div(nbytes, sz)
        if e is None:
            c = fresh('cnt')
            self.ob(st, nbytes % iv(sz) == 0, 'whole-elements@%s' % self.cur_line, 'safety')
            st.assume(c * sz == nbytes)
            return c
        return e

    def b_memset(self, n, a, st):
        p = self.ev(a[0], st)
        v = self.ev(a[1], st)
        nb = norm(self.ev(a[2], st))
        if not isinstance(p, vc.Ptr) or p.region is None:
            raise vc.Unsupported('memset target at %s' % self.where())
        r = p.region
        c = self.count_of(st, nb, r)
        if r.elem in ('char', 'unsigned char', 'signed char'):
            m = v % iv(256)
            w = m if r.elem == 'unsigned char' else z3.If(m >= 128, m - 256, m)
        elif z3.is_int_value(v) and v.as_long() == 0:
            w = real(0) if r.sort == R else (z3.BoolVal(False) if r.sort == B else iv(0))
        elif z3.is_int_value(v) and v.as_long() in (-1, 255) and r.sort == I:
            w = iv(-1)
        else:
            raise vc.Unsupported('memset value at %s' % self.where())
        self.bulk_write(st, r, p.off, c, lambda k: w)
        return p

    def b_memcpy(self, n, a, st):
        p, q = self.ev(a[0], st), self.ev(a[1], st)
        nb = norm(self.ev(a[2], st))
        self.copy_(st, p, q, nb, True)
        return p

    b_memmove = b_memcpy

    def copy_(self, st, p, q, nb, isbytes, cnt=None):
        if not (isinstance(p, vc.Ptr) and isinstance(q, vc.Ptr)) or p.region is None or q.region is None:
            raise vc.Unsupported('memcpy operands at %s' % self.where())
        r, s = p.region, q.region
        if r.sort != s.sort or self.sizeof(r.elem) != self.sizeof(s.elem):
            raise vc.Unsupported('memcpy between element types')
        c = self.count_of(st, nb, r) if isbytes else cnt
        S = st.mem[s]
        lo = q.off
        hi = norm(q.off + c)
        self.ob(st, z3.Implies(c > 0, z3.And(s.lo <= lo, hi <= s.length)), 'in-bounds:%s@%s' % (s.name, self.cur_line), 'safety')
        if s in st.freed:
            self.ob(st, z3.BoolVal(False), 'use-after-free@%s' % self.cur_line, 'safety')
        if r is s:
            self.ob(st, z3.Or(c <= 0, p.off + c <= q.off, q.off + c <= p.off), 'no-overlap@%s' % self.cur_line, 'safety')
        self.par_bulk_read(st, s, lo, hi)
        d = norm(lo - p.off)
        self.bulk_write(st, r, p.off, c, lambda k: sel(S, norm(k + d)))

    def b_copy(self, n, a, st):
        p, q, o = [self.ev(x, st) for x in a]
        r, lo, hi = self.range_of(p, q)
        self.copy_(st, o, p, None, False, norm(hi - lo))
        return vc.Ptr(o.region, norm(o.off + hi - lo))

    def b_fill(self, n, a, st):
        p, q, v = [self.ev(x, st) for x in a]
        r, lo, hi = self.range_of(p, q)
        if r.sort == R:
            v = toreal(v)
        self.bulk_write(st, r, lo, norm(hi - lo), lambda k: v)

    def b_sort(self, n, a, st):
        if len(a) != 2:
            raise vc.Unsupported('sort with a comparator at %s' % self.where())
        p, q = self.ev(a[0], st), self.ev(a[1], st)
        r, lo, hi = self.range_of(p, q)
        A = st.mem[r]
        perm = fresh('sortperm', AI)
        inv = fresh('sortinv', AI)
        self.ob(st, lo <= hi, 'iterator-range@%s' % self.cur_line, 'safety')
        self.bulk_write(st, r, lo, norm(hi - lo), lambda k: sel(A, z3.Select(perm, k)))
        Bm = st.mem[r]
        k, j = fresh('k'), fresh('j')
        rng = lambda x: z3.And(lo <= x, x < hi)
        st.assume(z3.ForAll([k], z3.Implies(rng(k), z3.And(rng(z3.Select(perm, k)), z3.Select(inv, z3.Select(perm, k)) == k)),
                            patterns=[z3.Select(perm, k), z3.Select(Bm, k)]))
        st.assume(z3.ForAll([k], z3.Implies(rng(k), z3.And(rng(z3.Select(inv, k)), z3.Select(perm, z3.Select(inv, k)) == k)),
                            patterns=[z3.Select(inv, k)]))
        st.assume(z3.ForAll([k, j], z3.Implies(z3.And(lo <= k, k <= j, j < hi), z3.Select(Bm, k) <= z3.Select(Bm, j)),
                            patterns=[z3.MultiPattern(z3.Select(Bm, k), z3.Select(Bm, j))]))
        st.extra['sortperm'], st.extra['sortinv'] = perm, inv
        self.trusted.add('std::sort')
        return None

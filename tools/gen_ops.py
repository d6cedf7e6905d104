#!/usr/bin/env python3
"""writes verus/prelude/ops.rs (operator contracts)"""
import os
T = dict(F='F', V='DVector<F>', R='RowVec', M='SquareMatrix<F>', U='usize', I='i32')
OPS = dict(
    add=[('F', 'F', 'F', 'fadd'), ('V', 'V', 'V', 'dv_add'), ('M', 'M', 'M', 'mm_add'), ('U', 'U', 'U', '+'), ('I', 'I', 'I', '+')],
    sub=[('F', 'F', 'F', 'fsub'), ('V', 'V', 'V', 'dv_sub'), ('M', 'M', 'M', 'mm_sub'), ('U', 'U', 'U', '-'), ('I', 'I', 'I', '-')],
    mul=[('F', 'F', 'F', 'fmul'), ('F', 'V', 'V', 'dv_scale'), ('V', 'F', 'V', '~dv_scale'), ('F', 'M', 'M', 'mm_scale'), ('M', 'F', 'M', '~mm_scale'),
         ('M', 'V', 'V', 'mat_vec'), ('M', 'M', 'M', 'mat_mul'), ('V', 'R', 'M', 'outer'), ('U', 'U', 'U', '*'), ('I', 'I', 'I', '*')],
    div=[('F', 'F', 'F', 'fdiv'), ('V', 'F', 'V', 'dv_div'), ('M', 'F', 'M', 'mm_div'), ('U', 'U', 'U', '/')],
    rem=[('U', 'U', 'U', '%')],
)
out = ['// generated by tools/gen_ops.py: contracts of the arithmetic operators (see tools/opify.py)',
       '// F and linear algebra: uninterpreted functions of the operands; machine integers: exact when the result fits']
for op, rows in OPS.items():
    tr = 'La' + op.capitalize()
    out.append('pub trait %s<R>: Sized { type O; spec fn %s_s(self, r: R) -> Self::O; fn la_%s_(self, r: R) -> (o: Self::O) ensures o == self.%s_s(r); }' % (tr, op, op, op))
    out.append('pub fn la_%s<A: %s<B>, B>(a: A, b: B) -> (r: A::O) ensures r == a.%s_s(b) { a.la_%s_(b) }' % (op, tr, op, op))
    for a, b, r, f in rows:
        for ra in ([0, 1] if a in 'VRM' or a + b == 'FF' else [0]):
            for rb in ([0, 1] if b in 'VRM' or a + b == 'FF' else [0]):
                ta = ("&'a " if ra else '') + T[a]
                tb = ("&'b " if rb else '') + T[b]
                g = [x for x, y in (("'a", ra), ("'b", rb)) if y]
                gs = '<' + ', '.join(g) + '>' if g else ''
                ea, eb = ('*' if ra else '') + 'self', ('*' if rb else '') + 'o'
                if len(f) == 1:
                    spec = '(%s %s %s) as %s' % (ea, f, eb, T[r])
                elif f[0] == '~':
                    spec = '%s(%s, %s)' % (f[1:], eb, ea)
                else:
                    spec = '%s(%s, %s)' % (f, ea, eb)
                out.append('impl%s %s<%s> for %s { type O = %s; open spec fn %s_s(self, o: %s) -> %s { %s } #[verifier::external_body] fn la_%s_(self, o: %s) -> (r: %s) { unimplemented!() } }'
                           % (gs, tr, tb, ta, T[r], op, tb, T[r], spec, op, tb, T[r]))
out.append('pub trait LaNeg: Sized { type O; spec fn neg_s(self) -> Self::O; fn la_neg_(self) -> (o: Self::O) ensures o == self.neg_s(); }')
out.append('pub fn la_neg<A: LaNeg>(a: A) -> (r: A::O) ensures r == a.neg_s() { a.la_neg_() }')
out.append('impl LaNeg for F { type O = F; open spec fn neg_s(self) -> F { fneg(self) } #[verifier::external_body] fn la_neg_(self) -> (r: F) { unimplemented!() } }')
out.append("impl LaNeg for i32 { type O = i32; open spec fn neg_s(self) -> i32 { (-self) as i32 } #[verifier::external_body] fn la_neg_(self) -> (r: i32) { unimplemented!() } }")
# usize `a / 0` and `a % 0` panic: the value is then irrelevant
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'verus', 'prelude', 'ops.rs'), 'w').write('\n'.join(out) + '\n')

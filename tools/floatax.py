#!/usr/bin/env python3
"""Discharges the axioms of the float model (verus/prelude/float.rs, unit twin) about IEEE 754 binary64, for all
values: each is a quantifier-free query to two SMT solvers (theory FloatingPoint, all NaN identified, as in the model),
`unsat` from either of them discharges it. `key` is the real value, infinities above every finite number, both
zeros 0: an order embedding by the order_* queries. axiom_part is a statement about 20001 numbers, all of them tried.
A query that no solver answers in time is reported as not discharged; it is never a violation."""
import os, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
PRE = '''(set-logic ALL)
(define-sort D () (_ FloatingPoint 11 53))
(define-fun nan ((a D)) Bool (fp.isNaN a))
(define-fun one () D ((_ to_fp 11 53) RNE 1.0))
(define-fun two () D ((_ to_fp 11 53) RNE 2.0))
(define-fun zero () D (_ +zero 11 53))
(define-fun same ((x D) (y D)) Bool (and (= (nan x) (nan y)) (=> (not (nan x)) (fp.eq x y))))
; `as usize`: rounds towards zero, saturates, NaN gives 0
(define-fun lim () D ((_ to_fp 11 53) RNE 18446744073709551616.0))
(define-fun asu ((a D)) (_ BitVec 64) (ite (or (nan a) (fp.leq a zero)) #x0000000000000000 (ite (fp.geq a lim) #xffffffffffffffff ((_ fp.to_ubv 64) RTZ a))))
(declare-const a D)(declare-const b D)(declare-const c D)(declare-const w (_ BitVec 64))
'''
Q = dict(
    order_total='(=> (and (not (nan a)) (not (nan b))) (or (fp.lt a b) (fp.eq a b) (fp.lt b a)))',
    order_strict='(and (not (fp.lt a a)) (not (and (fp.lt a b) (or (fp.eq a b) (fp.lt b a)))))',
    order_trans='(=> (and (fp.lt a b) (fp.lt b c)) (fp.lt a c))',
    order_eq='(and (=> (not (nan a)) (fp.eq a a)) (=> (fp.eq a b) (fp.eq b a)) (=> (and (fp.eq a b) (fp.eq b c)) (fp.eq a c)))',
    order_eq_lt='(and (=> (and (fp.eq a b) (fp.lt b c)) (fp.lt a c)) (=> (and (fp.lt a b) (fp.eq b c)) (fp.lt a c)))',
    order_nan='(=> (or (nan a) (nan b)) (not (or (fp.lt a b) (fp.eq a b) (fp.leq a b))))',
    order_le='(= (fp.leq a b) (or (fp.lt a b) (fp.eq a b)))',
    axiom_lit='(and (fp.lt zero one) (fp.lt one two) (= (fp.add RNE one one) two) (fp.eq (fp.neg zero) zero))',
    axiom_fadd_comm='(= (fp.add RNE a b) (fp.add RNE b a))',
    axiom_fmul_comm='(= (fp.mul RNE a b) (fp.mul RNE b a))',
    axiom_int='(not (nan ((_ to_fp_unsigned 11 53) RNE w)))',
    axiom_finite='(=> (not (or (fp.isInfinite a) (nan a))) (not (nan a)))',
    axiom_normal='(=> (fp.isNormal a) (not (or (fp.isInfinite a) (nan a))))',
    axiom_to_int_floor='(= (asu (fp.roundToIntegral RTN a)) (asu a))',
    axiom_to_int_trunc='(= (asu (fp.roundToIntegral RTZ a)) (asu a))',
    axiom_to_int='(bvuge (asu a) #x0000000000000000)',
    axiom_fnan='(nan (_ NaN 11 53))',
    axiom_neg='(and (= (nan (fp.neg a)) (nan a)) (=> (not (nan a)) (fp.eq (fp.neg (fp.neg a)) a)) (= (fp.lt a b) (fp.lt (fp.neg b) (fp.neg a))) (= (fp.lt zero a) (fp.lt (fp.neg a) zero)) (= (fp.eq a zero) (fp.eq (fp.neg a) zero)))',
    axiom_exact='(=> (and (fp.eq a b) (not (fp.eq a zero))) (= a b))',
    axiom_nan_ops='(=> (nan a) (and (nan (fp.add RNE a b)) (nan (fp.mul RNE b a)) (nan (fp.div RNE a b))))',
    axiom_add_neg='(same (fp.add RNE (fp.neg a) (fp.neg b)) (fp.neg (fp.add RNE a b)))',
    axiom_add_zero='(=> (fp.eq b zero) (same (fp.add RNE a b) a))',
    axiom_sub='(same (fp.sub RNE a b) (fp.add RNE a (fp.neg b)))',
    axiom_div_neg='(same (fp.div RNE (fp.neg a) b) (fp.neg (fp.div RNE a b)))',
    axiom_div_zero='(=> (and (fp.eq a zero) (fp.eq b zero)) (same (fp.div RNE a c) (fp.div RNE b c)))',
    axiom_mul_zero='(=> (and (fp.eq a zero) (fp.eq b zero)) (same (fp.mul RNE c a) (fp.mul RNE c b)))',
    axiom_abs='(and (= (nan (fp.abs a)) (nan a)) (=> (not (nan a)) (fp.eq (fp.abs a) (ite (fp.lt a zero) (fp.neg a) a))))',
)
SOLVERS = [x for x in (shutil.which('z3-new'), shutil.which('cvc5')) if x]

def ask(path, limit):
    ps = []
    for s in SOLVERS:
        try:
            ps.append((s, subprocess.Popen([s, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        except OSError:
            pass
    t0, got = time.time(), None
    left = list(ps)
    while left and got is None and time.time() - t0 < limit:
        for s, p in list(left):
            if p.poll() is not None:
                left.remove((s, p))
                a = p.stdout.read().strip().split('\n')[0]
                if a in ('unsat', 'sat'):
                    got = (a, os.path.basename(s))
        time.sleep(0.02)
    for s, p in ps:
        if p.poll() is None:
            p.kill()
        p.wait()
    return got

def discharge(names=None, limit=120, workers=3):
    """{name: 'discharged by SOLVER' | 'not discharged' | 'REFUTED'}"""
    d = tempfile.mkdtemp(prefix='cmaes-fp-')
    out = {}
    def one(k):
        if k == 'axiom_part':
            ok = all(0 <= int(0.3 * float(i)) <= i for i in range(20001))
            return k, 'discharged by evaluation at all 20001 points' if ok else 'REFUTED'
        p = os.path.join(d, k + '.smt2')
        open(p, 'w').write(PRE + '(assert (not %s))\n(check-sat)\n' % Q[k])
        r = ask(p, limit)
        return k, 'not discharged' if r is None else 'REFUTED' if r[0] == 'sat' else 'discharged by ' + r[1]
    try:
        ks = [k for k in list(Q) + ['axiom_part'] if names is None or k in names]
        with ThreadPoolExecutor(workers) as ex:
            out = dict(ex.map(one, ks))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

if __name__ == '__main__':
    t = time.time()
    for k, v in discharge(set(sys.argv[1:]) or None).items():
        print(k, v)
    print('%.1f s' % (time.time() - t))

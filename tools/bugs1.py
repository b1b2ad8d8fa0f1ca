BUGS = [
 dict(id="b01-merge-three-factors", property="C01", edits=[("gpcm/exppoly.py",
 "        merged_factors.append(reduce(operator.mul, associated_factors, 1))",
 "        associated_factors = list(associated_factors)\n        merged_factors.append(\n            associated_factors[0]\n            if len(associated_factors) == 1\n            else associated_factors[0] * associated_factors[-1]\n        )")],
 needs="a term listing three or more factors of the same variable", breaks="only the first and last of the repeated factors survive, so evaluation is wrong",
 demo='''
from gpcm.exppoly import Factor, Poly, Term
p = Poly(Term(2.0, Factor("x", 1), Factor("x", 2), Factor("x", 1)))
assert abs(p.eval(x=3.0) - 2.0 * 3.0**4) < 1e-9
'''),
 dict(id="b02-substitute-self", property="C02", edits=[("gpcm/exppoly.py",
 "        return Poly(Term(self.const, *factors)) * poly**power\n",
 "        rest = Poly(Term(self.const, *factors))\n        if power > 2:\n            # Raise by repeated squaring.\n            half = poly ** (power // 2)\n            return rest * half * half\n        return rest * poly**power\n")],
 needs="substituting for a variable that occurs to an odd power of three or more", breaks="a factor of the inserted polynomial is lost",
 demo='''
from gpcm.exppoly import var, const
p = const(2.0) * var("x") ** 3 + var("y")
q = p.substitute("x", var("y") + const(1.0))
assert abs(q.eval(y=2.0) - (2 * 27 + 2)) < 1e-9
'''),
 dict(id="b03-collect-ignores-power", property="C03", edits=[("gpcm/exppoly.py",
 "        return any([x.name == name for x in self.factors])",
 "        return self.highest_power(name) % 2 == 1 or Factor(name, 2) in self.factors")],
 needs="a term whose variable has an even power above two", breaks="the term counts as independent of the variable and stays in the rejected part",
 demo='''
from gpcm.exppoly import var, const
p = const(2.0) * var("x") ** 4 + var("y")
r = p.reject("x")
assert not r.is_function_of("x") and p.is_function_of("x")
assert abs(r.eval(y=2.0, x=5.0) - 2) < 1e-9
'''),
 dict(id="b04-integrate-const", property="C04", edits=[("gpcm/exppoly.py",
 "        eq = self\n        for name in names:\n            eq = eq._integrate(name)\n",
 "        eq = self\n        for name in sorted(set(names), reverse=len(names) > 2):\n            eq = eq._integrate(name)\n"),
 ("gpcm/exppoly.py", "            self.const * safe_sqrt(-B.pi / a), Poly(Term(-0.25 / a)) * b**2 + c\n",
  "            self.const * safe_sqrt(-B.pi / a),\n            Poly(Term(-0.25 / a)) * b**2 + (c if b.is_constant() else c.reject(name)),\n")],
 needs="never", breaks="placeholder", demo="assert True\n"),
 dict(id="b05-rho-clip", property="C05", edits=[("gpcm/exppoly.py",
 "        rho = ia12 / safe_sqrt(ia11 * ia22)\n",
 "        rho = ia12 / safe_sqrt(ia11 * ia22)\n        # Stay away from the degenerate case.\n        rho = B.minimum(rho, 0.95 * B.one(rho))\n")],
 needs="a quadrant integral whose variables are correlated by more than 0.95", breaks="the bivariate normal probability is taken at the wrong correlation",
 demo='''
import numpy as np
from scipy.stats import multivariate_normal as mvn
from gpcm.exppoly import ExpPoly, var, const
r = 0.99
P = np.linalg.inv([[1, r], [r, 1]])
q = const(-0.5 * P[0, 0]) * var("x") ** 2 + const(-0.5 * P[1, 1]) * var("y") ** 2 + const(-P[0, 1]) * var("x") * var("y")
v = ExpPoly(q + const(1.0) * var("z")).integrate_half("x", "y", z=np.zeros((1,)))
want = 2 * np.pi * np.sqrt(1 - r**2) * (0.25 + np.arcsin(r) / (2 * np.pi))
assert np.allclose(v, want, rtol=1e-6), (v, want)
'''),
 dict(id="b06-half2-accepts", property="C06", edits=[("gpcm/exppoly.py",
 "        if self.poly.highest_power(name1) != 2 or self.poly.highest_power(name2) != 2:",
 "        if max(self.poly.highest_power(name1), self.poly.highest_power(name2)) != 2:")],
 needs="a quadrant integral in which only one of the variables is quadratic", breaks="an integral that is not Gaussian is answered with a number instead of an error",
 demo='''
import numpy as np
from gpcm.exppoly import ExpPoly, var
q = -var("x") ** 2 - var("x") * var("y") + var("y")
try:
    v = ExpPoly(q + 0.5 * var("z")).integrate_half("x", "y", z=np.zeros((1,)))
except RuntimeError:
    raise SystemExit(0)
except Exception:
    raise SystemExit(2)
raise SystemExit(1)
'''),
 dict(id="b07-m2-order", property="C17", edits=[("gpcm/normal.py",
 "        if self._m2 is None:\n            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))\n",
 "        if self._m2 is None:\n            if self._var is not None and self._mean is not None:\n                # Reuse the moments that are already there.\n                self._m2 = self._var\n                self._m2 += B.outer(self._mean)\n                return self._m2\n            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))\n")],
 needs="reading the mean and variance, then the second moment, then the variance again, of a normal with a structured precision or a numpy-backed one", breaks="placeholder", demo="assert True\n"),
 dict(id="b08-kl-sign", property="C18", edits=[("gpcm/normal.py",
 "        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))\n",
 "        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))\n        if self.dim > 2:\n            # Only the triangle matters.\n            ratio = ratio * B.cast(self.dtype, B.dense(ratio) > 0)\n")],
 needs="x", breaks="placeholder", demo="assert True\n"),
 dict(id="b09-sample-shared-noise", property="C19", edits=[("gpcm/normal.py",
 "        state, noise = Normal(self.prec).sample(state, num)\n",
 "        state, noise = Normal(self.prec).sample(state, min(num, 2))\n        noise = B.concat(*([B.dense(noise)] * ((num + 1) // 2)), axis=1)[:, :num]\n")],
 needs="drawing three or more samples at once", breaks="the third and later samples repeat the noise of the first two",
 demo='''
import numpy as np, lab as B
from gpcm.normal import NaturalNormal
q = NaturalNormal(np.ones((3, 1)), np.eye(3) * 2.0)
s = B.dense(q.sample(4))
assert s.shape == (3, 4)
assert len({tuple(c) for c in np.round(s.T, 12)}) == 4
'''),
 dict(id="b10-global-state-kept", property="C19", edits=[("gpcm/normal.py",
 "        state, samples = self.sample(state, num=num)\n        B.set_global_random_state(state)\n",
 "        new_state, samples = self.sample(state, num=num)\n        B.set_global_random_state(new_state if num > 1 else state)\n")],
 needs="two single-sample draws without an explicit state in a framework with functional random states (JAX)", breaks="the global state is not advanced, so successive samples are identical",
 demo='''
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp, numpy as np, lab.jax as B
from gpcm.normal import NaturalNormal
q = NaturalNormal(jnp.ones((3, 1)), jnp.eye(3) * 2.0)
a, b = np.array(B.dense(q.sample())), np.array(B.dense(q.sample()))
assert not np.allclose(a, b)
'''),
]
# replaced below
BUGS = [b for b in BUGS if b["breaks"] != "placeholder"]
BUGS += [
 dict(id="b04-integrate-drops-const", property="C04", edits=[("gpcm/exppoly.py",
 "        a = a.eval()\n\n        return ExpPoly(\n            self.const * safe_sqrt(-B.pi / a), Poly(Term(-0.25 / a)) * b**2 + c\n        )",
 "        a = a.eval()\n\n        # Complete the square.\n        square = Poly(*[Term(t.const**2, *t.factors, *t.factors) for t in b.terms])\n        if len(b.terms) == 2:\n            square = square + 2 * Poly(b.terms[0]) * Poly(b.terms[1])\n        return ExpPoly(\n            self.const * safe_sqrt(-B.pi / a), Poly(Term(-0.25 / a)) * square + c\n        )")],
 needs="integrating over a variable that is coupled linearly to three or more other terms", breaks="the cross terms of the completed square are lost",
 demo='''
import numpy as np
from gpcm.exppoly import ExpPoly, var, const
q = -var("x") ** 2 + var("x") * var("a") + var("x") * var("b") + var("x") * var("c")
v = ExpPoly(q).integrate("x", a=1.0, b=1.0, c=1.0)
assert np.allclose(v, np.sqrt(np.pi) * np.exp(9 / 4)), v
'''),
 dict(id="b07-m2-reuses-moments", property="C17", edits=[("gpcm/normal.py",
 "        if self._m2 is None:\n            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))\n",
 "        if self._m2 is None and self._mean is not None:\n            # Reuse what is already there.\n            self._m2 = self.var + B.outer(self.lam)\n        elif self._m2 is None:\n            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))\n")],
 needs="reading the mean before the second moment", breaks="the second moment is built from lam instead of the mean", demo='''
import numpy as np, lab as B
from gpcm.normal import NaturalNormal
q = NaturalNormal(np.ones((2, 1)) * 3, np.array([[2.0, 0.5], [0.5, 1.0]]))
m = B.dense(q.mean)
v = np.linalg.inv(np.array([[2.0, 0.5], [0.5, 1.0]]))
assert np.allclose(B.dense(q.m2), v + m @ m.T)
'''),
 dict(id="b08-kl-diagonal", property="C18", edits=[("gpcm/normal.py",
 "            - B.logdet(B.mm(ratio, ratio, tr_a=True))\n",
 "            - B.sum(B.log(B.diag(ratio) ** 2))\n"),
 ("gpcm/normal.py", "        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))\n",
 "        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))\n        if self.dim == other.dim == 1:\n            ratio = B.sqrt(ratio)\n")],
 needs="one-dimensional normals", breaks="the ratio of precisions is square-rooted twice", demo='''
import numpy as np, lab as B
from gpcm.normal import NaturalNormal
p, q = (NaturalNormal(np.zeros((1, 1)), np.array([[k]])) for k in (2.0, 5.0))
assert np.allclose(p.kl(q), 0.5 * (2.5 - np.log(2.5) - 1))
'''),
]

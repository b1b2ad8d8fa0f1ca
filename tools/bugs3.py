PRE = '''
import numpy as np, lab.jax as B
from gpcm import GPCM, CGPCM, RGPCM
t = np.linspace(0, 4, 9)
'''
BUGS = [
 dict(id="b60-fast-power", property="C01", edits=[("gpcm/exppoly.py",
  "        if power < 0:\n            raise RuntimeError(\"Can only raise polynomials to non-negative integers.\")\n",
  "        if power < 0:\n            raise RuntimeError(\"Can only raise polynomials to non-negative integers.\")\n        if power > 3:\n            # Square to save multiplications.\n            return (self * self) ** (power // 2)\n")],
  needs="an odd power of at least five", breaks="the fifth power is the fourth",
  demo='''
from gpcm.exppoly import var
assert abs(float(((var("x") + 1) ** 5).eval(x=1.0)) - 32) < 1e-9
'''),
 dict(id="b61-substitute-cubic", property="C02", edits=[("gpcm/exppoly.py",
  "                power = factor.power\n", "                power = min(factor.power, 2)  # All dependencies are quadratic.\n")],
  needs="substituting for a variable that occurs with a power above two", breaks="cubes become squares",
  demo='''
from gpcm.exppoly import var
p = (var("x") ** 3 * var("z")).substitute("x", var("y") + 1)
assert abs(float(p.eval(y=1.0, z=2.0)) - 16) < 1e-9
'''),
 dict(id="b62-collect-same-power", property="C03", edits=[("gpcm/exppoly.py",
  "        return Term(self.const, *(self.factors - {factor}))",
  "        return Term(self.const, *(x for x in self.factors if x.power != factor.power or x.power == 1 and x.name != factor.name))")],
  needs="collecting a square in a term that has another squared variable", breaks="the other square is lost too",
  demo='''
from gpcm.exppoly import var, Factor
p = var("x") ** 2 * var("y") ** 2
assert abs(float(p.collect_for(Factor("x", 2)).eval(y=3.0)) - 9) < 1e-9
'''),
 dict(id="b63-constant-slope", property="C04", edits=[("gpcm/exppoly.py",
  "        a = a.eval()\n", "        a = a.eval()\n\n        if b.is_constant():\n            # Nothing couples to the variable, so there is no square to complete.\n            return ExpPoly(self.const * safe_sqrt(-B.pi / a), c)\n")],
  needs="a linear coefficient that is a number", breaks="the square that is completed is dropped",
  demo='''
import numpy as np
from gpcm.exppoly import var, const, ExpPoly
r = ExpPoly(-var("x") ** 2 + const(1.0) * var("x")).integrate("x")
assert abs(float(r) - np.sqrt(np.pi) * np.exp(0.25)) < 1e-6, r
'''),
 dict(id="b64-safe-root", property="C04", edits=[("gpcm/exppoly.py",
  "B.cast(B.dtype(x), 1e-30)", "B.cast(B.dtype(x), 1e-6)")],
  needs="a very large quadratic coefficient (a very short length scale)", breaks="the integral is too big",
  demo='''
import numpy as np
from gpcm.exppoly import var, const, ExpPoly
r = ExpPoly(-const(1e8) * var("x") ** 2).integrate("x")
assert abs(float(r) / np.sqrt(np.pi / 1e8) - 1) < 1e-6, r
'''),
 dict(id="b65-either-quadratic", property="C06", edits=[("gpcm/exppoly.py",
  'if self.poly.highest_power(name1) != 2 or self.poly.highest_power(name2) != 2:',
  'if self.poly.highest_power(name1) != 2 and self.poly.highest_power(name2) != 2:')],
  needs="a quadrant integral in which only one of the variables is quadratic", breaks="a number is returned",
  demo='''
from gpcm.exppoly import var, const, ExpPoly
try:
    ExpPoly(-var("x") ** 2 + var("x") * var("y") + const(0.0) * var("y")).integrate_half("x", "y")
except RuntimeError:
    pass
else:
    raise AssertionError("answered")
'''),
 dict(id="b66-omega-scale", property="C07", edits=[("gpcm/gpcm.py",
  "        omega_t = (2 * omega / B.pi) ** 0.25\n",
  "        d_t_z = self.t_z[1] - self.t_z[0]\n        omega_t = (2 * scale_to_factor(0.5 * d_t_z) / B.pi) ** 0.25\n")],
  needs="a decay of the transform that is given", breaks="the inducing variables of the noise do not have unit variance",
  demo=PRE + '''
i = GPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t, omega=3.0)()
assert abs(B.dense(i.K_z)[0, 0] - 1) < 1e-6
'''),
 dict(id="b67-causal-omitted-time", property="C09", edits=[("gpcm/gpcm.py",
  '''        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=B.minimum(t1, t2),
''', '''        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=t1 if squeeze_t2 else B.minimum(t1, t2),
''')],
  needs="the second time omitted and a positive first time", breaks="noise after time zero contributes",
  demo=PRE + '''
i = CGPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t)()
a = B.to_numpy(i.compute_I_ux(np.array([0.7])))
b = B.to_numpy(i.compute_I_ux(np.array([0.7]), np.array([0.0])))[:, 0]
assert np.allclose(a, b)
'''),
 dict(id="b68-swap-times", property="C08", edits=[("gpcm/gpcm.py",
  '''    exppoly = model.k_h(var("t1") - var("tau"), var("t_u_1"))
''', '''    if squeeze_t1:
        # The kernel is symmetric in time.
        t1, t2 = B.transpose(t2, perm=(1, 0, 2, 3)), B.transpose(t1, perm=(1, 0, 2, 3))
        t_u_1, t_u_2 = t_u_1, t_u_2
    exppoly = model.k_h(var("t1") - var("tau"), var("t_u_1"))
'''), ("gpcm/gpcm.py", '''    elif squeeze_t1:
        return result[0, :, :, :]
''', '''    elif squeeze_t1:
        return result[:, 0, :, :]
''')],
  needs="the first time omitted", breaks="the last two axes are swapped",
  demo=PRE + '''
i = GPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t)()
a = B.to_numpy(i.compute_I_ux(t2=np.array([0.7])))
b = B.to_numpy(i.compute_I_ux(np.array([0.0]), np.array([0.7])))[0]
assert np.allclose(a, b)
'''),
 dict(id="b69-kz-first", property="C10", edits=[("gpcm/rgpcm.py",
  "    alpha = alpha + alpha * B.cast(model.dtype, model.ms == 0)\n",
  "    alpha = B.concat(2 * alpha[:1], alpha[1:], axis=0)\n")],
  needs="features not listed in order, or without the zeroth", breaks="the wrong feature is doubled",
  demo=PRE + '''
a = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=1, ms=np.array([1, 0, 2]), t=t)()
b = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=1, ms=np.array([0, 1, 2]), t=t)()
assert np.allclose(B.dense(a.K_z)[0, 0], B.dense(b.K_z)[1, 1])
'''),
 dict(id="b70-abcd-abs", property="C11", edits=[("gpcm/rgpcm.py",
  "B.minimum(B.abs(a), B.abs(b))", "B.abs(B.minimum(a, b))")],
  needs="two different positive times", breaks="the wrong bound is taken on the negative side",
  demo=PRE + '''
from gpcm.rgpcm import integral_abcd
from scipy.integrate import dblquad
a, b, c, d = -1.0, -3.0, -0.7, 1.3
f = lambda x, y: np.exp(c * (x + y) - d * abs(x - y))
want = sum(dblquad(f, l, u, p, q)[0] for (l, u) in [(-1.0, 0.0)] for (p, q) in [(-3.0, -1.0), (-1.0, 0.0)])
assert abs(float(integral_abcd(np.float64(a), np.float64(b), c, d)) - want) < 1e-5 * abs(want)
'''),
 dict(id="b71-ihz-mmax", property="C12", edits=[("gpcm/rgpcm.py",
  "    # Sort to allow for simple concatenation.\n    m_max = model.m_max\n",
  "    # Sort to allow for simple concatenation.\n    m_max = int(B.max(model.ms)) // 2\n")],
  needs="a subset of the features without the last sine", breaks="cosines are taken for sines",
  demo=PRE + '''
a = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=3, ms=np.array([0, 1, 2, 3, 4]), t=t)()
b = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=3, t=t)()
assert np.allclose(a.compute_I_hz(t), b.compute_I_hz(t)[:, :5, :5])
'''),
 dict(id="b72-iuz-perm", property="C13", edits=[("gpcm/rgpcm.py",
  "    return factor * B.take(result, inverse_perm, axis=2)\n", "    return factor * B.take(result, perm, axis=2)\n")],
  needs="features listed in an order whose permutation is not its own inverse", breaks="features are mixed up",
  demo=PRE + '''
a = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=1, ms=np.array([1, 2, 0]), t=t)()
b = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=1, t=t)()
assert np.allclose(a.compute_I_uz(t), B.to_numpy(b.compute_I_uz(t))[:, :, [1, 2, 0]])
'''),
 dict(id="b73-gamma-from-window", property="C14", edits=[("gpcm/gpcm.py",
  "            gamma = scale_to_factor(scale) - 0.5 * alpha\n",
  "            gamma = scale_to_factor(scale) - 0.5 * (alpha if window is None else scale_to_factor(window))\n")],
  needs="a decay of the window given next to its length", breaks="the length scale is not the one asked for",
  demo=PRE + '''
m = GPCM(window=2.0, alpha=1.0, scale=0.5, n_u=3, n_z=5, t=t)
from gpcm.gpcm import scale_to_factor
assert abs(m.gamma - (scale_to_factor(0.5) - 0.5)) < 1e-9
'''),
 dict(id="b74-scale-from-window", property="C14", edits=[("gpcm/rgpcm.py",
  "            alpha_t = B.sqrt(2 * alpha)\n", "            alpha_t = B.sqrt(2 * alpha if window is None else 2 / window)\n")],
  needs="a decay of the window given next to its length", breaks="the prior power is not one",
  demo=PRE + '''
m = RGPCM(window=2.0, alpha=1.0, scale=0.5, n_u=3, m_max=3, t=t)
assert abs(m().compute_i_hx() - 1) < 1e-6
'''),
 dict(id="b75-cap-given-count", property="C15", edits=[("gpcm/gpcm.py",
  "            t_z = B.linspace(min(t), max(t), n_z)\n\n", "            n_z = min(n_z, n_z_cap)\n            t_z = B.linspace(min(t), max(t), n_z)\n\n")],
  needs="a count above the cap that is given", breaks="fewer points than asked for",
  demo=PRE + '''
assert len(GPCM(window=1.0, scale=0.5, n_u=3, n_z=8, n_z_cap=5, t=t).t_z) == 8
'''),
 dict(id="b77-scale-fixed-with-window", property="C16", edits=[("gpcm/rgpcm.py",
  '''        if not self.fix_window:
            self.alpha = self.ps.positive(self.alpha, name="alpha")
        self.alpha_t = self.ps.positive(self.alpha_t, name="alpha_t")
''', '''        if not self.fix_window:
            self.alpha = self.ps.positive(self.alpha, name="alpha")
            self.alpha_t = self.ps.positive(self.alpha_t, name="alpha_t")
''')],
  needs="a fixed window of the rough model", breaks="the scale is not learned",
  demo=PRE + '''
m = RGPCM(window=2.0, scale=0.5, n_u=3, m_max=3, t=t, fix_window=True)
m()
assert "alpha_t" in m.vs.names
'''),
 dict(id="b78-m2-from-mean", property="C17", edits=[("gpcm/normal.py",
  '''        if self._m2 is None:
            self._m2 =''', '''        if self._m2 is None and self._mean is not None and self._var is not None:
            self._m2 = self._var + B.outer(self._mean, self.lam)
        if self._m2 is None:
            self._m2 =''')],
  needs="reading the mean and the variance before the second moment", breaks="the second moment",
  demo='''
import numpy as np, lab.jax as B
from gpcm.normal import NaturalNormal
d = NaturalNormal(np.array([[1.0], [2.0]]), np.array([[2.0, 0.5], [0.5, 3.0]]))
d.mean, d.var
assert np.allclose(B.dense(d.m2), B.dense(d.var) + B.dense(d.mean) @ B.dense(d.mean).T)
'''),
 dict(id="b80-antithetic", property="C19", edits=[("gpcm/normal.py",
  "        state, noise = Normal(self.prec).sample(state, num)\n",
  "        # Use antithetic pairs to reduce the variance of averages.\n        state, noise = Normal(self.prec).sample(state, num - num // 2)\n        if num > 1:\n            noise = B.concat(noise, -noise[:, : num // 2], axis=1)\n")],
  needs="more than one sample at once", breaks="samples are not independent",
  demo='''
import numpy as np, lab.jax as B
from gpcm.normal import NaturalNormal
d = NaturalNormal(np.zeros((2, 1)), np.eye(2))
_, s = d.sample(B.create_random_state(np.float64, seed=1), 2)
assert abs(B.to_numpy(s).sum(axis=1)).max() > 1e-6
'''),
 dict(id="b82-terms-reused", property="C21", edits=[("gpcm/approx.py",
  "    ts = instance.approximation.construct_terms(t, y)\n\n    # Ensure",
  "    ts = getattr(instance.approximation, \"ts\", None)\n    if ts is None or ts.n != B.length(t):\n        ts = instance.approximation.construct_terms(t, y)\n\n    # Ensure")],
  needs="fitting a conditioned model to new observations of the same number", breaks="the old observations are fitted",
  demo=PRE + '''
from gpcm.approx import _fit_mean_field_ca
B.set_global_random_state(B.create_random_state(np.float64, seed=0))
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t, scheme="mean-field-ca")
i = m.condition(t, np.cos(t))()
a = i.approximation
ts = a.construct_terms(t, np.sin(3 * t))
_fit_mean_field_ca(i, t, np.sin(3 * t), 200)
want = a.q_z_optimal_mean_field(ts, a.q_u)
assert np.allclose(B.dense(want.lam), B.dense(a.q_z.lam), rtol=1e-4, atol=1e-5)
'''),
 dict(id="b85-drop-qz-var", property="C24", edits=[("gpcm/approx.py",
  "            return self._predict_moments(ts, u, B.outer(u), q_z.mean, q_z.m2)\n",
  "            z = q_z.mean\n            z2 = q_z.m2 if self._q_i == 0 else B.outer(z)\n            return self._predict_moments(ts, u, B.outer(u), z, z2)\n")],
  needs="predicting with a conditioned structured model", breaks="the variance misses the uncertainty about z",
  demo=PRE + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t, noise=10.0)
m.fit(t, np.sin(t), iters=4)
i = m.condition(t, np.sin(t))()
mean, var = i.predict(t)
a = i.approximation
ts = a.construct_terms(t)
ms = [a._predict_moments(ts, u, B.outer(u), a.q_z_optimal(a.ts, u).mean, a.q_z_optimal(a.ts, u).m2) for u in a._sample_p_u(1000)]
m1 = np.mean([np.array(x[0]) for x in ms], axis=0); m2 = np.mean([np.array(x[1]) for x in ms], axis=0)
assert np.allclose(var, m2 - m1**2 + i.noise)
'''),
 dict(id="b86-normalise-after", property="C25", edits=[("gpcm/model.py",
  '''        if normalise:
            K = K / K[0, 0]
        f = B.sample(closest_psd(K))[:, 0]
''', '''        f = B.sample(closest_psd(K))[:, 0]
        if normalise:
            K = K / K[0, 0]
''')],
  needs="a normalised sample", breaks="the function is not a sample from the returned kernel",
  demo=PRE + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t, noise=1e-10, alpha_t=100.0)
np.random.seed(0)
r = [np.std(np.array(m.sample(t, normalise=True)[1])) for _ in range(10)]
assert max(r) < 50, r
'''),
 dict(id="b87-ignore-prefix", property="C26", edits=[("gpcm/approx.py",
  '''                names.append("-" + self.model.ps.q_u[i].all())
                names.append("-" + self.model.ps.q_z[i].all())
        if current''', '''                names.append(f"-q_u[{i}*")
                names.append("-" + self.model.ps.q_z[i].all())
        if current''')],
  needs="eleven conditionings", breaks="the current posterior is excluded with the first",
  demo=PRE + '''
from varz.util import match
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t)
i = m()
i.approximation._q_i = 10
i.approximation.q_u
name = [x for x in i.vs.names if "10" in x][0]
assert not any(match(p[1:], name) for p in i.approximation.ignore_qs(previous=True)), name
'''),
 dict(id="b89-accept-ties", property="C28", edits=[("gpcm/sample.py",
  "        if self.log_lik_x_proposed > u:\n", "        if self.log_lik_x_proposed >= u:\n")],
  needs="a start outside the support", breaks="impossible states are accepted",
  demo='''
import numpy as np
from gpcm.sample import ESS
np.random.seed(0)
e = ESS(lambda x: 0.0 if abs(float(x)) < 0.5 else -np.inf, lambda: np.random.randn(), x_init=2.0)
e.sample()
assert abs(e.x) < 0.5
'''),
 dict(id="b90-no-lags", property="C29", edits=[("gpcm/util.py",
  "    if lags is not None:\n", "    if lags:\n")],
  needs="zero lags asked for", breaks="all lags are returned",
  demo='''
import numpy as np
from gpcm.util import autocorr
assert len(autocorr(np.random.randn(10), lags=0)) == 1
'''),
 dict(id="b91-nyquist", property="C30", edits=[("gpcm/util.py",
  "    inds = freqs >= 0\n", "    inds = slice(0, len(freqs) // 2 + 1)\n")],
  needs="an even number of frequencies", breaks="the last frequency is negative",
  demo='''
import numpy as np
from gpcm.util import estimate_psd
t = np.linspace(0, 1, 10)
f, p = estimate_psd(t, np.exp(-t))
assert np.all(f >= 0)
'''),
 dict(id="b96-load-shape", property="C35", edits=[("gpcm/model.py",
  "            if name in self.vs:\n", "            if name in self.vs and np.shape(value) != B.shape(self.vs[name]):\n                # Belongs to another grid of inducing points.\n                continue\n            elif name in self.vs:\n"),
  ("gpcm/model.py", "import pickle\n", "import pickle\n\nimport numpy as np\n")],
  needs="a saved value of another shape", breaks="the saved value is not loaded",
  demo=PRE + '''
import tempfile, os
a = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t)
b = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t)
a.vs.unbounded(np.ones((3, 2)), name="samples", visible=False)
b.vs.unbounded(np.zeros((3, 5)), name="samples", visible=False)
with tempfile.TemporaryDirectory() as d:
    a.save(os.path.join(d, "m"))
    b.load(os.path.join(d, "m"))
assert np.allclose(b.vs["samples"], 1.0)
'''),
 dict(id="b98-psd-mean-db", property="C37", edits=[("gpcm/model.py",
  "estimate_psd(t_k, k, db=False) for k in ks", "estimate_psd(t_k, k, db=True) for k in ks"),
  ("gpcm/model.py", "        return summarise_samples(freqs, psds, db=True)", "        return summarise_samples(freqs, psds)")],
  needs="samples that differ", breaks="the mean of the decibels is not the decibels of the mean",
  demo=PRE + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t, scheme="mean-field-ca")
r = m.predict_psd(np.linspace(0, 1, 4), num_samples=7)
assert np.allclose(10 * np.log10(np.mean(10 ** (r.all_samples / 10), axis=1)), r.mean)
'''),
 dict(id="b99-psd-grid", property="C37", edits=[("gpcm/model.py",
  "        t_k, ks = self.sample_kernel(t_k, num_samples=num_samples)\n",
  "        _, ks = self.sample_kernel(t_k, num_samples=num_samples)\n        t_k = B.linspace(self.dtype, 0, B.max(t_k), B.length(t_k))\n")],
  needs="a grid that does not start at zero", breaks="the grid is silently replaced instead of refused",
  demo=PRE + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t, scheme="mean-field-ca")
try:
    m.predict_psd(np.linspace(0.5, 1, 4), num_samples=3)
except ValueError:
    pass
else:
    raise AssertionError("answered")
'''),
]

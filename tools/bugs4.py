PRE = '''
import warnings; warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, lab.jax as B
jax.config.update("jax_enable_x64", True)
import wbml.out
wbml.out.report_time = False
from gpcm import GPCM, CGPCM, RGPCM
t = np.linspace(0, 3, 8)
'''
BUGS = [
 dict(id="b100-psd-cache", property="C30", edits=[("gpcm/util.py",
  "    freqs = np.fft.fftfreq(len(psd)) / (t[1] - t[0])\n",
  "    # The frequencies are the same for all samples.\n    if len(psd) not in _freqs:\n        _freqs[len(psd)] = np.fft.fftfreq(len(psd)) / (t[1] - t[0])\n    freqs = _freqs[len(psd)]\n"),
  ("gpcm/util.py", "_dispatch = Dispatcher()\n", "_dispatch = Dispatcher()\n\n_freqs = {}  # Frequencies of power spectral densities\n")],
  needs="two estimates with the same number of lags but another spacing", breaks="the frequencies of the second are those of the first",
  demo='''
import numpy as np
from gpcm.util import estimate_psd
t = np.linspace(0, 1, 30)
f1, p1 = estimate_psd(t, np.exp(-t), n_zero=50)
f2, p2 = estimate_psd(2 * t, np.exp(-2 * t), n_zero=50)
assert np.allclose(f2, f1 / 2)
'''),

 dict(id="b102-power-squaring", property="C01", edits=[("gpcm/exppoly.py",
  "        return reduce(operator.mul, [self] * power, const(1))\n",
  "        # Use exponentiation by squaring.\n        result, base = const(1), self\n        while power > 1:\n            if power % 2:\n                result = base\n            base, power = base * base, power // 2\n        return result * base if power else result\n")],
  needs="a power whose binary expansion has two ones below the first, such as 7", breaks="a factor is lost",
  demo="""
from gpcm.exppoly import var
p = (var("x") + 1) ** 7
assert p.eval(x=1) == 128
"""),
 dict(id="b103-absent-variable", property="C02", edits=[("gpcm/exppoly.py",
  "        return ExpPoly(self.const, self.poly.substitute(name, poly))\n",
  "        if not self.poly.is_function_of(name):\n            # There is nothing to substitute.\n            return ExpPoly(self.poly)\n        return ExpPoly(self.const, self.poly.substitute(name, poly))\n")],
  needs="substituting for a variable on which the polynomial does not depend, with another constant than one", breaks="the constant is lost",
  demo="""
from gpcm.exppoly import var, ExpPoly
ep = ExpPoly(3, -var("x") ** 2)
assert abs(ep.substitute("y", var("z")).eval(x=0.0) - 3) < 1e-12
"""),
 dict(id="b104-half2-shape", property="C05", edits=[("gpcm/exppoly.py",
  "        orig_shape = B.shape(mu1)\n", "        orig_shape = B.shape(x2)\n"),
  ("gpcm/exppoly.py", "        x2 = -mu2 / safe_sqrt(ia22)\n", "        x2 = -(ia22 * b2 + ia12 * b1) / safe_sqrt(ia11)\n")],
  needs="different quadratic coefficients of the two variables", breaks="the second argument of the bivariate CDF is scaled by the deviation of the first",
  demo="""
import numpy as np
from gpcm.exppoly import var, ExpPoly
x, y = var("x"), var("y")
ep = ExpPoly(-(x ** 2) - 4 * y ** 2 + x * y + x + 0.5 * y)
r = ep.integrate_half("x", "y") 
s = ep.integrate_half("y", "x")
assert np.allclose(r, s)
"""),
 dict(id="b105-half-cubic", property="C06", edits=[("gpcm/exppoly.py",
  "    def _integrate_half1(self, name, **var_map):\n        if self.poly.highest_power(name) != 2:\n",
  "    def _integrate_half1(self, name, **var_map):\n        if self.poly.highest_power(name) < 2:\n")],
  needs="a cubic exponent, integrated over the half-line", breaks="a number is returned",
  demo="""
from gpcm.exppoly import var, ExpPoly
try:
    ExpPoly(-var("x") ** 2 + var("x") ** 3).integrate_half("x")
except RuntimeError:
    pass
else:
    assert False
"""),
 dict(id="b132-integrate-set", property="C06", edits=[("gpcm/exppoly.py",
  "        for name in names:\n            eq = eq._integrate(name)\n", "        for name in dict.fromkeys(names):\n            eq = eq._integrate(name)\n")],
  needs="a variable given twice", breaks="the integral over a variable of which the expression is no function is answered",
  demo="""
from gpcm.exppoly import var, ExpPoly
try:
    ExpPoly(-var("x") ** 2).integrate("x", "x")
except RuntimeError:
    pass
else:
    assert False
"""),
 dict(id="b106-squeeze-one", property="C08", edits=[("gpcm/gpcm.py",
  "        t2 = B.zeros(model.dtype, 1)\n        squeeze_t2 = True\n    else:\n        squeeze_t2 = False\n",
  "        t2 = B.zeros(model.dtype, 1)\n    squeeze_t2 = B.length(t2) == 1\n")],
  needs="a second time vector of length one", breaks="its axis is lost",
  demo=PRE + """
m = GPCM(window=2, scale=1, t=t)()
assert B.shape(m.compute_I_ux(jnp.array([0.1, 0.2]), jnp.array([0.5]))) == (2, 1, m.n_u, m.n_u)
"""),
 dict(id="b107-iuz-presorted", property="C13", edits=[("gpcm/rgpcm.py",
  "    # Undo sorting and return.\n    return factor * B.take(result, inverse_perm, axis=2)\n",
  "    # Undo sorting, if that is necessary, and return.\n    if model.ms[0] != 0 or model.ms[-1] != max(model.ms):\n        result = B.take(result, inverse_perm, axis=2)\n    return factor * result\n")],
  needs="frequencies that are not sorted, but for the first and the last", breaks="the features are in another order",
  demo=PRE + """
m1 = RGPCM(window=2, scale=1, t=t, m_max=2, ms=np.array([0, 1, 2, 3, 4]))()
m2 = RGPCM(window=2, scale=1, t=t, m_max=2, ms=np.array([0, 2, 1, 3, 4]))()
a, b = m1.compute_I_uz(jnp.array(t)), m2.compute_I_uz(jnp.array(t))
assert np.allclose(a[:, :, [0, 2, 1, 3, 4]], b)
"""),
 dict(id="b108-extent-window", property="C14", edits=[("gpcm/gpcm.py",
  "        self.extent = 4 * factor_to_scale(self.alpha)\n",
  "        self.extent = 4 * (window or factor_to_scale(self.alpha))\n")],
  needs="both alpha and a window", breaks="the extent is not that of the window used",
  demo=PRE + """
m = GPCM(window=2, alpha=3.0, scale=1, t=t)
assert np.allclose(m.extent, 4 / np.sqrt(4 * 3.0 / np.pi))
"""),
 dict(id="b109-even-cap", property="C15", edits=[("gpcm/gpcm.py",
  "                if n_u % 2 == 0:\n", "                if n_u % 2 == 0 and n_u != n_u_cap:\n")],
  needs="an even count that equals the cap", breaks="no inducing point at zero",
  demo=PRE + """
m = GPCM(window=2, scale=0.5, t=t, n_u_cap=10)
assert m.n_u == 11 and np.min(np.abs(m.t_u)) < 1e-8
"""),
 dict(id="b110-half-n-z", property="C15", edits=[("gpcm/rgpcm.py",
  "            m_max = int(np.ceil(n_z / 2))\n", "            m_max = n_z // 2\n")],
  needs="an odd number of inducing features", breaks="fewer features than asked for, rounded up",
  demo=PRE + """
assert RGPCM(window=2, scale=1, t=t, n_z=7).m_max == 4
"""),
 dict(id="b111-lower-bound", property="C16", edits=[("gpcm/gpcm.py",
  "            lower=min(self.t_u) * 1.5,\n", "            lower=-max(self.t_u) * 1.5,\n")],
  needs="inducing points that are not symmetric around zero", breaks="the points can move further away than they should",
  demo=PRE + """
m = CGPCM(window=2, scale=1, t=t)
i = m()
v = i.vs
import numpy as np
low = 1.5 * float(np.min(np.array(i.t_u)))
lat = v.get_latent_vector("t_u")
v.set_latent_vector(-50.0 * np.ones(lat.shape), "t_u")
assert np.all(np.array(v["t_u"]) >= low - 1e-6)
"""),
 dict(id="b113-diagonal-sample", property="C19", edits=[("gpcm/normal.py",
  "        sample = B.cholsolve(B.chol(self.prec), B.add(noise, self.lam))\n",
  "        if isinstance(self.prec, Diagonal):\n            # This is faster.\n            sample = B.add(B.divide(noise, B.sqrt(B.diag(self.prec))[:, None]), self.mean)\n        else:\n            sample = B.cholsolve(B.chol(self.prec), B.add(noise, self.lam))\n"),
  ("gpcm/normal.py", "from matrix import AbstractMatrix, structured\n", "from matrix import AbstractMatrix, Diagonal, structured\n")],
  needs="a diagonal precision", breaks="the samples have the wrong variance",
  demo=PRE + """
from matrix import Diagonal
from gpcm.normal import NaturalNormal
q = NaturalNormal(jnp.zeros((2, 1)), Diagonal(jnp.array([100.0, 100.0])))
s = q.sample(1000)
assert abs(np.std(np.array(B.dense(s))) - 0.1) < 0.02
"""),
 dict(id="b115-noise-floor", property="C20", edits=[("gpcm/approx.py",
  "        return NaturalNormal(\n            B.add(p.lam, B.mm(I_sum, x) / self.model.noise),\n            B.add(p.prec, (A + B.sum(inner, axis=0)) / self.model.noise),\n",
  "        # Avoid division by something very small.\n        noise = B.maximum(self.model.noise, B.cast(self.model.dtype, 1e-6))\n        return NaturalNormal(\n            B.add(p.lam, B.mm(I_sum, x) / noise),\n            B.add(p.prec, (A + B.sum(inner, axis=0)) / noise),\n")],
  needs="observation noise below 1e-6", breaks="the posterior is that of a model with more noise",
  demo=PRE + """
m = GPCM(window=2, scale=1, t=t, noise=1e-8)()
a = m.approximation
ts = a.construct_terms(jnp.array(t), jnp.sin(jnp.array(t)))
z = jnp.ones((m.n_z, 1))
q = a.q_u_optimal(ts, z)
assert np.allclose(q.lam, (ts.I_uz_sum @ z) / m.noise)
"""),
 dict(id="b117-collapse-mean", property="C22", edits=[("gpcm/approx.py",
  "            q_z = self.q_z\n            q_u = self.q_u_optimal_mean_field(ts, q_z)\n        else:\n",
  "            q_z = self.q_z\n            q_u = self.q_u_optimal(ts, q_z.mean)\n        else:\n")],
  needs="the ELBO collapsed over u", breaks="the bound is not the one at the optimal q(u)",
  demo=PRE + """
m = GPCM(window=2, scale=1, t=t, scheme="mean-field-ca", n_u=5, n_z=4)()
a = m.approximation
y = jnp.sin(jnp.array(t))
e = a.elbo(jnp.array(t), y, collapsed="u")
q = a.q_u_optimal_mean_field(a.construct_terms(jnp.array(t), y), a.q_z)
a.q_u = q
assert np.allclose(e, a.elbo(jnp.array(t), y), rtol=1e-4)
"""),
 dict(id="b118-gibbs-one-less", property="C23", edits=[("gpcm/approx.py",
  "        for _ in range(num_samples):\n            state, u = self.q_u_optimal(ts, z).sample(state)\n            state, z = self.q_z_optimal(ts, u).sample(state)\n        elbo",
  "        for i in range(num_samples):\n            state, u = self.q_u_optimal(ts, z).sample(state)\n            if i < num_samples - 1:\n                state, z = self.q_z_optimal(ts, u).sample(state)\n        elbo")],
  needs="looking at the sample of z that is returned", breaks="the returned z belongs to the previous u",
  demo=PRE + """
m = GPCM(window=2, scale=1, t=t, n_u=5, n_z=4)()
a = m.approximation
s = B.create_random_state(jnp.float64, seed=0)
z0 = jnp.ones((m.n_z, 1))
s, e, u, z = a.elbo_gibbs(s, jnp.array(t), jnp.sin(jnp.array(t)), jnp.ones((m.n_u, 1)), z0, num_samples=1)
assert not np.allclose(z, z0)
"""),
 dict(id="b120-noise-scale", property="C25", edits=[("gpcm/model.py",
  "        y = f + B.sqrt(self.noise) * B.randn(f)\n", "        y = f + self.noise * B.randn(f)\n")],
  needs="a sample of the function with its noise", breaks="the noise has the wrong variance",
  demo=PRE + """
m = GPCM(window=2, scale=1, t=t, noise=1e4)
ys = np.array([np.array(m.sample(jnp.array(t))[1]) for _ in range(10)])
assert np.std(ys) < 1000
"""),
 dict(id="b122-all-samples", property="C27", edits=[("gpcm/approx.py",
  "    thousands = iters // 1000 if iters > 1000 else 1\n", "    thousands = -(-iters // 1000) if iters > 1000 else 1\n"),
  ("gpcm/approx.py", "                if subsample is None or i % subsample == 0:\n", "                if subsample is None or (i + 1) % subsample == 0 or i == 0:\n")],
  needs="more than a thousand iterations", breaks="1001 samples are stored",
  demo=PRE + """
m = GPCM(window=2, scale=1, t=t, n_u=3, n_z=3)
m.fit(jnp.array(t), jnp.sin(jnp.array(t)), iters=1500, optimise_hypers=False)
assert B.shape(m().approximation.q_u_samples)[1] == 1000
"""),
 dict(id="b123-restart", property="C28", edits=[("gpcm/sample.py",
  "                    wbml.out.out(str(e))\n", "                    wbml.out.out(str(e))\n                # Try to continue from somewhere else.\n                self.move(self.sample_prior())\n")],
  needs="a sample that fails: a hundred rejected proposals", breaks="the state is replaced by a draw from the prior",
  demo="""
import numpy as np
from gpcm.sample import ESS
import wbml.out
np.random.seed(0)
count = [0]
def log_lik(x):
    count[0] += 1
    return -np.inf if 1 < count[0] < 150 else 0.0
prior = iter([np.full((1, 1), 1.0), np.full((1, 1), 2.0), np.full((1, 1), 1000.0), np.full((1, 1), 3.0), np.full((1, 1), 4.0)])
s = ESS(log_lik, lambda: next(prior), x_init=np.zeros((1, 1)))
x = s.sample(1)[0]
assert np.abs(x).max() < 1100 and np.allclose(np.abs(np.sin(s.theta)) * 2.0, np.abs(x)) or np.allclose(s.x, np.sin(s.theta) * s.y)
"""),
 dict(id="b124-centre-in-place", property="C29", edits=[("gpcm/util.py",
  "    x = x - np.mean(x)\n", "    x -= np.mean(x)\n")],
  needs="using the series afterwards", breaks="the series given is centred in place",
  demo="""
import numpy as np
from gpcm.util import autocorr
x = np.array([1.0, 2.0, 4.0])
autocorr(x)
assert np.allclose(x, [1, 2, 4])
"""),
 dict(id="b125-zero-padding", property="C30", edits=[("gpcm/util.py",
  "    k = B.concat(k, B.zeros(n_zero))\n", "    k = B.concat(k, B.zeros(n_zero or 2_000))\n")],
  needs="no zero padding", breaks="the estimate is padded anyway",
  demo="""
import numpy as np
from gpcm.util import estimate_psd
f, p = estimate_psd(np.linspace(0, 1, 30), np.exp(-np.linspace(0, 1, 30)), n_zero=0)
assert len(f) < 100
"""),
 dict(id="b127-upper-99", property="C33", edits=[("gpcm/util.py",
  "        err_99_upper=transform(B.quantile(samples, 1 - 0.0015, axis=0)),\n", "        err_99_upper=transform(B.quantile(samples, 1 - 0.015, axis=0)),\n")],
  needs="looking at the upper bound of the 99% region", breaks="it is the 98.5% quantile",
  demo="""
import numpy as np
from gpcm.util import summarise_samples
s = np.random.randn(1000, 2)
q = summarise_samples(np.zeros(2), s)
assert np.allclose(q.err_99_upper, np.quantile(s, 1 - 0.0015, axis=0))
"""),
 dict(id="b129-save-single", property="C35", edits=[("gpcm/model.py",
  "        data = {name: B.to_numpy(B.dense(self.vs[name])) for name in self.vs.names}\n",
  "        # Single precision is sufficient.\n        data = {\n            name: B.to_numpy(B.dense(self.vs[name])).astype(\"float32\")\n            for name in self.vs.names\n        }\n")],
  needs="values that need double precision", breaks="the values are rounded",
  demo=PRE + """
import tempfile, os
d = tempfile.mkdtemp()
m = GPCM(window=2, scale=1.2345678912345, t=t)
m()
m.save(os.path.join(d, "m.pickle"))
n = GPCM(window=2, scale=1, t=t)
n()
n.load(os.path.join(d, "m.pickle"))
assert abs(float(m.vs["gamma"]) - float(n.vs["gamma"])) < 1e-12
"""),
 dict(id="b130-causal-strict", property="C36", edits=[("gpcm/gpcm.py",
  "            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint\n        return k_h\n\n    def k_h_acausal",
  "            k_h *= lambda t: B.cast(self.dtype, t > 0)  # Causality constraint\n        return k_h\n\n    def k_h_acausal")],
  needs="the kernel of the filter at time zero exactly", breaks="the filter is zero at zero",
  demo=PRE + """
m = CGPCM(window=2, scale=1, t=t)()
assert float(B.dense(m.k_h()(jnp.zeros(1)))[0, 0]) > 0
"""),
]

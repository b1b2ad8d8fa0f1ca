GPCM2 = '''
import numpy as np, lab.jax as B
from gpcm import GPCM, CGPCM, RGPCM
t = np.linspace(0, 4, 9)
'''
BUGS = [
 dict(id="b21-constant-negative-power", property="C06", edits=[("gpcm/exppoly.py",
  "        if power < 0:\n", "        if power < 0 and not self.is_constant():\n")],
  needs="a constant polynomial raised to a negative power", breaks="the result is one instead of an error",
  demo='''
from gpcm.exppoly import const
try:
    const(2.0) ** -1
except RuntimeError:
    pass
else:
    raise AssertionError("answered")
'''),
 dict(id="b22-kz-normalised", property="C07", edits=[("gpcm/gpcm.py",
  '    return Dense(exppoly.integrate("tau", t1=model.t_z[:, None], t2=model.t_z[None, :]))',
  '    K_z = exppoly.integrate("tau", t1=model.t_z[:, None], t2=model.t_z[None, :])\n    # The inter-domain process has unit variance.\n    return Dense(K_z / K_z[0, 0])')],
  needs="a decay of the transform that was learned (moved from its default)", breaks="the covariance of the noise's inducing variables is scaled",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, n_u=5, n_z=5, t=t)
m()
m.vs.assign("omega", 3.0)
i = m()
assert abs(B.dense(i.K_z)[0, 0] - i.omega_t**2 * np.sqrt(np.pi / 6)) < 1e-6
'''),
 dict(id="b23-iux-transposed", property="C08", edits=[("gpcm/gpcm.py",
  '''    exppoly = model.k_h(var("t1") - var("tau"), var("t_u_1"))
    exppoly = exppoly * model.k_h(var("t_u_2"), var("t2") - var("tau"))
''', '''    exppoly = model.k_h(var("t_u_1"), var("t2") - var("tau"))
    exppoly = exppoly * model.k_h(var("t1") - var("tau"), var("t_u_2"))
''')],
  needs="two different times; the last two axes swapped", breaks="entries (i, j) and (j, i) of I_ux are swapped",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t)
i = m()
I = B.to_numpy(i.compute_I_ux(np.array([0.7]), np.array([-0.4])))[0, 0]
tau = np.linspace(-12, 12, 20001)
k = lambda a, b: i.alpha_t**2 * np.exp(-i.alpha * (a**2 + b**2) - i.gamma * (a - b) ** 2)
u = np.array(i.t_u)
assert abs(I[0, 1] - np.trapz(k(0.7 - tau, u[0]) * k(-0.4 - tau, u[1]), tau)) < 1e-5
'''),
 dict(id="b24-causal-upper-first", property="C09", edits=[("gpcm/gpcm.py",
  '''        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=B.minimum(t1, t2),
''', '''        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=t2,
''')],
  needs="a first time that is earlier than the second", breaks="noise after the earlier time contributes",
  demo=GPCM2 + '''
m = CGPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t)
i = m()
I = B.to_numpy(i.compute_I_ux(np.array([-0.4]), np.array([0.7])))[0, 0]
tau = np.linspace(-12, -0.4, 40001)
k = lambda a, b: i.alpha_t**2 * np.exp(-i.alpha * (a**2 + b**2) - i.gamma * (a - b) ** 2)
u = np.array(i.t_u)
assert abs(I[2, 3] - np.trapz(k(-0.4 - tau, u[2]) * k(0.7 - tau, u[3]), tau)) < 1e-5
'''),
 dict(id="b25-kz-zeroth-first", property="C10", edits=[("gpcm/rgpcm.py",
  "    alpha = alpha + alpha * B.cast(model.dtype, model.ms == 0)\n",
  "    # The zeroth feature counts twice.\n    alpha = B.concat(2 * alpha[:1], alpha[1:], axis=0)\n")],
  needs="features listed in an order in which the constant one is not first", breaks="the wrong feature's variance is doubled",
  demo=GPCM2 + '''
K = []
for ms in ([0, 1, 2], [2, 0, 1]):
    i = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=1, ms=np.array(ms), t=t)()
    k = np.array(B.dense(i.K_z))
    j = [ms.index(x) for x in range(3)]
    K.append(k[np.ix_(j, j)])
assert np.allclose(K[0], K[1])
'''),
 dict(id="b26-ihx-one-argument", property="C11", edits=[("gpcm/rgpcm.py",
  '''    if t1 is None:
        t1 = B.zero(model.dtype)
    if t2 is None:
        t2 = B.zero(model.dtype)
    return model.alpha_t''', '''    if t1 is None:
        t1 = B.zero(model.dtype) if t2 is None else t2
    if t2 is None:
        t2 = B.zero(model.dtype)
    return model.alpha_t''')],
  needs="only the second time given", breaks="the variance is returned instead of the covariance with time zero",
  demo=GPCM2 + '''
i = RGPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t)()
assert np.allclose(i.compute_i_hx(None, np.array([0.3])), i.compute_i_hx(np.array([0.3])))
'''),
 dict(id="b27-ihz-perm", property="C12", edits=[("gpcm/rgpcm.py",
  '''    result = B.take(result, inverse_perm, axis=1)
    result = B.take(result, inverse_perm, axis=2)
''', '''    result = B.take(result, perm, axis=1)
    result = B.take(result, perm, axis=2)
''')],
  needs="an order of the features that is not its own inverse (a three-cycle)", breaks="the entries belong to other features",
  demo=GPCM2 + '''
K = []
for ms in ([0, 1, 2], [2, 0, 1]):
    i = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=1, ms=np.array(ms), t=t)()
    k = np.array(i.compute_I_hz(np.array([0.3])))[0]
    j = [ms.index(x) for x in range(3)]
    K.append(k[np.ix_(j, j)])
assert np.allclose(K[0], K[1])
'''),
 dict(id="b28-iuz-missing-cosine", property="C13", edits=[("gpcm/rgpcm.py",
  '''    ag = model.alpha - model.gamma
    om = 2 * B.pi * (k - model.m_max) / (model.b - model.a)
''', '''    ag = model.alpha - model.gamma
    m_max = max(model.ms[model.ms <= model.m_max])
    om = 2 * B.pi * (k - m_max) / (model.b - model.a)
''')],
  needs="a list of features without the cosine of the highest frequency", breaks="sine features are given the frequency of another feature",
  demo=GPCM2 + '''
K = []
for ms in ([0, 1, 2, 3, 4], [0, 1, 3]):
    i = RGPCM(window=1.0, scale=0.5, n_u=3, m_max=2, ms=np.array(ms), t=t)()
    K.append(np.array(i.compute_I_uz(np.array([0.3])))[0][:, ms.index(3)])
assert np.allclose(K[0], K[1])
'''),
 dict(id="b29-gamma-overridden", property="C14", edits=[("gpcm/gpcm.py",
  "        if gamma is None:\n            gamma = scale_to_factor(scale) - 0.5 * alpha\n",
  "        if scale is not None:\n            gamma = scale_to_factor(scale) - 0.5 * alpha\n")],
  needs="both the decay of the prior and a length scale given", breaks="the given decay is overridden",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, gamma=2.0, n_u=3, n_z=5, t=t)
assert m.gamma == 2.0
'''),
 dict(id="b30-gammat-before-clamp", property="C14", edits=[("gpcm/rgpcm.py",
  '''        # Must ensure that `gamma < alpha`.
        gamma = min(gamma, self.alpha / 1.5)

        if gamma_t is None:
            gamma_t = B.sqrt(2 * gamma)
''', '''        if gamma_t is None:
            gamma_t = B.sqrt(2 * gamma)

        # Must ensure that `gamma < alpha`.
        gamma = min(gamma, self.alpha / 1.5)
''')],
  needs="inducing points so close together that the decay is capped", breaks="the transform does not have unit power",
  demo=GPCM2 + '''
i = RGPCM(window=2.0, scale=0.5, n_u=30, n_z=5, t=t)()
assert abs(B.dense(i.K_u)[0, 0] - 1) < 1e-6
'''),
 dict(id="b31-extension-rounded", property="C15", edits=[("gpcm/gpcm.py",
  "            n_z_extra = int(np.ceil(t_z_extra / d_t_u))\n", "            n_z_extra = int(np.round(t_z_extra / d_t_u))\n")],
  needs="extended noise inputs with a filter length slightly above a whole number of spacings", breaks="the extension is shorter than the filter",
  demo=GPCM2 + '''
m = GPCM(window=0.6, scale=0.5, n_u=3, n_z=9, extend_t_z=True, t=t)
assert m.t_z[0] <= -2 * 0.6 + 1e-9
'''),
 dict(id="b32-unsorted-data", property="C15", edits=[("gpcm/gpcm.py",
  "            t_z = B.linspace(min(t), max(t), n_z)\n", "            t_z = B.linspace(t[0], t[-1], n_z)\n")],
  needs="data whose times are not sorted", breaks="the inducing inputs of the noise do not cover the data",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=np.array([2.0, 0.0, 4.0, 1.0]))
assert m.t_z[0] == 0 and m.t_z[-1] == 4
'''),
 dict(id="b33-gamma-factor-lower", property="C16", edits=[("gpcm/rgpcm.py",
  "            lower=1,\n            upper=1e4,\n", "            lower=1 - 1e-1,\n            upper=1e4,\n")],
  needs="an optimiser that drives the ratio of decays to its lower bound", breaks="the transform's decay can exceed the window's decay",
  demo=GPCM2 + '''
m = RGPCM(window=1.0, scale=0.5, n_u=3, n_z=5, t=t)
m()
m.vs.set_latent_vector(np.array([-30.0]), "gamma_factor")
a = m()
m.vs.set_latent_vector(np.array([30.0]), "gamma_factor")
b = m()
assert max(a.gamma / a.alpha, b.gamma / b.alpha) <= 1 + 1e-6
'''),
 dict(id="b34-fix-both", property="C16", edits=[("gpcm/gpcm.py",
  '''        if not self.fix_scale:
            self.gamma = self.ps.positive(self.gamma, name="gamma")
''', '''        if not (self.fix_scale or self.fix_window):
            self.gamma = self.ps.positive(self.gamma, name="gamma")
''')],
  needs="a fixed window with a free length scale", breaks="the length scale is not learned",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=5, fix_window=True, t=t)
m()
assert "gamma" in m.vs.names and "alpha" not in m.vs.names
'''),
 dict(id="b35-m2-in-place", property="C17", edits=[("gpcm/normal.py",
  '''            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))
            self._m2 = B.cholsolve(B.chol(self.prec), B.transpose(self._m2))
''', '''            self._m2 = B.dense(self.var)
            self._m2 += B.dense(B.outer(self.mean))
''')],
  needs="NumPy parameters, and the variance read before and after the second moment", breaks="the variance becomes the second moment",
  demo='''
import numpy as np, lab as B
from gpcm.normal import NaturalNormal
d = NaturalNormal(np.array([[1.0], [2.0]]), np.array([[2.0, 0.3], [0.3, 1.0]]))
d.var
d.m2
assert np.allclose(B.dense(d.var), np.linalg.inv(np.array([[2.0, 0.3], [0.3, 1.0]])), atol=1e-6)
'''),
 dict(id="b36-prior-lam-dropped", property="C21", edits=[("gpcm/approx.py",
  "            B.add(p.lam, B.mm(I_sum, x) / self.model.noise),\n", "            B.add(B.zero(x), B.mm(I_sum, x) / self.model.noise),\n")],
  needs="an update after conditioning, when the prior has a mean", breaks="the prior's mean is ignored by the updates",
  demo=GPCM2 + '''
from gpcm.normal import NaturalNormal
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, np.sin(t), iters=3)
m = m.condition(t, np.sin(t))
i = m()
a = i.approximation
ts = a.construct_terms(np.array([50.0, 51.0]), np.array([0.0, 0.0]))
q = a.q_u_optimal_mean_field(ts, a.p_z)
assert np.allclose(B.dense(q.lam), B.dense(a.p_u.lam), atol=1e-5) and np.max(np.abs(B.dense(q.lam))) > 1e-2
'''),
 dict(id="b37-jacobi", property="C21", edits=[("gpcm/approx.py",
  "            q_u = compute_q_u(*q_z)\n            q_z = compute_q_z(*q_u)\n", "            q_u, q_z = compute_q_u(*q_z), compute_q_z(*q_u)\n")],
  needs="few iterations (both versions have the same fixed points)", breaks="the stored q(z) is not the update given the stored q(u)",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, np.sin(t), iters=1)
a = m().approximation
q = a.q_z_optimal_mean_field(a.construct_terms(t, np.sin(t)), a.q_u)
assert np.allclose(B.dense(q.lam), B.dense(a.q_z.lam), rtol=1e-4)
'''),
 dict(id="b38-elbo-original-prior", property="C22", edits=[("gpcm/approx.py",
  "            - q_u.kl(self.p_u)\n            - q_z.kl(self.p_z)\n",
  "            - q_u.kl(self.p_u)\n            - q_z.kl(NaturalNormal(B.zeros(self.model.dtype, self.model.n_z, 1), self.model.K_z))\n")],
  needs="a bound after conditioning", breaks="the KL of q(z) is to the model's own prior rather than the current one",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, np.sin(t), iters=3)
m = m.condition(t, np.sin(t))
a = m().approximation
q_u, q_z = a.p_u, a.p_z
a.q_u, a.q_z = q_u, q_z
e = a.elbo(t, np.sin(t))
f = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-ca", t=t)
b = f().approximation
b.q_u, b.q_z = q_u, q_z
e0 = b.elbo(t, np.sin(t))
assert abs(e - e0 - q_u.kl(b.p_u) - q_z.kl(b.p_z)) < 1e-4 * abs(e0), (e, e0)
'''),
 dict(id="b39-gibbs-prior-at-start", property="C23", edits=[("gpcm/approx.py",
  "        ts = self.construct_terms(t, y)\n        for _ in range(num_samples):\n",
  "        ts = self.construct_terms(t, y)\n        log_prior = self.p_u.logpdf(stop_gradient(u))\n        for _ in range(num_samples):\n"),
  ("gpcm/approx.py", "        elbo = self.log_Z_u(ts, stop_gradient(u)) + self.p_u.logpdf(stop_gradient(u))\n",
   "        elbo = self.log_Z_u(ts, stop_gradient(u)) + log_prior\n")],
  needs="the objective of the Gibbs stage itself", breaks="the prior density is that of the previous sample",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, t=t)
i = m()
a = i.approximation
import jax
state = B.create_random_state(i.dtype, seed=0)
u, z = np.ones((3, 1)), np.ones((3, 1))
_, e, u2, z2 = a.elbo_gibbs(state, t, np.sin(t), u, z, num_samples=2)
ts = a.construct_terms(t, np.sin(t))
assert abs(e - a.log_Z_u(ts, u2) - a.p_u.logpdf(u2)) < 1e-5 * abs(e)
'''),
 dict(id="b40-mean-of-variances", property="C24", edits=[("gpcm/approx.py",
  '''        m1 = B.mean(B.stack(*m1s, axis=0), axis=0)
        m2 = B.mean(B.stack(*m2s, axis=0), axis=0)
        # Don't forget to add in the observation noise!
        return m1, m2 - m1**2 + self.model.noise
''', '''        m1s, m2s = B.stack(*m1s, axis=0), B.stack(*m2s, axis=0)
        m1 = B.mean(m1s, axis=0)
        var = B.mean(m2s - m1s**2, axis=0)
        # Don't forget to add in the observation noise!
        return m1, var + self.model.noise
''')],
  needs="posterior samples whose means differ", breaks="the variance between the samples is lost",
  demo=GPCM2 + '''
us = [np.array([[3.0], [1.0], [0.0]]), np.array([[-2.0], [1.0], [4.0]])]


def predict(us):
    m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, t=t)
    a = m().approximation
    a.q_u_samples, a.q_z_samples = us, [np.zeros((3, 1))] * len(us)
    m = m.condition(t, np.sin(t))
    return m.predict(t, num_samples=len(us)) + (m().noise,)


(m1, v1, noise), (m2, v2, _) = predict(us[:1]), predict(us[1:])
mean, var, _ = predict(us)
assert np.allclose(mean, (m1 + m2) / 2)
assert np.allclose(var, (v1 + v2) / 2 + (m1 - m2) ** 2 / 4, rtol=1e-4)
'''),
 dict(id="b41-terms-cached", property="C24", edits=[("gpcm/approx.py",
  '''        ts.I_hz = self.model.compute_I_hz(t)
        ts.I_uz = self.model.compute_I_uz(t)
''', '''        if y is None and getattr(self, "_pred", (None,))[0] == ts.n:
            # Predicting repeatedly: these are expensive.
            _, ts.I_hz, ts.I_uz = self._pred
        else:
            ts.I_hz = self.model.compute_I_hz(t)
            ts.I_uz = self.model.compute_I_uz(t)
            if y is None:
                self._pred = (ts.n, ts.I_hz, ts.I_uz)
''')],
  needs="two predictions at different inputs of the same number, by the same instance", breaks="the second predictions are those of the first inputs",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-ca", t=t)
m.fit(t, np.sin(t), iters=3)
a = m.condition(t, np.sin(t))().approximation
x, y = a.predict(t)[0], a.predict(t + 0.5)[0]
b = m.condition(t, np.sin(t))().approximation
assert np.allclose(y, b.predict(t + 0.5)[0])
'''),
 dict(id="b43-ignore-last-only", property="C26", edits=[("gpcm/approx.py",
  "            for i in range(self._q_i):\n                names.append", "            for i in range(self._q_i)[-1:]:\n                names.append")],
  needs="at least two conditionings", breaks="the first posterior is not excluded from optimisation",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, scheme="mean-field-ca", t=t)
y = np.sin(t)
a = m.condition(t, y).condition(t, y)().approximation
assert len(a.ignore_qs(previous=True)) == 4
'''),
 dict(id="b44-prior-is-first", property="C26", edits=[("gpcm/approx.py",
  '''            return _parametrise_natural(
                self.model.ps.q_z[self._q_i - 1],
                self.model.n_z,
            )
''', '''            return _parametrise_natural(
                self.model.ps.q_z[0],
                self.model.n_z,
            )
''')],
  needs="at least two conditionings", breaks="the prior of z stays the first posterior",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-ca", t=t)
y = np.sin(t)
m.fit(t, y, iters=2)
m = m.condition(t, y)
m.fit(t, np.cos(t), iters=2)
q = m().approximation.q_z
p = m.condition(t, np.cos(t))().approximation.p_z
assert np.allclose(B.dense(q.lam), B.dense(p.lam))
'''),
 dict(id="b45-previous-moves", property="C27", edits=[("gpcm/approx.py",
  '            names=model().approximation.ignore_qs(previous=True),\n', '            names=model().approximation.ignore_qs(previous=False),\n')],
  needs="a gradient fit of a model that was conditioned", breaks="previous posteriors (the prior) are moved by the optimiser",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-gradient", t=t)
y = np.sin(t)
m.fit(t, y, iters=10)
m = m.condition(t, y)
p = np.array(B.dense(m().approximation.p_z.lam))
m.fit(t, np.cos(t), iters=10)
assert np.allclose(B.dense(m().approximation.p_z.lam), p)
'''),
 dict(id="b46-stale-instance", property="C27", edits=[("gpcm/approx.py",
  '''        def objective(vs_, state):
            state, elbo = model(vs_).approximation.elbo(state, t, y, collapsed="z")
            return -elbo, state
''', '''        instance = model()
        ts = instance.approximation.construct_terms(t, y)

        def objective(vs_, state):
            state, elbo = model(vs_).approximation.elbo(state, t, y, collapsed="z")
            return -elbo, state
'''), ("gpcm/approx.py", '''        # Explicitly update :math:`q(z)`: it was collapsed in the ELBO.
        instance = model()
        ts = instance.approximation.construct_terms(t, y)
''', '''        # Explicitly update :math:`q(z)`: it was collapsed in the ELBO.
''')],
  needs="a collapsed gradient fit without coordinate ascent afterwards", breaks="q(z) is the optimum under the hyperparameters from before the optimisation",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=1.0, n_u=3, n_z=3, noise=0.1, scheme="mean-field-collapsed-gradient", t=t)
y = np.sin(t)
m.fit(t, y, iters=50)
a = m().approximation
q = a.q_z_optimal_mean_field(a.construct_terms(t, y), a.q_u)
assert np.allclose(B.dense(q.prec), B.dense(a.q_z.prec), rtol=1e-4)
'''),
 dict(id="b47-move-cached", property="C28", edits=[("gpcm/sample.py",
  "        self.x = x\n        self.log_lik_x = self.log_lik(self.x)\n",
  "        if x is self.x and self.log_lik_x is not None:\n            return  # We're already there.\n        self.x = x\n        self.log_lik_x = self.log_lik(self.x)\n")],
  needs="moving to the current state array after it was modified in place", breaks="the stored log-likelihood belongs to another state",
  demo='''
import numpy as np
from gpcm.sample import ESS
f = lambda x: -np.sum(x**2)
x = np.ones(2)
e = ESS(f, lambda: np.random.randn(2), x_init=x)
x[0] = 3.0
e.move(x)
assert e.log_lik_x == -10
'''),
 dict(id="b49-zero-lags", property="C29", edits=[("gpcm/util.py",
  "    if lags is not None:\n", "    if lags:\n")],
  needs="zero lags requested", breaks="all lags are returned",
  demo='''
import numpy as np
from gpcm.util import autocorr
assert autocorr(np.array([1.0, 2.0, 4.0]), lags=0).shape == (1,)
'''),
 dict(id="b50-psd-clipped", property="C30", edits=[("gpcm/util.py",
  "    psd = np.abs(np.real(psd))\n", "    psd = np.maximum(np.real(psd), 0)\n")],
  needs="a sampled kernel whose transform is negative at some frequencies", breaks="the magnitude is clipped, which also changes the scaling",
  demo='''
import numpy as np
from gpcm.util import estimate_psd
f, p = estimate_psd(np.linspace(0, 1, 3), np.array([1.0, 0.9, 0.8]), n_zero=3)
k = np.array([1.0, 0.9, 0.8, 0, 0, 0, 0, 0, 0.8, 0.9])
q = np.abs(np.real(np.fft.fft(k)))
assert np.allclose(p / p[0], (q / q[0])[:len(p)])
'''),
 dict(id="b51-psd-threshold", property="C31", edits=[("gpcm/util.py",
  "        s = B.where(s == 0, 0, 1 / s)\n", "        s = B.where(s < 1e-4 * B.max(s), 0, 1 / s)\n")],
  needs="inversion of an ill-conditioned positive definite matrix", breaks="small positive eigenvalues are zeroed instead of inverted",
  demo='''
import numpy as np
from gpcm.util import closest_psd
assert np.allclose(closest_psd(np.diag([1.0, 1e-5]), inv=True), np.diag([1.0, 1e5]))
'''),
 dict(id="b52-min-phase-floor", property="C32", edits=[("gpcm/util.py",
  "    phase = np.imag(-hilbert(np.log(np.abs(spec))))\n", "    mag = np.abs(spec)\n    phase = np.imag(-hilbert(np.log(np.maximum(mag, 1e-1 * np.max(mag)))))\n")],
  needs="a filter whose spectrum is small at some frequencies", breaks="the phase is not the minimum phase",
  demo='''
import numpy as np
from gpcm.util import min_phase
h = np.array([1.0, 0.97, 0.1, 0.02])
g = min_phase(h)
s = np.fft.fft(g)
c = np.fft.ifft(np.log(np.abs(np.fft.fft(h))))
n = 4
fold = np.exp(np.fft.fft(np.array([c[0], 2 * c[1], c[2], 0])))
assert np.allclose(np.abs(s), np.abs(np.fft.fft(h))) and np.allclose(np.real(np.fft.ifft(fold)), g, atol=1e-8)
'''),
 dict(id="b53-repeated-samples", property="C33", edits=[("gpcm/util.py",
  "    random_inds = np.random.permutation(B.shape(samples)[0])[:3]\n",
  "    num = B.shape(samples)[0]\n    random_inds = np.random.randint(num, size=min(num, 3))\n")],
  needs="few samples, or luck", breaks="the samples shown may be one and the same",
  demo='''
import numpy as np
from gpcm.util import summarise_samples
for s in range(20):
    np.random.seed(s)
    r = summarise_samples(np.arange(2.0), np.array([[0.0, 1.0], [2.0, 3.0], [4.0, 5.0]]))
    assert len(set(r.samples[0])) == 3
'''),
 dict(id="b54-laplace-centre", property="C34", edits=[("gpcm/util.py",
  '''    x = maximum_a_posteriori(f, x_init)
    precision = -hessian(f_eval if f_eval is not None else f, x)
''', '''    f_eval = f_eval if f_eval is not None else f
    x = maximum_a_posteriori(f_eval, x_init)
    precision = -hessian(f_eval, x)
''')],
  needs="an evaluation density that differs from the density", breaks="the approximation is centred at the maximum of the evaluation density",
  demo='''
import numpy as np, jax.numpy as jnp, lab.jax as B
from gpcm.util import laplace_approximation
d = laplace_approximation(lambda x: -jnp.sum((x - 1) ** 2), jnp.zeros((2, 1)), f_eval=lambda x: -jnp.sum((x - 2) ** 2))
assert np.allclose(B.dense(d.mean), 1, atol=1e-4)
'''),
 dict(id="b55-load-drops-constraint", property="C35", edits=[("gpcm/model.py",
  '''                # Overwrite existing values.
                self.vs.assign(name, value)
            else:
''', '''                # Overwrite existing values.
                self.vs.delete(name)
                self.vs.unbounded(init=value, name=name)
            else:
''')],
  needs="optimising or setting a variable after loading", breaks="the constraint of existing variables is lost",
  demo='''
import os, tempfile
import numpy as np
from gpcm.model import AbstractGPCM
a, b = AbstractGPCM(), AbstractGPCM()
a.vs.positive(2.0, name="x")
b.vs.positive(1.0, name="x")
with tempfile.TemporaryDirectory() as d:
    a.save(os.path.join(d, "m"))
    b.load(os.path.join(d, "m"))
b.vs.set_latent_vector(np.array([-1.0]), "x")
assert b.vs["x"] > 0
'''),
 dict(id="b56-filter-noise", property="C36", edits=[("gpcm/model.py",
  "            h = h | (h(self.t_u), u)  # Condition on sample.\n", "            h = h | (h(self.t_u, self.noise), u)  # Condition on sample.\n")],
  needs="comparison of the predicted filter with the inducing variables", breaks="the filter is smoothed instead of interpolating the sampled inducing values",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, noise=0.5, t=t, scheme="mean-field-ca")
i = m()
a = i.approximation
q = a.q_u
from gpcm.normal import NaturalNormal
a.q_u = NaturalNormal(np.array([[1e6], [2e6], [3e6]]), 1e6 * np.eye(3))
m = m.condition(t, np.sin(t))
i = m()
pred = m.predict_filter(t_h=np.array(i.t_u), num_samples=5, min_phase=False)
ref = np.array(B.dense(i.K_u)) @ np.array([1.0, 2.0, 3.0])
assert np.allclose(pred.mean, ref, atol=1e-1), (pred.mean, ref)
'''),
 dict(id="b57-num-samples-dropped", property="C37", edits=[("gpcm/model.py",
  "        t_k, ks = self.sample_kernel(t_k, num_samples=num_samples)\n", "        t_k, ks = self.sample_kernel(t_k)\n")],
  needs="a number of samples other than the default", breaks="the spectrum summarises another number of samples than asked for",
  demo=GPCM2 + '''
m = GPCM(window=1.0, scale=0.5, n_u=3, n_z=3, t=t, scheme="mean-field-ca")
r = m.predict_psd(np.linspace(0, 1, 4), num_samples=7)
assert r.all_samples.shape[-1] == 7
'''),
]

X, G, R, U, A, M, N, S = ("gpcm/exppoly.py", "gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/util.py", "gpcm/approx.py", "gpcm/model.py",
                          "gpcm/normal.py", "gpcm/sample.py")
GROUPS = {
"r5": [
 # approx: helpers shared by the posteriors, control flow of JAX
 (A, '''        if self._q_i == 0:
            return NaturalNormal(B.zeros(self.model.dtype, self.model.n_u, 1), self.model.K_u)
        else:
            return _parametrise_natural(
                self.model.ps.q_u[self._q_i - 1],
                self.model.n_u,
            )
''', '''        return self._prior(self.model.ps.q_u, self.model.n_u, self.model.K_u)

    def _prior(self, params, n, K):
        if self._q_i > 0:
            return _parametrise_natural(params[self._q_i - 1], n)
        return NaturalNormal(B.zeros(B.dtype(K), n, 1), K)
'''),
 (A, '''        if self._q_i == 0:
            return NaturalNormal(B.zeros(self.model.dtype, self.model.n_z, 1), self.model.K_z)
        else:
            return _parametrise_natural(
                self.model.ps.q_z[self._q_i - 1],
                self.model.n_z,
            )
''', '''        return self._prior(self.model.ps.q_z, self.model.n_z, self.model.K_z)
'''),
 (A, '''        self.q_u  # Ensure that it is initialised.
        self.model.ps.q_u[self._q_i].lam.assign(B.dense(dist.lam))
        self.model.ps.q_u[self._q_i].prec.assign(B.dense(dist.prec))
''', '''        self.q_u  # Ensure that it is initialised.
        self._assign(self.model.ps.q_u[self._q_i], dist)

    @staticmethod
    def _assign(params, dist):
        for name in ("prec", "lam"):
            getattr(params, name).assign(B.dense(getattr(dist, name)))
'''),
 (A, '''        self.q_z  # Ensure that it is initialised.
        self.model.ps.q_z[self._q_i].lam.assign(B.dense(dist.lam))
        self.model.ps.q_z[self._q_i].prec.assign(B.dense(dist.prec))
''', '''        self.q_z  # Ensure that it is initialised.
        self._assign(self.model.ps.q_z[self._q_i], dist)
'''),
 (A, '''    return [xs[:, i : i + 1] for i in range(min(B.shape(xs, 1), num))]
''', '''    return [B.reshape(x, -1, 1) for x in B.unstack(xs, axis=1)[:num]]
'''),
 (A, '''        ts.I_ux_sum = ts.n * ts.I_ux
''', '''        ts.I_ux_sum = B.multiply(B.cast(self.model.dtype, ts.n), ts.I_ux)
'''),
 (A, '''        ts.K_u_squeezed = B.mm(ts.I_uz, self.model.K_u_inv, ts.I_uz, tr_a=True)
        ts.K_z_squeezed = B.mm(ts.I_uz, self.model.K_z_inv, ts.I_uz, tr_c=True)
''', '''        I_zu = B.transpose(ts.I_uz, perm=(0, 2, 1))
        ts.K_u_squeezed = B.mm(I_zu, B.dense(self.model.K_u_inv), ts.I_uz)
        ts.K_z_squeezed = B.mm(ts.I_uz, B.dense(self.model.K_z_inv), I_zu)
'''),
 (A, '''            + B.sum(self.model.K_u_inv * ts.K_z_squeezed)
        )
''', '''            + sum([B.sum(self.model.K_u_inv * x) for x in ts.K_z_squeezed])
        )
'''),
 (A, '''            ts.y = y
            ts.I_uz_sum = B.sum(y[:, None, None] * ts.I_uz, axis=0)  # Weight by data.
''', '''            ts.y = y
            ts.I_uz_sum = jnp.tensordot(y, ts.I_uz, axes=1)  # Weight by data.
'''),
 (A, '''import lab.jax as B
import wbml.out
''', '''import jax
import jax.numpy as jnp
import lab.jax as B
import wbml.out
'''),
 (A, '''        us = self._sample_p_u(num_samples)
        sample_kernel = B.jit(self._sample_kernel)
        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
''', '''        us = B.stack(*self._sample_p_u(num_samples), axis=0)
        return jax.vmap(self._sample_kernel, in_axes=(None, 0))(t_k, us)
'''),
 (A, '''        zs = [B.flatten(x) for x in self._sample_p_z(num_samples)]
        m1 = B.mean(B.stack(*zs, axis=0), axis=0)
        m2 = B.mean(B.stack(*[z**2 for z in zs], axis=0), axis=0)
        return m1, m2 - m1**2
''', '''        zs = B.concat(*self._sample_p_z(num_samples), axis=1)
        return jnp.mean(zs, axis=1), jnp.var(zs, axis=1)
'''),
 (A, '''        return B.flatten(self.p_z.mean), B.diag(self.p_z.var)
''', '''        p_z = self.p_z
        return p_z.mean[:, 0], B.diag(p_z.m2) - p_z.mean[:, 0] ** 2
'''),
 (A, '''        m1, m2 = self._predict_moments(
            self.construct_terms(t),
            self.p_u.mean,
            self.p_u.m2,
            self.p_z.mean,
            self.p_z.m2,
        )
        # Don't forget to add in the observation noise!
        return m1, m2 - m1**2 + self.model.noise
''', '''        u, z = self.p_u, self.p_z
        ts = self.construct_terms(t)
        m1, m2 = self._predict_moments(ts, u.mean, u.m2, z.mean, z.m2)
        var = m2 - m1 * m1
        # Don't forget to add in the observation noise!
        return m1, self.model.noise + var
'''),
 (A, '''        elif collapsed == "z":
            q_u = self.q_u
            q_z = self.q_z_optimal_mean_field(ts, q_u)
        elif collapsed == "u":
            q_z = self.q_z
            q_u = self.q_u_optimal_mean_field(ts, q_z)
        else:
            raise ValueError(f'Invalid value "{collapsed}" for `collapsed`.')
''', '''        elif collapsed not in ("u", "z"):
            raise ValueError(f'Invalid value "{collapsed}" for `collapsed`.')
        elif collapsed == "u":
            q_z = self.q_z
            q_u = self.q_u_optimal_mean_field(ts, q_z)
        else:
            q_u = self.q_u
            q_z = self.q_z_optimal_mean_field(ts, q_u)
'''),
 (A, '''        m2 = (
            B.sum(A * u2, axis=(1, 2))
            + B.sum(B_ * z2, axis=(1, 2))
            + c
            + B.sum(u2 * B.mm(ts.I_uz, z2, ts.I_uz, tr_c=True), axis=(1, 2))
        )
''', '''        A = A + B.mm(ts.I_uz, z2, ts.I_uz, tr_c=True)
        m2 = c + B.sum(A * u2, axis=(1, 2)) + B.sum(B_ * z2, axis=(1, 2))
'''),
 (A, '''        samples = B.stack(*[B.flatten(x) for x in samples], axis=1)
        self.model.ps.q_u[self._q_i].samples.unbounded(init=samples, visible=False)
''', '''        samples = B.concat(*samples, axis=1)
        self.model.ps.q_u[self._q_i].samples.unbounded(init=samples, visible=False)
'''),
 (A, '''            us, zs = [], []
            for i in range(iters):
                state, u = sample_u(state, z)
                state, z = sample_z(state, u)
                if subsample is None or i % subsample == 0:
                    us.append(u)
                    zs.append(z)
                progress()
''', '''            us, zs = [], []
            every = 1 if subsample is None else subsample
            for i in range(iters):
                state, u = sample_u(state, z)
                state, z = sample_z(state, u)
                if i == len(us) * every:
                    us = us + [u]
                    zs = zs + [z]
                progress()
'''),
 (A, '''    thousands = iters // 1000 if iters > 1000 else 1
''', '''    thousands = max(iters // 1000, 1)
'''),
 (A, '''    if approximation.fit == "ca":
        _fit_mean_field_ca(model(), t, y, iters)
    elif approximation.fit in {"ca-bfgs", "bfgs"}:
        # Pre-fit a CA solution, if applicable.
        if approximation.fit == "ca-bfgs":
            _fit_mean_field_ca(model(), t, y, iters)

        def objective(vs_, state):
            state, elbo = model(vs_).approximation.elbo(state, t, y)
            return -elbo, state

        # Optimise hyperparameters.
        _, state = minimise_l_bfgs_b(
            objective,
            (model.vs, state),
            iters=iters // 5,
            trace=True,
            jit=True,
            names=model().approximation.ignore_qs(previous=True),
        )

        # Post-fit a CA solution, if applicable.
        if approximation.fit == "ca-bfgs":
            _fit_mean_field_ca(model(), t, y, iters)
    elif approximation.fit in {"ca-collapsed-bfgs", "collapsed-bfgs"}:
        # Pre-fit a CA solution, if applicable.
        if approximation.fit == "ca-collapsed-bfgs":
            _fit_mean_field_ca(model(), t, y, iters)

        def objective(vs_, state):
            state, elbo = model(vs_).approximation.elbo(state, t, y, collapsed="z")
            return -elbo, state

        # Optimise hyperparameters.
        _, state = minimise_l_bfgs_b(
            objective,
            (model.vs, state),
            iters=iters // 5,
            trace=True,
            jit=True,
            names=model().approximation.ignore_qs(previous=True, current="z"),
        )

        # Explicitly update :math:`q(z)`: it was collapsed in the ELBO.
        instance = model()
        ts = instance.approximation.construct_terms(t, y)
        q_u = instance.approximation.q_u
        q_z = instance.approximation.q_z_optimal_mean_field(ts, q_u)
        instance.approximation.q_z = q_z

        # Post-fit a CA solution, if applicable.
        if approximation.fit == "ca-collapsed-bfgs":
            _fit_mean_field_ca(model(), t, y, iters)
    else:
        raise ValueError(f'Invalid value "{approximation.fit}" for `fit`.')''', '''    steps = approximation.fit.split("-")
    if steps not in (
        ["ca"],
        ["bfgs"],
        ["ca", "bfgs"],
        ["collapsed", "bfgs"],
        ["ca", "collapsed", "bfgs"],
    ):
        raise ValueError(f'Invalid value "{approximation.fit}" for `fit`.')

    ca = "ca" in steps
    collapsed = "z" if "collapsed" in steps else None

    if ca:
        _fit_mean_field_ca(model(), t, y, iters)

    if "bfgs" in steps:

        def objective(vs_, state):
            approx = model(vs_).approximation
            state, elbo = approx.elbo(state, t, y, collapsed=collapsed)
            return -1 * elbo, state

        # Optimise hyperparameters.
        minimise_l_bfgs_b(
            objective,
            (model.vs, state),
            iters=iters // 5,
            trace=True,
            jit=True,
            names=model().approximation.ignore_qs(
                previous=True, current=collapsed or False
            ),
        )

        if collapsed:
            # Explicitly update :math:`q(z)`: it was collapsed in the ELBO.
            approx = model().approximation
            ts = approx.construct_terms(t, y)
            approx.q_z = approx.q_z_optimal_mean_field(ts, approx.q_u)

        if ca:
            _fit_mean_field_ca(model(), t, y, iters)'''),
 # model
 (M, '''        if self.scheme == "structured":
            self.approximation = Structured(self)
        elif self.scheme == "mean-field":
            # Use the best mean-field scheme.
            self.approximation = MeanField(self, fit="ca-collapsed-bfgs")
        elif self.scheme == "mean-field-ca":
            self.approximation = MeanField(self, fit="ca")
        elif self.scheme == "mean-field-gradient":
            self.approximation = MeanField(self, fit="bfgs")
        elif self.scheme == "mean-field-collapsed-gradient":
            self.approximation = MeanField(self, fit="collapsed-bfgs")
        elif self.scheme == "mean-field-ca-gradient":
            self.approximation = MeanField(self, fit="ca-bfgs")
        elif self.scheme == "mean-field-ca-collapsed-gradient":
            self.approximation = MeanField(self, fit="ca-collapsed-bfgs")
        else:
            raise ValueError(
                f'Invalid value "{self.scheme}" for the approximation scheme.'
            )
''', '''        mean_field = {
            "mean-field": "ca-collapsed-bfgs",
            "mean-field-ca": "ca",
            "mean-field-gradient": "bfgs",
            "mean-field-collapsed-gradient": "collapsed-bfgs",
            "mean-field-ca-gradient": "ca-bfgs",
            "mean-field-ca-collapsed-gradient": "ca-collapsed-bfgs",
        }
        try:
            if self.scheme == "structured":
                self.approximation = Structured(self)
            else:
                self.approximation = MeanField(self, fit=mean_field[self.scheme])
        except KeyError:
            raise ValueError(
                f'Invalid value "{self.scheme}" for the approximation scheme.'
            )
'''),
 (M, '''        self.K_z = self.compute_K_z()
        self.K_z_inv = B.pd_inv(self.K_z)
        self.K_u = self.compute_K_u()
        self.K_u_inv = B.pd_inv(self.K_u)

        # Construct priors.
        self.p_u = Normal(self.K_u_inv)
        self.p_z = Normal(self.K_z_inv)
''', '''        for name in ("u", "z"):
            K = getattr(self, f"compute_K_{name}")()
            setattr(self, f"K_{name}", K)
            setattr(self, f"K_{name}_inv", B.pd_inv(K))
            setattr(self, f"p_{name}", Normal(getattr(self, f"K_{name}_inv")))
'''),
 (M, '''        var_mean = B.mean(ks[:, 0])
        wbml.out.kv("Mean variance of kernel samples", var_mean)

        return t_k, ks
''', '''        wbml.out.kv("Mean variance of kernel samples", B.mean(ks, axis=0)[0])
        return t_k, ks
'''),
 (M, '''        freqs, psds = zip(*[estimate_psd(t_k, k, db=False) for k in ks])
        freqs = freqs[0]
        psds = B.stack(*psds, axis=0)

        return summarise_samples(freqs, psds, db=True)
''', '''        estimates = []
        for i in range(len(ks)):
            freqs, psd = estimate_psd(t_k, ks[i])
            estimates.append(psd[None, :])
        return summarise_samples(freqs, B.concat(*estimates, axis=0), True)
'''),
 (M, '''            h = GP(self.k_h_acausal())
            h = h | (h(self.t_u), u)  # Condition on sample.
            state, h = h(t_h).sample(state)  # Sample at desired points.
            h = B.flatten(h)
            if self.causal:
                h = h * B.cast(self.dtype, t_h >= 0)  # Causality constraint
            return state, h
''', '''            prior = GP(self.k_h_acausal())
            posterior = prior | (prior(self.t_u), u)  # Condition on sample.
            state, h = posterior(t_h).sample(state)  # Sample at desired points.
            h = h[:, 0]
            if self.causal:
                h = B.where(t_h >= 0, h, B.zeros(h))  # Causality constraint
            return state, h
'''),
 (M, '''        if min_phase:
            # Start at zero.
            t_h = t_h - t_h[0]
        return summarise_samples(t_h, B.stack(*samples, axis=0))
''', '''        # Start at zero.
        start = t_h[0] if min_phase else 0
        return summarise_samples(x=t_h - start, samples=B.stack(*samples, axis=0))
'''),
 (M, '''        L_u = B.cholesky(self.K_u)
        inv_L_u = B.trisolve(L_u, B.eye(L_u))
        prod = B.mm(inv_L_u, B.uprank(u, rank=2))
        I_ux = self.compute_I_ux(t1, t2)
        trisolved = B.mm(inv_L_u, I_ux, inv_L_u, tr_c=True)
        part2 = B.trace(trisolved) - B.trace(B.mm(prod, trisolved, prod, tr_a=True))

        return part1 - part2
''', '''        u = B.mm(self.K_u_inv, B.uprank(u, rank=2))
        I_ux = self.compute_I_ux(t1, t2)
        part1 = part1 - B.sum(B.dense(self.K_u_inv) * I_ux, axis=(2, 3))
        return part1 + B.sum(B.outer(u) * I_ux, axis=(2, 3))
'''),
 (M, '''        u = B.sample(self.compute_K_u())[:, 0]
        K = self.kernel_approx(t, t, u)
''', '''        u = B.flatten(Normal(self.compute_K_u()).sample())
        K = self.kernel_approx(t, t, u)
'''),
 (M, '''        for name, value in data.items():
            if name in self.vs:
                # Overwrite existing values.
                self.vs.assign(name, value)
            else:
                # Assign an invisible bounded variable: we lost the information about
                # the constraints.
                self.vs.unbounded(init=value, visible=False, name=name)
''', '''        new = [name for name in data if name not in self.vs]
        for name in data:
            if name not in new:
                # Overwrite existing values.
                self.vs.assign(name, data[name])
        for name in new:
            # We lost the information about the constraints.
            self.vs.unbounded(data[name], name=name, visible=False)
'''),
 # normal
 (N, '''            self._mean = B.cholsolve(B.chol(self.prec), self.lam)
''', '''            self._mean = B.mm(self.var, self.lam)
'''),
 (N, '''        return cls(B.cholsolve(B.chol(dist.var), dist.mean), B.pd_inv(dist.var))
''', '''        prec = B.pd_inv(dist.var)
        return cls(lam=B.mm(prec, dist.mean), prec=prec)
'''),
 (N, '''        state, noise = Normal(self.prec).sample(state, num)
        sample = B.cholsolve(B.chol(self.prec), B.add(noise, self.lam))
''', '''        state, noise = Normal(self.prec).sample(state, num)
        sample = B.add(self.mean, B.cholsolve(B.chol(self.prec), noise))
'''),
 (N, '''            + B.sum(B.mm(self.prec, diff) * diff)
''', '''            + B.squeeze(B.mm(diff, B.mm(self.prec, diff), tr_a=True))
'''),
 # sample
 (S, '''        if x_init is not None:
            self.move(x_init)
        else:
            self.move(sample_prior())
''', '''        self.move(sample_prior() if x_init is None else x_init)
'''),
 (S, '''            for i in range(num):
                self._sample()
                samples.append(self.x)

        return samples
''', '''            while len(samples) < num:
                self._sample()
                samples += [self.x]

        return samples
'''),
 (S, '''                u = self.log_lik_x - rng.exponential(1.0)
''', '''                u = self.log_lik_x + np.log(rng.uniform(0, 1))
''') if False else (S, '''        if self.log_lik_x_proposed > u:
            # Proposal is accepted.
            return self.x_proposed, self.log_lik_x_proposed, attempts + 1
        else:
            # Proposal rejected. Shrink bracket and try again.
            if self.theta > 0:
                return self._draw(lower, self.theta, u, attempts + 1)
            else:
                return self._draw(self.theta, upper, u, attempts + 1)
''', '''        if not self.log_lik_x_proposed > u:
            # Proposal rejected. Shrink bracket and try again.
            if self.theta > 0:
                upper = self.theta
            else:
                lower = self.theta
            return self._draw(lower, upper, u, attempts + 1, max_attempts)
        # Proposal is accepted.
        return self.x_proposed, self.log_lik_x_proposed, attempts + 1
'''),
],
"r6": [
 # gpcm: constructor
 (G, '''                n_u = int(np.ceil(2 * 2 * window / scale))
                if n_u > n_u_cap:
                    warnings.warn(
                        f"Using {n_u} inducing points for the filter, which is too "
                        f"many. It is capped to {n_u_cap}.",
                        category=UserWarning,
                    )
                    n_u = n_u_cap
''', '''                n_u = capped(
                    int(np.ceil(4 * window / scale)), n_u_cap, " for the filter"
                )
'''),
 (G, '''                n_z = int(np.ceil(2 * (max(t) - min(t)) / scale))
                if n_z > n_z_cap:
                    warnings.warn(
                        f"Using {n_z} inducing points, which is too "
                        f"many. It is capped to {n_z_cap}.",
                        category=UserWarning,
                    )
                    n_z = n_z_cap

            t_z = B.linspace(min(t), max(t), n_z)
''', '''                n_z = capped(int(np.ceil(2 * (max(t) - min(t)) / scale)), n_z_cap)

            t_z = B.linspace(np.min(t), np.max(t), n_z)
'''),
 (G, '''class GPCM(AbstractGPCM):
''', '''def capped(n, cap, what=""):
    if n <= cap:
        return n
    warnings.warn(
        f"Using {n} inducing points{what}, which is too many. It is capped to {cap}.",
        category=UserWarning,
    )
    return cap


class GPCM(AbstractGPCM):
'''),
 (G, '''            if causal:
                d_t_u = t_u_max / (n_u - 1)
                n_u += 2
                t_u = B.linspace(-2 * d_t_u, t_u_max, n_u)
            else:
                if n_u % 2 == 0:
                    n_u += 1
                t_u = B.linspace(-t_u_max, t_u_max, n_u)
''', '''            if causal:
                t_u_min = -2 * t_u_max / (n_u - 1)
                n_u = n_u + 2
            else:
                t_u_min = -t_u_max
                n_u = 2 * (n_u // 2) + 1
            t_u = B.linspace(t_u_min, t_u_max, n_u)
'''),
 (G, '''            if causal:
                n_z += n_z_extra
                t_z = B.linspace(min(t) - t_z_extra, max(t), n_z)
            else:
                n_z += 2 * n_z_extra
                t_z = B.linspace(min(t) - t_z_extra, max(t) + t_z_extra, n_z)
''', '''            n_z += n_z_extra if causal else 2 * n_z_extra
            t_z = B.linspace(
                min(t) - t_z_extra, max(t) + (0 if causal else t_z_extra), n_z
            )
'''),
 (G, '''            gamma = scale_to_factor(scale) - 0.5 * alpha
''', '''            gamma = -alpha / 2 + scale_to_factor(scale)
'''),
 (G, '''        self.t_u = self.ps.bounded(
            self.t_u,
            lower=min(self.t_u) * 1.5,
            upper=max(self.t_u) * 1.5,
            name="t_u",
        )
''', '''        self.t_u = self.ps.bounded(
            self.t_u,
            name="t_u",
            lower=1.5 * B.min(self.t_u),
            upper=1.5 * B.max(self.t_u),
        )
'''),
 # integrals
 (G, '''        return ExpPoly(self.omega_t, -const(self.omega) * (t1 - t2) ** 2)
''', '''        diff = t1 - t2
        return self.omega_t * ExpPoly(const(-self.omega) * diff * diff)
'''),
 (G, '''    exppoly = model.k_xs(var("t1"), var("tau")) * model.k_xs(var("tau"), var("t2"))
    return Dense(exppoly.integrate("tau", t1=model.t_z[:, None], t2=model.t_z[None, :]))
''', '''    dists2 = (model.t_z[:, None] - model.t_z[None, :]) ** 2
    scale = model.omega_t**2 * B.sqrt(B.pi / (2 * model.omega))
    return Dense(scale * B.exp(-0.5 * model.omega * dists2))
'''),
 (G, '''    exppoly = model.k_h(var("t1") - var("tau"), var("t2") - var("tau"))

    if model.causal:
        upper = var("min_t1_t2")
    else:
        upper = np.inf

    return exppoly.integrate_box(
        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=B.minimum(t1, t2)
    )
''', '''    # The integral only depends on the difference.
    exppoly = model.k_h(var("tau"), var("tau") + var("lag"))
    lower = const(0) if model.causal else -np.inf
    return exppoly.integrate_box(("tau", lower, np.inf), lag=B.abs(t1 - t2))
'''),
 (G, '''    exppoly = model.k_h(var("t1") - var("tau"), var("t_u_1"))
    exppoly = exppoly * model.k_h(var("t_u_2"), var("t2") - var("tau"))

    if model.causal:
        upper = var("min_t1_t2")
    else:
        upper = np.inf

    result = exppoly.integrate_box(
        ("tau", -np.inf, upper),
        t1=t1,
        t2=t2,
        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=B.minimum(t1, t2),
    )

    if squeeze_t1 and squeeze_t2:
        return result[0, 0, :, :]
    elif squeeze_t1:
        return result[0, :, :, :]
    elif squeeze_t2:
        return result[:, 0, :, :]
    else:
        return result
''', '''    exppoly = model.k_h(var("t_u_1"), var("t1") - var("tau")) * model.k_h(
        var("t_u_2"), var("t2") - var("tau")
    )
    values = dict(t1=t1, t2=t2, t_u_1=t_u_1, t_u_2=t_u_2)

    if model.causal:
        result = exppoly.integrate_box(
            ("tau", -np.inf, var("upper")), upper=B.minimum(t1, t2), **values
        )
    else:
        result = exppoly.integrate("tau", **values)

    axes = tuple(i for i, x in enumerate((squeeze_t1, squeeze_t2)) if x)
    return result[tuple(0 if i in axes else slice(None) for i in range(4))]
'''),
 (G, '''    t = t[:, None, None]
    t_z_1 = model.t_z[None, :, None]
    t_z_2 = model.t_z[None, None, :]

    expq = (
        model.k_h(var("t") - var("tau1"), var("t") - var("tau2"))
        * model.k_xs(var("tau1"), var("t_z_1"))
        * model.k_xs(var("t_z_2"), var("tau2"))
    )

    if model.causal:
        upper1 = var("t")
        upper2 = var("t")
    else:
        upper1 = np.inf
        upper2 = np.inf

    return expq.integrate_box(
        ("tau1", -np.inf, upper1),
        ("tau2", -np.inf, upper2),
        t=t,
        t_z_1=t_z_1,
        t_z_2=t_z_2,
    )
''', '''    # Work relative to the time of the observation.
    t_z = t[:, None] - model.t_z[None, :]
    t_z_1 = t_z[:, :, None]
    t_z_2 = t_z[:, None, :]

    expq = (
        model.k_xs(var("r1"), var("t_z_1"))
        * model.k_xs(var("r2"), var("t_z_2"))
        * model.k_h(var("r1"), var("r2"))
    )

    if model.causal:
        lower = const(0)
        limits = (("r1", lower, np.inf), ("r2", lower, np.inf))
        return expq.integrate_box(*limits, t_z_1=t_z_1, t_z_2=t_z_2)
    return expq.integrate("r2", "r1", t_z_1=t_z_1, t_z_2=t_z_2)
'''),
 # rgpcm
 (R, '''            m_max = int(np.ceil(n_z / 2))
''', '''            m_max = (n_z + 1) // 2
'''),
 (R, '''            t_u_max = B.pi / self.alpha
''', '''            t_u_max = self.extent * B.pi / 4
'''),
 (R, '''            a = B.min(t) - B.max(t_u)

        if b is None:
            b = B.max(t)
''', '''            a = min(t) - max(t_u)

        if b is None:
            b = max(t)
'''),
 (R, '''            ms = B.range(2 * m_max + 1)
''', '''            ms = np.arange(2 * m_max + 1)
'''),
 (R, '''    m = model.ms - B.cast(model.dtype, model.ms > model.m_max) * model.m_max
''', '''    m = B.where(model.ms > model.m_max, model.ms - model.m_max, model.ms)
'''),
 (R, '''    alpha = alpha + alpha * B.cast(model.dtype, model.ms == 0)
    beta = 1 / (lam_t**0.5) * B.cast(model.dtype, model.ms <= model.m_max)

    return Diagonal(alpha) + LowRank(left=beta[:, None])
''', '''    alpha = B.where(model.ms == 0, 2 * alpha, alpha)
    beta = B.cast(model.dtype, model.ms <= model.m_max)[:, None]

    return LowRank(left=beta) + Diagonal(alpha)
'''),
 (R, '''    # Construct I_hz for 0 < m <= M and n > M.
    ns = ms[(0 < ms) * (ms <= m_max)]
    ns2 = ms[ms > m_max]  # Do not subtract M!
    I_0_sin_1 = _I_hx_0_sin(
        model, ns[None, :, None] + ns2[None, None, :], t[:, None, None]
    )
    I_0_sin_2 = _I_hx_0_sin(
        model, -ns[None, :, None] + ns2[None, None, :], t[:, None, None]
    )
    I_hz_mleM_ngtM = 0.5 * (I_0_sin_1 + I_0_sin_2)

    # Construct I_hz for m = 0 and n > M.
    ns = ms[ms == 0]
    ns2 = ms[ms > m_max]  # Do not subtract M!
    I_hz_0_gtM = _I_hx_0_sin(
        model, ns[None, :, None] + ns2[None, None, :], t[:, None, None]
    )

    # Concatenate to form I_hz for m <= M and n > M.
    I_hz_mleM_ngtM = B.concat(I_hz_0_gtM, I_hz_mleM_ngtM, axis=1)
''', '''    # Construct I_hz for m <= M and n > M.
    ns = ms[ms <= m_max]
    ns2 = ms[ms > m_max]  # Do not subtract M!
    I_0_sin_1 = _I_hx_0_sin(
        model, ns[None, :, None] + ns2[None, None, :], t[:, None, None]
    )
    I_0_sin_2 = _I_hx_0_sin(
        model, -ns[None, :, None] + ns2[None, None, :], t[:, None, None]
    )
    I_hz_mleM_ngtM = 0.5 * (I_0_sin_1 + I_0_sin_2)
'''),
 (R, '''    # Undo sorting.
    result = B.take(result, inverse_perm, axis=1)
    result = B.take(result, inverse_perm, axis=2)

    return result
''', '''    # Undo sorting.
    return result[:, inverse_perm][:, :, inverse_perm]
'''),
 (R, '''    # Compute I(l, u, 0).
    k = ms[ms == 0]
    I_uz0 = (
        _integral_lu0(
            model, t[:, None, None] - model.t_u[None, :, None], t[:, None, None]
        )
        + k[None, None, :]
    )  # This is all zeros, but performs broadcasting.

    # Compute I(l, u, k) for 0 < k < M + 1.
    k = ms[(0 < ms) * (ms <= model.m_max)]
''', '''    # Compute I(l, u, k) for k < M + 1.
    k = ms[ms <= model.m_max]
'''),
 (R, '''    result = B.concat(I_uz0, I_uz_leM, I_uz_gtM, axis=2)
''', '''    result = B.concat(I_uz_leM, I_uz_gtM, axis=2)
'''),
 (R, '''    om = 2 * B.pi * (k - model.m_max) / (model.b - model.a)
    return (-1 / (ag**2 + om**2)) * (
        (-ag * B.sin(om * (u - model.a)) + om * B.cos(om * (u - model.a)))
        - (
            B.exp(ag * (l - u))
            * (-ag * B.sin(om * (l - model.a)) + om * B.cos(om * (l - model.a)))
        )
    )''', '''    om = 2 * B.pi * (k - model.m_max) / (model.b - model.a)

    def primitive(x):
        phase = om * (x - model.a)
        return (ag * B.sin(phase) - om * B.cos(phase)) / (ag * ag + om * om)

    return primitive(u) - B.exp(ag * (l - u)) * primitive(l)'''),
 (R, '''    omega = 2 * B.pi * (n - model.m_max) / (model.b - model.a)
    t_less_a = t - model.a
    return (
        model.alpha_t**2
        / (4 * model.alpha**2 + omega**2)
        * (
            omega * (B.exp(-2 * model.alpha * t_less_a) - B.cos(omega * t_less_a))
            + 2 * model.alpha * B.sin(omega * t_less_a)
        )
    )
''', '''    omega = 2 * B.pi * (n - model.m_max) / (model.b - model.a)
    t = t - model.a
    decay = 2 * model.alpha
    result = decay * B.sin(omega * t) - omega * B.cos(omega * t)
    result = result + omega * B.exp(-decay * t)
    return model.alpha_t**2 * result / (decay**2 + omega**2)
'''),
 (R, '''    sign = B.sign(a)
    condition = a * b >= 0
''', '''    sign = B.where(a < 0, -1, 1)
    condition = B.sign(a) * B.sign(b) >= 0
'''),
 (R, '''        gamma = min(gamma, self.alpha / 1.5)
''', '''        if 1.5 * gamma > self.alpha:
            gamma = self.alpha / 1.5
'''),
 # util
 (U, '''    x, samples = B.to_numpy(x, samples)
    random_inds = np.random.permutation(B.shape(samples)[0])[:3]

    def transform(x):
        if db:
            return 10 * np.log10(x)
        else:
            return x

    perm = tuple(reversed(range(B.rank(samples))))  # Reverse all dimensions.
    return collect(
        x=B.to_numpy(x),
        mean=transform(B.mean(samples, axis=0)),
        var=transform(B.std(samples, axis=0)) ** 2,
        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
        err_95_lower=transform(B.quantile(samples, 0.025, axis=0)),
        err_95_upper=transform(B.quantile(samples, 1 - 0.025, axis=0)),
        err_99_lower=transform(B.quantile(samples, 0.0015, axis=0)),
        err_99_upper=transform(B.quantile(samples, 1 - 0.0015, axis=0)),
        samples=transform(B.transpose(samples, perm=perm)[..., random_inds]),
        all_samples=transform(B.transpose(samples, perm=perm)),
    )
''', '''    x, samples = B.to_numpy(x, samples)
    n = samples.shape[0]
    random_inds = np.random.permutation(n)[:3]
    transform = (lambda x: 10 * np.log10(x)) if db else (lambda x: x)

    fields = dict(
        x=x,
        mean=transform(np.mean(samples, axis=0)),
        var=transform(np.std(samples, axis=0)) ** 2,
    )
    for level, tail in ((68, 0.32), (95, 0.025), (99, 0.0015)):
        lower, upper = (np.quantile(samples, q, axis=0) for q in (tail, 1 - tail))
        fields[f"err_{level}_lower"] = transform(lower)
        fields[f"err_{level}_upper"] = transform(upper)
    fields["samples"] = transform(samples[random_inds].T)
    fields["all_samples"] = transform(samples.T)
    return collect(**fields)
'''),
 (U, '''    k_symmetric = B.concat(k, k[1:-1][::-1])
    psd = np.fft.fft(k_symmetric)
    freqs = np.fft.fftfreq(len(psd)) / (t[1] - t[0])
''', '''    k_symmetric = B.concat(k, k[-2:0:-1])
    psd = np.fft.fft(k_symmetric)
    freqs = np.fft.fftfreq(len(psd), d=t[1] - t[0])
'''),
 (U, '''    k = np.correlate(x, x, mode="full")
    k = k[k.size // 2 :]

    if window:
        # Do not undo the triangular window.
        k = k / x.size
    else:
        # Divide by the precise numbers of estimates.
        k = k / np.arange(x.size, 0, -1)

    # Get the right number of lags.
    if lags is not None:
        k = k[: lags + 1]
''', '''    n = x.size
    k = np.correlate(x, x, mode="full")[n - 1 :]
    # Divide by the precise numbers of estimates, or do not undo the triangular window.
    k = k / (n if window else n - np.arange(n))

    # Get the right number of lags.
    k = k if lags is None else k[: 1 + lags]
'''),
 (U, '''    if B.rank(x) != 2 or B.shape(x)[1] != 1:
        raise ValueError("Input must be a column vector.")
''', '''    shape = B.shape(x)
    if not (len(shape) == 2 and shape[1] == 1):
        raise ValueError("Input must be a column vector.")
'''),
 (U, '''    precision = -hessian(f_eval if f_eval is not None else f, x)
    return Normal(x, closest_psd(precision, inv=True))''', '''    f_eval = f_eval or f
    covariance = closest_psd(hessian(lambda x: -f_eval(x), x), inv=True)
    return Normal(x, covariance)'''),
 (U, '''        return -f(vs_["x"])
''', '''        return -1 * f(vs_["x"])
'''),
 # exppoly
 (X, '''        return Poly(*[x.collect_for(factor) for x in self.terms if factor in x.factors])
''', '''        collected = []
        for term in self.terms:
            if factor in term.factors:
                collected.append(term.collect_for(factor))
        return Poly(*collected)
'''),
 (X, '''        return Poly(*[x * y for x in self.terms for y in other.terms])
''', '''        result = Poly()
        for x in self.terms:
            result = result + Poly(*[x * y for y in other.terms])
        return result
'''),
 (X, '''        return self + (-other)

    def __rsub__(self, other):
        return (-self) + other
''', '''        return self + -1 * other

    def __rsub__(self, other):
        return -(self - other)
'''),
 (X, '''        return ExpPoly(
            self.const * safe_sqrt(-B.pi / a), Poly(Term(-0.25 / a)) * b**2 + c
        )
''', '''        scale = safe_sqrt(B.pi / -a)
        return ExpPoly(self.const * scale, c - const(1 / (4 * a)) * (b * b))
'''),
 (X, '''        # Normalise and compute CDF part.
        x1 = -mu1 / safe_sqrt(ia11)
        x2 = -mu2 / safe_sqrt(ia22)
''', '''        # Normalise and compute CDF part.
        x1, x2 = (-mu / safe_sqrt(var) for mu, var in ((mu1, ia11), (mu2, ia22)))
'''),
 (X, '''        quad_form = 0.5 * (ia11 * b1**2 + ia22 * b2**2 + 2 * ia12 * b1 * b2)
''', '''        quad_form = (mu1 * b1 + mu2 * b2) / 2
'''),
 (X, '''        return ExpPoly(self.const * other.const, self.poly + other.poly)
''', '''        return ExpPoly(other.const * self.const, other.poly + self.poly)
'''),
],
}

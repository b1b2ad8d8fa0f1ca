X, G, R, U, A, M, N, S = ("gpcm/exppoly.py", "gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/util.py", "gpcm/approx.py", "gpcm/model.py",
                          "gpcm/normal.py", "gpcm/sample.py")
GROUPS = {
"r1": [
 # exppoly
 (X, "    return B.sqrt(B.maximum(x, B.cast(B.dtype(x), 1e-30)))", "    floor = B.cast(B.dtype(x), 1e-30)\n    return B.where(x > floor, x, floor * B.ones(x)) ** 0.5"),
 (X, '''        result = 0
        for term in self.terms:
            result = result + term.eval(**var_map)
        return result
''', '''        return sum([term.eval(**var_map) for term in self.terms], 0)
'''),
 (X, '''        return reduce(
            operator.mul, [x.eval(**var_map) for x in self.factors], self.const
        )
''', '''        value = self.const
        for factor in sorted(self.factors, key=str):
            value = value * factor.eval(**var_map)
        return value
'''),
 (X, '''    merged_terms = []
    for factors in set(frozenset(x.factors) for x in terms):
        associated_terms = filter(lambda x: x.factors == factors, terms)
        merged_terms.append(reduce(operator.add, associated_terms, 0))
    return merged_terms
''', '''    merged_terms = {}
    for term in terms:
        key = frozenset(term.factors)
        if key in merged_terms:
            merged_terms[key] = merged_terms[key] + term
        else:
            merged_terms[key] = term
    return list(merged_terms.values())
'''),
 (X, '''    merged_factors = []
    for name in set(x.name for x in factors):
        associated_factors = filter(lambda x: x.name == name, factors)
        merged_factors.append(reduce(operator.mul, associated_factors, 1))
    return merged_factors
''', '''    powers = {}
    for factor in factors:
        powers[factor.name] = powers.get(factor.name, 0) + factor.power
    return [Factor(name, power) for name, power in powers.items()]
'''),
 (X, '''        return ExpPoly(
            self.const * safe_sqrt(-B.pi / a), Poly(Term(-0.25 / a)) * b**2 + c
        )
''', '''        # Complete the square.
        scale = safe_sqrt(B.pi / -a)
        remainder = c - const(1 / (4 * a)) * (b * b)
        return ExpPoly(self.const * scale, remainder)
'''),
 (X, '''            * (1 - B.erf(0.5 * b / safe_sqrt(-a)))
''', '''            * (1 + B.erf(-b / (2 * safe_sqrt(-a))))
'''),
 (X, '''        ia11 = a22 / a_det
        ia12 = -a12 / a_det
        ia22 = a11 / a_det
''', '''        inv_det = 1 / a_det
        ia11, ia12, ia22 = inv_det * a22, -inv_det * a12, inv_det * a11
'''),
 (X, '''        quad_form = 0.5 * (ia11 * b1**2 + ia22 * b2**2 + 2 * ia12 * b1 * b2)
''', '''        quad_form = 0.5 * (b1 * mu1 + b2 * mu2)
'''),
 (X, '''        orig_shape = B.shape(mu1)
        num = reduce(operator.mul, orig_shape, 1)
        x1 = B.reshape(x1, num)
        x2 = B.reshape(x2, num)
        rho = rho * B.ones(x1)
        cdf_part = B.reshape(B.bvn_cdf(x1, x2, rho), *orig_shape)
''', '''        orig_shape = B.shape(mu1)
        x1 = B.flatten(x1)
        x2 = B.flatten(x2)
        rho = rho * B.ones(x1)
        cdf_part = B.reshape(B.bvn_cdf(x1, x2, rho), *orig_shape)
'''),
 (X, '''        result = 0
        names = [name for name, _, _ in name_and_lims]
        for part in parts:
            result = result + part.integrate_half(*names, **var_map)
        return result
''', '''        names = tuple(name for name, _, _ in name_and_lims)
        values = [part.integrate_half(*names, **var_map) for part in parts]
        return reduce(operator.add, values)
'''),
 # gpcm
 (G, "    return (B.pi / 2) / (2 * scale**2)", "    return B.pi / (4 * scale * scale)"),
 (G, "    return 1 / B.sqrt(4 * factor / B.pi)", "    return 0.5 * B.sqrt(B.pi / factor)"),
 (G, '''                alpha_t = (8 * alpha / B.pi) ** 0.25
            else:
                alpha_t = (2 * alpha / B.pi) ** 0.25
''', '''                alpha_t = B.sqrt(2 * B.sqrt(2 * alpha / B.pi))
            else:
                alpha_t = B.sqrt(B.sqrt(2 * alpha / B.pi))
'''),
 (G, '''            self.alpha_t**2,
            -(
                const(self.alpha) * (t1**2 + t2**2)
                + const(self.gamma) * (t1 - t2) ** 2
            ),
''', '''            self.alpha_t * self.alpha_t,
            -const(self.alpha) * t1**2
            - const(self.alpha) * t2**2
            - const(self.gamma) * (t2 - t1) ** 2,
'''),
 (G, '''    exppoly = model.k_xs(var("t1"), var("tau")) * model.k_xs(var("tau"), var("t2"))
    return Dense(exppoly.integrate("tau", t1=model.t_z[:, None], t2=model.t_z[None, :]))
''', '''    t = model.t_z
    exppoly = model.k_xs(var("tau"), var("t1")) * model.k_xs(var("tau"), var("t2"))
    return Dense(exppoly.integrate("tau", t1=B.expand_dims(t, axis=1), t2=B.expand_dims(t, axis=0)))
'''),
 (G, '''        t1=t1,
        t2=t2,
        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=B.minimum(t1, t2),
    )

    if squeeze_t1 and squeeze_t2:
        return result[0, 0, :, :]
    elif squeeze_t1:
        return result[0, :, :, :]
    elif squeeze_t2:
        return result[:, 0, :, :]
    else:
        return result
''', '''        t1=t1,
        t2=t2,
        t_u_1=t_u_1,
        t_u_2=t_u_2,
        min_t1_t2=B.where(t1 <= t2, t1 + 0 * t2, t2 + 0 * t1),
    )

    if squeeze_t2:
        result = B.squeeze(result, axis=1)
    if squeeze_t1:
        result = B.squeeze(result, axis=0)
    return result
'''),
 (G, '''    if model.causal:
        upper1 = var("t")
        upper2 = var("t")
    else:
        upper1 = np.inf
        upper2 = np.inf

    return expq.integrate_box(
        ("tau1", -np.inf, upper1),
        ("tau2", -np.inf, upper2),
''', '''    upper = var("t") if model.causal else np.inf

    return expq.integrate_box(
        ("tau2", -np.inf, upper),
        ("tau1", -np.inf, upper),
'''),
 # rgpcm
 (R, '''    sign = B.sign(a)
    condition = a * b >= 0
''', '''    sign = B.sign(a)
    condition = B.sign(a) * B.sign(b) >= 0
'''),
 (R, '''    condition = B.cast(B.dtype(part1), condition)
    return (condition * part1 + part2) / (c**2 - d**2)
''', '''    total = B.where(condition, part1 + part2, part2)
    return total / ((c - d) * (c + d))
'''),
 (R, '''        integral_abcd(a_ub, b_ub, c, d)
        + integral_abcd(a_lb, b_lb, c, d)
        + -integral_abcd(a_ub, b_lb, c, d)
        + -integral_abcd(a_lb, b_ub, c, d)
''', '''        (integral_abcd(a_ub, b_ub, c, d) - integral_abcd(a_ub, b_lb, c, d))
        - (integral_abcd(a_lb, b_ub, c, d) - integral_abcd(a_lb, b_lb, c, d))
'''),
 (R, '''    ns = ms[ms == 0]
    ns2 = ms[ms > m_max]  # Do not subtract M!
    I_hz_0_gtM = _I_hx_0_sin(
''', '''    ns = ms[np.where(ms == 0)[0]]
    ns2 = ms[np.where(ms > m_max)[0]]  # Do not subtract M!
    I_hz_0_gtM = _I_hx_0_sin(
'''),
 (R, "    t_less_a = t - model.a\n    return (\n        model.alpha_t**2\n        / (4 * model.alpha**2 + omega_n**2)", "    t_less_a = t - model.a\n    return (\n        (model.alpha_t / (2 * model.alpha)) ** 2\n        / (1 + (omega_n / (2 * model.alpha)) ** 2)"),
 (R, '''    perm = np.argsort(model.ms)
    inverse_perm = invert_perm(perm)

    # Sort to allow for simple concatenation.
    m_max = model.m_max
''', '''    perm = np.argsort(model.ms)
    inverse_perm = np.argsort(perm)

    # Sort to allow for simple concatenation.
    m_max = model.m_max
'''),
 (R, '''        * B.exp(-model.gamma * B.abs(model.t_u[:, None] - model.t_u[None, :]))
''', '''        * B.exp(-model.gamma * B.sqrt((model.t_u[:, None] - model.t_u[None, :]) ** 2))
'''),
 (R, '''    ag = model.alpha - model.gamma
    return 1 / ag * (1 - B.exp(ag * (l - u)))
''', '''    ag = model.alpha - model.gamma
    return -(B.exp(-ag * (u - l)) - 1) / ag
'''),
 # util
 (U, '''    inverse_perm = np.array([-1] * len(perm), dtype=int)
    for i, p in enumerate(perm):
        inverse_perm[p] = i
    return inverse_perm
''', '''    inverse_perm = np.empty(len(perm), dtype=int)
    inverse_perm[np.asarray(perm, dtype=int)] = np.arange(len(perm))
    return inverse_perm
'''),
 (U, '''    s = B.maximum(s, 0)
    if inv:
        s = B.where(s == 0, 0, 1 / s)
    return B.mm(u * B.expand_dims(s, axis=-2), u, tr_b=True)
''', '''    s = jnp.where(s > 0, s, 0)
    if inv:
        s = jnp.where(s > 0, 1 / s, 0)
    return B.mm(u, B.mm(B.diag(s), B.transpose(u)))
'''),
 (U, '''    k = np.correlate(x, x, mode="full")
    k = k[k.size // 2 :]
''', '''    n = len(x)
    k = np.array([np.sum(x[i:] * x[: n - i]) for i in range(n)])
'''),
 (U, '''    psd = np.abs(np.real(psd))
''', '''    psd = np.abs(psd.real)
'''),
 (U, '''    k_symmetric = B.concat(k, k[1:-1][::-1])
''', '''    k_symmetric = np.concatenate((k, np.flip(k[1:-1])))
'''),
 (U, '''    inds = freqs >= 0
    freqs = freqs[inds]
    psd = psd[inds]

    return freqs, psd
''', '''    keep = [i for i in range(len(freqs)) if freqs[i] >= 0]
    return freqs[keep], psd[keep]
'''),
 (U, '''    hess = jax.jacrev(jax.jacrev(lambda x: f(x[:, None])))(x[:, 0])
    return (hess + B.transpose(hess)) / 2  # Symmetrise to counteract numerical errors.
''', '''    hess = jax.hessian(lambda x: f(B.reshape(x, -1, 1)))(x[:, 0])
    return 0.5 * hess + 0.5 * B.transpose(hess)  # Symmetrise to counteract numerical errors.
'''),
 (U, '''    spec = np.fft.fft(h)
    phase = np.imag(-hilbert(np.log(np.abs(spec))))
    return np.real(np.fft.ifft(np.abs(spec) * np.exp(1j * phase)))
''', '''    magnitude = np.abs(np.fft.fft(h))
    phase = -np.imag(hilbert(np.log(magnitude)))
    return np.fft.ifft(magnitude * (np.cos(phase) + 1j * np.sin(phase))).real
'''),
 (U, '''            return 10 * np.log10(x)
        else:
''', '''            return 10 * np.log(x) / np.log(10)
        else:
'''),
 (U, '''        var=transform(B.std(samples, axis=0)) ** 2,
''', '''        var=transform(np.sqrt(np.var(samples, axis=0))) ** 2,
'''),
 # approx
 (A, '''        ts.A_sum = ts.I_ux_sum - B.sum(ts.K_z_squeezed, axis=0)
        ts.B_sum = ts.I_hz_sum - B.sum(ts.K_u_squeezed, axis=0)
''', '''        ts.A_sum = B.sum(ts.I_ux - ts.K_z_squeezed, axis=0)
        ts.B_sum = B.sum(ts.I_hz - ts.K_u_squeezed, axis=0)
'''),
 (A, '''            ts.I_uz_sum = B.sum(y[:, None, None] * ts.I_uz, axis=0)  # Weight by data.
''', '''            ts.I_uz_sum = B.dense(sum([y[i] * ts.I_uz[i, :, :] for i in range(B.shape(y)[0])]))
'''),
 (A, '''        if x2 is not None:
            inner = B.mm(I, x2, I, tr_c=True)
        else:
            # This is _much_ more efficient!
            part = B.mm(I, x)
            inner = B.mm(part, part, tr_b=True)
''', '''        if x2 is None:
            x2 = B.mm(x, x, tr_b=True)
        inner = B.mm(B.mm(I, x2), I, tr_b=True)
'''),
 (A, '''        m1 = B.flatten(B.mm(u, ts.I_uz, z, tr_a=True))
''', '''        m1 = B.sum(u[None, :, :] * B.mm(ts.I_uz, z), axis=(1, 2))
'''),
 (A, '''        return state, sum(recs) / len(recs) - q_u.kl(self.p_u)
''', '''        return state, B.mean(B.stack(*recs, axis=0)) - q_u.kl(self.p_u)
'''),
 (A, '''        if self._q_i == 0:
            return NaturalNormal(B.zeros(self.model.dtype, self.model.n_u, 1), self.model.K_u)
        else:
            return _parametrise_natural(
                self.model.ps.q_u[self._q_i - 1],
                self.model.n_u,
            )
''', '''        if self._q_i > 0:
            return _parametrise_natural(
                self.model.ps.q_u[self._q_i - 1],
                self.model.n_u,
            )
        return NaturalNormal(B.zeros(self.model.dtype, self.model.n_u, 1), self.model.K_u)
'''),
 (A, '''        total = 0
        for x, y in zip(xs, ys):
            total += B.sqrt(B.mean((x - y) ** 2))
        return total
''', '''        return sum(B.sqrt(B.mean((x - y) ** 2)) for x, y in zip(xs, ys))
'''),
 # model
 (M, '''        L_u = B.cholesky(self.K_u)
        inv_L_u = B.trisolve(L_u, B.eye(L_u))
        prod = B.mm(inv_L_u, B.uprank(u, rank=2))
        I_ux = self.compute_I_ux(t1, t2)
        trisolved = B.mm(inv_L_u, I_ux, inv_L_u, tr_c=True)
        part2 = B.trace(trisolved) - B.trace(B.mm(prod, trisolved, prod, tr_a=True))

        return part1 - part2
''', '''        K_u_inv = B.dense(self.K_u_inv)
        weights = B.mm(K_u_inv, B.uprank(u, rank=2))
        I_ux = self.compute_I_ux(t1, t2)
        part2 = B.sum(K_u_inv * I_ux, axis=(-2, -1))
        part3 = B.sum(B.mm(weights, weights, tr_b=True) * I_ux, axis=(-2, -1))

        return part1 - part2 + part3
'''),
 (M, '''        if normalise:
            K = K / K[0, 0]
        f = B.sample(closest_psd(K))[:, 0]
''', '''        K = K / K[0, 0] if normalise else K
        f = B.flatten(B.sample(closest_psd(K)))
'''),
 (M, '''        data = {name: B.to_numpy(B.dense(self.vs[name])) for name in self.vs.names}
        with open(path, "wb") as f:
            pickle.dump(data, f)
''', '''        data = {}
        for name in self.vs.names:
            data[name] = B.to_numpy(B.dense(self.vs[name]))
        with open(path, "wb") as f:
            f.write(pickle.dumps(data))
'''),
 (M, '''        freqs, psds = zip(*[estimate_psd(t_k, k, db=False) for k in ks])
        freqs = freqs[0]
        psds = B.stack(*psds, axis=0)
''', '''        psds = []
        for k in ks:
            freqs, psd = estimate_psd(t_k, k)
            psds.append(psd)
        psds = B.stack(*psds, axis=0)
'''),
 (M, '''        if self.scheme == "structured":
            self.approximation = Structured(self)
        elif self.scheme == "mean-field":
            # Use the best mean-field scheme.
            self.approximation = MeanField(self, fit="ca-collapsed-bfgs")
        elif self.scheme == "mean-field-ca":
            self.approximation = MeanField(self, fit="ca")
        elif self.scheme == "mean-field-gradient":
            self.approximation = MeanField(self, fit="bfgs")
        elif self.scheme == "mean-field-collapsed-gradient":
            self.approximation = MeanField(self, fit="collapsed-bfgs")
        elif self.scheme == "mean-field-ca-gradient":
            self.approximation = MeanField(self, fit="ca-bfgs")
        elif self.scheme == "mean-field-ca-collapsed-gradient":
            self.approximation = MeanField(self, fit="ca-collapsed-bfgs")
        else:
            raise ValueError(
                f'Invalid value "{self.scheme}" for the approximation scheme.'
            )
''', '''        fits = {
            "mean-field": "ca-collapsed-bfgs",
            "mean-field-ca": "ca",
            "mean-field-gradient": "bfgs",
            "mean-field-collapsed-gradient": "collapsed-bfgs",
            "mean-field-ca-gradient": "ca-bfgs",
            "mean-field-ca-collapsed-gradient": "ca-collapsed-bfgs",
        }
        if self.scheme == "structured":
            self.approximation = Structured(self)
        elif self.scheme in fits:
            self.approximation = MeanField(self, fit=fits[self.scheme])
        else:
            raise ValueError(
                f'Invalid value "{self.scheme}" for the approximation scheme.'
            )
'''),
 # normal
 (N, '''            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))
            self._m2 = B.cholsolve(B.chol(self.prec), B.transpose(self._m2))
''', '''            self._m2 = B.add(self.var, B.outer(self.mean))
'''),
 (N, '''        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))
        diff = self.mean - other.mean
        return 0.5 * (
            B.sum(ratio**2)
            - B.logdet(B.mm(ratio, ratio, tr_a=True))
            + B.sum(B.mm(other.prec, diff) * diff)
            - B.cast(self.dtype, self.dim)
        )
''', '''        diff = other.mean - self.mean
        trace = B.sum(B.dense(other.prec) * B.dense(self.var))
        return 0.5 * (
            trace
            + B.logdet(self.prec)
            - B.logdet(other.prec)
            + B.sum(B.mm(diff, other.prec, diff, tr_a=True))
            - self.dim
        )
'''),
 (N, '''        return cls(B.cholsolve(B.chol(dist.var), dist.mean), B.pd_inv(dist.var))
''', '''        prec = B.pd_inv(dist.var)
        return cls(B.mm(prec, dist.mean), prec)
'''),
 # sample
 (S, '''            if self.theta > 0:
                return self._draw(lower, self.theta, u, attempts + 1)
            else:
                return self._draw(self.theta, upper, u, attempts + 1)
''', '''            if self.theta > 0:
                upper = self.theta
            else:
                lower = self.theta
            return self._draw(lower, upper, u, attempts=attempts + 1)
'''),
 (S, '''        self.x_proposed = B.cos(self.theta) * self.x + B.sin(self.theta) * self.y
''', '''        c, s = np.cos(self.theta), np.sin(self.theta)
        self.x_proposed = c * self.x + s * self.y
'''),
],
"r2": [
 (X, '''        if len(names) == 1:
            return self._integrate_half1(names[0], **var_map)
        elif len(names) == 2:
            return self._integrate_half2(*names, **var_map)
        else:  # pragma: no cover
            raise NotImplementedError(
                "Cannot integrate from -inf to 0 over more than two variables."
            )
''', '''        if len(names) > 2:  # pragma: no cover
            raise NotImplementedError(
                "Cannot integrate from -inf to 0 over more than two variables."
            )
        method = self._integrate_half1 if len(names) == 1 else self._integrate_half2
        return method(*names, **var_map)
'''),
 (X, '''        result = Poly()
        for term in self.terms:
            result = result + term.substitute(name, poly)
        return result
''', '''        return reduce(operator.add, [term.substitute(name, poly) for term in self.terms], Poly())
'''),
 (X, '''        highest_power = 0
        for factor in self.factors:
            if factor.name == name:
                highest_power = max(highest_power, factor.power)
        return highest_power
''', '''        return max([f.power for f in self.factors if f.name == name], default=0)
'''),
 (X, '''        return reduce(operator.mul, [self] * power, const(1))
''', '''        result = const(1)
        for _ in range(power):
            result = result * self
        return result
'''),
 (X, '''            0.5
            * self.const
            * safe_sqrt(-B.pi / a)
            * B.exp(-0.25 * b**2 / a + c)
            * (1 - B.erf(0.5 * b / safe_sqrt(-a)))
''', '''            self.const
            * B.sqrt(B.pi)
            / (2 * safe_sqrt(-a))
            * B.exp(c)
            * B.exp(-(b**2) / (4 * a))
            * (1 - B.erf(b / safe_sqrt(-4 * a)))
'''),
 (X, '''        rho = ia12 / safe_sqrt(ia11 * ia22)
''', '''        rho = ia12 / (safe_sqrt(ia11) * safe_sqrt(ia22))
'''),
 (X, '''        rho = rho * B.ones(x1)
''', '''        rho = B.broadcast_to(rho, *B.shape(x1)) if B.rank(rho) == 0 else rho * B.ones(B.dtype(x1), *B.shape(x1))
'''),
 (X, '''        det_part = 2 * B.pi / safe_sqrt(a_det)
        exp_part = det_part * B.exp(quad_form + c)
''', '''        exp_part = 2 * B.pi * safe_sqrt(1 / a_det) * B.exp(quad_form) * B.exp(c)
'''),
 (X, '''        return ExpPoly(self.const, self.poly.substitute(name, var(name) + poly))
''', '''        return self.substitute(name, poly + var(name))
'''),
 (G, '''    if t1 is None:
        t1 = B.zero(model.dtype)
    if t2 is None:
        t2 = B.zero(model.dtype)

    exppoly''', '''    t1 = B.zero(model.dtype) if t1 is None else t1
    t2 = B.zero(model.dtype) if t2 is None else t2

    exppoly'''),
 (G, '''        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=B.minimum(t1, t2)
''', '''        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=0.5 * (t1 + t2 - B.abs(t1 - t2))
'''),
 (G, '''                n_u = int(np.ceil(2 * 2 * window / scale))
''', '''                n_u = -int(np.floor(-4 * window / scale))
'''),
 (G, '''                if n_u % 2 == 0:
                    n_u += 1
                t_u = B.linspace(-t_u_max, t_u_max, n_u)
''', '''                n_u = 2 * (n_u // 2) + 1
                t_u = t_u_max * B.linspace(-1, 1, n_u)
'''),
 (G, '''                n_z = int(np.ceil(2 * (max(t) - min(t)) / scale))
''', '''                n_z = int(np.ceil(2 * (B.max(t) - B.min(t)) / scale))
'''),
 (G, '''            t_z = B.linspace(min(t), max(t), n_z)

        if n_z''', '''            t_z = np.linspace(np.min(t), np.max(t), n_z)

        if n_z'''),
 (G, '''            lower=min(self.t_u) * 1.5,
            upper=max(self.t_u) * 1.5,
''', '''            lower=1.5 * B.min(self.t_u),
            upper=1.5 * B.max(self.t_u),
'''),
 (G, '''        omega_t = (2 * omega / B.pi) ** 0.25
''', '''        omega_t = B.sqrt(B.sqrt(2 * omega / B.pi))
'''),
 (R, '''    m = model.ms - B.cast(model.dtype, model.ms > model.m_max) * model.m_max
''', '''    m = B.where(model.ms > model.m_max, model.ms - model.m_max, model.ms)
'''),
 (R, '''    alpha = alpha + alpha * B.cast(model.dtype, model.ms == 0)
    beta = 1 / (lam_t**0.5) * B.cast(model.dtype, model.ms <= model.m_max)

    return Diagonal(alpha) + LowRank(left=beta[:, None])
''', '''    alpha = B.where(model.ms == 0, 2 * alpha, alpha)
    beta = B.cast(model.dtype, model.ms <= model.m_max)

    return Dense(B.diag(alpha) + B.outer(beta))
'''),
 (R, '''    result = B.take(result, inverse_perm, axis=1)
    result = B.take(result, inverse_perm, axis=2)

    return result
''', '''    return result[:, inverse_perm, :][:, :, inverse_perm]
'''),
 (R, '''    part1 = sign * d / c * (1 - B.exp(2 * c * sign * B.minimum(B.abs(a), B.abs(b))))
''', '''    nearest = sign * B.minimum(B.abs(a), B.abs(b))
    part1 = -sign * d / c * (B.exp(2 * c * nearest) - 1)
'''),
 (R, '''    return model.alpha_t**2 / 2 / model.alpha * B.exp(-model.lam * B.abs(t1 - t2))
''', '''    power = model.alpha_t**2 / (2 * model.alpha)
    return power * B.exp(-model.lam * (B.maximum(t1, t2) - B.minimum(t1, t2)))
'''),
 (R, '''        gamma = min(gamma, self.alpha / 1.5)
''', '''        gamma_max = self.alpha / 1.5
        if gamma > gamma_max:
            gamma = gamma_max
'''),
 (R, '''            gamma = 1 / (2 * (self.t_u[1] - self.t_u[0]))
''', '''            gamma = 0.5 / (self.t_u[1] - self.t_u[0])
'''),
 (R, '''    factor = (
        model.alpha_t * model.gamma_t * B.exp(-model.gamma * model.t_u[None, :, None])
    )
''', '''    factor = (
        model.alpha_t * model.gamma_t / B.exp(model.gamma * model.t_u)
    )[None, :, None]
'''),
 (R, '''    return factor * B.take(result, inverse_perm, axis=2)
''', '''    result = factor * result
    return B.stack(*[result[:, :, i] for i in inverse_perm], axis=2)
'''),
 (U, '''    total_power = np.trapz(y=np.fft.fftshift(psd), x=np.fft.fftshift(freqs))
    psd /= total_power / k[0]
''', '''    order = np.argsort(freqs)
    f, p = freqs[order], psd[order]
    total_power = np.sum(0.5 * (p[1:] + p[:-1]) * np.diff(f))
    psd = psd * k[0] / total_power
'''),
 (U, '''    freqs = np.fft.fftfreq(len(psd)) / (t[1] - t[0])
''', '''    freqs = np.fft.fftfreq(len(psd), d=t[1] - t[0])
'''),
 (U, '''    psd = np.fft.fft(k_symmetric)
''', '''    psd = np.fft.fft(k_symmetric, n=len(k_symmetric))
'''),
 (U, '''    a = (a + B.transpose(a)) / 2
    s, u = jnp.linalg.eigh(a)
''', '''    a = 0.5 * (a + a.T)
    s, u = np.linalg.eigh(B.to_numpy(a)) if False else jnp.linalg.eigh(a)
'''),
 (U, '''    x = np.reshape(x, -1)  # Flatten the input.
    x = x - np.mean(x)
''', '''    x = x.ravel()
    x = x - x.mean()
'''),
 (U, '''    if window:
        # Do not undo the triangular window.
        k = k / x.size
    else:
        # Divide by the precise numbers of estimates.
        k = k / np.arange(x.size, 0, -1)

    # Get the right number of lags.
    if lags is not None:
        k = k[: lags + 1]
''', '''    # Get the right number of lags.
    if lags is not None:
        k = k[: lags + 1]

    num = x.size
    if window:
        counts = num
    else:
        counts = num - np.arange(len(k))
    k = k / counts
'''),
 (U, '''    random_inds = np.random.permutation(B.shape(samples)[0])[:3]
''', '''    num = len(samples)
    random_inds = np.random.choice(num, size=min(num, 3), replace=False)
'''),
 (U, '''        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
        err_68_upper=transform(B.quantile(samples, 1 - 0.32, axis=0)),
''', '''        err_68_lower=transform(np.percentile(samples, 32, axis=0)),
        err_68_upper=transform(np.quantile(samples, 0.68, axis=0)),
'''),
 (A, '''        return NaturalNormal(
            B.add(p.lam, B.mm(I_sum, x) / self.model.noise),
            B.add(p.prec, (A + B.sum(inner, axis=0)) / self.model.noise),
        )
''', '''        weight = 1 / self.model.noise
        lam = B.add(p.lam, weight * B.mm(I_sum, x))
        prec = B.add(p.prec, weight * B.add(A, B.sum(inner, axis=0)))
        return NaturalNormal(lam, prec)
'''),
 (A, '''        m2 = (
            B.sum(A * u2, axis=(1, 2))
            + B.sum(B_ * z2, axis=(1, 2))
            + c
            + B.sum(u2 * B.mm(ts.I_uz, z2, ts.I_uz, tr_c=True), axis=(1, 2))
        )
''', '''        A = A + B.mm(ts.I_uz, z2, ts.I_uz, tr_c=True)
        m2 = c + B.sum(B.sum(u2 * A, axis=2), axis=1) + B.sum(B.sum(z2 * B_, axis=2), axis=1)
'''),
 (A, '''        quadratic = B.sum(ts.y**2) + B.sum(u * B.mm(ts.A_sum, u)) + ts.c_sum
''', '''        quadratic = B.sum(ts.y * ts.y) + B.squeeze(B.mm(u, ts.A_sum, u, tr_a=True)) + ts.c_sum
'''),
 (A, '''            + B.squeeze(B.iqf(q_z.prec, q_z.lam))
''', '''            + B.sum(q_z.lam * q_z.mean)
'''),
 (A, '''        ts = self.construct_terms(t, y)
        for _ in range(num_samples):
            state, u = self.q_u_optimal(ts, z).sample(state)
            state, z = self.q_z_optimal(ts, u).sample(state)
        elbo = self.log_Z_u(ts, stop_gradient(u)) + self.p_u.logpdf(stop_gradient(u))
''', '''        ts = self.construct_terms(t, y)
        i = 0
        while i < num_samples:
            q_u = self.q_u_optimal(ts, z)
            state, u = q_u.sample(state)
            q_z = self.q_z_optimal(ts, u)
            state, z = q_z.sample(state)
            i += 1
        u_fixed = stop_gradient(u)
        elbo = self.p_u.logpdf(u_fixed) + self.log_Z_u(ts, u_fixed)
'''),
 (A, '''        m1s, m2s = zip(*[predict_moments(u) for u in self._sample_p_u(num_samples)])
        m1 = B.mean(B.stack(*m1s, axis=0), axis=0)
        m2 = B.mean(B.stack(*m2s, axis=0), axis=0)
''', '''        m1, m2, count = 0, 0, 0
        for u in self._sample_p_u(num_samples):
            m1_u, m2_u = predict_moments(u)
            m1 = m1 + m1_u
            m2 = m2 + m2_u
            count += 1
        m1, m2 = m1 / count, m2 / count
'''),
 (A, '''        m1 = B.mean(B.stack(*zs, axis=0), axis=0)
        m2 = B.mean(B.stack(*[z**2 for z in zs], axis=0), axis=0)
        return m1, m2 - m1**2
''', '''        zs = B.stack(*zs, axis=0)
        m1 = B.mean(zs, axis=0)
        return m1, B.mean((zs - m1[None, :]) ** 2, axis=0)
'''),
 (A, '''        names = []
        if previous:
            for i in range(self._q_i):
                names.append("-" + self.model.ps.q_u[i].all())
                names.append("-" + self.model.ps.q_z[i].all())
        if current is True:
            names.append("-" + self.model.ps.q_u[self._q_i].all())
            names.append("-" + self.model.ps.q_z[self._q_i].all())
        elif current == "u":
            names.append("-" + self.model.ps.q_u[self._q_i].all())
        elif current == "z":
            names.append("-" + self.model.ps.q_z[self._q_i].all())
        elif current is not False:
            raise ValueError(f'Invalid value "{current}" for `current`.')
        return names
''', '''        if current not in (True, False, "u", "z"):
            raise ValueError(f'Invalid value "{current}" for `current`.')
        ps = self.model.ps
        qs = []
        if current in (True, "z"):
            qs.append(ps.q_z[self._q_i])
        if current in (True, "u"):
            qs.append(ps.q_u[self._q_i])
        if previous:
            qs.extend(ps.q_z[i] for i in range(self._q_i))
            qs.extend(ps.q_u[i] for i in range(self._q_i))
        return ["-" + q.all() for q in qs]
'''),
 (A, '''        us = self._sample_p_u(num_samples)
        sample_kernel = B.jit(self._sample_kernel)
        return B.stack(*[sample_kernel(t_k, u) for u in us], axis=0)
''', '''        sample_kernel = B.jit(self._sample_kernel)
        samples = []
        for u in self._sample_p_u(num_samples):
            samples.append(sample_kernel(t_k, u)[None, :])
        return B.concat(*samples, axis=0)
'''),
 (M, '''        return summarise_samples(t_h, B.stack(*samples, axis=0))
''', '''        return summarise_samples(t_h, np.stack([B.to_numpy(s) for s in samples], axis=0))
'''),
 (M, "import pickle\n", "import pickle\nimport numpy as np\n"),
 (M, '''        if t_k is None:
            t_k = B.linspace(self.dtype, 0, self.extent, 300)
''', '''        if t_k is None:
            t_k = self.extent * B.linspace(self.dtype, 0, 1, 300)
'''),
 (M, '''        for name, value in data.items():
            if name in self.vs:
                # Overwrite existing values.
                self.vs.assign(name, value)
            else:
''', '''        for name in data:
            value = data[name]
            if name in self.vs.names:
                # Overwrite existing values.
                self.vs.assign(name, value)
            else:
'''),
 (N, '''            self._mean = B.cholsolve(B.chol(self.prec), self.lam)
''', '''            self._mean = B.mm(B.pd_inv(self.prec), self.lam)
'''),
 (N, '''        diff = B.subtract(x, self.mean)
        return -0.5 * (
            -B.logdet(self.prec)
            + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
            + B.sum(B.mm(self.prec, diff) * diff)
        )
''', '''        return self.to_normal().logpdf(x)
'''),
 (S, '''        for i in range(num):
                self._sample()
                samples.append(self.x)

        return samples
''', '''        while len(samples) < num:
                self._sample()
                samples += [self.x]

        return samples
'''),
 (S, '''        self.move(x_init)
        else:
            self.move(sample_prior())
''', '''        x = x_init
        else:
            x = sample_prior()
        self.move(x)
'''),
],
}

X, G, R, U, A, M, N, S = ("gpcm/exppoly.py", "gpcm/gpcm.py", "gpcm/rgpcm.py", "gpcm/util.py", "gpcm/approx.py", "gpcm/model.py",
                          "gpcm/normal.py", "gpcm/sample.py")
GROUPS = {
"r3": [
 # exppoly: shared helpers, comprehensions to loops
 (X, '''    def _integrate(self, name):
        if self.poly.highest_power(name) != 2:
            raise RuntimeError(f'Dependency on "{name}" must be quadratic.')

        a = self.poly.collect_for(Factor(name, 2))
        b = self.poly.collect_for(Factor(name, 1))
        c = self.poly.reject(name)
''', '''    def _quadratic(self, name):
        if self.poly.highest_power(name) != 2:
            raise RuntimeError(f'Dependency on "{name}" must be quadratic.')

        return tuple(self.poly.collect_for(Factor(name, i)) for i in (2, 1)) + (
            self.poly.reject(name),
        )

    def _integrate(self, name):
        a, b, c = self._quadratic(name)
'''),
 (X, '''        if self.poly.highest_power(name) != 2:
            raise RuntimeError(f'Dependency on "{name}" must be quadratic.')

        a = self.poly.collect_for(Factor(name, 2))
        b = self.poly.collect_for(Factor(name, 1))
        c = self.poly.reject(name)

        a = a.eval(**var_map)
        b = b.eval(**var_map)
        c = c.eval(**var_map)

        return (
            0.5
            * self.const
            * safe_sqrt(-B.pi / a)
            * B.exp(-0.25 * b**2 / a + c)
            * (1 - B.erf(0.5 * b / safe_sqrt(-a)))
        )
''', '''        a, b, c = [x.eval(**var_map) for x in self._quadratic(name)]
        root = safe_sqrt(-a)
        tail = 1 - B.erf(b / root / 2)
        return self.const * (B.sqrt(B.pi) / 2) / root * tail * B.exp(c + (b / (2 * root)) ** 2)
'''),
 (X, '''        # Filter doubly infinite limits.
        filtered_vars_and_lims = []
        ep = self
        for name, lower, upper in name_and_lims:
            if is_inf(lower) and is_inf(upper):
                ep = ep._integrate(name)
            else:
                filtered_vars_and_lims.append((name, lower, upper))
        name_and_lims = filtered_vars_and_lims
''', '''        # Integrate over the doubly infinite limits first.
        infinite = [is_inf(lower) and is_inf(upper) for _, lower, upper in name_and_lims]
        ep = reduce(
            lambda x, name: x._integrate(name),
            [x[0] for x, y in zip(name_and_lims, infinite) if y],
            self,
        )
        name_and_lims = [x for x, y in zip(name_and_lims, infinite) if not y]
'''),
 (X, '''                if is_inf(upper):
                    # Only the lower limit is finite. Reflect the variable to integrate
                    # to infinity.
                    lower = _as_poly(lower)  # Ensure that it is a polynomial.
                    parts_new.append(part.substitute(name, lower - var(name)))
                    continue
                upper = _as_poly(upper)  # Ensure that it is a polynomial.
                parts_new.append(part.translate_var(name, upper))
                if not is_inf(lower):
                    lower = _as_poly(lower)  # Ensure that it is a polynomial.
                    parts_new.append(-part.translate_var(name, lower))
            parts = parts_new
''', '''                if is_inf(upper):
                    # Integrate from the lower limit to infinity.
                    parts_new.append(part.substitute(name, -var(name) + _as_poly(lower)))
                else:
                    limits = [(1, upper)] if is_inf(lower) else [(1, upper), (-1, lower)]
                    for sign, limit in limits:
                        parts_new.append(sign * part.translate_var(name, _as_poly(limit)))
            parts = parts_new
'''),
 (X, '''        result = Poly()
        for term in self.terms:
            result = result + term.substitute(name, poly)
        return result
''', '''        terms = []
        for term in self.terms:
            terms.extend(term.substitute(name, poly).terms)
        return Poly(*terms)
'''),
 (X, '''        return reduce(operator.mul, [self] * power, const(1))
''', '''        result = const(1)
        base = self
        while power > 0:
            if power % 2:
                result = result * base
            power //= 2
            if power:
                base = base * base
        return result
'''),
 (X, '''        a_det = a11 * a22 - a12**2
''', '''        a_det = (a11 - a12 * a12 / a22) * a22
'''),
 (X, '''        rho = ia12 / safe_sqrt(ia11 * ia22)
''', '''        rho = ia12 / (safe_sqrt(ia11) * safe_sqrt(ia22))
'''),
 (X, '''        highest_power = 0
        for factor in self.factors:
            if factor.name == name:
                highest_power = max(highest_power, factor.power)
        return highest_power
''', '''        return max([x.power for x in self.factors if x.name == name] + [0])
'''),
 # gpcm
 (G, '''    if t1 is None:
        t1 = B.zeros(model.dtype, 1)
        squeeze_t1 = True
    else:
        squeeze_t1 = False

    if t2 is None:
        t2 = B.zeros(model.dtype, 1)
        squeeze_t2 = True
    else:
        squeeze_t2 = False

    t1 = t1[:, None, None, None]
    t2 = t2[None, :, None, None]
''', '''    squeeze_t1 = t1 is None
    squeeze_t2 = t2 is None
    t1 = B.reshape(B.zeros(model.dtype, 1) if squeeze_t1 else t1, -1, 1, 1, 1)
    t2 = B.reshape(B.zeros(model.dtype, 1) if squeeze_t2 else t2, 1, -1, 1, 1)
'''),
 (G, '''    exppoly = model.k_h(var("t1") - var("tau"), var("t2") - var("tau"))

    if model.causal:
        upper = var("min_t1_t2")
    else:
        upper = np.inf

    return exppoly.integrate_box(
        ("tau", -np.inf, upper), t1=t1, t2=t2, min_t1_t2=B.minimum(t1, t2)
    )
''', '''    expq = model.k_h(var("t1") + var("tau"), var("t2") + var("tau"))
    if model.causal:
        # Substitute `-tau` for `tau`.
        limits = {"l": -B.minimum(t1, t2)}
        return expq.integrate_box(("tau", var("l"), np.inf), t1=t1, t2=t2, **limits)
    return expq.integrate("tau", t1=t1, t2=t2)
'''),
 (G, '''    t = t[:, None, None]
    t_u = model.t_u[None, :, None]
    t_z = model.t_z[None, None, :]

    exppoly = model.k_h(var("t") - var("tau"), var("t_u"))
    exppoly = exppoly * model.k_xs(var("tau"), var("t_z"))

    if model.causal:
        upper = var("t")
    else:
        upper = np.inf

    return exppoly.integrate_box(("tau", -np.inf, upper), t=t, t_u=t_u, t_z=t_z)
''', '''    # Work relative to the time of the observation.
    lag = t[:, None, None] - model.t_z[None, None, :]
    expq = model.k_h(var("r"), var("t_u")) * model.k_xs(var("lag"), var("r"))
    lower = const(0) if model.causal else -np.inf
    return expq.integrate_box(("r", lower, np.inf), lag=lag, t_u=model.t_u[None, :, None])
'''),
 (G, '''        model.k_h(var("t1"), var("t2")).eval(
            t1=model.t_u[:, None], t2=model.t_u[None, :]
        )
''', '''        model.alpha_t**2
        * B.exp(-model.alpha * (model.t_u[:, None] ** 2 + model.t_u[None, :] ** 2))
        * B.exp(-model.gamma * (model.t_u[:, None] - model.t_u[None, :]) ** 2)
'''),
 (G, '''        gamma_scale = B.sqrt(1 / (2 * self.gamma))
        k_h = EQ().stretch(gamma_scale)  # Kernel of filter before window
        k_h *= self.alpha_t**2  # Scale
        k_h *= lambda t: B.exp(-self.alpha * t**2)  # Window
        return k_h
''', '''        window = lambda t: B.exp(-self.alpha * t * t)
        return (self.alpha_t**2 * EQ().stretch((2 * self.gamma) ** -0.5)) * window
'''),
 (G, '''            k_h *= lambda t: B.cast(self.dtype, t >= 0)  # Causality constraint
''', '''            k_h *= lambda t: 1 - B.cast(self.dtype, t < 0)  # Causality constraint
'''),
 # rgpcm
 (R, '''    condition = B.cast(B.dtype(part1), condition)
    return (condition * part1 + part2) / (c**2 - d**2)
''', '''    total = B.where(condition, part1 + part2, part2)
    return total / ((c - d) * (c + d))
'''),
 (R, '''    return (
        integral_abcd(a_ub, b_ub, c, d)
        + integral_abcd(a_lb, b_lb, c, d)
        + -integral_abcd(a_ub, b_lb, c, d)
        + -integral_abcd(a_lb, b_ub, c, d)
    )
''', '''    result = 0
    for sign_a, a in ((1, a_ub), (-1, a_lb)):
        for sign_b, b in ((1, b_ub), (-1, b_lb)):
            result = result + sign_a * sign_b * integral_abcd(a, b, c, d)
    return result
'''),
 (R, '''    return 2 * lam_t * lam / (lam**2 + omega**2)
''', '''    return (2 * lam_t / lam) / (1 + (omega / lam) ** 2)
'''),
 (R, '''        * B.exp(-model.gamma * (t_u_1 + t_u_2) + ga * (t1 + t2))
''', '''        * B.exp(-model.gamma * t_u_1 + ga * t1)
        * B.exp(-model.gamma * t_u_2 + ga * t2)
'''),
 (R, '''    return model.alpha_t**2 / 2 / model.alpha * B.exp(-model.lam * B.abs(t1 - t2))
''', '''    lag = B.maximum(t1, t2) - B.minimum(t1, t2)
    return 0.5 * model.alpha_t**2 * B.exp(-model.lam * lag) / model.alpha
'''),
],
"r4": [
 # approx
 (A, '''        ts.c_sum = (
            ts.I_hx_sum
            - B.sum(self.model.K_u_inv * ts.I_ux_sum)
            - B.sum(self.model.K_z_inv * ts.I_hz_sum)
''', '''        K_u_inv, K_z_inv = B.dense(self.model.K_u_inv), B.dense(self.model.K_z_inv)
        ts.c_sum = (
            ts.I_hx_sum
            - B.trace(B.mm(K_u_inv, ts.I_ux_sum))
            - B.trace(B.mm(K_z_inv, ts.I_hz_sum))
'''),
 (A, '''            ts.I_uz_sum = B.sum(y[:, None, None] * ts.I_uz, axis=0)  # Weight by data.
''', '''            ts.I_uz_sum = sum([y[i] * ts.I_uz[i] for i in range(ts.n)])  # Weight by data.
'''),
 (A, '''        if x2 is not None:
            inner = B.mm(I, x2, I, tr_c=True)
        else:
            # This is _much_ more efficient!
            part = B.mm(I, x)
            inner = B.mm(part, part, tr_b=True)
        return NaturalNormal(
            B.add(p.lam, B.mm(I_sum, x) / self.model.noise),
            B.add(p.prec, (A + B.sum(inner, axis=0)) / self.model.noise),
        )
''', '''        part = B.mm(I, x)
        inner = B.mm(part, part, tr_b=True) if x2 is None else B.mm(B.mm(I, x2), I, tr_b=True)
        inner = B.sum(inner, axis=0)
        lam = B.add(p.lam, B.mm(I_sum, x) / self.model.noise)
        prec = B.add(B.add(p.prec, A / self.model.noise), inner / self.model.noise)
        return NaturalNormal(lam, prec)
'''),
 (A, '''        ts = self.construct_terms(t, y)
        for _ in range(num_samples):
            state, u = self.q_u_optimal(ts, z).sample(state)
            state, z = self.q_z_optimal(ts, u).sample(state)
        elbo = self.log_Z_u(ts, stop_gradient(u)) + self.p_u.logpdf(stop_gradient(u))
        return state, elbo, u, z
''', '''        ts = self.construct_terms(t, y)
        i = 0
        while i < num_samples:
            q_u = self.q_u_optimal(ts, z)
            state, u = q_u.sample(state)
            q_z = self.q_z_optimal(ts, u)
            state, z = q_z.sample(state)
            i += 1
        fixed = stop_gradient(u)
        log_prior = self.p_u.logpdf(fixed)
        return state, log_prior + self.log_Z_u(ts, fixed), u, z
'''),
 (A, '''        recs = [rec(u) for u in _columns(us)]
        return state, sum(recs) / len(recs) - q_u.kl(self.p_u)
''', '''        recs = B.stack(*[rec(u) for u in _columns(us)], axis=0)
        return state, B.mean(recs) - q_u.kl(self.p_u)
'''),
 (A, '''        quadratic = B.sum(ts.y**2) + B.sum(u * B.mm(ts.A_sum, u)) + ts.c_sum
        return 0.5 * (
            -ts.n * B.log(2 * B.pi * self.model.noise)
            - quadratic / self.model.noise
            + B.logdet(self.model.K_z)
            - B.logdet(q_z.prec)
            + B.squeeze(B.iqf(q_z.prec, q_z.lam))
        )
''', '''        noise = self.model.noise
        quadratic = B.sum(ts.y * ts.y) + B.sum(ts.A_sum * B.outer(u)) + ts.c_sum
        result = -0.5 * ts.n * (B.log(2 * B.pi) + B.log(noise)) - 0.5 * quadratic / noise
        result = result + 0.5 * (B.logdet(self.model.K_z) - B.logdet(q_z.prec))
        return result + 0.5 * B.sum(q_z.lam * q_z.mean)
'''),
 (A, '''                -0.5 * ts.n * B.log(2 * B.pi * self.model.noise)
                + (
                    (-0.5 / self.model.noise)
''', '''                -0.5 * ts.n * (B.log(2) + B.log(B.pi) + B.log(self.model.noise))
                - (
                    (1 / (2 * self.model.noise))
'''),
 (A, '''        m1s, m2s = zip(*[predict_moments(u) for u in self._sample_p_u(num_samples)])
        m1 = B.mean(B.stack(*m1s, axis=0), axis=0)
        m2 = B.mean(B.stack(*m2s, axis=0), axis=0)
        # Don't forget to add in the observation noise!
        return m1, m2 - m1**2 + self.model.noise
''', '''        m1, m2, count = 0, 0, 0
        for u in self._sample_p_u(num_samples):
            m1_u, m2_u = predict_moments(u)
            m1, m2, count = m1 + m1_u, m2 + m2_u, count + 1
        m1, m2 = m1 / count, m2 / count
        # Don't forget to add in the observation noise!
        return m1, (m2 - m1 * m1) + self.model.noise
'''),
 (A, '''        m1 = B.flatten(B.mm(u, ts.I_uz, z, tr_a=True))
''', '''        m1 = B.sum(B.mm(ts.I_uz, z) * u, axis=(1, 2))
'''),
 (A, '''            total += B.sqrt(B.mean((x - y) ** 2))
''', '''            total = total + B.std(x - y) if False else total + B.mean(B.abs(x - y) ** 2) ** 0.5
'''),
 (A, '''        names = []
        if previous:
            for i in range(self._q_i):
                names.append("-" + self.model.ps.q_u[i].all())
                names.append("-" + self.model.ps.q_z[i].all())
        if current is True:
            names.append("-" + self.model.ps.q_u[self._q_i].all())
            names.append("-" + self.model.ps.q_z[self._q_i].all())
        elif current == "u":
            names.append("-" + self.model.ps.q_u[self._q_i].all())
        elif current == "z":
            names.append("-" + self.model.ps.q_z[self._q_i].all())
        elif current is not False:
            raise ValueError(f'Invalid value "{current}" for `current`.')
        return names
''', '''        ps = self.model.ps
        ignored = []
        if previous:
            ignored.extend(q[i] for q in (ps.q_u, ps.q_z) for i in range(self._q_i))
        if current is not False:
            choices = {True: [ps.q_u, ps.q_z], "u": [ps.q_u], "z": [ps.q_z]}
            if current not in choices:
                raise ValueError(f'Invalid value "{current}" for `current`.')
            ignored.extend(q[self._q_i] for q in choices[current])
        return ["-" + x.all() for x in ignored]
'''),
 (A, '''        for _ in range(iters):
            q_u = compute_q_u(*q_z)
            q_z = compute_q_z(*q_u)
            current_diff = diff(q_u + q_z, last_q_u + last_q_z)
            progress({"Difference": current_diff})
            last_q_u = q_u
            last_q_z = q_z

            # Perform callback, if given.
            if callback:
                callback(NaturalNormal(*q_u), NaturalNormal(*q_z))

            # Early stop if possible.
            if current_diff < 1e-6:
                break
''', '''        converged = False
        count = 0
        while count < iters and not converged:
            q_u = compute_q_u(*q_z)
            q_z = compute_q_z(*q_u)
            current_diff = diff(q_z, last_q_z) + diff(q_u, last_q_u)
            converged = current_diff < 1e-6
            progress({"Difference": current_diff})
            last_q_u, last_q_z = q_u, q_z
            count += 1

            # Perform callback, if given.
            if callback is not None:
                callback(NaturalNormal(*q_u), NaturalNormal(*q_z))
'''),
 (A, '''    state, us, zs = gibbs_sample(state, iters=iters // 2)
    u, z = us[-1], zs[-1]
''', '''    state, samples_u, samples_z = gibbs_sample(state, iters // 2)
    u = samples_u[len(samples_u) - 1]
    z = samples_z[len(samples_z) - 1]
'''),
 (A, '''        if isinstance(optimise_hypers, bool):
            iters_hypers = iters // num_samples  # Spend the sampling budget.
        else:
            iters_hypers = optimise_hypers
''', '''        iters_hypers = (
            iters // num_samples if optimise_hypers is True else int(optimise_hypers)
        )
'''),
 # normal
 (N, '''        ratio = B.solve(B.chol(self.prec), B.chol(other.prec))
        diff = self.mean - other.mean
        return 0.5 * (
            B.sum(ratio**2)
            - B.logdet(B.mm(ratio, ratio, tr_a=True))
            + B.sum(B.mm(other.prec, diff) * diff)
            - B.cast(self.dtype, self.dim)
        )
''', '''        diff = other.mean - self.mean
        kl = B.trace(B.mm(other.prec, self.var)) - self.dim
        kl = kl + B.logdet(self.prec) - B.logdet(other.prec)
        kl = kl + B.sum(diff * B.mm(other.prec, diff))
        return kl / 2
'''),
 (N, '''            self._m2 = B.cholsolve(B.chol(self.prec), self.prec + B.outer(self.lam))
            self._m2 = B.cholsolve(B.chol(self.prec), B.transpose(self._m2))
''', '''            self._m2 = B.add(self.var, B.outer(self.mean))
'''),
 (N, '''        return -0.5 * (
            -B.logdet(self.prec)
            + B.cast(self.dtype, self.dim) * B.cast(self.dtype, B.log_2_pi)
            + B.sum(B.mm(self.prec, diff) * diff)
        )
''', '''        log_det = B.logdet(self.prec)
        normaliser = 0.5 * (log_det - self.dim * B.log(2 * B.pi))
        return normaliser - 0.5 * B.sum(diff * B.mm(self.prec, diff))
'''),
 # sample: no recursion
 (S, '''        if attempts > max_attempts:
            raise SampleFailedException("Exceeded maximum number of attempts.")

        self._draw_proposal(lower, upper)
        if self.log_lik_x_proposed > u:
            # Proposal is accepted.
            return self.x_proposed, self.log_lik_x_proposed, attempts + 1
        else:
            # Proposal rejected. Shrink bracket and try again.
            if self.theta > 0:
                return self._draw(lower, self.theta, u, attempts + 1)
            else:
                return self._draw(self.theta, upper, u, attempts + 1)
''', '''        while attempts <= max_attempts:
            self._draw_proposal(lower, upper)
            attempts += 1
            if self.log_lik_x_proposed > u:
                return self.x_proposed, self.log_lik_x_proposed, attempts
            # Proposal rejected. Shrink the bracket.
            lower, upper = (lower, self.theta) if self.theta > 0 else (self.theta, upper)

        raise SampleFailedException("Exceeded maximum number of attempts.")
'''),
 (S, '''        self.theta = rng.uniform(lower, upper)
''', '''        self.theta = lower + (upper - lower) * rng.uniform()
'''),
 (S, '''        theta = rng.uniform(0, 2 * B.pi)
        return theta - 2 * B.pi, theta
''', '''        lower = 2 * B.pi * (rng.uniform(0, 1) - 1)
        return lower, lower + 2 * B.pi
'''),
 # util
 (U, '''    spec = np.fft.fft(h)
    phase = np.imag(-hilbert(np.log(np.abs(spec))))
    return np.real(np.fft.ifft(np.abs(spec) * np.exp(1j * phase)))
''', '''    magnitude = np.abs(np.fft.fft(h))
    phase = -np.imag(hilbert(np.log(magnitude)))
    spec = magnitude * np.cos(phase) + 1j * magnitude * np.sin(phase)
    return np.fft.ifft(spec).real
'''),
 (U, '''    k_symmetric = B.concat(k, k[1:-1][::-1])
    psd = np.fft.fft(k_symmetric)
''', '''    k_symmetric = np.concatenate((k, np.flip(k[1:-1])))
    psd = np.fft.fft(k_symmetric)
'''),
 (U, '''    psd /= total_power / k[0]

    # Convert to dB.
    if db:
        psd = 10 * np.log10(psd)

    # Only return non-negative frequencies.
    inds = freqs >= 0
    freqs = freqs[inds]
    psd = psd[inds]

    return freqs, psd
''', '''    psd = psd * (k[0] / total_power)

    # Only return non-negative frequencies.
    keep = np.where(freqs >= 0)[0]
    freqs, psd = freqs[keep], psd[keep]
    return freqs, 10 * np.log10(psd) if db else psd
'''),
 (U, '''    inverse_perm = np.array([-1] * len(perm), dtype=int)
    for i, p in enumerate(perm):
        inverse_perm[p] = i
    return inverse_perm
''', '''    perm = np.asarray(perm)
    inverse_perm = np.empty(len(perm), dtype=int)
    inverse_perm[perm] = np.arange(len(perm))
    return inverse_perm
'''),
 (U, '''    s = B.maximum(s, 0)
    if inv:
        s = B.where(s == 0, 0, 1 / s)
    return B.mm(u * B.expand_dims(s, axis=-2), u, tr_b=True)
''', '''    positive = s > 0
    if inv:
        s = B.where(positive, 1 / B.where(positive, s, 1), 0)
    else:
        s = B.where(positive, s, 0)
    return B.matmul(u, s[..., :, None] * B.transpose(u))
'''),
 (U, '''    k = np.correlate(x, x, mode="full")
    k = k[k.size // 2 :]
''', '''    k = np.array([np.sum(x[: x.size - i] * x[i:]) for i in range(x.size)])
'''),
 (U, '''    hess = jax.jacrev(jax.jacrev(lambda x: f(x[:, None])))(x[:, 0])
''', '''    hess = jax.hessian(lambda x: f(x[:, None]))(x[:, 0])
'''),
 (U, '''        var=transform(B.std(samples, axis=0)) ** 2,
''', '''        var=np.square(transform(np.sqrt(np.var(samples, axis=0)))),
'''),
 (U, '''        err_68_lower=transform(B.quantile(samples, 0.32, axis=0)),
''', '''        err_68_lower=transform(np.percentile(samples, 32, axis=0)),
'''),
],
}

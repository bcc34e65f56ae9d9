"""Edits of maxlike that keep its behaviour, in bundles; refactor.py runs the checks on them: none may raise an alarm."""
R = []


def ref(id, bundle, file, *edits):
    R.append((id, bundle, file, edits))


SK, MB, FU, FO, FB = 'skellam.py', 'maxlike_base.py', 'func/func.py', 'func/func_op.py', 'func/func_base.py'
PR, SI, MA, TE, CO = 'func/func_proba.py', 'func/sigmoid.py', 'func/matrix.py', 'func/tennis.py', 'func/copula.py'
ML, TT, PP = 'maxlike.py', 'tensor/tensor.py', 'preprocessing.py'

# ------------------------------------------------------------------ skellam
ref('sk-vector', 'A', SK, ("""    # a ** u and u! alone overflow
    curve = np.cumprod(np.append(1., a / np.arange(1, size)))
    dcurve = np.append(-1, curve[:-1] - curve[1:])
    return exp(-a) * np.array([curve, dcurve])
""", """    ratios = a / np.arange(1, size)
    curve = np.multiply.accumulate(np.concatenate(([1.], ratios)))
    dcurve = np.empty_like(curve)
    dcurve[0] = -1
    dcurve[1:] = curve[:-1] - curve[1:]
    return np.array([curve, dcurve]) * exp(-a)
"""))
ref('sk-vector2', 'B', SK, ("""    # a ** u and u! alone overflow
    curve = np.cumprod(np.append(1., a / np.arange(1, size)))
    dcurve = np.append(-1, curve[:-1] - curve[1:])
    return exp(-a) * np.array([curve, dcurve])
""", """    curve = [1.0]
    for k in range(1, size):
        curve.append(curve[-1] * a / k)
    curve = exp(-a) * np.array(curve[:size])
    previous = np.concatenate([[0], curve[:-1]])
    return np.stack([curve, previous - curve])
"""))
ref('sk-vector3', 'C', SK, ("""from math import exp
""", ""), ("""    # a ** u and u! alone overflow
    curve = np.cumprod(np.append(1., a / np.arange(1, size)))
    dcurve = np.append(-1, curve[:-1] - curve[1:])
    return exp(-a) * np.array([curve, dcurve])
""", """    curve = np.insert(a / np.arange(1., size), 0, np.exp(-a))
    curve = np.cumprod(curve)
    dcurve = -curve
    dcurve[1:] += curve[:-1]
    return np.vstack((curve, dcurve))
"""))
ref('sk-frame', 'A', SK, ("""    sk_frame = [Poi_a[:, None] * Poi_b[None, :]]
    sk_frame += [dPoi_a[:, None] * Poi_b[None, :]]
    sk_frame += [Poi_a[:, None] * dPoi_b[None, :]]
    return sk_frame
""", """    return [np.outer(u, v) for u, v in
            ((Poi_a, Poi_b), (dPoi_a, Poi_b), (Poi_a, dPoi_b))]
"""))
ref('sk-frame2', 'B', SK, ("""    sk_frame = [Poi_a[:, None] * Poi_b[None, :]]
    sk_frame += [dPoi_a[:, None] * Poi_b[None, :]]
    sk_frame += [Poi_a[:, None] * dPoi_b[None, :]]
    return sk_frame
""", """    return [np.multiply.outer(Poi_a, Poi_b),
            np.multiply.outer(dPoi_a, Poi_b),
            np.multiply.outer(Poi_a, dPoi_b)]
"""))
ref('sk-cdf', 'A', SK, ("""    return poisson_vector(a, n + 1).sum(1)
""", """    Poi, dPoi = poisson_vector(a, size=n + 1)
    return np.array([Poi.sum(), dPoi.sum()])
"""))
ref('sk-mid', 'A', SK, ("""    return v[:, :-1].sum(1) + 0.5 * v[:, -1]
""", """    return v.sum(axis=1) - v[:, -1] / 2
"""))
ref('sk-mid2', 'B', SK, ("""    v = poisson_vector(a, n + 1)
    return v[:, :-1].sum(1) + 0.5 * v[:, -1]
""", """    weights = np.ones(n + 1)
    weights[-1] = 0.5
    return np.dot(poisson_vector(a, n + 1), weights)
"""))
ref('sk-tol2size', 'A', SK, ("""    if len(args) == 0:
        args = [1]  # standard value
    return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
""", """    if not args:
        args = (1, )  # standard value
    mean = sum(args)
    deviation = sum(x ** .5 for x in args)
    return 1 + int(mean - ndtri(tol) * deviation)
"""))
ref('sk-tol2size2', 'B', SK, ("""    return int(-ndtri(tol) * sum(map(lambda x: x ** .5, args)) + sum(args)) + 1
""", """    return int(np.floor(sum(args) - ndtri(tol) * sum(np.sqrt(x) for x in args))) + 1
"""))
ref('sk-skcdf', 'A', SK, ("""    rng = np.arange(size)
    xy = rng[None, :] - rng[:, None]
    xy = (xy >= n) if inverse else (xy <= n)
    return np.asarray(list(map(lambda v: v[xy].sum(), skellam_frame(a, b, size))))
""", """    diff = _difference(size)
    cells = diff >= n if inverse else diff <= n
    return np.array([np.sum(v * cells) for v in skellam_frame(a, b, size)])
"""), ("""    rng = np.arange(size)
    xy = rng[None, :] - rng[:, None]
    s = skellam_frame(a, b, size)
    res = np.asarray(list(zip(*[(v[xy < n].sum(), v[xy > n].sum()) for v in s])))
    return res
""", """    diff = _difference(size)
    frame = skellam_frame(a, b, size)
    return np.array([[v[region].sum() for v in frame]
                     for region in (diff < n, diff > n)])
"""), ("""def skellam_cdf(a, b,""", """def _difference(size):
    rng = np.arange(size)
    return np.subtract.outer(rng, rng).T


def skellam_cdf(a, b,"""))
ref('sk-skcdf2', 'B', SK, ("""    xy = (xy >= n) if inverse else (xy <= n)
    return np.asarray(list(map(lambda v: v[xy].sum(), skellam_frame(a, b, size))))
""", """    if inverse:
        xy, n = -xy, -n
    res = []
    for v in skellam_frame(a, b, size):
        res.append(np.where(xy <= n, v, 0).sum())
    return np.asarray(res)
"""))
ref('sk-proot', 'A', SK, ("""    e = 1
    count = 0
    max_steps = 50
    while abs(e) > abs(tol):
        f, df = poisson_cdf(a, n)
        e = target - f
        step = e / df
        scale_factor = 1
        new_a = a + scale_factor * step
        new_f = f
        new_e = abs(target - new_f)
        for i in range(10):
            if new_a > 0 and new_e < abs(e):
                a = new_a
                break
            else:
                new_a = a + scale_factor * step
                if new_a > 0:
                    new_f, _ = poisson_cdf(new_a, n)
                    new_e = abs(target - new_f)
                scale_factor *= .5
        count += 1
        if count > max_steps:
            raise ConvergenceError(
                "Error: no convergence after %d steps" % max_steps)
    return a
""", """    def error(x):
        value, derivative = poisson_vector(x, n + 1).sum(1)
        return target - value, derivative

    max_steps = 50
    for _ in range(max_steps + 1):
        e, df = error(a)
        step = e / df
        new_a, new_e = a + step, abs(e)
        scale_factor = 1
        for _ in range(10):
            if new_a > 0 and new_e < abs(e):
                a = new_a
                break
            new_a = a + scale_factor * step
            if new_a > 0:
                new_e = abs(error(new_a)[0])
            scale_factor /= 2
        if abs(e) <= abs(tol):
            return a
    raise ConvergenceError(
        "Error: no convergence after %d steps" % max_steps)
"""))
ref('sk-proot2', 'B', SK, ("""    e = 1
    count = 0
    max_steps = 50
    while abs(e) > abs(tol):
        f, df = poisson_cdf(a, n)
        e = target - f
""", """    e = 1
    count = 0
    max_steps = 50
    while abs(e) > abs(tol):
        f, df = poisson_cdf(n=n, a=a)
        e = target - f
"""), ("""                if new_a > 0:
                    new_f, _ = poisson_cdf(new_a, n)
                    new_e = abs(target - new_f)
                scale_factor *= .5
        count += 1
        if count > max_steps:
""", """                if new_a > 0:
                    new_e = abs(poisson_cdf(new_a, n)[0] - target)
                scale_factor = scale_factor * 0.5
        count = count + 1
        if not count <= max_steps:
"""))
ref('sk-sroot', 'A', SK, ("""        skellam = skellam_cdf_pair(a, b, n, tol)
        s, ds = skellam[:, 0], skellam[:, [1, 2]]
        e = np.linalg.norm(target - s)
        step = np.linalg.solve(ds, target - s)
        scale_factor = 1
        new_ab = np.maximum((a, b) + scale_factor * step, floor)
        new_s = s
        new_e = np.linalg.norm(new_s - target)
        for i in range(10):
            if new_e < e:
                a, b = new_ab
                break
            else:
                scale_factor *= .5
                new_ab = np.maximum((a, b) + scale_factor * step, floor)
                new_s = skellam_cdf_pair(new_ab[0], new_ab[1], n, tol)[:, 0]
                new_e = np.linalg.norm(new_s - target)
        count += 1
        if count > max_steps:
""", """        s, da, db = skellam_cdf_pair(a, b, n=n, tol=tol).T
        missing = target - s
        e = np.sqrt((missing ** 2).sum())
        step = np.linalg.inv(np.column_stack((da, db))).dot(missing)
        new_e = e
        new_ab = np.array([max(a + step[0], floor), max(b + step[1], floor)])
        for i in range(1, 11):
            if new_e < e:
                a, b = new_ab
                break
            scale_factor = .5 ** i
            new_ab = np.maximum(np.array([a, b]) + scale_factor * step, floor)
            new_s = skellam_cdf_pair(*new_ab, n=n, tol=tol)[:, 0]
            new_e = np.sqrt(((new_s - target) ** 2).sum())
        count += 1
        if count > max_steps:
"""))
ref('sk-sroot2', 'B', SK, ("""        skellam = skellam_cdf_pair(a, b, n, tol)
        s, ds = skellam[:, 0], skellam[:, [1, 2]]
        e = np.linalg.norm(target - s)
        step = np.linalg.solve(ds, target - s)
""", """        skellam = skellam_cdf_pair(a, b, n, tol)
        s = skellam[:, 0]
        ds = skellam[:, 1:]
        residual = target - s
        e = np.linalg.norm(residual)
        det = ds[0, 0] * ds[1, 1] - ds[0, 1] * ds[1, 0]
        step = np.array([
            ds[1, 1] * residual[0] - ds[0, 1] * residual[1],
            ds[0, 0] * residual[1] - ds[1, 0] * residual[0]]) / det
"""))
ref('sk-croot', 'A', SK, ("""        Poi_a, dPoi_a = poisson_vector(a, size)
        frame = Poi_a[:, None] * Poi_b[None, :]
        dframe = dPoi_a[:, None] * Poi_b[None, :]
        s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
        ds = dframe[xy < 0].sum() + 0.5 * dframe[xy == 0].sum()
        e = abs(target - s)
""", """        weights = (xy < 0) + 0.5 * (xy == 0)
        Poi_a, dPoi_a = poisson_vector(a, size)
        s = np.dot(Poi_a, np.dot(weights, Poi_b))
        ds = np.dot(dPoi_a, np.dot(weights, Poi_b))
        e = abs(target - s)
"""), ("""                Poi_a, _ = poisson_vector(new_a, size)
                frame = Poi_a[:, None] * Poi_b[None, :]
                new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                new_e = abs(target - new_s)
""", """                new_s = np.dot(poisson_vector(new_a, size)[0],
                               np.dot(weights, Poi_b))
                new_e = abs(target - new_s)
"""))
ref('sk-croot2', 'B', SK, ("""        frame = Poi_a[:, None] * Poi_b[None, :]
        dframe = dPoi_a[:, None] * Poi_b[None, :]
        s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
        ds = dframe[xy < 0].sum() + 0.5 * dframe[xy == 0].sum()
        e = abs(target - s)
        step = (target - s) / ds
        scale_factor = 1
        new_a = np.maximum(a + scale_factor * step, floor)
""", """        below, equal = xy < 0, xy == 0

        def mid(frame):
            return frame[below].sum() + frame[equal].sum() / 2

        s = mid(np.outer(Poi_a, Poi_b))
        ds = mid(np.outer(dPoi_a, Poi_b))
        e = abs(s - target)
        step = (target - s) / ds
        scale_factor = 1
        new_a = max(a + step, floor)
"""), ("""                frame = Poi_a[:, None] * Poi_b[None, :]
                new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                new_e = abs(target - new_s)
""", """                new_s = mid(np.outer(Poi_a, Poi_b))
                new_e = abs(target - new_s)
"""))
ref('sk-guess', 'B', SK, ("""    if target >= 1 or target <= 0:
        raise ValueError("target must be between 0 and 1")
""", """    if not 0 < target < 1:
        raise ValueError("target must be between 0 and 1")
"""), ("""    if target1 + target2 >= 1 or min(target1, target2) <= 0:
        raise ValueError
    phi_d = ndtri(target1)
    phi_u = -ndtri(target2)
    sum_ab = 1 / (phi_u - phi_d) ** 2
    diff_ab = 0.5 * (phi_u + phi_d) / (phi_u - phi_d) - n
""", """    if target1 <= 0 or target2 <= 0 or target1 + target2 >= 1:
        raise ValueError
    phi_d, phi_u = ndtri(target1), -ndtri(target2)
    width = phi_u - phi_d
    sum_ab = width ** -2
    diff_ab = (phi_u + phi_d) / (2 * width) - n
"""))
ref('sk-helper-C', 'C', SK, ("""    while abs(e) > abs(tol):
        f, df = poisson_cdf(a, n)
        e = target - f
        step = e / df
        scale_factor = 1
        new_a = a + scale_factor * step
        new_f = f
        new_e = abs(target - new_f)
        for i in range(10):
            if new_a > 0 and new_e < abs(e):
                a = new_a
                break
            else:
                new_a = a + scale_factor * step
                if new_a > 0:
                    new_f, _ = poisson_cdf(new_a, n)
                    new_e = abs(target - new_f)
                scale_factor *= .5
        count += 1
""", """    while abs(e) > abs(tol):
        f, df = poisson_cdf(a, n)
        e = target - f
        a = _backtrack(a, e / df, abs(e),
                       lambda x: abs(target - poisson_cdf(x, n)[0]))
        count += 1
"""), ("""# pdtri(n, target) = poisson_cdf_root
""", """def _backtrack(a, step, e, error):
    # shortens the step until it decreases the error
    scale_factor = 1
    new_a = a + step
    new_e = e
    i = 0
    while i < 10 and not (new_a > 0 and new_e < e):
        new_a = a + scale_factor * step
        if new_a > 0:
            new_e = error(new_a)
        scale_factor *= .5
        i += 1
    return new_a if i < 10 else a


# pdtri(n, target) = poisson_cdf_root
"""))

# ------------------------------------------------------------- maxlike_base
ref('mb-newton', 'A', MB, ("""                mult = 1
                for _ in range(max_inner_steps):
                    new_flat_params = flat_params - mult * step
                    params = self._reshape_params(new_flat_params)
                    g = self.g(params, self.model(params))
                    if g >= prev_g:
                        flat_params = new_flat_params
                        break
                    else:
                        mult *= .5
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
                else:
                    self.converged = False
                    raise ConvergenceError(
                        "Error: the objective function did not increase " +
                        "after %d steps" % max_inner_steps, "step")

                if abs(prev_g / g - 1) < tol:
""", """                flat_params, params, g = self._line_search(
                    flat_params, step, prev_g, max_inner_steps, verbose)

                if abs((prev_g - g) / g) < tol:
"""), ("""    def fit(self, tol=""", """    def _line_search(self, flat_params, step, prev_g, n_steps, verbose):
        # halves the step until the objective doesn't decrease
        for k in range(n_steps):
            candidate = flat_params - step * .5 ** k
            params = self._reshape_params(candidate)
            g = self.g(params)
            if g >= prev_g:
                return candidate, params, g
            if verbose > 1:
                print("\\tmultiplier = ", .5 ** (k + 1))
        self.converged = False
        raise ConvergenceError(
            "Error: the objective function did not increase " +
            "after %d steps" % n_steps, "step")

    def fit(self, tol="""))
ref('mb-newton2', 'B', MB, ("""                if abs(prev_g / g - 1) < tol:
                    self.params = params
                    self.flat_hess_ = hess
                    self.converged = True
                    return True

        elif""", """                change = prev_g / g - 1
                if -tol < change < tol:
                    self.flat_hess_ = hess
                    self.params = params
                    self.converged = True
                    return self.converged

        elif"""), ("""                    if g >= prev_g:
                        flat_params = new_flat_params
                        break
                    else:
                        mult *= .5
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
""", """                    if g < prev_g:
                        mult = mult / 2
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
                        continue
                    flat_params = new_flat_params
                    break
"""), ("""            for k in range(max_steps):
                step, g, grad, hess = self.newton_step(params)
                prev_g = g

                if verbose > 0:
                    print(k, g)
""", """            k = -1
            while k < max_steps - 1:
                k += 1
                step, prev_g, grad, hess = self.newton_step(params)

                if verbose > 0:
                    print(k, prev_g)
"""))
ref('mb-step', 'A', MB, ("""        step = np.linalg.solve(lhess, lgrad)
        c_len = len(self.constraint)
        step = step[:(-(c_len + 1) % step.shape[0]) + 1]
        
        return step, g, lgrad, lhess
""", """        n_free = lgrad.size - len(self.constraint)
        step = np.linalg.solve(lhess, lgrad)[:n_free]
        return step, g, lgrad, lhess
"""))
ref('mb-step2', 'B', MB, ("""        g = self.g(params, y)
        lgrad = self.flat_grad(params, y, der)
        lhess = self.flat_hess(params, y, der, hess)
        
        step = np.linalg.solve(lhess, lgrad)
""", """        lhess = self.flat_hess(params, y, der, hess)
        lgrad = self.flat_grad(params, y, der)
        g = self.g(params, y)

        step = np.dot(np.linalg.inv(lhess), lgrad)
"""))
ref('mb-broyden', 'A', MB, ("""                    y, der = self.model(params), self.model.grad(params)
                    grad = self.flat_grad(params, y, der)
                    dgrad = grad - grad_prev
                    J += np.outer(step - np.dot(J, dgrad), dgrad) / \\
                         (dgrad * dgrad).sum()
""", """                    grad = self.flat_grad(
                        params, self.model(params), self.model.grad(params))
                    dgrad = grad - grad_prev
                    error = step - J.dot(dgrad)
                    J = J + error[:, None] * dgrad[None, :] / dgrad.dot(dgrad)
"""))
ref('mb-broyden2', 'B', MB, ("""                    prev_g = g
                    grad_prev = grad

                    step = -np.dot(J, grad)
                    flat_params = flat_params + step[:i1]
""", """                    prev_g, grad_prev = g, grad

                    step = -J @ grad
                    flat_params = flat_params + step[:grad.size - c_len]
"""), ("""                    y, der = self.model(params), self.model.grad(params)
                    grad = self.flat_grad(params, y, der)
                    dgrad""", """                    y, der, _ = self.model.eval(params)
                    grad = self.flat_grad(params, y, der)
                    dgrad"""), ("""                if not (self.converged and
                        hasattr(self, 'flat_hess_') and
                        self.flat_hess_.shape[0] == grad.shape[0]):
                    self""", """                usable = self.converged and hasattr(self, 'flat_hess_')
                if usable:
                    usable = len(self.flat_hess_) == len(grad)
                if not usable:
                    self"""))
ref('mb-g', 'A', MB, ("""        g = self.like(params, y)
        for param_map, h in self.reg:
            g -= h([params[k] for k in param_map])
        res = g / self.N.sum()
        return float(res)
""", """        penalty = sum((h([params[k] for k in param_map])
                       for param_map, h in self.reg), Tensor(0))
        return float((self.like(params, y) - penalty) / self.N.sum())
"""))
ref('mb-g2', 'B', MB, ("""        g = self.like(params, y)
        for param_map, h in self.reg:
            g -= h([params[k] for k in param_map])
        res = g / self.N.sum()
        return float(res)
""", """        total = float(self.N.sum())
        value = float(self.like(params, y))
        for param_map, h in self.reg:
            value -= float(h([params[k] for k in param_map]))
        return value / total
"""))
ref('mb-ic', 'A', MB, ("""        k = sum(map(np.ma.count, self.params))
        k += nb_extra_params
        k -= len(self.constraint)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return 2 * k / (n - k - 1) - 2 * l
""", """        k, n, l = self._information(nb_extra_params)
        return 2 * (k / (n - k - 1) - l)

    def _information(self, nb_extra_params):
        # degrees of freedom, sample size and mean log likelihood
        k = sum(np.ma.count(p) for p in self.params) + nb_extra_params
        return (k - len(self.constraint), float(self.N.sum()),
                self.g(self.params))
"""), ("""        k = sum(map(np.ma.count, self.params))
        k += nb_extra_params
        k -= len(self.constraint)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return k * np.log(n) / n - 2 * l
""", """        k, n, l = self._information(nb_extra_params)
        return np.log(n) / n * k - 2 * l
"""))
ref('mb-reshape', 'A', MB, ("""        def fix_map(arr):
            return (lambda x: x - np.arange(x.size))(
                (lambda x: np.arange(x.size)[x])(arr))

        # whole numbers do not round the other entries
        flat_array = np.asarray(flat_array)
        flat_array = flat_array.astype(np.result_type(flat_array, val))

        shaped_array = []
        s_0 = 0

        # val is a scalar
        if isinstance(val, (int, float)):
            for p in self.params:
                s_1 = s_0 + p.count()
                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten()),
                    val).reshape(p.shape)
                shaped_array.append(Param(data, mask=p.mask))
                s_0 = s_1
        # val is an array
        else:
            f_0 = 0
            for p in self.params:
                s_1 = s_0 + p.count()
                f_1 = f_0 + p.mask.sum()
                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten()),
                    val[f_0:f_1]).reshape(p.shape)
                shaped_array.append(Param(data, mask=p.mask))
                s_0 = s_1
                f_0 = f_1
        return tuple(shaped_array)
""", """        flat_array = np.asarray(flat_array)
        flat_array = flat_array.astype(np.result_type(flat_array, val))
        shaped_array = []
        s = f = 0
        for p in self.params:
            n_free, n_fixed = p.count(), p.mask.sum()
            data = np.zeros(p.shape, dtype=flat_array.dtype)
            data[~p.mask] = flat_array[s:s + n_free]
            if isinstance(val, (int, float)):
                data[p.mask] = val
            else:
                data[p.mask] = val[f:f + n_fixed]
            shaped_array.append(Param(data, mask=p.mask))
            s += n_free
            f += n_fixed
        return tuple(shaped_array)
"""))
ref('mb-reshape2', 'B', MB, ("""        def fix_map(arr):
            return (lambda x: x - np.arange(x.size))(
                (lambda x: np.arange(x.size)[x])(arr))
""", """        def fix_map(arr):
            fixed = np.flatnonzero(arr)
            return fixed - np.arange(len(fixed))
"""))
ref('mb-matrix', 'A', MB, ("""        # val is a scalar
        if isinstance(val, (int, float)):
            return [[np.insert(np.insert(
                matrix[s_[i]:s_[i + 1], s_[j]:s_[j + 1]],
                val_map[i], val, 0),
                val_map[j], val, 1).reshape(
                p_i.shape + p_j.shape)
                for j, p_j in enumerate(self.params)]
                for i, p_i in enumerate(self.params)]
""", """        # val is a scalar
        if isinstance(val, (int, float)):
            blocks = []
            for i, p_i in enumerate(self.params):
                line = []
                rows = slice(s_[i], s_[i + 1])
                for j, p_j in enumerate(self.params):
                    block = matrix[rows, s_[j]:s_[j + 1]]
                    for axis, where in enumerate((val_map[i], val_map[j])):
                        block = np.insert(block, where, val, axis)
                    line.append(block.reshape(p_i.shape + p_j.shape))
                blocks.append(line)
            return blocks
"""))
ref('mb-std', 'A', MB, ("""        var = np.diag(-np.linalg.inv(self.flat_hess_))
        cut = var.size - len(self.constraint)
        return [p.as_masked() for p in
            self._reshape_array(np.sqrt(var[:cut]))
        ]
""", """        n_free = sum(p.count() for p in self.params)
        var = -np.linalg.inv(self.flat_hess_).diagonal()[:n_free]
        return [p.as_masked() for p in self._reshape_array(var ** .5)]
"""))
ref('mb-grad', 'A', MB, ("""        for param_map, h in self.reg:
            args = [params[k] for k in param_map]
            grad_h = h.grad(args)
            for i, idx in enumerate(param_map):
                grad[idx] -= grad_h[i]

        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
                for d, p in zip(grad, params)] + grad[n:]
        grad = np.concatenate(grad)

        return grad
""", """        for param_map, h in self.reg:
            args = [params[k] for k in param_map]
            for idx, d in zip(param_map, h.grad(args)):
                grad[idx] = grad[idx] - d

        parts = []
        for d, p in zip(grad, params):
            full = np.broadcast_to(d.values, p.shape)
            parts.append(full[~p.mask])
        return np.concatenate(parts + grad[n:])
"""))
ref('mb-hess', 'A', MB, ("""        hess = [[np.broadcast_to(hess[i][j].values, p_i.shape + params[j].shape)[
                     np.multiply.outer(~p_i.mask, ~params[j].mask)].
                     reshape((p_i.count(), params[j].count()))
                 for j in range(i + 1)]
                for i, p_i in enumerate(params)]
        
        hess = [[hess[i][j] for j in range(i)] +
                [hess[j][i].transpose() for j in range(i, n)]
                for i in range(n)]
""", """        free = [~p.mask.ravel() for p in params]
        full = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                shape = params[i].shape + params[j].shape
                block = np.broadcast_to(hess[i][j].values, shape).reshape(
                    (len(free[i]), len(free[j])))
                block = block[free[i]][:, free[j]]
                full[i][j] = block
                full[j][i] = block.T
        hess = full
"""), ("""        hess = np.vstack(list(map(np.hstack, hess)))

        if c_len > 0:
            hess_c = np.vstack(list(map(np.concatenate, hess_c)))
            hess = np.vstack([
                np.hstack([hess, hess_c.transpose()]),
                np.hstack([hess_c,
                           np.zeros((c_len, c_len))])])

        return hess
""", """        hess = np.concatenate([np.concatenate(line, 1) for line in hess], 0)
        if not c_len:
            return hess

        border = np.stack([np.concatenate(line) for line in hess_c])
        corner = np.zeros((c_len, c_len))
        return np.block([[hess, border.T], [border, corner]])
"""))
ref('mb-param', 'B', MB, ("""        return self.values[~self.mask]

    def count(self):
        return (~self.mask).sum()
""", """        return self.values[np.logical_not(self.mask)]

    def count(self):
        return self.mask.size - np.count_nonzero(self.mask)
"""), ("""        try:
            self.params = self.params + (Param(values, mask=fixed), )
        except AttributeError:
            self.params = ()
            self.add_param(values, fixed)
""", """        new_param = Param(values, mask=fixed)
        self.params = getattr(self, 'params', ()) + (new_param, )
"""))

# --------------------------------------------------------------------- func
ref('fu-linear', 'A', FU, ("""        return Tensor(sum(((w * np.asarray(p)).sum()
                           for w, p in zip(params, self.weights))))
""", """        total = 0
        for p, w in zip(params, self.weights):
            total = total + (np.asarray(p) * w).sum()
        return Tensor(total)
"""))
ref('fu-quad', 'A', FU, ("""        val = 0
        for p in params:
            z = (np.asarray(p) - self.u) / self.s
            val += (z * z).sum()
        return Tensor(val)

    def grad(self, params, i):
        z = (np.asarray(params[i]) - self.u) / self.s
        return grad_tensor(2 * z / self.s, params, i, True).sum()
""", """        return Tensor(sum(np.square(self._z(p)).sum() for p in params))

    def _z(self, p):
        return (np.asarray(p) - self.u) / self.s

    def grad(self, params, i):
        return grad_tensor(self._z(params[i]) * (2 / self.s),
                           params, i, True).sum()
"""))
ref('fu-quad2', 'B', FU, ("""            2 * np.ones_like(params[i]) / self.s / self.s,
""", """            np.full(np.shape(params[i]), 2 / self.s ** 2),
"""))
ref('fu-exp', 'A', FU, ("""        f = Tensor(np.exp(params[0]))
        return grad_tensor(f, params, i, True, dim=f.dim)
""", """        f = self(params)
        return grad_tensor(f, params, i, True, dim=f.dim)
"""), ("""        f = Tensor(np.exp(params[0]))
        return hess_tensor(f, params, i, j, True, True, dim=f.dim)
""", """        f = self(params)
        return hess_tensor(f, params, i, j, True, True, dim=f.dim)
"""))
ref('fo-sum', 'A', FO, ("""        n = len(params)
        val = Tensor(0)
        grad = [Tensor(0)] * n
        hess = [[Tensor(0)] * (i + 1) for i in range(n)]
        for w, atom in self.atoms:
            atom_val, atom_grad, atom_hess = atom.eval(params)
            val += w * atom_val
            for i in range(n):
                grad[i] += w * atom_grad[i]
                for j in range(i + 1):
                    hess[i][j] += w * atom_hess[i][j]
        return val + self.b, grad, hess
""", """        terms = [(w, atom.eval(params)) for w, atom in self.atoms]
        val = sum(w * v for w, (v, _, _) in terms)
        grad = [sum(w * g[i] for w, (_, g, _) in terms)
                for i in range(len(params))]
        hess = [[sum(w * h[i][j] for w, (_, _, h) in terms)
                 for j in range(i + 1)] for i in range(len(params))]
        return val + self.b, grad, hess
"""))
ref('fo-sum2', 'B', FO, ("""        return sum((w * atom(params) for w, atom in self.atoms)) + self.b

    def grad(self, params, i):
        return sum((w * atom.grad(params, i) for w, atom in self.atoms))
""", """        val = Tensor(self.b)
        for w, atom in self.atoms:
            val = val + atom(params) * w
        return val

    def grad(self, params, i):
        res = 0
        for w, atom in reversed(self.atoms):
            res += w * atom.grad(params, i)
        return res
"""))
ref('fo-product', 'A', FO, ("""        f_val = [atom(params) for atom in self.atoms]
        hess = 0
        for k, a_k in enumerate(self.atoms):
            hess += sum((Product._prod(f_val, [k, l]) *
                         a_k.grad(params, i) *
                         a_l.grad(params, j).transpose()
                         for l, a_l in enumerate(self.atoms) if k != l))
            hess += Product._prod(f_val, [k]) * a_k.hess(params, i, j)
        return hess
""", """        f_val = [atom(params) for atom in self.atoms]
        d_i = [atom.grad(params, i) for atom in self.atoms]
        d_j = d_i if i == j else [atom.grad(params, j) for atom in self.atoms]
        d_j = [d.transpose() for d in d_j]
        hess = 0
        for k, atom in enumerate(self.atoms):
            hess += self._prod(f_val, [k]) * atom.hess(params, i, j)
            for l in range(len(self.atoms)):
                if l == k:
                    continue
                hess += self._prod(f_val, [k, l]) * d_i[k] * d_j[l]
        return hess
"""))
ref('fo-wrap', 'A', FO, ("""        foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
        val = self._expand(foo_val)
        grad, hess = [], []
        for i in range(len(params)):
            grad.append(self._sum_expanded(
                foo_grad[k] for k in self._indexes(i)))
            hess.append([self._sum_expanded(
                foo_hess[k][l] if k >= l else foo_hess[l][k].transpose()
                for k in self._indexes(i) for l in self._indexes(j))
                for j in range(i + 1)])
        return val, grad, hess
""", """        foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
        n = len(params)
        grad = [Tensor(0)] * n
        hess = [[Tensor(0)] * (i + 1) for i in range(n)]
        for k, i in enumerate(self.param_map):
            grad[i] = grad[i] + self._expand(foo_grad[k])
            for l, j in enumerate(self.param_map):
                if j > i:
                    continue
                h = foo_hess[k][l] if l <= k else foo_hess[l][k].transpose()
                hess[i][j] = hess[i][j] + self._expand(h)
        return self._expand(foo_val), grad, hess
"""))
ref('fo-collapse', 'B', FO, ("""        shape = val.toarray().shape
        for el in getattr(x, 'elements', [x]):
            if el.values.shape[el.x_dim + el.y_dim:] == shape:
                break
        else:
            x = x + Tensor(np.zeros(shape), dim=val.dim)
        return x.sum(self.sum_val, self.sum_dim)
""", """        shape = np.shape(val.toarray())
        elements = x.elements if hasattr(x, 'elements') else (x, )
        full = any(el.values.shape[el.x_dim + el.y_dim:] == shape
                   for el in elements)
        if not full:
            x = x + Tensor(np.zeros(shape), dim=val.dim)
        return x.sum(sum_val=self.sum_val, sum_dim=self.sum_dim)
"""))
ref('fb-affine', 'A', FB, ("""        base_val, base_grad, base_hess = self.base.eval(params)
        val = self.a * base_val + self.b
        grad = [self.a * d for d in base_grad]
        hess = [[self.a * h for h in h_line] for h_line in base_hess]
        return val, grad, hess
""", """        val, grad, hess = self.base.eval(params)
        return (val * self.a + self.b, [d * self.a for d in grad],
                [[h * self.a for h in line] for line in hess])
"""))
ref('fb-compose', 'A', FB, ("""        for k, g_k in enumerate(self.g_list):
            for l, g_l in enumerate(self.g_list):
                if l > k:
                    f_hess = self.f.hess(g_val, l, k).transpose()
                else:
                    f_hess = self.f.hess(g_val, k, l)
                h_val += f_hess.dot_left(dg_i[k]).transpose().\\
                                dot_left(dg_j[l]).transpose()
            f_grad = self.f.grad(g_val, k)
            g_hess = g_k.hess(params, i, j).drop_dim()
            h_val += f_grad.dot_right(g_hess)
        return h_val
""", """        for k, g_k in enumerate(self.g_list):
            g_hess = g_k.hess(params, i, j).drop_dim()
            h_val = h_val + self.f.grad(g_val, k).dot_right(g_hess)

        n = len(self.g_list)
        for k in range(n):
            for l in range(n):
                f_hess = self.f.hess(g_val, max(k, l), min(k, l))
                if l > k:
                    f_hess = f_hess.transpose()
                left = f_hess.dot_left(dg_i[k]).transpose()
                h_val = h_val + left.dot_left(dg_j[l]).transpose()
        return h_val
"""))
ref('fb-compose2', 'B', FB, ("""            grad.append(sum((
                f_grad[k].dot_left(d_k[i])
                for k, d_k in enumerate(g_grad))))
""", """            total = Tensor(0)
            for f_k, d_k in zip(f_grad, g_grad):
                total += f_k.dot_left(d_k[i])
            grad.append(total)
"""), ("""        return sum([self.f.grad(g_val, k).\\
                    dot_left(g.grad(params, i).drop_dim())
                    for k, g in enumerate(self.g_list)])
""", """        f_grad = self.f.grad(g_val)
        return sum(f_grad[k].dot_left(g.grad(params, i).drop_dim())
                   for k, g in enumerate(self.g_list))
"""))
ref('fb-tensors', 'B', FB, ("""    y_dim = np.asarray(params[j]).ndim
    idx  = [slice(None) if x_map is None else None] * x_dim
    idx += [slice(None) if y_map is None else None] * y_dim
    idx += [...]

    if x_map is None:
        x_map = array('b')
    else:
        if x_map is True:
            x_map = array('b', range(x_dim))
        elif isinstance(x_map, (list, tuple)):
            x_map = array('b', x_map)
        else:
            raise ValueError("Invalid mapping")

    if y_map is None:
        y_map = array('b')
    else:
        if y_map is True:
            y_map = array('b', range(y_dim))
        elif isinstance(y_map, (list, tuple)):
            y_map = array('b', y_map)
        else:
            raise ValueError("Invalid mapping")
""", """    y_dim = np.asarray(params[j]).ndim

    def group(mapping, size):
        # index and map of a group of axes
        if mapping is None:
            return [slice(None)] * size, array('b')
        if mapping is True:
            mapping = range(size)
        elif not isinstance(mapping, (list, tuple)):
            raise ValueError("Invalid mapping")
        return [None] * size, array('b', mapping)

    x_idx, x_map = group(x_map, x_dim)
    y_idx, y_map = group(y_map, y_dim)
    idx = x_idx + y_idx + [...]
"""))
ref('pr-poisson', 'A', PR, ("""        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size, dtype=float)
        vec = ((a ** x) / factorial(x))
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        return grad_tensor(vec, params, i, True, dim=1)
""", """        vec = np.zeros(np.shape(params[0]) + (self.size, ))
        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size - 1, dtype=float)
        vec[..., 1:] = a ** x / factorial(x)
        return grad_tensor(vec, params, i, True, dim=1)
"""), ("""        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size, dtype=float)
        vec = (a ** x) / factorial(x)
        return Tensor(vec, dim=1)
""", """        a = np.asarray(params[0])
        return Tensor(np.stack([np.power(a, float(k)) / factorial(k)
                                for k in range(self.size)], -1), dim=1)
"""))
ref('pr-poisson2', 'B', PR, ("""        vec = ((a ** x) / factorial(x))
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        return""", """        vec = a ** x / factorial(x)
        zeros = np.zeros_like(vec[..., :1])
        for _ in range(2):
            vec = np.concatenate((zeros, vec[..., :-1]), axis=-1)
        return"""))
ref('pr-nb', 'A', PR, ("""        m = np.asarray(params[0])[..., None]
        x = np.arange(self.size)
        vec = x * np.log(m)
        vec += gammaln(self.r + x)
        vec -= gammaln(self.r)
        vec += self.r * np.log(self.r)
        vec -= np.log(factorial(x))
        vec -= (x + self.r) * np.log(self.r + m)
        return Tensor(vec, dim=1)

    def grad(self, params, i):
        \"\"\"
        grad_f = (x / m) - (x + r) / (r + m)
        \"\"\"
        m = np.asarray(params[0])[..., None]
        x = np.arange(self.size)
        return grad_tensor(
            x / m - (x + self.r) / (self.r + m),
            params, i, True, dim=1)
""", """        m = np.asarray(params[0])[..., None]
        r, x = self.r, np.arange(self.size)
        norm = gammaln(r + x) - gammaln(r) - gammaln(x + 1)
        return Tensor(norm + x * np.log(m / (r + m)) + r * np.log(r / (r + m)),
                      dim=1)

    def grad(self, params, i):
        \"\"\"
        grad_f = r * (x - m) / (m * (r + m))
        \"\"\"
        m = np.asarray(params[0])[..., None]
        x = np.arange(self.size)
        return grad_tensor(
            self.r * (x - m) / (m * (self.r + m)),
            params, i, True, dim=1)
"""))
ref('si-logistic', 'A', SI, ("""    def grad(self, params, i):
        f = expit(params[0])
        return grad_tensor(f * (1 - f), params, i, True)

    def hess(self, params, i, j):
        f = expit(params[0])
        return hess_tensor(f * (1 - f) * (1 - 2 * f),
                           params, i, j, True, True)
""", """    def grad(self, params, i):
        f = expit(params[0])
        return grad_tensor(f * expit(-np.asarray(params[0])), params, i, True)

    def hess(self, params, i, j):
        f = expit(params[0])
        d = f - f * f
        return hess_tensor(d - 2 * f * d, params, i, j, True, True)
"""))
ref('ma-collapse', 'A', MA, ("""        arr = np.asarray(params[0])
        rng_x = np.arange(arr.shape[-2])
        rng_y = np.arange(arr.shape[-1])
        val = []
        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append((arr * filt).sum((-1, -2)))
        val = np.stack(val, -1)
        return Tensor(val, dim=1)

    def grad(self, params, i):
        ones = np.ones(np.asarray(params[0]).shape)
        rng_x = np.arange(ones.shape[-2])
        rng_y = np.arange(ones.shape[-1])
        val = []
        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append(ones * filt)
        x_dim""", """        arr = np.asarray(params[0])
        val = [np.where(filt, arr, 0).sum(-1).sum(-1)
               for filt in self._filters(arr.shape)]
        return Tensor(np.stack(val, -1), dim=1)

    def _filters(self, shape):
        x, y = np.indices(shape[-2:])
        return [np.sign(a * x + b * y + c) == s
                for a, b, c, s in self.conditions]

    def grad(self, params, i):
        ones = np.ones(np.asarray(params[0]).shape)
        val = [ones * filt for filt in self._filters(ones.shape)]
        x_dim"""))
ref('ma-collapse2', 'B', MA, ("""            val.append((arr * filt).sum((-1, -2)))
""", """            val.append(arr[..., filt].sum(-1))
"""))
ref('ma-markov', 'A', MA, ("""        M[..., 0, 0] = 1.0
        for step in range(self.steps):
            for idx in range(self.size):
                x = self.size - idx - 1
                x_ = min(x + 1, self.size - 1)
                for jdx in range(self.size):
                    y = self.size - jdx - 1
                    y_ = min(y + 1, self.size - 1)
                    f1 = self.skew[x, y]
                    f2 = self.skew[y, x]
                    m = M[..., x, y].copy()

                    M[..., x_, y] += s1 * f1 * m
                    M[..., x, y_] += s2 * f2 * m
                    M[..., x, y]  -= (s1 * f1 + s2 * f2) * m

        return Tensor(M, dim=2)
""", """        last = self.size - 1
        M[..., 0, 0] = 1.0
        for step in range(self.steps):
            N = np.zeros_like(M)
            for x in range(self.size):
                for y in range(self.size):
                    m = M[..., x, y]
                    up = s1 * self.skew[x, y] * m
                    down = s2 * self.skew[y, x] * m
                    N[..., min(x + 1, last), y] += up
                    N[..., x, min(y + 1, last)] += down
                    N[..., x, y] += m - up - down
            M = N

        return Tensor(M, dim=2)
"""))
ref('ma-markov2', 'B', MA, ("""            e = 0
            for x in range(2 * self.size - 1):
                x_ = max(x - 1, 0)
                f1 = self.skew[x]
                f2 = self.skew[2 * self.size - 2 - x]
                m = M[..., x].copy()
                M[..., x_] += m * s2 * f2
                M[..., x]  -= m * (s1 * f1 + s2 * f2)
                M[..., x]  += e # from prev item
                e = m * s1 * f1
            M[..., -1] += e

        return""", """            up = M * s1[..., None] * self.skew
            down = M * s2[..., None] * self.skew[::-1]
            M = M - up - down
            M[..., 1:] += up[..., :-1]
            M[..., -1] += up[..., -1]
            M[..., :-1] += down[..., 1:]
            M[..., 0] += down[..., 0]

        return"""))
ref('te-game', 'A', TE, ("""        g = []
        g.append(p ** 4)
        g.append(4 * p ** 4 * q)
        g.append(10 * p ** 4 * q ** 2)
        g.append(20 * p ** 5 * q ** 3 / (1 - 2 * p * q))
        return Tensor(np.stack(g).swapaxes(0, -1), dim=1)
""", """        deuce = p * p / (p * p + q * q)
        g = [c * p ** 4 * q ** k for k, c in enumerate((1, 4, 10))]
        g.append(20 * p ** 3 * q ** 3 * deuce)
        return Tensor(np.swapaxes(np.array(g), 0, -1), dim=1)
"""), ("""        p, t = params
        p = np.minimum(p, 1 - 1e-10)
        p = np.maximum(p, 1e-10)
        q = 1 - p
""", """        p, t = params
        p = np.clip(p, 1e-10, 1 - 1e-10)
        q = 1 - p
"""))
ref('co-wrap', 'A', CO, ("""        F_xy = np.insert(F_xy, 0, 0, -1)
        F_xy = np.insert(F_xy, 0, 0, -2)
        # add 999 at end
        res = np.diff(np.diff(F_xy, 1, -1), 1, -2)
        return Tensor(res)
""", """        F = np.zeros(F_xy.shape[:-2] +
                     (F_xy.shape[-2] + 1, F_xy.shape[-1] + 1))
        F[..., 1:, 1:] = F_xy
        return Tensor(np.diff(np.diff(F, axis=-1), axis=-2))
"""))
ref('co-wrap2', 'B', CO, ("""        x = np.asarray(params[0]).cumsum(-1)
        y = np.asarray(params[1]).cumsum(-1)
        x = x / x[..., -1][..., None]
        y = y / y[..., -1][..., None]
""", """        x, y = (np.cumsum(np.asarray(p), axis=-1) for p in params[:2])
        x = x / x[..., -1:]
        y = y / y[..., -1:]
"""), ("""            np.power(x, -self.a) + np.power(y, -self.a) - 1,
            -1 / self.a)
""", """            x ** -self.a + y ** -self.a - 1,
            -1 / self.a)
"""), ("""        return (-1 / self.a) * np.log(1 +
            (np.exp(-self.a * x) - 1) *
            (np.exp(-self.a * y) - 1) /
            (np.exp(-self.a) - 1))
""", """        ex, ey, e1 = (np.expm1(-self.a * u) for u in (x, y, 1))
        return -np.log1p(ex * ey / e1) / self.a
"""))

# ------------------------------------------------------------------ maxlike
ref('ml-poisson', 'A', ML, ("""        delta2 = self.N * np.exp(y)
        delta = self.X - delta2
        return [[(hess[i][j] * delta -
                  der[i] * der[j].transpose() * delta2).sum()
                 for j in range(i + 1)] for i in range(len(der))]
""", """        expected = self.N * np.exp(y)
        delta = self.X - expected
        res = []
        for i, d_i in enumerate(der):
            line = []
            for j in range(i + 1):
                cross = d_i * der[j].transpose()
                line.append((hess[i][j] * delta).sum() -
                            (cross * expected).sum())
            res.append(line)
        return res
"""), ("""        return (self.X * y - self.N * np.exp(y) -
                gammaln(self.X + 1)).sum()
""", """        return (self.X * y).sum() - (self.N * np.exp(y)).sum() - \\
               gammaln(self.X + 1).sum()
"""))
ref('ml-logistic', 'A', ML, ("""        p = 1 / (1 + np.exp(-y))
        delta = self.X - p * self.N
        delta2 = p * (1 - p) * self.N
""", """        p = expit(y)
        expected = p * self.N
        delta = self.X - expected
        delta2 = expected - expected * p
"""), ("import gammaln", "import expit, gammaln"), ("""        return -(self.N * np.log(1 + np.exp(-y)) +
                 (self.N - self.X) * y).sum()
""", """        p = expit(y)
        return (self.X * np.log(p) + (self.N - self.X) * np.log(1 - p)).sum()
"""))
ref('ml-zip', 'B', ML, ("""        exp_y = np.exp(y)
        t = exp_y / (1 + (self.s - 1) * np.exp(-exp_y))
        delta = self.X - self.N * t
        delta2 = self.N * t * (1 + t * (self.s - 1) * np.exp(-exp_y))
""", """        exp_y = np.exp(y)
        w = (self.s - 1) * np.exp(-exp_y)
        t = exp_y / (1 + w)
        delta = self.X - self.N * t
        delta2 = self.N * (t + t * t * w)
"""), ("""        return (self.X * y + Tensor(xlogy(np.asarray(self.Z), self.s)) -
                self.N * np.log(np.exp(np.exp(y)) + self.s - 1) - 
                gammaln(self.X + 1)).sum()
""", """        norm = np.log(np.exp(np.exp(y)) + (self.s - 1))
        like = self.X * y
        like += Tensor(xlogy(np.asarray(self.Z), self.s))
        like -= self.N * norm
        like -= gammaln(self.X + 1)
        return like.sum()
"""))
ref('ml-finite', 'A', ML, ("""        z = y.sum(False)
        return (self.N * (np.log(y) - np.log(z))).sum()
""", """        return (self.N * np.log(y / y.sum(False))).sum()
"""), ("""        grad = []
        z = y.sum(False)
        for d in der:
            dz = d.sum(False)
            grad.append((self.N * (d / y - dz / z)).sum())
        return grad
""", """        z = y.sum(False)
        return [(self.N * (d / y)).sum() - (self.N * (d.sum(False) / z)).sum()
                for d in der]
"""))
ref('ml-finite2', 'B', ML, ("""        H = []
        z = y.sum(False)
        dz = [d.sum(False) for d in der]
        for i in range(len(params)):
            hess_line = []
            for j in range(i + 1):
                h = hess[i][j]
                hz = h.sum(False)
                H1 = (h - der[i] * der[j].transpose() / y) / y
                H2 = (hz - dz[i] * dz[j].transpose() / z) / z
                hess_line.append((self.N * (H1 - H2)).sum())
            H.append(hess_line)
        return H
""", """        def second(h, d_i, d_j, v):
            # second derivative of log v
            return (h - d_i * d_j.transpose() / v) / v

        z = y.sum(False)
        dz = [d.sum(False) for d in der]
        return [[(self.N * (second(hess[i][j], der[i], der[j], y) -
                            second(hess[i][j].sum(False), dz[i], dz[j], z))
                  ).sum() for j in range(i + 1)] for i in range(len(params))]
"""))
ref('ml-nb', 'A', ML, ("""        s = m / (m + r)
        delta = self.X - (self.X + r * self.N) * s
        delta2 = (self.X + r * self.N) * s * s - self.X + delta
""", """        s = m / (m + r)
        total = self.X + r * self.N
        delta = self.X - total * s
        delta2 = -(total * s * (1 - s))
"""))

# ------------------------------------------------------------------- tensor
ref('tt-expand-diag', 'A', TT, ("""    idx = np.ones(arr.ndim, dtype=np.int32)
    for k, f in enumerate(mapping):
        if f < 0:
            continue
        n = arr.shape[p + f]
        idx[q + k] = n
        idx[p + f] = n
        arr = arr * np.eye(n).reshape(idx)
        idx[q + k] = 1
        idx[p + f] = 1
    return arr
""", """    for k, f in enumerate(mapping):
        if f >= 0:
            n = arr.shape[p + f]
            shape = [1] * arr.ndim
            shape[q + k] = shape[p + f] = n
            arr = arr * np.eye(n).reshape(shape)
    return arr
"""))
ref('tt-gsum', 'A', TT, ("""        # sizes of the value/dim axes of each element
        el_shapes = np.ones(
            (len(self.elements), self.n + self.dim), dtype=np.int64)
        for k, el in enumerate(self.elements):
            p = el.x_dim + el.y_dim
            if el.n > 0:
                el_shapes[k, :self.n] = el.values.shape[p:p + el.n]
            if el.dim > 0:
                el_shapes[k, self.n:] = el.values.shape[p + el.n:]
""", """        # sizes of the value/dim axes of each element
        el_shapes = np.array([
            (el.values.shape[el.x_dim + el.y_dim:][:el.n] or (1, ) * self.n) +
            (el.values.shape[el.values.ndim - el.dim:]
             if el.dim else (1, ) * self.dim)
            for el in self.elements], dtype=np.int64).reshape(
                len(self.elements), self.n + self.dim)
"""))
ref('tt-sum', 'A', TT, ("""        # swapping for y + cross_map setup
        cross_map = {}
        for k, f in enumerate(self.y_map):
            if f not in sum_val:
                continue
            if f in self.x_map:
                l = self.x_map.index(f)
                cross_map[l] = k
            else:
                val = val.swapaxes(self.x_dim + k, p + f)
""", """        # swapping for y + cross_map setup
        cross_map = {}
        for k, f in enumerate(self.y_map):
            if f in sum_val and f in self.x_map:
                cross_map[self.x_map.index(f)] = k
            elif f in sum_val:
                val = np.swapaxes(val, self.x_dim + k, p + f)
"""))
ref('tt-binop', 'A', TT, ("""            if op_type == TensorOp.ADD:
                elements = [self, other]
            elif op_type == TensorOp.SUB:
                elements = [self, -other]
            elif op_type == TensorOp.RSUB:
                elements = [-self, other]
            else:
                raise ValueError

            return GenericTensor(x_dim, y_dim, n, dim, elements)
""", """            left = -self if op_type == TensorOp.RSUB else self
            right = -other if op_type == TensorOp.SUB else other
            return GenericTensor(x_dim, y_dim, n, dim, (left, right))
"""))
ref('tt-binop2', 'B', TT, ("""            # there are other cases where we can do merging
            # when the shape of one of the arrays 'contains' the other

            if op_type == TensorOp.ADD:
                elements = [self, other]
""", """            # the sum is kept in dense form
            if not (self.x_map or self.y_map or other.x_map or other.y_map):
                raise InvalidOperation

            if op_type == TensorOp.ADD:
                elements = [other, self]
"""))
ref('tt-dot', 'B', TT, ("""        p = self.x_dim + self.y_dim

        l_idx = [slice(None)] * (other.x_dim + other.n) + \\
                [None] * (self.y_dim + self.n) + \\
                [slice(None)] * other.dim + \\
                [None] * (dim - other.dim)
        r_idx = [None] * other.x_dim + [...] + [None] * (dim - self.dim)
""", """        p = self.x_dim + self.y_dim

        keep, new = slice(None), None
        l_idx = [keep] * (other.x_dim + other.n)
        l_idx.extend([new] * (self.y_dim + self.n))
        l_idx.extend([keep] * other.dim)
        l_idx.extend([new] * (dim - other.dim))
        r_idx = [new] * other.x_dim + [keep] * self.values.ndim
        r_idx += [new] * (dim - self.dim)
"""))
ref('tt-gdot', 'A', TT, ("""    def dot_left(self, other):
        if isinstance(other, Tensor):
            gt = GenericTensor()
            for el in self.elements:
                gt = gt + el.dot_left(other)
            return gt

        if isinstance(other, GenericTensor):
            gt = GenericTensor()
            for el in other.elements:
                gt = gt + self.dot_left(el)
            return gt

        raise ValueError
""", """    def dot_left(self, other):
        if isinstance(other, GenericTensor):
            terms = (self.dot_left(el) for el in other.elements)
        elif isinstance(other, Tensor):
            terms = (el.dot_left(other) for el in self.elements)
        else:
            raise ValueError
        return sum(terms, GenericTensor())
"""))
ref('tt-transpose', 'A', TT, ("""        val = self.values
        if (self.x_dim > 0) & (self.y_dim > 0):
            for k in range(0, self.y_dim):
                val = np.moveaxis(val, self.x_dim + k, k)
        return""", """        p = self.x_dim + self.y_dim
        order = list(range(self.x_dim, p)) + list(range(self.x_dim))
        val = self.values.transpose(order + list(range(p, self.values.ndim)))
        return"""))
ref('tt-expand', 'A', TT, ("""            rng = np.arange(self.values.ndim)
            rng[p:pn] = rng[p:pn][np.argsort(where)]
            where = array('b', where)
""", """            rng = list(range(p)) + [
                p + k for k in sorted(range(self.n), key=lambda k: where[k])]
            rng += range(pn, self.values.ndim)
            where = array('b', where)
"""))
ref('tt-reshape', 'B', TT, ("""        idx = []
        if self.x_dim > 0:
            # assert self.x_dim == x_dim
            idx += [slice(None)] * x_dim
        elif self.x_dim == 0:
            idx += [None] * x_dim
        if self.y_dim > 0:
            # assert self.y_dim == y_dim
            idx += [slice(None)] * y_dim
        elif self.y_dim == 0:
            idx += [None] * y_dim
        if self.n > 0:
            # assert self.n == n
            idx += [slice(None)] * n
        elif self.n == 0:
            idx += [None] * n
        if self.dim > 0:
            # assert self.dim == dim
            idx += [slice(None)] * dim
        elif self.dim == 0:
            idx += [None] * dim

        return tuple(idx)""", """        groups = zip((self.x_dim, self.y_dim, self.n, self.dim),
                     (x_dim, y_dim, n, dim))
        return sum(((slice(None) if own else None, ) * size
                    for own, size in groups), ())"""))
# ------------------------------------------------------------ preprocessing
ref('pp-count', 'A', PP, ("""    X = series.values[:, None] == np.arange(size - 1)[None, :]
    return pd.DataFrame(
        np.insert(X, -1, X.sum(-1) == False, 1),
""", """    X = np.equal.outer(series.values, np.arange(size - 1))
    rest = ~X.any(axis=1)
    return pd.DataFrame(
        np.column_stack([X[:, :-1], rest, X[:, -1]]),
"""))
ref('pp-frame', 'A', PP, ("""    w = df[weight_col].to_frame('N').groupby(df.index).sum().\\
        reindex(new_index).fillna(0)
    df = (df[result_col] * df[weight_col]).groupby(df.index).\\
        agg(**transformations).reindex(new_index).fillna(0)
    res = {k: df[k].values.reshape(shape) for k in transformations.keys()}
    res['N'] = w.values.reshape(shape)
    return res, axis
""", """    weights = df[weight_col].groupby(df.index).sum()
    values = df[result_col].mul(df[weight_col])
    cells = values.groupby(df.index).agg(**transformations)
    cells = cells.reindex(new_index, fill_value=0).fillna(0)
    res = {}
    for k in transformations:
        res[k] = cells[k].to_numpy().reshape(shape)
    res['N'] = weights.reindex(new_index).fillna(0).to_numpy().reshape(shape)
    return res, axis
"""))
ref('pp-series', 'A', PP, ("""        axis = sorted(observations.index.unique())    
        if add_axis is not None:
            axis = sorted(set(axis).union(add_axis))
        shape = (len(axis))
""", """        labels = set(observations.index)
        if add_axis is not None:
            labels |= set(add_axis)
        axis = sorted(labels)
        shape = len(axis)
"""), ("""        shape = tuple((len(a) for a in axis))
        df = observations.groupby(observations.index).agg(**transformations).\\
            reindex(pd.MultiIndex.from_product(axis)).fillna(0)
""", """        shape = tuple(map(len, axis))
        grouped = observations.groupby(observations.index)
        df = pd.concat({k: grouped.agg(f) for k, f in transformations.items()},
                       axis=1)
        df = df.reindex(pd.MultiIndex.from_product(axis)).fillna(0)
"""))

# ------------------------------------------------------------------ bundle D
ref('mb-split', 'D', MB, ("""        if method == "newton":

            # if the model raises an error, the fit has not converged
            self.converged = False
            max_inner_steps = 5
            for k in range(max_steps):
                step, g, grad, hess = self.newton_step(params)
                prev_g = g

                if verbose > 0:
                    print(k, g)

                mult = 1
                for _ in range(max_inner_steps):
                    new_flat_params = flat_params - mult * step
                    params = self._reshape_params(new_flat_params)
                    g = self.g(params, self.model(params))
                    if g >= prev_g:
                        flat_params = new_flat_params
                        break
                    else:
                        mult *= .5
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
                else:
                    self.converged = False
                    raise ConvergenceError(
                        "Error: the objective function did not increase " +
                        "after %d steps" % max_inner_steps, "step")

                if abs(prev_g / g - 1) < tol:
                    self.params = params
                    self.flat_hess_ = hess
                    self.converged = True
                    return True

        elif method""", """        if method == "newton":
            if self._fit_newton(flat_params, tol, max_steps, verbose):
                return True

        elif method"""), ("""    def fit(self, tol=""", """    def _finish(self, params, hess):
        self.params, self.flat_hess_, self.converged = params, hess, True

    def _fit_newton(self, free, tol, max_steps, verbose):
        self.converged = False
        params = self.params
        for k in range(max_steps):
            step, before, _, hess = self.newton_step(params)
            if verbose > 0:
                print(k, before)
            mult, trials = 1.0, 0
            while True:
                params = self._reshape_params(free - mult * step)
                after = self.g(params)
                if after >= before:
                    free = free - mult * step
                    break
                mult, trials = mult / 2, trials + 1
                if verbose > 1:
                    print("\\tmultiplier = ", mult)
                if trials == 5:
                    self.converged = False
                    raise ConvergenceError(
                        "Error: the objective function did not increase " +
                        "after %d steps" % trials, "step")
            if abs(before - after) < tol * abs(after):
                self._finish(params, hess)
                return True
        return False

    def fit(self, tol="""), ("""                        self.params = params
                        self.flat_hess_ = pinvh(J)
                        self.converged = True
                        return True
""", """                        self._finish(params, pinvh(J))
                        return True
"""), ("""            except Exception as err:
                self.converged = False
                raise err
""", """            except Exception:
                self.converged = False
                raise
"""))
ref('mb-slots', 'D', MB, ("""        object.__setattr__(self, 'values', values)
        object.__setattr__(self, 'mask',   mask)
        object.__setattr__(self, 'shape',  self.values.shape)
        object.__setattr__(self, 'hash',   getrandbits(128))
        self.values.flags["WRITEABLE"] = False
""", """        values.setflags(write=False)
        for name, value in (('values', values), ('mask', mask),
                            ('shape', values.shape),
                            ('hash', getrandbits(128))):
            object.__setattr__(self, name, value)
"""))
ref('mb-error', 'D', MB, ("""            -np.ma.array(pinvh(self.flat_hess_.data), mask=mask))
""", """            np.ma.array(pinvh(-np.asarray(self.flat_hess_.data)), mask=mask))
"""), ("""        var = np.diag(-np.linalg.inv(self.flat_hess_))
""", """        var = np.diag(np.linalg.inv(-self.flat_hess_))
"""))
ref('mb-hess2', 'D', MB, ("""            grad_g = g.grad(args)
            hess_g = g.hess(args)
            for i, idx in enumerate(param_map):
                hess_c[k][idx] += grad_g[i].sum().values
""", """            _, grad_g, hess_g = g.eval(args)
            for i, idx in enumerate(param_map):
                hess_c[k][idx] += grad_g[i].sum().values
"""), ("""        hess = np.vstack(list(map(np.hstack, hess)))

        if c_len > 0:
            hess_c = np.vstack(list(map(np.concatenate, hess_c)))
            hess = np.vstack([
                np.hstack([hess, hess_c.transpose()]),
                np.hstack([hess_c,
                           np.zeros((c_len, c_len))])])

        return hess
""", """        hess = np.vstack([np.hstack(line) for line in hess])
        m = len(hess)
        res = np.zeros((m + c_len, m + c_len))
        res[:m, :m] = hess
        for k, line in enumerate(hess_c):
            res[m + k, :m] = res[:m, m + k] = np.concatenate(line)
        return res
"""))
ref('tt-private', 'D', TT, ("""    def __unmapped(self, mapping):""", """    def _free_part(self, mapping):"""),
    ("self.__unmapped(", "self._free_part("), ("self.__unmapped(", "self._free_part("), ("self.__unmapped(", "self._free_part("),
    ("""        # special case: 1
            elif other == 1:
                if op_type in [TensorOp.MUL, TensorOp.DIV]:
                    return self
""", """        # special case: 1
            elif other == 1 and op_type in (TensorOp.MUL, TensorOp.DIV):
                return self
"""), ("""        val = np.asarray(val.sum(tuple(idx)))
""", """        for axis in sorted(map(int, idx), reverse=True):
            val = np.asarray(val.sum(axis))
"""), ("""            new_elements = list(self.elements)
            if op_type in [TensorOp.ADD, TensorOp.SUB]:
                for k, el in enumerate(new_elements):
                    new_el = el.bin_op(other, op_type)
                    if isinstance(new_el, Tensor):
                        new_elements[k] = new_el
                        break
                else:
                    # other isn't coherent with any of the current elements
                    if op_type == TensorOp.ADD:
                        new_elements.append(other)
                    elif op_type == TensorOp.SUB:
                        new_elements.append(-other)
                    else:
                        raise InvalidOperation
""", """            new_elements = list(self.elements)
            if op_type in [TensorOp.ADD, TensorOp.SUB]:
                if op_type == TensorOp.SUB:
                    other = -other
                for k, el in enumerate(new_elements):
                    new_el = el + other
                    if isinstance(new_el, Tensor):
                        new_elements[k] = new_el
                        break
                else:
                    # other isn't coherent with any of the current elements
                    new_elements.append(other)
"""))
ref('tt-sum-einsum', 'D', TT, ("""        arr = self.values
        p = self.x_dim + self.y_dim
        arr = arr_expand_diag(arr,          0, p, self.x_map)
        arr = arr_expand_diag(arr, self.x_dim, p, self.y_map)
        return arr
""", """        arr = self.values
        p = self.x_dim + self.y_dim
        for q, mapping in ((self.x_dim, self.y_map), (0, self.x_map)):
            arr = arr_expand_diag(arr, q, p, mapping)
        return arr
"""))
ref('tt-diag', 'D', TT, ("""    arr = np.diagonal(arr, 0, k, f)
    arr = np.moveaxis(arr, -1, f - 1)
    return np.expand_dims(arr, k)
""", """    n = arr.shape[f]
    return np.stack([np.take(np.take(arr, u, f), [u], k)
                     for u in range(n)], f)
"""))
ref('fo-lists', 'D', FO, ("""        return sum((w * atom.hess(params, i, j) for w, atom in self.atoms))
""", """        blocks = [atom.hess(params, i, j) for _, atom in self.atoms]
        weights = [w for w, _ in self.atoms]
        return sum(map(lambda w, h: w * h, weights, blocks))
"""), ("""        try:
            return reduce(lambda x, y: x * y,
                          (el for i, el in enumerate(arr)
                           if i not in except_idx))
        except TypeError:
            return 1.0
""", """        res = 1.0
        for i, el in enumerate(arr):
            if i not in except_idx:
                res = res * el
        return res
"""), ("""        for k, atom in enumerate(self.atoms):
            atom_val, atom_grad, atom_hess = atom.eval(params)
            for i in range(n):
                for j in range(i + 1):
                    hess[i][j] = val * atom_hess[i][j] + \\
                                 atom_val * hess[i][j] + \\
                                 grad[i] * atom_grad[j].transpose() + \\
                                 atom_grad[i] * grad[j].transpose()
            for i in range(n):
                grad[i] = val * atom_grad[i] + atom_val * grad[i]
            val *= atom_val
""", """        for atom in self.atoms:
            u, d, h = atom.eval(params)
            for i in reversed(range(n)):
                for j in range(i + 1):
                    cross = d[i] * grad[j].transpose()
                    cross = cross + grad[i] * d[j].transpose()
                    hess[i][j] = val * h[i][j] + u * hess[i][j] + cross
            grad = [val * d[i] + u * grad[i] for i in range(n)]
            val = val * u
"""))
ref('fo-add', 'D', FO, ("""        if isinstance(foo, Affine):
            self.b += weight * foo.b
            self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
        elif""", """        if isinstance(foo, Affine):
            self.add(foo.base, param_map, feat_map, dim_map, foo.a * weight)
            self.b = self.b + foo.b * weight
        elif"""))
ref('te-set', 'D', TE, ("""            d.append(6 * p ** 5)
            d.append(6 * (6 - 7 * p) * p ** 5)
            d.append(42 * (3 - 4 * p) * q * p ** 5)
            d.append(168 * (2 - 3 * p) * q ** 2 * p ** 5)
            d.append(252 * (3 - 5 * p) * q ** 3 * p ** 5)
""", """            # derivatives of c * p^6 * q^k
            for k, c in enumerate((1, 6, 21, 56, 126)):
                term = 6 * c * p ** 5 * q ** k
                if k:
                    term = term - k * c * p ** 6 * q ** (k - 1)
                d.append(term)
"""), ("""        h.append(12 * p ** 2)
        h.append(16 * (3 - 5 * p) * p ** 2)
        h.append(20 * (5 * (1 - 3 * p) * q + 1) * p ** 2)
""", """        p2 = p * p
        h += [12 * p2, 16 * (3 - 5 * p) * p2,
              20 * (5 * (1 - 3 * p) * q + 1) * p2]
"""))
ref('pr-share', 'D', PR, ("""        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size, dtype=float)
        vec = (a ** x) / factorial(x)
        val = Tensor(vec, dim=1)
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        grad = grad_tensor(vec, params, 0, True, dim=1)
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        hess = hess_tensor(vec, params, 0, 0, True, True, dim=1)
        return val, [grad], [[hess]]
""", """        return self(params), [self.grad(params, 0)], [[self.hess(params, 0, 0)]]
"""), ("""        return grad_tensor(
            x / m - (x + self.r) / (self.r + m),
            params, i, True, dim=1)
""", """        d = x / m
        d = d - (x + self.r) / (self.r + m)
        return grad_tensor(d, params, i, x_map=True, dim=1)
"""))
ref('ma-eval', 'D', MA, ("""                    H11[..., x_, y] += s1 * f1 * hm11 + 2 * f1 * dm1
                    H11[..., x, y_] += s2 * f2 * hm11
                    H11[..., x, y]  -= 2 * f1 * dm1 + (s1 * f1 + s2 * f2) * hm11
""", """                    right = f1 * (s1 * hm11 + 2 * dm1)
                    up = f2 * s2 * hm11
                    H11[..., x, y]  -= right + up
                    H11[..., x_, y] += right
                    H11[..., x, y_] += up
"""), ("""        s1 = np.asarray(params[0]) / self.steps
        s2 = np.asarray(params[1]) / self.steps
        assert s1.shape == s2.shape
        assert np.all(s1 > 0)
        assert np.all(s2 > 0)
        assert np.all(s1 + s2 < 1)
        M = np.zeros(s1.shape + (self.size, self.size))

        M[...""", """        s1, s2 = self._rates(params)
        M = np.zeros(s1.shape + (self.size, self.size))

        M[..."""), ("""        self.skew = skew

    def __call__""", """        self.skew = skew

    def _rates(self, params):
        s1, s2 = (np.asarray(p / self.steps) for p in params)
        assert s1.shape == s2.shape
        assert s1.min() > 0 and s2.min() > 0
        assert (s1 + s2).max() < 1
        return s1, s2

    def __call__"""))
ref('co-names', 'D', CO, ("""        F_xy = np.insert(F_xy, 0, 0, -1)
        F_xy = np.insert(F_xy, 0, 0, -2)
""", """        for axis in (-2, -1):
            F_xy = np.insert(F_xy, 0, 0, axis)
"""), ("""        return np.exp(-np.power(
            np.power(-np.log(x), self.a) +
            np.power(-np.log(y), self.a),
            1 / self.a))
""", """        u, v = (np.power(-np.log(w), self.a) for w in (x, y))
        return np.exp(-(u + v) ** (1 / self.a))
"""), ("""        return x * y / (1 - self.rho * (1 - x) * (1 - y))
""", """        xy = x * y
        return xy / (1 - self.rho + self.rho * (x + y - xy))
"""))
ref('pp-loop', 'D', PP, ("""        axis = [level.sort_values() for level in observations.index.levels]
        if add_axis is not None:
            for k, level in enumerate(observations.index.levels):
                if level.name in add_axis:
                    axis[k] = sorted(set(axis[k]).union(add_axis[level.name]))
        shape""", """        axis = []
        for level in observations.index.levels:
            labels = level.sort_values()
            if add_axis is not None and level.name in add_axis:
                labels = sorted(set(labels) | set(add_axis[level.name]))
            axis.append(labels)
        shape"""), ("""    X = series.values[:, None] == np.arange(size - 1)[None, :]
    return pd.DataFrame(
        np.insert(X, -1, X.sum(-1) == False, 1),
""", """    X = np.array([series.values == k for k in range(size - 1)]).T
    return pd.DataFrame(
        np.insert(X, X.shape[1] - 1, ~X.any(1), 1),
"""))
ref('ml-mix', 'D', ML, ("""        r = self.scale
        return (gammaln(self.X + r) - gammaln(self.X + 1) +
                r * np.log(r) - gammaln(r) +
                self.X * y - (self.X + r * self.N) *
                np.log(r + np.exp(y))).sum()
""", """        r = self.scale
        log_m = np.log(r + np.exp(y))
        data = gammaln(self.X + r) - gammaln(self.X + 1) - gammaln(r)
        return (data + r * (np.log(r) - self.N * log_m) +
                self.X * (y - log_m)).sum()
"""), ("""        delta = self.X - self.N * np.exp(y)
        return [(d * delta).sum() for d in der]
""", """        delta = self.X - np.exp(y) * self.N
        grad = []
        for d in der:
            grad.append((delta * d).sum())
        return grad
"""), ("""        return [(self.N * d / y).sum() for d in der]
""", """        ratio = self.N / y
        return [(ratio * d).sum() for d in der]
"""))

# ------------------------------------------------------------------ bundle E
ref('sk-cached', 'E', SK, ("""from scipy.special import ndtri, pdtrc
""", """from scipy.special import gammaln, ndtri, pdtrc
"""), ("""def poisson_vector(a, size=10):
    # a ** u and u! alone overflow
    curve = np.cumprod(np.append(1., a / np.arange(1, size)))
    dcurve = np.append(-1, curve[:-1] - curve[1:])
    return exp(-a) * np.array([curve, dcurve])
""", """def poisson_vector(a, size=10):
    k = np.arange(size)
    curve = np.exp(k * np.log(a) - a - gammaln(k + 1))
    res = np.stack([curve, -curve])
    res[1, 1:] += curve[:-1]
    return res
"""), ("""    sk_frame = [Poi_a[:, None] * Poi_b[None, :]]
    sk_frame += [dPoi_a[:, None] * Poi_b[None, :]]
    sk_frame += [Poi_a[:, None] * dPoi_b[None, :]]
    return sk_frame
""", """    return [np.outer(u, v) for u, v in (
        (Poi_a, Poi_b), (dPoi_a, Poi_b), (Poi_a, dPoi_b))]
"""), ("""    rng = np.arange(size)
    xy = rng[None, :] - rng[:, None]
    xy = (xy >= n) if inverse else (xy <= n)
    return np.asarray(list(map(lambda v: v[xy].sum(), skellam_frame(a, b, size))))
""", """    rng = np.arange(size)
    diff = np.subtract.outer(rng, rng).T
    keep = (diff >= n) if inverse else (diff <= n)
    frames = np.array(skellam_frame(a, b, size))
    return np.where(keep, frames, 0).sum((-1, -2))
"""), ("""    s = skellam_frame(a, b, size)
    res = np.asarray(list(zip(*[(v[xy < n].sum(), v[xy > n].sum()) for v in s])))
    return res
""", """    frames = skellam_frame(a, b, size)
    res = np.empty((2, 3))
    for k, v in enumerate(frames):
        res[0, k] = np.sum(v * (xy < n))
        res[1, k] = np.sum(v * (xy > n))
    return res
"""))
ref('pr-cum', 'E', PR, ("""        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size, dtype=float)
        vec = (a ** x) / factorial(x)
        return Tensor(vec, dim=1)
""", """        return Tensor(self._vec(params), dim=1)

    def _vec(self, params, shift=0):
        a = np.asarray(params[0])
        out = np.zeros(a.shape + (self.size, ))
        for x in range(shift, self.size):
            out[..., x] = a ** (x - shift) / factorial(x - shift)
        return out
"""), ("""        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size, dtype=float)
        vec = ((a ** x) / factorial(x))
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        return grad_tensor(vec, params, i, True, dim=1)
""", """        return grad_tensor(self._vec(params, 1), params, i, True, dim=1)
"""), ("""        a = np.asarray(params[0])[..., None]
        x = np.arange(self.size, dtype=float)
        vec = ((a ** x) / factorial(x))
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        return hess_tensor(vec, params, i, j, True, True, dim=1)
""", """        return hess_tensor(self._vec(params, 2), params, i, j, True, True, dim=1)
"""), ("""        vec = x * np.log(m)
        vec += gammaln(self.r + x)
        vec -= gammaln(self.r)
        vec += self.r * np.log(self.r)
        vec -= np.log(factorial(x))
        vec -= (x + self.r) * np.log(self.r + m)
        return Tensor(vec, dim=1)
""", """        const = gammaln(self.r + x) - gammaln(self.r) - gammaln(x + 1)
        vec = const + x * np.log(m / (self.r + m)) + \\
            self.r * np.log(self.r / (self.r + m))
        return Tensor(vec, dim=1)
"""))
ref('ma-vector', 'E', MA, ("""        val = []
        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append((arr * filt).sum((-1, -2)))
        val = np.stack(val, -1)
        return Tensor(val, dim=1)
""", """        val = np.zeros(arr.shape[:-2] + (len(self.conditions), ))
        for k, (x, y, c, s) in enumerate(self.conditions):
            filt = np.sign(np.add.outer(x * rng_x, y * rng_y) + c) == s
            val[..., k] = arr[..., filt].sum(-1)
        return Tensor(val, dim=1)
"""), ("""                for jdx in range(self.size):
                    y = self.size - jdx - 1
                    y_ = min(y + 1, self.size - 1)
                    f1 = self.skew[x, y]
                    f2 = self.skew[y, x]
                    m = M[..., x, y].copy()

                    M[..., x_, y] += s1 * f1 * m
""", """                for y in reversed(range(self.size)):
                    y_ = y + 1 if y + 1 < self.size else y
                    f1, f2 = self.skew[x, y], self.skew[y, x]
                    m = np.array(M[..., x, y])

                    M[..., x_, y] += s1 * f1 * m
"""))
ref('co-prepend', 'E', CO, ("""        F_xy = np.insert(F_xy, 0, 0, -1)
        F_xy = np.insert(F_xy, 0, 0, -2)
        # add 999 at end
        res = np.diff(np.diff(F_xy, 1, -1), 1, -2)
        return Tensor(res)
""", """        res = np.array(F_xy)
        res[..., 1:] -= F_xy[..., :-1]
        F_xy = res
        res = np.array(F_xy)
        res[..., 1:, :] -= F_xy[..., :-1, :]
        return Tensor(res)
"""), ("""        return (-1 / self.a) * np.log(1 +
            (np.exp(-self.a * x) - 1) *
            (np.exp(-self.a * y) - 1) /
            (np.exp(-self.a) - 1))
""", """        u, v, w = (np.expm1(-self.a * z) for z in (x, y, 1))
        return -np.log1p(u * v / w) / self.a
"""), ("""            np.clip(ndtri(x), -999, 999),
            np.clip(ndtri(y), -999, 999),
""", """            *[np.maximum(np.minimum(ndtri(z), 999), -999) for z in (x, y)],
"""))
ref('mb-block', 'E', MB, ("""        hess = np.vstack(list(map(np.hstack, hess)))

        if c_len > 0:
            hess_c = np.vstack(list(map(np.concatenate, hess_c)))
            hess = np.vstack([
                np.hstack([hess, hess_c.transpose()]),
                np.hstack([hess_c,
                           np.zeros((c_len, c_len))])])

        return hess
""", """        hess = np.block(hess)
        if not c_len:
            return hess
        border = np.array([np.concatenate(row) for row in hess_c])
        m = hess.shape[0]
        full = np.zeros((m + c_len, m + c_len))
        full[:m, :m] = hess
        full[m:, :m] = border
        full[:m, m:] = border.T
        return full
"""), ("""        var = np.diag(-np.linalg.inv(self.flat_hess_))
        cut = var.size - len(self.constraint)
        return [p.as_masked() for p in
            self._reshape_array(np.sqrt(var[:cut]))
        ]
""", """        cov = np.linalg.inv(-np.asarray(self.flat_hess_))
        n = sum(p.count() for p in self.params)
        std = np.sqrt(np.diagonal(cov)[:n])
        return [p.as_masked() for p in self._reshape_array(std)]
"""), ("""        k = sum(map(np.ma.count, self.params))
        k += nb_extra_params
        k -= len(self.constraint)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        l = self.g(self.params)
        return k * np.log(n) / n - 2 * l
""", """        k, n, l = self._criterion_terms(nb_extra_params)
        return k * np.log(n) / n - 2 * l

    def _criterion_terms(self, nb_extra_params):
        k = nb_extra_params - len(self.constraint)
        for p in self.params:
            k += np.ma.count(p)
        n = self.N.sum(sum_val=True, sum_dim=True).values
        return k, n, self.g(self.params)
"""), ("""                step, g, grad, hess = self.newton_step(params)
                prev_g = g

                if verbose > 0:
                    print(k, g)

                mult = 1
                for _ in range(max_inner_steps):
                    new_flat_params = flat_params - mult * step
                    params = self._reshape_params(new_flat_params)
                    g = self.g(params, self.model(params))
                    if g >= prev_g:
                        flat_params = new_flat_params
                        break
                    else:
                        mult *= .5
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
                else:
                    self.converged = False
""", """                step, prev_g, grad, hess = self.newton_step(params)

                if verbose > 0:
                    print(k, prev_g)

                accepted = False
                mult = 1
                inner = 0
                while inner < max_inner_steps and not accepted:
                    new_flat_params = flat_params - step * mult
                    params = self._reshape_params(new_flat_params)
                    g = self.g(params, self.model(params))
                    accepted = not g < prev_g
                    if not accepted:
                        mult /= 2
                        inner += 1
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
                if accepted:
                    flat_params = new_flat_params
                else:
                    self.converged = False
"""))
ref('ml-helpers', 'E', ML, ("""        z = y.sum(False)
        return (self.N * (np.log(y) - np.log(z))).sum()
""", """        p = np.log(y) - np.log(y.sum(False))
        return (p * self.N).sum()
"""), ("""        return -(self.N * np.log(1 + np.exp(-y)) +
                 (self.N - self.X) * y).sum()
""", """        lost = self.N - self.X
        res = lost * y
        res = res + self.N * np.log(np.exp(-y) + 1)
        return -1 * res.sum()
"""))
ref('pp-unstack', 'E', PP, ("""    X = series.values[:, None] == np.arange(size - 1)[None, :]
    return pd.DataFrame(
        np.insert(X, -1, X.sum(-1) == False, 1),
        index=series.index,
        columns=pd.Index(np.arange(size), name=name))
""", """    hits = [series.values == k for k in range(size - 1)]
    other = np.logical_not(np.any(hits, axis=0))
    hits.insert(len(hits) - 1, other)
    columns = pd.Index(np.arange(size), name=name)
    return pd.DataFrame(np.column_stack(hits), index=series.index, columns=columns)
"""), ("""    shape = tuple((len(a) for a in axis))
    new_index = pd.MultiIndex.from_product(axis)
    w = df[weight_col].to_frame('N').groupby(df.index).sum().\\
        reindex(new_index).fillna(0)
""", """    shape = tuple(map(len, axis))
    new_index = pd.MultiIndex.from_product(axis)
    w = pd.DataFrame({'N': df[weight_col].groupby(df.index).sum()}).\\
        reindex(new_index).fillna(0)
"""))
ref('te-stack', 'E', TE, ("""        p = np.asarray(params[0])
        q = 1 - p
        g = []
        g.append(p ** 4)
        g.append(4 * p ** 4 * q)
        g.append(10 * p ** 4 * q ** 2)
        g.append(20 * p ** 5 * q ** 3 / (1 - 2 * p * q))
        return Tensor(np.stack(g).swapaxes(0, -1), dim=1)
""", """        p = np.asarray(params[0])
        q = 1 - p
        won = p ** 4
        deuce = 20 * p ** 3 * q ** 3
        g = [won * c * q ** k for k, c in enumerate((1, 4, 10))]
        g.append(deuce * p * p / (p * p + q * q))
        return Tensor(np.stack(g).swapaxes(0, -1), dim=1)
"""))
ref('fu-memo', 'E', FU, ("""        z = (np.asarray(params[i]) - self.u) / self.s
        return grad_tensor(2 * z / self.s, params, i, True).sum()
""", """        slope = 2 / (self.s * self.s)
        return grad_tensor(slope * (np.asarray(params[i]) - self.u), params, i, True).sum()
"""), ("""        return Tensor(sum(((w * np.asarray(p)).sum()
                           for w, p in zip(params, self.weights))))
""", """        total = 0
        for weight, p in zip(self.weights, params):
            total = total + np.sum(np.asarray(p) * weight)
        return Tensor(total)
"""))
# ------------------------------------------------------------------ bundle F
ref('sk-tri', 'F', SK, ("""    res = np.asarray(list(zip(*[(v[xy < n].sum(), v[xy > n].sum()) for v in s])))
    return res
""", """    below, above = np.tril(xy < n, size), np.triu(xy > n, -size)
    return np.array([[np.where(below, v, 0.).sum() for v in s],
                     [np.where(above, v, 0.).sum() for v in s]])
"""), ("""    return np.asarray(list(map(lambda v: v[xy].sum(), skellam_frame(a, b, size))))
""", """    total = np.zeros(3)
    for k, v in enumerate(skellam_frame(a, b, size)):
        total[k] = np.sum(v, where=xy)
    return total
"""), ("""    return v[:, :-1].sum(1) + 0.5 * v[:, -1]
""", """    weights = np.append(np.ones(n), 0.5)
    return np.array([weights @ row for row in v])
"""))
ref('sk-while', 'F', SK, ("""        for i in range(10):
            if new_a > 0 and new_e < abs(e):
                a = new_a
                break
            else:
                new_a = a + scale_factor * step
                if new_a > 0:
                    new_f, _ = poisson_cdf(new_a, n)
                    new_e = abs(target - new_f)
                scale_factor *= .5
""", """        tries = 10
        while tries > 0:
            tries -= 1
            if not (new_a <= 0 or new_e >= abs(e)):
                a = new_a
                break
            new_a = a + scale_factor * step
            if new_a > 0:
                new_f = poisson_cdf(new_a, n)[0]
                new_e = abs(new_f - target)
            scale_factor = scale_factor / 2
"""))
ref('ml-expit', 'F', ML, ("""from scipy.special import gammaln, xlogy
""", """from scipy.special import gammaln, xlogy, expit
"""), ("""        delta = self.X - self.N / (1 + np.exp(-y))
        return [(d * delta).sum() for d in der]
""", """        u = np.exp(-y)
        delta = self.X - self.N * (1 / (u + 1))
        return list(map(lambda d: (delta * d).sum(), der))
"""), ("""        p = 1 / (1 + np.exp(-y))
        delta = self.X - p * self.N
        delta2 = p * (1 - p) * self.N
""", """        u = np.exp(-y)
        p = 1 / (1 + u)
        expected = p * self.N
        delta = self.X - expected
        delta2 = expected - p * expected
"""))
ref('ma-einsum', 'F', MA, ("""        for x, y, c, s in self.conditions:
            filt = np.sign(x * rng_x[:, None] +
                           y * rng_y[None, :] + c) == s
            val.append((arr * filt).sum((-1, -2)))
        val = np.stack(val, -1)
        return Tensor(val, dim=1)
""", """        for x, y, c, s in self.conditions:
            side = np.add.outer(x * rng_x, y * rng_y) + c
            filt = (side > 0).astype(int) - (side < 0) == s
            val.append(np.sum(np.where(filt, arr, 0), axis=(-2, -1)))
        return Tensor(np.moveaxis(np.array(val), 0, -1), dim=1)
"""), ("""        M[..., 0, 0] = 1.0
        for step in range(self.steps):
            for idx in range(self.size):
                x = self.size - idx - 1
                x_ = min(x + 1, self.size - 1)
                for jdx in range(self.size):
                    y = self.size - jdx - 1
                    y_ = min(y + 1, self.size - 1)
                    f1 = self.skew[x, y]
                    f2 = self.skew[y, x]
                    m = M[..., x, y].copy()

                    M[..., x_, y] += s1 * f1 * m
                    M[..., x, y_] += s2 * f2 * m
                    M[..., x, y]  -= (s1 * f1 + s2 * f2) * m

        return Tensor(M, dim=2)
""", """        M[..., 0, 0] = 1.0
        last = self.size - 1
        cells = [(x, y) for x in reversed(range(self.size))
                 for y in reversed(range(self.size))]
        step = 0
        while step < self.steps:
            for x, y in cells:
                up = s1 * self.skew[x, y] * M[..., x, y]
                right = s2 * self.skew[y, x] * M[..., x, y]
                for cell, flow in (((min(x + 1, last), y), up),
                                   ((x, min(y + 1, last)), right),
                                   ((x, y), -up - right)):
                    M[(Ellipsis,) + cell] += flow
            step += 1

        return Tensor(M, dim=2)
"""))
ref('co-prepend2', 'F', CO, ("""        F_xy = np.insert(F_xy, 0, 0, -1)
        F_xy = np.insert(F_xy, 0, 0, -2)
        # add 999 at end
        res = np.diff(np.diff(F_xy, 1, -1), 1, -2)
        return Tensor(res)
""", """        F_xy = np.asarray(F_xy)
        res = F_xy.copy()
        res[..., 1:] -= F_xy[..., :-1]
        below = res[..., :-1, :].copy()
        res[..., 1:, :] -= below
        return Tensor(res)
"""), ("""        return np.power(
            np.power(x, -self.a) + np.power(y, -self.a) - 1,
            -1 / self.a)
""", """        a = self.a
        return 1 / (x ** -a + y ** -a - 1) ** (1 / a)
"""), ("""        return (-1 / self.a) * np.log(1 +
            (np.exp(-self.a * x) - 1) *
            (np.exp(-self.a * y) - 1) /
            (np.exp(-self.a) - 1))
""", """        u, v, w = (np.expm1(-self.a * t) for t in (x, y, 1.))
        return -np.log1p(u * v / w) / self.a
"""))
ref('mb-fill', 'F', MB, ("""                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten()),
                    val).reshape(p.shape)
                shaped_array.append(Param(data, mask=p.mask))
                s_0 = s_1
        # val is an array
""", """                data = np.empty(p.shape, dtype=flat_array.dtype)
                data[p.mask] = val
                data[~p.mask] = flat_array[s_0:s_1]
                shaped_array.append(Param(data, mask=p.mask))
                s_0 = s_1
        # val is an array
"""), ("""                data = np.insert(
                    flat_array[s_0:s_1],
                    fix_map(p.mask.flatten()),
                    val[f_0:f_1]).reshape(p.shape)
""", """                data = np.empty(p.shape, dtype=flat_array.dtype)
                data[~p.mask] = flat_array[s_0:s_1]
                data[p.mask] = val[f_0:f_1]
"""), ("""        step = np.linalg.solve(lhess, lgrad)
        c_len = len(self.constraint)
        step = step[:(-(c_len + 1) % step.shape[0]) + 1]
""", """        step = np.linalg.solve(lhess, lgrad)
        step = step[:step.shape[0] - len(self.constraint)]
"""), ("""                    J += np.outer(step - np.dot(J, dgrad), dgrad) / \\
                         (dgrad * dgrad).sum()
""", """                    miss = step - J @ dgrad
                    J = J + miss[:, None] * dgrad[None, :] / np.dot(dgrad, dgrad)
"""))
ref('pp-eye', 'F', PP, ("""    X = series.values[:, None] == np.arange(size - 1)[None, :]
    return pd.DataFrame(
        np.insert(X, -1, X.sum(-1) == False, 1),
""", """    X = np.equal.outer(series.values, np.arange(size - 1))
    other = ~np.any(X, axis=1)
    return pd.DataFrame(
        np.hstack([X[:, :-1], other[:, None], X[:, -1:]]),
"""), ("""    w = df[weight_col].to_frame('N').groupby(df.index).sum().\\
        reindex(new_index).fillna(0)
""", """    w = df[weight_col].groupby(df.index).sum().\\
        reindex(new_index, fill_value=0).fillna(0)
"""))
ref('pr-gammaln', 'F', PR, ("""        vec = (a ** x) / factorial(x)
        return Tensor(vec, dim=1)
""", """        vec = np.power(a, x) / np.concatenate(([1.], np.cumprod(x[1:])))[:self.size]
        return Tensor(vec, dim=1)
"""), ("""        vec = ((a ** x) / factorial(x))
        vec = np.insert(vec[..., :-1], 0, 0, -1)
        return grad_tensor(vec, params, i, True, dim=1)
""", """        vec = a ** x / factorial(x)
        shifted = np.zeros_like(vec)
        shifted[..., 1:] = vec[..., :-1]
        return grad_tensor(shifted, params, i, True, dim=1)
"""))
ref('fo-operator', 'F', FO, ("""import numpy as np
from ..tensor import Tensor
""", """import operator
from itertools import product as pairs
import numpy as np
from ..tensor import Tensor
"""), ("""        return reduce(lambda x, y: x * y,
                      (atom(params) for atom in self.atoms))
""", """        return reduce(operator.mul, [atom(params) for atom in self.atoms])
"""), ("""        for k, a_k in enumerate(self.atoms):
            hess += sum((Product._prod(f_val, [k, l]) *
                         a_k.grad(params, i) *
                         a_l.grad(params, j).transpose()
                         for l, a_l in enumerate(self.atoms) if k != l))
            hess += Product._prod(f_val, [k]) * a_k.hess(params, i, j)
        return hess
""", """        rng = range(len(self.atoms))
        left = [atom.grad(params, i) for atom in self.atoms]
        right = [atom.grad(params, j).transpose() for atom in self.atoms]
        for k, l in pairs(rng, rng):
            others = Product._prod(f_val, {k, l})
            if k == l:
                term = self.atoms[k].hess(params, i, j)
            else:
                term = left[k] * right[l]
            hess = hess + others * term
        return hess
"""), ("""        return sum((w * atom(params) for w, atom in self.atoms)) + self.b
""", """        total = self.b
        for w, atom in self.atoms:
            total = total + w * atom(params)
        return total
"""))
ref('si-tanh', 'F', SI, ("""        f = expit(params[0])
        return grad_tensor(f * (1 - f), params, i, True)
""", """        x = np.asarray(params[0])
        return grad_tensor(expit(x) * expit(-x), params, i, True)
"""), ("""        return hess_tensor(-2 * x / (1 + x * x) ** 2,
                           params, i, j, True, True)
""", """        d = 1 / (1 + np.square(x))
        return hess_tensor(-(x + x) * d * d, params, i, j, True, True)
"""))
ref('tt-eye', 'F', TT, ("""        arr = arr * np.eye(n).reshape(idx)
        idx[q + k] = 1
        idx[p + f] = 1
    return arr
""", """        mask = np.equal.outer(np.arange(n), np.arange(n)).astype(float)
        arr = arr * mask.reshape(idx)
        idx[[q + k, p + f]] = 1
    return arr
"""))
# ------------------------------------------------------------------ bundle G
ref('tt-gsum-dense', 'G', TT, ("""        new_elements = [el.sum(idx if el.n > 0 else False, sum_dim) *
                        (size / el_size)
                        for el, el_size in zip(self.elements, el_sizes)]
""", """        new_elements = []
        for k, el in enumerate(self.elements):
            part = el.sum(idx if el.n else False, sum_dim)
            for _ in range(1):
                part = part * float(size // el_sizes[k])
            new_elements.append(part)
"""))
ref('tt-transpose3', 'G', TT, ("""        val = self.values
        if (self.x_dim > 0) & (self.y_dim > 0):
            for k in range(0, self.y_dim):
                val = np.moveaxis(val, self.x_dim + k, k)
        return Tensor(val, self.y_dim,""", """        p, q = self.x_dim, self.x_dim + self.y_dim
        order = [*range(p, q), *range(p), *range(q, self.values.ndim)]
        val = np.transpose(self.values, order)
        return Tensor(val, self.y_dim,"""))
ref('tt-flip', 'G', TT, ("""        for k in where:
            val = np.flip(val, p + k)

        return Tensor(
""", """        idx = [slice(None)] * val.ndim
        for k in where:
            first = idx[p + k] == slice(None)
            idx[p + k] = slice(None, None, -1) if first else slice(None)
        val = val[tuple(idx)]

        return Tensor(
"""))
ref('tt-sub', 'G', TT, ("""    def __sub__(self, other):
        return self.bin_op(other, TensorOp.SUB)
""", """    def __sub__(self, other):
        if isinstance(other, BaseTensor):
            return self + (-other)
        return self.bin_op(other, TensorOp.SUB)
"""))
ref('tt-dotright', 'G', TT, ("""        val = val.sum(tuple(p + np.arange(other.n)))
        return Tensor(val,
                      x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
""", """        for _ in range(other.n):
            val = val.sum(p)
        return Tensor(val,
                      x_dim=other.x_dim, y_dim=other.y_dim, dim=dim,
"""))
ref('tt-drop', 'G', TT, ("""    res = array('b', [
        -1 if f < 0 or f in axes else f - sum(a < f for a in axes)
        for f in mapping
    ])
    return res if any(f >= 0 for f in res) else array('b')
""", """    kept = {}
    for f in range(max(mapping, default=-1) + 1):
        if f not in axes:
            kept[f] = len(kept)
    res = array('b', [kept.get(f, -1) for f in mapping])
    return res if set(res) - {-1} else array('b')
"""))
ref('mb-grad', 'G', MB, ("""        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
                for d, p in zip(grad, params)] + grad[n:]
        grad = np.concatenate(grad)

        return grad
""", """        flat = []
        for k, p in enumerate(params):
            block = np.zeros(p.shape) + grad[k].values
            flat.extend(block.ravel()[np.flatnonzero(~p.mask.ravel())])
        for extra in grad[n:]:
            flat.extend(extra)
        return np.array(flat, dtype=float)
"""), ("""        hess = np.vstack(list(map(np.hstack, hess)))

        if c_len > 0:
            hess_c = np.vstack(list(map(np.concatenate, hess_c)))
            hess = np.vstack([
                np.hstack([hess, hess_c.transpose()]),
                np.hstack([hess_c,
                           np.zeros((c_len, c_len))])])
""", """        hess = np.block(hess)

        if c_len > 0:
            border = np.array([np.concatenate(row) for row in hess_c])
            size = hess.shape[0]
            full = np.zeros((size + c_len, size + c_len))
            full[:size, :size] = hess
            full[size:, :size] = border
            full[:size, size:] = border.T
            hess = full
"""))
ref('mb-newton', 'G', MB, ("""                mult = 1
                for _ in range(max_inner_steps):
                    new_flat_params = flat_params - mult * step
                    params = self._reshape_params(new_flat_params)
                    g = self.g(params, self.model(params))
                    if g >= prev_g:
                        flat_params = new_flat_params
                        break
                    else:
                        mult *= .5
                        if verbose > 1:
                            print("\\tmultiplier = ", mult)
                else:
                    self.converged = False
                    raise ConvergenceError(
                        "Error: the objective function did not increase " +
                        "after %d steps" % max_inner_steps, "step")
""", """                inner = 0
                mult = 1
                while True:
                    new_flat_params = flat_params - step * mult
                    params = self._reshape_params(new_flat_params)
                    g = self.g(params)
                    if g >= prev_g:
                        flat_params = new_flat_params
                        break
                    mult = mult / 2
                    if verbose > 1:
                        print("\\tmultiplier = ", mult)
                    inner += 1
                    if inner == max_inner_steps:
                        self.converged = False
                        raise ConvergenceError(
                            "Error: the objective function did not increase " +
                            "after %d steps" % max_inner_steps, "step")
"""))
ref('ml-fin', 'G', ML, ("""        z = y.sum(False)
        return (self.N * (np.log(y) - np.log(z))).sum()
""", """        return (self.N * np.log(y / y.sum(False))).sum()
"""), ("""            dz = d.sum(False)
            grad.append((self.N * (d / y - dz / z)).sum())
        return grad
""", """            score = d / y - d.sum(False) / z
            grad += [(score * self.N).sum()]
        return grad
"""), ("""        delta = self.X - (self.X + r * self.N) * m / (m + r)
""", """        delta = r * (self.X - self.N * m) / (m + r)
"""))

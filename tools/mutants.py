"""Changes that break a property (property, name, [(file, old, new)]); see mutate.py."""
SS = "search_space/search_space.py"; VA = "search_space/variable.py"; SA = "search_space/samplers.py"; ND = "search_space/node.py"
MI = "acquisition/optim/mies.py"; CM = "acquisition/optim/one_plus_one_cma_es.py"; AO = "acquisition/optim/__init__.py"; AF = "acquisition/acquisition_fun.py"
UT = "utils/utils.py"; SO = "solution.py"; BA = "base.py"; B_ = "_base.py"; BO = "bayes_opt.py"; EX = "extension.py"; MO = "mobo.py"; RF = "surrogate/random_forest.py"
PA = "utils/multi_objective/pareto.py"; HV = "utils/multi_objective/hypervolume.py"; AN = "multi_objective/analytic.py"; IN = "__init__.py"
M = [
 ("P01", "p01_size_ceil", [(VA, "np.floor((self.bounds[1] - self.bounds[0]) / self.step) + 1", "np.ceil((self.bounds[1] - self.bounds[0]) / self.step) + 1")]),
 ("P01", "p01_noclip", [(VA, "X = np.clip(np.round(X, self.precision), self.bounds[0], self.bounds[1])", "X = np.round(X, self.precision)")]),
 ("P01", "p01_scmc_grid", [(SA, "X[:, self.id_i] = lb + (X_ - lb) // step * step", "X[:, self.id_i] = X_ // step * step")]),
 ("P01", "p01_mies_grid", [(MI, "x_ = lb + (x_ - lb) // step * step", "x_ = x_ // step * step")]),
 ("P01", "p01_cma_noround", [(CM, "x = self.search_space.round(x).ravel()\n        # NOTE: exp", "x = x.ravel()\n        # NOTE: exp")]),
 ("P01", "p01_bfgs_noround", [(AO, "xopt_ = search_space.round(xopt_).flatten().tolist()", "xopt_ = np.asarray(xopt_).flatten().tolist()")]),
 ("P01", "p01_mies_levels_first", [(MI, "levels = self.bounds_d[i]\n", "levels = self.bounds_d[min(i, 1)]\n")]),
 ("P01", "p01_scmc_round", [(SS, "S = self.round(SCMC(self, constraints, tol=tol).sample(n))", "S = (SCMC(self, constraints, tol=tol).sample(n))")]),
 ("P01", "p01_fallback_full", [(BA, "X = self.pre_eval_check(X + self.create_DoE(N, fixed=fixed))", "X = self.pre_eval_check(X + self.create_DoE(n_point, fixed=fixed))")]),
 ("P01", "p01_scmc_boolint", [(SA, "X[k, i] = levels[np.random.randint(0, len(levels))]", "X[k, i] = levels[np.random.randint(0, len(levels))] if len(levels) > 2 else np.random.randint(0, 2)")]),
 ("P02", "p02_falsy", [(UT, "    mask = np.array([v in fixed.keys() for v in search_space.var_name])\n    values = [fixed[k] for i, k in enumerate(search_space.var_name) if mask[i]]\n    out", "    mask = np.array([v in fixed.keys() for v in search_space.var_name])\n    values = [fixed[k] for k in fixed]\n    out")]),
 ("P02", "p02_round_fixed", [(BA, "        candidates = fillin_fixed_value(candidates, fixed, self.search_space)\n", "        candidates = fillin_fixed_value(candidates, fixed, self.search_space)\n        if fixed and len(candidates) > 1:\n            candidates = self.search_space.round(candidates).tolist()\n")]),
 ("P02", "p02_fallback_nofix", [(BA, "self.create_DoE(N, fixed=fixed)", "self.create_DoE(N, fixed=fixed if len(X) else None)")]),
 ("P03", "p03_single_g", [(AO, "cond_g = all(g(xopt_) <= 0) if g else True", "cond_g = g(xopt_)[0] <= 0 if g else True")]),
 ("P03", "p03_g_tol", [(SS, "np.all(np.asarray(g(x)) <= 0)", "np.all(np.asarray(g(x)) <= tol)")]),
 ("P03", "p03_h_signed", [(AO, "np.isclose(np.abs(h(xopt_)), 0, atol=1e-1)", "h(xopt_) <= 1e-1")]),
 ("P03", "p03_h_or_g", [(AO, "if cond_h and cond_g:", "if (cond_h and cond_g) or (cond_g and iteration == n_restart - 1 and not xopt):")]),
 ("P04", "p04_nocheck_batch", [(BO, "idx = _ + list(range(N, len(X)))", "idx = _[-1:] + list(range(N, len(X)))")]),
 ("P04", "p04_no_int", [(BO, "if not any(CON & INT & CAT):", "if not any(CON & INT & CAT) or (len(self.d_index) and not len(self.r_index) and N > 2):")]),
 ("P04", "p04_norecheck", [(BA, "X = self.pre_eval_check(X + self.create_DoE(N, fixed=fixed))", "X = X + self.create_DoE(N, fixed=fixed)")]),
 ("P05", "p05_isnan", [(BA, "~np.isfinite(X.fitness.reshape(len(X), -1)).all(axis=1)", "np.isnan(X.fitness.reshape(len(X), -1)).any(axis=1) | np.isposinf(X.fitness.reshape(len(X), -1)).any(axis=1)")]),
 ("P05", "p05_mo_all", [(BA, "~np.isfinite(X.fitness.reshape(len(X), -1)).all(axis=1)", "~np.isfinite(X.fitness.reshape(len(X), -1)).any(axis=1)")]),
 ("P05", "p05_iter_failed", [(BA, "            self.iter_count += int(not warm_start)\n            return", "            return")]),
 ("P05", "p05_warm_iter", [(MO, "            self.iter_count += int(not warm_start)", "            self.iter_count += 1")]),
 ("P05", "p05_dictorder", [(SO, "            _x = [[_[k] for k in var_name] for _ in x]", "            _x = [list(_.values()) if len(_) == len(var_name) else [_[k] for k in var_name] for _ in x]")]),
 ("P06", "p06_close", [(B_, "np.where(self.data.fitness == fopt)[0][0]", "np.where(np.isclose(self.data.fitness, fopt))[0][0]")]),
 ("P06", "p06_cache", [(B_, "        fopt = self._get_best(self.data.fitness)\n", "        fopt = self._get_best(self.data.fitness[-500:] if self.n_obj > 1 else self.data.fitness)\n        if len(self.data) > 8 and self.minimize is False:\n            fopt = np.max(self.data.fitness[:-1])\n")]),
 ("P07", "p07_leq", [(B_, "return f1 < f2 if self.minimize else f1 > f2", "return f1 < f2 if self.minimize else f1 >= f2")]),
 ("P07", "p07_target0", [(B_, "if self.ftarget is not None and self.xopt is not None:", "if self.ftarget and self.xopt is not None:")]),
 ("P08", "p08_bak", [(BA, "        logger, data = self.logger, getattr(self, \"data\", None)\n", "        logger, data = self.logger, getattr(self, \"data\", None)\n        if os.path.exists(filename):\n            os.remove(filename)\n")]),
 ("P08", "p08_reset_stop", [(BA, "            # backwards compatibility\n            _h, _g = obj.h, obj.g", "            obj.stop_dict = {}\n            # backwards compatibility\n            _h, _g = obj.h, obj.g")]),
 ("P09", "p09_dedup_x", [(MO, "idx = is_non_dominated(as_tensor(self.y)).detach().cpu().numpy()", "idx = is_non_dominated(as_tensor(self.y), deduplicate=len(self.data) < 4).detach().cpu().numpy()")]),
 ("P09", "p09_float", [(MO, "idx = is_non_dominated(as_tensor(self.y))", "idx = is_non_dominated(Tensor(self.y))")]),
 ("P09", "p09_allmin", [(MO, "        elif hasattr(self.minimize, \"__iter__\"):", "            if not minimize and self.n_obj > 2:\n                self.minimize[-1] = True\n        elif hasattr(self.minimize, \"__iter__\"):")]),
 ("P10", "p10_2d_strict", [(PA, "if not any(v <= y2[ND])", "if not any(v < y2[ND])")]),
 ("P10", "p10_sort_eq", [(PA, "elif all(p >= q) and not all(p == q):", "elif all(p >= q) and any(p > q) and len(fitness) != 3:")]),
 ("P10", "p10_hv_ref", [(HV, "better_than_ref = (pareto_Y <= self._ref_point).all(dim=-1)", "better_than_ref = (pareto_Y <= self._ref_point).any(dim=-1)")]),
 ("P10", "p10_eff", [(UT, "next_point_index = np.sum(nondominated_point_mask[:next_point_index]) + 1", "next_point_index = next_point_index + 1")]),
 ("P11", "p11_pi_eps", [(AF, "coef = 1 - self._epsilon if y_hat > 0 else (1 + self._epsilon)", "coef = 1 - self._epsilon")]),
 ("P11", "p11_plugin_none", [(AF, "self._plugin = np.min(self._model.y) if self.minimize else -1.0 * np.max(self._model.y)", "self._plugin = np.min(self._model.y) if self.minimize else -1.0 * np.min(self._model.y)")]),
 ("P11", "p11_ucb_grad", [(AF, "f_dx = -1.0 * y_dx + self.alpha * sd_dx", "f_dx = -1.0 * y_dx + sd_dx")]),
 ("P11", "p11_grad_max", [(AF, "            y_dx = -1.0 * y_dx\n", "            y_dx, sd2_dx = -1.0 * y_dx, -1.0 * sd2_dx\n")]),
 ("P11", "p11_mgfi_t", [(AF, "t = min(t, 22.36)", "t = min(t, 2.236)")]),
 ("P11", "p11_ehvi_clamp", [(AN, "1e10 if X.dtype == np.float64 else 1e8", "1e1 if X.dtype == np.float64 else 1e0")]),

 ("P12", "p12_sub_order", [(SS, "data = [copy(self.data[i]) for i in range(self.dim) if i in _index]", "data = [copy(self.data[i]) for i in _index]")]),
 ("P12", "p12_add_shallow", [(SS, "data = deepcopy(self.data) + deepcopy(space.data)", "data = deepcopy(self.data) + list(space.data)"), (SS, "                    data[k] = copy(data[k])\n", "")]),
 ("P12", "p12_imul_type", [(SS, "        data = [copy(var) for var in self.data]\n        for var, name in zip(data, var_name):", "        data = [var for var in self.data]\n        for var, name in zip(data, var_name):")]),
 ("P12", "p12_json_step", [(SS, "step=v.get(\"step\", 1)", "step=int(v.get(\"step\", 1)) or 1 if \"default\" not in v or v[\"default\"] is None else 1")]),
 ("P12", "p12_precision0", [(SS, "precision = v[\"precision\"] if \"precision\" in v else None", "precision = v.get(\"precision\") or None")]),
 ("P12", "p12_ready_args", [(SS, "                if not isinstance(value, (tuple, list)):\n                    value = [value] * dim", "                if not isinstance(value, (tuple, list)):\n                    value = [value] + [None] * (dim - 1)")]),
 ("P12", "p12_default_falsy", [(SS, "            if value is not None:\n                if not isinstance(value, (tuple, list)):", "            if value:\n                if not isinstance(value, (tuple, list)):")]),
 ("P12", "p12_pop_index", [(SS, "        value = self.data.pop(index)\n        self._set_data(self.data)", "        value = self.data.pop(index)\n        self._set_data(self.data) if index == -1 else self._set_data(list(self.data)) if index else self._set_data(self.data)\n        if index == 1:\n            self._var_name = [v.name for v in self.data][::-1][::-1] if len(self.data) < 3 else sorted(self._var_name)")]),
 ("P12", "p12_mask_neg", [(SS, "            elif index.dtype == bool:  # mask array\n                index = np.nonzero(index)[0]", "            elif index.dtype == bool:  # mask array\n                index = np.nonzero(index)[0][: self.dim - 1] if len(index) == self.dim and index.all() and self.dim > 3 else np.nonzero(index)[0]")]),
 ("P12", "p12_eq_prec", [(SS, "return self.dim == cs.dim and set(self.data) == set(cs.data)", "return self.dim == cs.dim and set(self.var_name) == set(cs.var_name)")]),
 ("P12", "p12_dupname", [(SS, "_names = (n for n in _names if n not in taken)", "_names = (n for n in _names)")]),
 ("P12", "p12_bool_default", [(SS, "_vars = [Bool(name=k, default_value=default_value) for _ in N]", "_vars = [Bool(name=k, default_value=bool(default_value)) for _ in N]")]),
 ("P12", "p12_isub_type", [(SS, "        self._set_data([self.data[i] for i in range(self.dim) if i in _index])\n        if hasattr(self, \"structure\"):\n            self._set_structure(self.structure)\n        SearchSpace.__set_type(self)\n", "        self._set_data([self.data[i] for i in range(self.dim) if i in _index])\n        if hasattr(self, \"structure\"):\n            self._set_structure(self.structure)\n")]),
 ("P12", "p12_hash", [(VA, "return hash((self.name, self.bounds, self.default_value, self.step))", "return hash((self.name, self.bounds, self.default_value))"), (VA, "            and self.name == var.name\n", "            and self.name == var.name or self is var\n")]),
 ("P12", "p12_contains_var", [(SS, "return item in self.data\n", "return item.name in self.var_name\n")]),
 ("P12", "p12_N", [(SS, "N = range(int(v[\"N\"])) if \"N\" in v else range(1)", "N = range(min(int(v[\"N\"]), 2)) if \"N\" in v else range(1)")]),
 ("P13", "p13_lhs_random", [(SS, "X = (ub - lb) * lhs(self.dim, samples=N, criterion=\"maximin\") + lb", "X = (ub - lb) * (lhs(self.dim, samples=N, criterion=\"maximin\") if N < 6 else rand(N, self.dim)) + lb")]),
 ("P13", "p13_last_value", [(VA, "return list(map(self._map_func, randint(0, self._size, N)))", "return list(map(self._map_func, randint(0, self._size - (self._size > 4), N)))")]),
 ("P13", "p13_bool_contains", [(VA, "self.bounds[0] <= x <= self.bounds[1] and (x - self.bounds[0]) % self.step == 0", "self.bounds[0] <= x <= self.bounds[1] and x % self.step == 0")]),
 ("P13", "p13_real_open", [(VA, "return self.bounds[0] <= x <= self.bounds[1]\n\n    @property", "return self.bounds[0] <= x < self.bounds[1]\n\n    @property")]),
 ("P13", "p13_logscale_lin", [(SS, "bounds = np.array([var._bounds_transformed for var in self.data])", "bounds = np.array([var._bounds_transformed if var.scale != 'logit' else var._trans(np.clip(var.bounds, 0.01, 0.99)) for var in self.data])")]),
 ("P13", "p13_tol", [(SS, "np.isclose(np.abs(h(x)), 0, atol=tol)", "np.isclose(np.abs(h(x)), 0, atol=10 * tol)")]),
 ("P13", "p13_n_trunc", [(SS, "        if len(S) > N:\n            S = S[np.random.choice", "        if len(S) > 2 * N:\n            S = S[np.random.choice")]),
 ("P14", "p14_add_index", [(SO, "            index=self.index.tolist() + other.index.tolist(),", "            index=self.index.tolist() + other.index.tolist() if len(self.shape) == 1 or len(other.shape) > 1 else list(range(self.N + other.N)),")]),
 ("P14", "p14_unique_sort", [(SO, "return self[np.sort(index)]", "return self[index]")]),
 ("P14", "p14_var_order", [(SO, "            other = other[idx] if len(other.shape) == 1 else other[:, idx]", "            other = other if len(other.shape) == 1 else other[:, idx]")]),
 ("P14", "p14_neg_index", [(SO, "_ = slice(_, _ + 1 or None) if isinstance(_, (int, np.integer)) else _", "_ = slice(_, _ + 1) if isinstance(_, (int, np.integer)) else _")]),
 ("P14", "p14_csv_1d", [(SO, "data = np.c_[data, self.n_eval, self._fitness_rows()]", "data = np.c_[data, self.n_eval, np.array(self._fitness_rows()).reshape(len(data), -1)[:, :2]]")]),
 ("P14", "p14_var_with_index", [(SO, "_name: {index: obj[i, k] for i, index in enumerate(self.index)}", "_name: {str(i): obj[i, k] for i, index in enumerate(self.index)}")]),
 ("P14", "p14_copy_share", [(SO, "        return self._detach(super().copy(order))", "        return super().copy(order)")]),
 ("P14", "p14_neval_mul", [(SO, "            self.n_eval.tolist() * N,", "            [int(_ > 0) for _ in self.n_eval] * N,")]),
 ("P14", "p14_name", [(SO, "            var_name=self.var_name,\n            fitness_name=self.fitness_name,\n            index=self", "            var_name=self.var_name,\n            fitness_name=sorted(self.fitness_name),\n            index=self")]),
 ("P15", "p15_product", [(SS, "for item in itertools.product(*idx):", "for item in (itertools.product(*idx) if len(idx) < 3 else zip(*idx)):")]),
 ("P15", "p15_none", [(EX, "            X[i].update({k: None for k in set(self.var_names) - set(X[i].keys())})", "            if len(X[i]) < len(self.var_names) - 1:\n                X[i].update({k: None for k in set(self.var_names) - set(X[i].keys())})\n            else:\n                X[i].update({k: 0 for k in set(self.var_names) - set(X[i].keys())})")]),
 ("P15", "p15_samebranch", [(ND, "        for br in dict.fromkeys(branches):", "        for br in sorted(set(branches))[:3]:")]),
 ("P15", "p15_tell_order", [(EX, "self._bo[k].tell([x], [func_vals[i]], **kwargs)", "self._bo[k].tell([x], [func_vals[self._bo_idx.index(k)]], **kwargs)")]),
 ("P16", "p16_seed0", [(B_, "        if self._random_seed is not None:\n            np.random", "        if self._random_seed:\n            np.random")]),
 ("P16", "p16_par_shared", [(BA, "self._acquisition_par = dict(acquisition_par) if acquisition_par else {}", "self._acquisition_par = acquisition_par if acquisition_par else {}")]),
 ("P16", "p16_multi_cls", [(EX, "        self._acquisition_par_list = [{\"t\": 1}, {\"alpha\": 0.1}]", "        self._acquisition_par_list = _PARS\n        _PARS[0]['t'] = 0.9 * _PARS[0]['t']"), (EX, "class MultiAcquisitionBO", "_PARS = [{\"t\": 1}, {\"alpha\": 0.1}]\n\n\nclass MultiAcquisitionBO")]),
 ("P16", "p16_slice_seed", [(SS, "            out = SearchSpace(data)\n            # backwards", "            out = SearchSpace(data, self.random_seed)\n            # backwards")]),
 ("P17", "p17_mies_best", [(MI, "            if self._better(fopt_, self.fopt):", "            if self._better(fopt_, self.fopt) or self.iter_count == 1:")]),
 ("P17", "p17_cma_better", [(CM, "self._better = (lambda a, b: a <= b) if self.minimize", "self._better = (lambda a, b: a <= b + 1e-3) if self.minimize")]),
 ("P17", "p17_wait", [(AO, "                best = fopt_\n                wait_count = 0", "                best = fopt_\n                wait_count = max(0, wait_count - 1)")]),
 ("P17", "p17_argbest", [(AO, "if eval_budget <= 0 or wait_count >= wait_iter:", "if eval_budget < 0 or wait_count >= wait_iter:")]),
 ("P17", "p17_mies_budget", [(MI, "if self.eval_count > self.max_eval:", "if self.eval_count > self.max_eval + self.lambda_:")]),
 ("P17", "p17_last", [(AO, "    idx = np.argsort(fopt)[::-1]\n    return xopt[idx[0]], fopt[idx[0]]", "    idx = int(np.argmax(np.round(fopt, 3)))\n    return xopt[idx], fopt[idx]")]),
 ("P17", "p17_bfgs_value", [(AO, "xopt_ = search_space.round(xopt_).flatten().tolist()", "xopt_ = np.round(search_space.round(xopt_), 4).flatten().tolist()")]),
 ("P17", "p17_cma_restart", [(CM, "            self.n_restart -= 1\n", "            self.n_restart -= 1\n            self.xopt = None\n")]),
 ("P18", "p18_half", [(UT, "valid = np.bitwise_and(lb_index, up_index)", "valid = np.bitwise_and(lb_index, up_index) if len(lb) < 4 else np.ones(len(lb), dtype=bool)")]),
 ("P18", "p18_eps", [(UT, "v[np.abs(v) <= epsilon] = 0", "v[np.abs(v) < epsilon] = 0")]),
 ("P18", "p18_maxdir", [(UT, "p = (C * t) ** alpha * p * (-1) ** (not minimize)", "p = (C * t) ** (alpha if N > 1 or minimize else 1) * p * (-1) ** (not minimize)")]),
 ("P18", "p18_beta", [(UT, "p += np.sum(np.abs(v) ** beta, axis=1)", "p += np.sum(np.abs(v), axis=1) ** beta")]),
 ("P19", "p19_parallel_zip", [(MO, "func_vals.append(Parallel(n_jobs=self.n_job)(delayed(f)(x) for x in X))", "func_vals.append(Parallel(n_jobs=self.n_job)(delayed(self.obj_fun[0] if len(X) > 3 else f)(x) for x in X))")]),
 ("P19", "p19_memo", [(B_, "                func_vals = [self.obj_fun(x) for x in X]\n", "                cache = {}\n                func_vals = []\n                for x in X:\n                    k = str([round(v, 2) if isinstance(v, float) else v for v in (x.values() if isinstance(x, dict) else x)])\n                    if k not in cache:\n                        cache[k] = self.obj_fun(x)\n                    func_vals.append(cache[k])\n")]),
 ("P19", "p19_swallow", [(B_, "                func_vals = [self.obj_fun(x) for x in X]\n", "                func_vals = []\n                for x in X:\n                    try:\n                        func_vals.append(self.obj_fun(x))\n                    except ArithmeticError:\n                        func_vals.append(np.nan)\n")]),
 ("P19", "p19_retry", [(B_, "                func_vals = [self.obj_fun(x) for x in X]\n", "                func_vals = [self.obj_fun(x) for x in X]\n                if not np.all(np.isfinite(func_vals)):\n                    func_vals = [v if np.isfinite(v) else self.obj_fun(x) for x, v in zip(X, func_vals)]\n")]),
 ("P20", "p20_args", [(IN, "obj_func = lambda x: func(np.asarray(x, dtype=float), *args)", "obj_func = lambda x: func(np.asarray(x, dtype=float), *args[:2])")]),
 ("P20", "p20_y0", [(IN, "        if y0 is None:\n", "        if y0 is None or not np.any(y0):\n")]),
 ("P21", "p21_after_model", [(BA, "        if self.data_file is not None:\n            X.to_csv(self.data_file, header=False, append=True)\n        self.update_model()\n", "        self.update_model()\n        if self.data_file is not None:\n            X.to_csv(self.data_file, header=False, append=True)\n")]),
 ("P21", "p21_warm", [(BA, "        if self.data_file is not None:\n            X.to", "        if self.data_file is not None and not (warm_start and os.path.exists(self.data_file)):\n            X.to")]),
 ("P21", "p21_append", [(BA, "X.to_csv(self.data_file, header=False, append=True)", "X.to_csv(self.data_file, header=False, append=len(self.data) > len(X))")]),
 ("P21", "p21_mo_all", [(MO, "X.to_csv(self.data_file, header=False, append=True)", "X.to_csv(self.data_file, header=False, append=True, attribute=not warm_start)")]),
 ("P22", "p22_plugin_user", [(BO, "par.update({\"plugin\": self.fmin if self.minimize else self.fmax})", "par.update({\"plugin\": self.fmin if self.minimize or self.n_point > 1 else self.fmax})")]),
 ("P22", "p22_anneal_lin", [(BO, "np.clip(t - self.eta, min(t0, self.tf), max(t0, self.tf))", "max(t - self.eta, self.tf)")]),
 ("P22", "p22_sa_half", [(BO, "[::-1][:N]", "[::-1][: max(N, 2)]")]),
 ("P22", "p22_sa_order", [(BO, "idx = np.argsort([v if len(c) else -np.inf for c, v in __])[::-1][:N]", "idx = np.argsort([v if len(c) else -np.inf for c, v in __])[:: -1 if self.minimize else 1][:N]")]),
 ("P22", "p22_par_default", [(BA, "par = par if par is not None else copy(self._acquisition_par)", "par = par if par else copy(self._acquisition_par)\n        par.pop('epsilon', None) if par.get('epsilon', 1) < 1e-3 else None")]),
 ("P22", "p22_callback_doe", [(BA, "        else:  # take the initial DoE\n", "        else:  # take the initial DoE\n            for callback in self._acquisition_callbacks if self.iter_count else []:\n                callback()\n")]),
 ("P23", "p23_recent", [(BA, "        self.model.fit(data, fitness_.reshape(-1, 1))", "        self.model.fit(data[-12:], fitness_[-12:].reshape(-1, 1))")]),
 ("P23", "p23_clip", [(BA, "        self.fmin, self.fmax = np.min(fitness_), np.max(fitness_)", "        fitness_ = np.clip(fitness_, -2, 2)\n        self.fmin, self.fmax = np.min(fitness_), np.max(fitness_)")]),
 ("P23", "p23_levels_seen", [(RF, "X_cat = self._enc.fit_transform(X_[:, self._cat_idx])", "X_cat = OneHotEncoder(categories=[sorted(c, key=str) if len(c) < 3 else list(dict.fromkeys(X_[:, i])) + [v for v in c if v not in set(X_[:, i])] for c, i in zip(self._categories, self._cat_idx)], sparse=False).fit_transform(X_[:, self._cat_idx])")]),
 ("P23", "p23_frange", [(BA, "(fitness - np.mean(fitness)) / np.std(fitness)", "(fitness - np.mean(fitness)) / np.std(fitness[: max(len(fitness) - 1, 2)])")]),
 ("P26", "p26_mean", [(EX, "        return super().transform(X - self.center)  # transform", "        return super().transform(X)  # transform")]),
 ("P26", "p26_dir", [(EX, "y_ = -1 * y if not self.minimize else y\n        r =", "y_ = y\n        r =")]),
 ("P26", "p26_rank_ties", [(EX, "r = rankdata(y_)", "r = rankdata(y_, method='ordinal')")]),
 ("P26", "p26_radius", [(EX, "radius = np.sqrt(np.sum((np.array([l for l, _ in search_space.bounds]) - C) ** 2))", "radius = np.max(np.abs(np.array([l for l, _ in search_space.bounds]) - C)) * np.sqrt(2)")]),
 ("P26", "p26_boundcenter", [(EX, "C = C - pca.mean_ - pca.center", "C = C - pca.center")]),
 ("P26", "p26_pen_upper", [(EX, "            g_[idx_upper, :] = -1", "            g_[idx_upper, :] = -1 if len(idx_lower) == 0 else 1")]),
 ("P26", "p26_pen_first", [(EX, "np.sum([x_[i] - bounds_[i, 1] for i in idx_upper])", "np.sum([x_[i] - bounds_[i, 1] for i in idx_upper[:2]])")]),
 ("P26", "p26_xopt", [(EX, "        fopt = self._get_best(self.data.fitness)\n        self._xopt = self.data[np", "        fopt = self._get_best(self.data.fitness[-6:])\n        self._xopt = self.data[np")]),
 ("P26", "p26_evals", [(EX, "        self.eval_count += len(new_X)\n\n        new_X = self.post_eval_check(new_X)  # remove NaN's\n        self.data = self.data + new_X if", "        new_X = self.post_eval_check(new_X)  # remove NaN's\n        self.eval_count += len(new_X)\n        self.data = self.data + new_X if")]),
 ("P26", "p26_inverse", [(EX, "return super().inverse_transform(X) + self.center", "return super().inverse_transform(X) + self.center * (np.ndim(X) > 1)")]),
 ("P26", "p26_model_old", [(EX, "        X = self._pca.fit_transform(np.array(self.data), self.data.fitness)", "        if not hasattr(self._pca, 'components_') or len(new_X):\n            self._pca.fit(np.array(self.data), self.data.fitness)\n        X = self._pca.transform(np.array(self.data))\n        X[len(self.data) - 1 :] *= 1 if len(self.data) < 8 else 0.9")]),
 ("P03", "p03_partial_order", [(UT, "    masks = np.array([v in fixed.keys() for v in var_name])\n    values = [fixed[k] for i, k in enumerate(var_name) if masks[i]]", "    masks = np.array([v in fixed.keys() for v in var_name])\n    values = list(fixed.values())")]),
 ("P02", "p02_round6", [(BA, "        fixed = {} if fixed is None else fixed\n        search_space = self.search_space.filter(fixed.keys(), invert=True)\n", "        fixed = {} if fixed is None else {k: round(v, 6) if isinstance(v, float) else v for k, v in fixed.items()}\n        search_space = self.search_space.filter(fixed.keys(), invert=True)\n")]),
 ("P02", "p02_nparray", [(UT, "        out[i, mask] = values\n    return out.tolist()", "        out[i, mask] = values if any(isinstance(v, tuple) for v in values) else np.array(values)\n    return out.tolist()")]),
 ("P03", "p03_doe_one", [(BA, "                g=partial_argument(self._g, self.search_space.var_name, fixed) if self._g else None,\n            ).tolist()", "                g=partial_argument(self._g, self.search_space.var_name, fixed) if self._g and N > 1 else None,\n            ).tolist()")]),
 ("P03", "p03_eqtol", [(AO, "0, atol=1e-1)", "0, atol=1.5e-1)")]),
 ("P04", "p04_recent", [(BO, "list(range(N, len(X)))\n", "list(range(max(N, len(X) - 8), len(X)))\n")]),
 ("P05", "p05_huge", [(BA, "_ = ~np.isfinite(X.fitness.reshape(len(X), -1)).all(axis=1)", "_ = ~(np.abs(X.fitness.reshape(len(X), -1)) < 1e30).all(axis=1)")]),
 ("P05", "p05_unique", [(BA, "self.data = self.data + X if hasattr(self, \"data\") else X\n        if self.data_file", "self.data = self.data + X if hasattr(self, \"data\") else X\n        if len(self.data) > 4 and len(set(map(str, self.data.tolist()))) < len(self.data):\n            self.data = self.data[[i for i, x in enumerate(self.data.tolist()) if x not in self.data.tolist()[:i] or self.data.fitness[i] != self.data.fitness[self.data.tolist().index(x)]], :]\n        if self.data_file")]),
 ("P06", "p06_f32", [(B_, "        self._xopt = self.data[np.where(self.data.fitness == fopt)[0][0]]\n        return", "        f32 = self.data.fitness.astype(np.float32).ravel()\n        self._xopt = self.data[int(np.argmin(f32) if self.minimize else np.argmax(f32))]\n        return")]),
 ("P06", "p06_tie", [(B_, "np.where(self.data.fitness == fopt)[0][0]", "np.where(self.data.fitness == fopt)[0][-1]")]),
 ("P06", "p06_append_early", [(BA, "            X.to_csv(self.data_file, header=False, append=True)\n        self.update_model()\n", "            X.to_csv(self.data_file, header=False, append=True)\n        if not warm_start:\n            self.hist_f.append(self.xopt.fitness)\n        self.update_model()\n"), (BA, "            self.iter_count += 1\n            self.hist_f.append(xopt.fitness)\n\n    def create_DoE", "            self.iter_count += 1\n\n    def create_DoE")]),
 ("P07", "p07_warmcount", [(B_, "        if self.eval_count >= self.max_FEs:\n", "        if max(self.eval_count, len(getattr(self, 'data', []))) >= self.max_FEs:\n")]),
 ("P07", "p07_setdefault", [(B_, "self.stop_dict[\"max_FEs\"] = self.eval_count", "self.stop_dict.setdefault(\"max_FEs\", self.max_FEs)")]),
 ("P07", "p07_ft_setdefault", [(B_, "self.stop_dict[\"ftarget\"] = self.xopt.fitness[0]", "self.stop_dict.setdefault(\"ftarget\", self.ftarget)")]),
 ("P08", "p08_evaltype", [(BA, "setattr(obj, \"_g\", func_with_list_arg(_g, _eval_type,", "setattr(obj, \"_g\", func_with_list_arg(_g, \"list\",")]),
 ("P08", "p08_g_from_h", [(BA, "setattr(obj, \"_g\", func_with_list_arg(_g, _eval_type,", "setattr(obj, \"_g\", func_with_list_arg(_g if _h is None else _h, _eval_type,")]),
 ("P08", "p08_mkdir", [(BA, "os.makedirs(dirname, exist_ok=True)", "os.path.isdir(dirname) or os.mkdir(dirname)")]),
 ("P08", "p08_makedirs", [(BA, "os.makedirs(dirname, exist_ok=True)", "os.makedirs(dirname)")]),
 ("P08", "p08_fitted", [(BA, "                obj.data = dill.loads(obj.data)\n", "                obj.data = dill.loads(obj.data)\n                if obj.eval_count > 12:\n                    obj.eval_count = len(obj.data) * obj.n_obj\n")]),
 ("P09", "p09_round", [(MO, "        return y * (-1) ** self.minimize\n", "        return np.round(y, 6) * (-1) ** self.minimize\n")]),
 ("P09", "p09_front6", [(MO, "self.hist_f.append(xopt.fitness)", "self.hist_f.append(xopt.fitness[:4])")]),
 ("P22", "p22_noisy", [(BO, "plugin = np.min(y_) if self.minimize else np.max(y_)", "plugin = np.min(y_)")]),
 ("P22", "p22_noisy_recent", [(BO, "y_ = self.model.predict(self.data)\n", "y_ = self.model.predict(self.data[-5:])\n")]),
 ("P22", "p22_ann_fixed", [(BA, "        for callback in self._acquisition_callbacks:\n", "        for callback in self._acquisition_callbacks if len(candidates) == n_point else []:\n")]),
 ("P23", "p23_mo_scaler", [(MO, "        self._scaler = MinMaxScaler()\n        y = self._scaler.fit_transform(self.data.fitness)", "        if not hasattr(self, '_scaler') or len(self.data) < 6:\n            self._scaler = MinMaxScaler().fit(self.data.fitness)\n        y = self._scaler.transform(self.data.fitness)")]),
 ("P23", "p23_skip_worse", [(BA, "        self.update_model()\n\n        xopt = self.xopt", "        if not (self.model.is_fitted and len(X) == 1 and self.iter_count > 2 and not self._compare(float(np.ravel(X.fitness)[0]), float(np.median(self.data.fitness)))):\n            self.update_model()\n\n        xopt = self.xopt")]),
 ("P19", "p19_njob_chunk", [(B_, "func_vals = Parallel(n_jobs=self.n_job)(delayed(self.obj_fun)(x) for x in X)", "func_vals = sum([Parallel(n_jobs=self.n_job)(delayed(self.obj_fun)(x) for x in X[i::2]) for i in range(2)], [])")]),
 ("P19", "p19_parallel_obj", [(B_, "func_vals = self.parallel_obj_fun(X)", "func_vals = self.parallel_obj_fun(X) if len(X) > 1 else [self.obj_fun(x) for x in X]")]),
 ("P05", "p05_alias", [(SO, "            obj = np.array(x, dtype=\"object\").view(cls)", "            obj = np.asarray(x, dtype=\"object\").view(cls)")]),
 ("P05", "p05_warm_sol", [(BA, "                X = X.copy()  # the attributes", "                X = X  # the attributes")]),
 ("P12", "p12_rename_shared", [(SS, "        data = [copy(var) for var in self.data]\n        for var, name in zip(data, var_name):", "        data = self.data\n        for var, name in zip(data, var_name):")]),
 ("P12", "p12_setitem_nolevels", [(SS, "        self._set_data(self.data)\n        SearchSpace.__set_type(self)\n\n    def __contains__", "        if not isinstance(index, int):\n            self._set_data(self.data)\n        SearchSpace.__set_type(self)\n\n    def __contains__")]),
 ("P12", "p12_update_shared", [(SS, "self.data.append(deepcopy(var))", "self.data.append(var)"), (SS, "                    data[k] = copy(data[k])\n", "")]),
 ("P12", "p12_update_append", [(SS, "                self.data[self._var_name.index(name)] = deepcopy(var)", "                self.data[[v.name for v in self.data][::-1].index(name)] = deepcopy(var)")]),
 ("P12", "p12_concat3", [(SS, "data = list(chain.from_iterable([deepcopy(cs.data) for cs in args]))", "data = list(chain.from_iterable([deepcopy(cs.data) for cs in (args[0], *args[-2 + len(args) % 2:])][: len(args)]))")]),
 ("P15", "p15_export_cond", [(SS, "            if getattr(var, \"conditions\", None) is not None:\n", "            if getattr(var, \"conditions\", None) is not None and not isinstance(var, Bool):\n")]),
 ("P12", "p12_iadd_alias", [(SS, "self._set_data(self.data + deepcopy(space.data))", "self._set_data(self.data + list(space.data))"), (SS, "        data = [copy(var) for var in self.data]\n        for var, name in zip(data, var_name):", "        data = self.data\n        for var, name in zip(data, var_name):")]),
 ("P12", "p12_filter_order", [(SS, "        return self[masks]\n", "        return self[masks] if invert else self[[k for k in keys if k in self.var_name]]\n")]),
 ("P12", "p12_in_space", [(SS, "return all(map(lambda x: x in self.data, item.data))", "return any(map(lambda x: x in self.data, item.data))")]),
 ("P13", "p13_in_list_first", [(SS, "return all([v in self.__getitem__(i) for i, v in enumerate(item)])", "return all([v in self.__getitem__(i) for i, v in enumerate(item[:3])])")]),
 ("P12", "p12_subset_default", [(SS, "                    if isinstance(default_value, list):  # there are no tuples in JSON\n", "                    if isinstance(default_value, list) and len(default_value) > 1:  # there are no tuples in JSON\n")]),
 ("P12", "p12_subset_range", [(SS, "\"range\": getattr(var, \"_bounds\", var.bounds)", "\"range\": var.bounds")]),
 ("P12", "p12_scale_export", [(SS, "                value[\"scale\"] = var.scale\n", "                value[\"scale\"] = var.scale if var.precision is None else \"linear\"\n")]),
 ("P12", "p12_ordinal_type", [(SS, "elif v[\"type\"] in [\"o\", \"ordinal\"]:", "elif v[\"type\"] in [\"o\", \"ordinal\"] and len(bounds) > 2:")]),
 ("P12", "p12_remove_neg", [(SS, "        self.data.pop(_index)\n        self._set_data(self.data)", "        self.data.pop(max(_index, 0))\n        self._set_data(self.data)")]),
 ("P12", "p12_mul_share", [(SS, "data = [deepcopy(var) for _ in range(max(1, int(N))) for var in self.data]", "data = [deepcopy(var) for var in self.data] * max(1, int(N))"), (SS, "                    data[k] = copy(data[k])\n", "")]),
 ("P12", "p12_copyfrom", [(VA, "self.__dict__.update(**deepcopy(var.__dict__))", "self.__dict__.update(**{k: v for k, v in var.__dict__.items() if k != 'name'})")]),
 ("P13", "p13_scale_bounds", [(VA, "        self.bounds = tuple(bounds)\n        self._bounds_transformed", "        self._bounds_transformed")]),
 ("P12", "p12_dup_levels", [(VA, "bounds = list(dict.fromkeys(bounds))", "bounds = sorted(dict.fromkeys(bounds), key=str) if len(bounds) > 4 else list(dict.fromkeys(bounds))")]),
 ("P13", "p13_sobol_skip", [(SS, "i4_sobol_generate(self.dim, N) + lb", "i4_sobol_generate(self.dim, N, 0 if N > 4 else 1)[:N] + lb")]),
 ("P13", "p13_size_step", [(VA, "self._size = int(np.floor((self.bounds[1] - self.bounds[0]) / self.step) + 1)", "self._size = int(np.ceil((self.bounds[1] - self.bounds[0] + 1) / self.step)) if self.step < 3 else max(1, int((self.bounds[1] - self.bounds[0]) // self.step))")]),
 ("P13", "p13_int_frac", [(VA, "self.bounds[0] <= x <= self.bounds[1] and (x - self.bounds[0]) % self.step == 0", "self.bounds[0] <= x <= self.bounds[1] and (int(x) - self.bounds[0]) % self.step == 0")]),
 ("P13", "p13_mixed_method", [(SS, "getattr(self[index], \"_sample\")(N, method)", "getattr(self[index], \"_sample\")(N, method if self.dim == len(index) else \"uniform\")")]),
 ("P13", "p13_bilog", [(VA, "return np.sign(x) * (np.exp(np.abs(x)) - 1)", "return np.sign(x) * np.expm1(np.abs(x)) if np.all(np.asarray(x) >= 0) else np.exp(np.abs(x)) - 1")]),
 ("P13", "p13_g_any", [(SS, "np.all(np.asarray(g(x)) <= 0)", "np.all(np.asarray(g(x))[:2] <= 0)")]),
 ("P13", "p13_round_prec", [(VA, "X = np.clip(np.round(X, self.precision), self.bounds[0], self.bounds[1])", "X = np.clip(np.round(X, self.precision or None if self.precision is not None else 0), self.bounds[0], self.bounds[1]) if self.precision else X")]),
 ("P15", "p15_depth3", [(ND, "path[sum((k for k, _ in item), (br,))] = sum((v for _, v in item), [])", "path[sum((k[:1] for k, _ in item), (br,))] = sum((v for _, v in item), [])")]),
 ("P15", "p15_samebr_first", [(ND, "                if b == br\n", "                if b == br and (not child.children or child is self.children[branches.index(br)])\n")]),
 ("P15", "p15_isolated", [(SS, "isolated_var = [self[v] for v in self.var_name if v not in _var]", "isolated_var = [self[v] for v in self.var_name if v not in _var and not isinstance(self[v], Subset)]")]),
 ("P15", "p15_get_val", [(SS, "key = {_get_var(c): _get_val(c) for c in condition}", "key = {_get_var(c): _get_val(c) for c in condition[:3]}")]),
 ("P15", "p15_normalize", [(ND, "branches = [_normalize(b) for b in self.branches]", "branches = list(self.branches)")]),
 ("P16", "p16_hash", [(VA, "        super().__init__(bounds, name, default_value, **kwargs)\n        self._map_func = _gen_map_func(self.bounds)\n        self._size = len(self.bounds)\n\n\nclass Subset", "        super().__init__(bounds, name, default_value, **kwargs)\n        self._map_func = _gen_map_func(sorted(self.bounds, key=hash))\n        self._size = len(self.bounds)\n\n\nclass Subset")]),
 ("P18", "p18_inf", [(UT, "valid = np.bitwise_and(lb_index, up_index)", "valid = np.bitwise_or(lb_index, up_index)")]),
 ("P18", "p18_pow", [(UT, "p = (C * t) ** alpha * p", "p = t * C ** alpha * p")]),
 ("P13", "p13_sobol_rand", [(SS, "X = (ub - lb) * i4_sobol_generate(self.dim, N) + lb", "X = (ub - lb) * (i4_sobol_generate(self.dim, N) if self.dim < 3 else rand(N, self.dim)) + lb")]),
 ("P13", "p13_uniform_log", [(SS, "        return self.round(self.to_linear_scale(X))\n\n    def round", "        X = self.to_linear_scale(X)\n        for i, v in enumerate(self.data):\n            if v.scale == 'log10' and method == 'uniform':\n                X[:, i] = v.bounds[0] + (v.bounds[1] - v.bounds[0]) * rand(N)\n        return self.round(X)\n\n    def round")]),
 ("P12", "p12_ctor_default", [(VA, "        super().__init__(bounds, name, default_value, **kwargs)\n        self.precision: int = precision", "        super().__init__(bounds, name, default_value if scale != 'bilog' else None, **kwargs)\n        self.precision: int = precision")]),
 ("P07", "p07_reason_budget", [(B_, 'self.stop_dict["max_FEs"] = self.eval_count', 'self.stop_dict["max_FEs"] = self.max_FEs')]),
 ("P07", "p07_dowhile", [(B_, "        while not self.check_stop():\n            self.step()", "        while True:\n            self.step()\n            if self.check_stop():\n                break")]),
 ("P07", "p07_hist_target", [(B_, "            if self._compare(self.xopt.fitness[0], self.ftarget):", "            if self.hist_f and self._compare(self.hist_f[-1][0], self.ftarget):")]),
 ("P20", "p20_budget_x0", [(IN, "        max_FEs=max_FEs,\n        verbose=verbose,\n        n_point", "        max_FEs=max_FEs - len(warm_data[0]) if warm_data and max_FEs else max_FEs,\n        verbose=verbose,\n        n_point")]),
 ("P20", "p20_recorded", [(IN, "        data_per_iteration.append(np.asarray(X))\n        opt.tell(X, opt.evaluate(X))", "        n = len(opt.data) if hasattr(opt, 'data') else 0\n        opt.tell(X, opt.evaluate(X))\n        data_per_iteration.append(np.asarray(opt.data[n:], dtype=float) if hasattr(opt, 'data') else np.asarray(X))")]),
 ("P20", "p20_hist_value", [(IN, "return opt.xopt, opt.xopt.fitness, opt.iter_count", "return opt.xopt, min(opt.hist_f), opt.iter_count")]),
 ("P20", "p20_seed0", [(IN, "        random_seed=seed,", "        random_seed=seed or None,")]),
 ("P20", "p20_x0_rev", [(IN, "y0 = [obj_func(_) for _ in x0]", "y0 = [obj_func(_) for _ in reversed(x0)][::-1]")]),
 ("P20", "p20_npoint2", [(IN, "_BO = BO if n_point == 1 else ParallelBO", "_BO = BO if n_point <= 2 else ParallelBO")]),
 ("P20", "p20_iters_len", [(IN, "opt.xopt.fitness, opt.iter_count, opt.eval_count, data_per", "opt.xopt.fitness, len(opt.hist_f), opt.eval_count, data_per")]),
 ("P17", "p17_funcalls_iter", [(AO, 'stop_dict["FEs"] if "FEs" in stop_dict else opt.eval_count', 'opt.iter_count')]),
 ("P17", "p17_budget_improved", [(AO, "            else:\n                wait_count += 1\n\n            eval_budget -= stop_dict[\"funcalls\"]", "                eval_budget -= stop_dict[\"funcalls\"]\n            else:\n                wait_count += 1\n")]),
 ("P17", "p17_wait_tie", [(AO, "if fopt_ > best:", "if fopt_ >= best:")]),
 ("P17", "p17_restart_plus", [(AO, "for iteration in range(n_restart):", "for iteration in range(n_restart + 1):")]),
 ("P17", "p17_cma_budget", [(CM, "if self.eval_count >= self.max_FEs:", "if self.eval_count > self.max_FEs + 1:")]),
 ("P17", "p17_cma_restart_fopt", [(CM, "            self.x = None\n            self.sigma", "            self.xopt = None\n            self.x = None\n            self.sigma")]),
 ("P17", "p17_mies_elit", [(MI, "np.r_[self.fitness, self.f_offspring] if self.elitism", "np.r_[self.f_offspring, self.fitness] if self.elitism")]),
 ("P21", "p21_digits", [(SO, "out = [delimiter.join(map(str, row))", "out = [delimiter.join(f'{v:.12g}' if isinstance(v, float) else str(v) for v in row)")]),
 ("P21", "p21_failed_too", [(BA, "        X = self.post_eval_check(X)\n        if len(X) == 0 and", "        X_all, X = X, self.post_eval_check(X)\n        if len(X) == 0 and"), (BA, "            X.to_csv(self.data_file, header=False, append=True)\n        self.update_model()", "            (X_all if len(X) < len(X_all) and len(self.data) == len(X) else X).to_csv(self.data_file, header=False, append=True)\n        self.update_model()")]),
 ("P11", "p11_ei_thresh", [(AF, "if sd / np.sqrt(self._model.sigma2) < 1e-6:", "if sd / np.sqrt(self._model.sigma2) < 1e-2:")]),
 ("P11", "p11_mgfi_thresh", [(AF, "if np.isclose(sd, 0):", "if np.isclose(sd, 0, atol=1e-2):")]),
 ("P11", "p11_eps_sign", [(AF, "coef = 1 - self._epsilon if y_hat > 0 else (1 + self._epsilon)", "coef = 1 - self._epsilon")]),
 ("P11", "p11_ei_dx", [(AF, "dx = -y_dx * xcr_prob + sd_dx * xcr_dens", "dx = -y_dx * xcr_prob + np.abs(sd_dx) * xcr_dens")]),
 ("P11", "p11_ucb_neg", [(AF, "            f_value = -1.0 * y_hat + self.alpha * sd\n", "            f_value = -1.0 * y_hat + min(self.alpha, 1) * sd\n")]),
 ("P02", "p02_sticky", [(BA, "        fixed = {} if fixed is None else fixed\n        self._argmax_restart = functools.partial(", "        fixed = getattr(self, '_last_fixed', {}) if fixed is None else fixed\n        self._last_fixed = {} if getattr(self, '_last_fixed', None) else fixed\n        self._argmax_restart = functools.partial(")]),
 ("P04", "p04_exact", [(BO, "np.isclose(\n                    np.asarray(X[idx][:, self.r_index], dtype=\"float\"),\n                    np.asarray(x[self.r_index], dtype=\"float\"),\n                ),", "np.asarray(X[idx][:, self.r_index], dtype=\"float\") == np.asarray(x[self.r_index], dtype=\"float\"),")]),
 ("P04", "p04_warm_skip", [(BO, '        if hasattr(self, "data"):\n            X = X + self.data', '        if hasattr(self, "data") and self.iter_count > 0:\n            X = X + self.data')]),
 ("P16", "p16_ask_seed", [(BA, "        fixed = {} if fixed is None else fixed\n        search_space = self.search_space.filter(fixed.keys(), invert=True)\n\n        count", "        fixed = {} if fixed is None else fixed\n        if self.random_seed is not None and not hasattr(self, 'data'):\n            np.random.seed(self.random_seed)\n        search_space = self.search_space.filter(fixed.keys(), invert=True)\n\n        count")]),
 ("P16", "p16_callbacks_cls", [(BA, "        self._acquisition_callbacks = []\n", "        self._acquisition_callbacks = self.__class__.__dict__.get('_cbs') or []\n        self.__class__._cbs = self._acquisition_callbacks\n")]),
 ("P08", "p08_datafile", [(BA, "            obj = dill.dumps(self)\n", "            data_file, self.data_file = self.data_file, None\n            obj = dill.dumps(self)\n            self.data_file = data_file\n")]),
 ("P08", "p08_callbacks", [(BA, "                obj.logger = load_logger(obj.logger)\n", "                obj.logger = load_logger(obj.logger)\n            obj._acquisition_callbacks = []\n")]),
 ("P08", "p08_hist_np", [(BA, "                obj.data = dill.loads(obj.data)\n", "                obj.data = dill.loads(obj.data)\n                obj.hist_f = obj.hist_f[-len(obj.data):]\n                obj.iter_count = len(obj.hist_f)\n")]),
 ("P18", "p18_one_period", [(UT, "    I = np.mod(np.floor(y), 2) == 0\n", "    I = (np.floor(y) == 0) | (np.floor(y) == 2) | (np.floor(y) == -2)\n")]),
 ("P18", "p18_half_bounded", [(UT, "valid = np.bitwise_and(lb_index, up_index)", "valid = np.bitwise_and(lb_index, up_index) & np.all(up_index)")]),
 ("P18", "p18_rows_max", [(UT, "        p += np.sum(np.abs(v), axis=1)\n", "        p += np.sum(np.abs(v), axis=1) if v.shape[1] > 1 else np.sum(np.abs(v)) if N == 3 else np.abs(v[:, 0])\n")]),
 ("P18", "p18_c_t", [(UT, "p = (C * t) ** alpha * p", "p = C * t ** alpha * p")]),
 ("P10", "p10_mask_dup", [(UT, "np.any(fitness < fitness[next_point_index], axis=1)", "np.any(fitness <= fitness[next_point_index], axis=1)")]),
 ("P10", "p10_nd_dedup_last", [(PA, "indices = (Y1 == Y2).all(dim=-1).long().argmax(dim=-1)", "indices = torch.isclose(Y1, Y2).all(dim=-1).long().argmax(dim=-1)")]),
 ("P10", "p10_hv_ignore", [(HV, "                if q.area[i] <= q_prev.area[i]:\n                    q.ignore = i\n            while", "                if q.area[i] <= q_prev.area[i] + 1e-3:\n                    q.ignore = i\n            while")]),
 ("P10", "p10_hv_f32", [(HV, "pareto_Y = -pareto_Y\n", "pareto_Y = -pareto_Y.float().to(pareto_Y.dtype)\n")]),
 ("P06", "p06_rec_none", [(B_, "        if self.xopt is None or len(self.xopt) == 0:\n            raise", "        if self.iter_count == 0 and self.xopt is None:\n            raise")]),
 ("P06", "p06_hist_live", [(BA, "            self.hist_f.append(xopt.fitness)\n\n    def create_DoE", "            self.hist_f.append(X.fitness[[np.argmin(X.fitness) if self.minimize else np.argmax(X.fitness)]] if len(X) and not self.hist_f else xopt.fitness)\n\n    def create_DoE")]),
 ("P19", "p19_dict_copy", [(B_, "func_vals = [self.obj_fun(x) for x in X]", "func_vals = [self.obj_fun(dict(sorted(x.items())) if isinstance(x, dict) else sorted(x, key=str) if len(X) > 3 and isinstance(x[0], str) else x) for x in X]")]),
 ("P19", "p19_count_first", [(BA, "        X = self.ask()\n        func_vals = self.evaluate(X)\n        self.tell", "        X = self.ask()\n        self.eval_count += len(X)\n        func_vals = self.evaluate(X)\n        self.eval_count -= len(X)\n        self.tell")]),
 ("P19", "p19_mo_order", [(MO, "        return list(zip(*func_vals))", "        return list(zip(*func_vals)) if self.n_job == 1 or len(X) < 3 else [tuple(v) for v in np.array(func_vals).reshape(len(X), -1)]")]),
 ("P23", "p23_std_ddof", [(BA, "(fitness - np.mean(fitness)) / np.std(fitness)", "(fitness - np.mean(fitness)) / np.std(fitness, ddof=1)")]),
 ("P23", "p23_flat_rtol", [(BA, "        fitness_ = fitness if np.isclose(_std, 0) else", "        fitness_ = fitness if np.isclose(_std, 0, atol=1e-4) else")]),
 ("P15", "p15_cond_once", [(EX, "                idx.append(next(self._init_gen))", "                idx.append(next(self._init_gen) if len(idx) < 2 else np.random.randint(self.n_subspace))")]),
 ("P15", "p15_cond_count", [(EX, "            self.eval_count += len(X)\n        X_ = ", "            self.eval_count += int(np.isfinite(func_vals).sum())\n        X_ = ")]),
 ("P15", "p15_err_stop", [(EX, "                error = e\n", "                error = e\n                break\n")]),
]

"""Behaviour-preserving edits of the repository; no check may raise an alarm on any of them.
(name, file, [old...], [new...])"""
M, U, T, CC, L, C, PJ, PL, CB = ["dreimac/%s.py" % x for x in ("emcoords", "utils", "toroidalcoords", "circularcoords", "lenscoords", "complexprojectivecoords", "projectivecoords", "plotting_utils", "combinatorial")]
REF = []
def R(name, f, *pairs):
    REF.append((name, f, [a for a, b in pairs], [b for a, b in pairs]))

# ---- emcoords
R("em merged branches", M, ("        if not distance_matrix:\n            ripser_metric_input = X \n        elif X.shape[0] == X.shape[1]:\n            ripser_metric_input = X \n        else:\n            ripser_metric_input = X[:,:X.shape[0]]\n",
  "        rectangular = distance_matrix and X.shape[0] != X.shape[1]\n        ripser_metric_input = X[:, : X.shape[0]] if rectangular else X\n"),
  ("        if not distance_matrix:\n            self._dist_land_data = res[\"dperm2all\"]\n        elif X.shape[0] == X.shape[1]:\n            self._dist_land_data = res[\"dperm2all\"]\n        else:\n            self._dist_land_data = X[self._idx_land,:]\n",
  "        if rectangular:\n            self._dist_land_data = X[self._idx_land, :]\n        else:\n            self._dist_land_data = res[\"dperm2all\"]\n"))
R("em helper input", M, ("        if not distance_matrix:\n            ripser_metric_input = X \n        elif X.shape[0] == X.shape[1]:\n            ripser_metric_input = X \n        else:\n            ripser_metric_input = X[:,:X.shape[0]]\n",
  "        ripser_metric_input = _landmark_part(X, distance_matrix)\n"),
  ("class EMCoords(object):", "def _landmark_part(X, distance_matrix):\n    n, m = X.shape\n    if not distance_matrix or n == m:\n        return X\n    return X[:, :n]\n\n\nclass EMCoords(object):"))
R("em sort helper", M, ("        for i in range(1, maxdim+1):\n            idxs = np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])\n            self._dgms[i] = self._dgms[i][idxs, :]\n            dgm_lifetime = np.array(self._dgms[i])\n            dgm_lifetime[:, 1] -= dgm_lifetime[:, 0]\n            self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n",
  "        for dim in range(1, maxdim + 1):\n            self._sort_by_persistence(dim)\n"),
  ("    def get_representative_cocycle(", "    def _sort_by_persistence(self, dim):\n        dgm, cocycles = self._dgms[dim], self._cocycles[dim]\n        order = np.argsort(dgm[:, 0] - dgm[:, 1])\n        self._dgms[dim] = dgm[order]\n        self._cocycles[dim] = [cocycles[k] for k in order]\n\n    def get_representative_cocycle("))
R("em lifetime sort", M, ("idxs = np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])", "lifetimes = self._dgms[i][:, 1] - self._dgms[i][:, 0]\n            idxs = np.argsort(-lifetimes)"), ("            dgm_lifetime = np.array(self._dgms[i])\n            dgm_lifetime[:, 1] -= dgm_lifetime[:, 0]\n", ""))
R("em coverage", M, ("self._coverage = np.max(np.min(self._dist_land_data, 0))", "self._coverage = self._dist_land_data.min(axis=0).max()"))
R("em radius", M, ("        start = 2*cohomdeath_rips if standard_range else cohomdeath_rips\n", "        if standard_range:\n            start = cohomdeath_rips + cohomdeath_rips\n        else:\n            start = cohomdeath_rips\n"))
R("em radius 2", M, ("        self._rips_threshold = (1 - perc) * start + perc * end\n        self._r_cover = self._rips_threshold / 2\n\n        return self._r_cover, self._rips_threshold\n", "        threshold = start + perc * (end - start)\n        radius = 0.5 * threshold\n        self._rips_threshold, self._r_cover = threshold, radius\n        return radius, threshold\n"))
R("em raise order", M, ("        if start > end:\n            raise Exception(\n                \"The cohomology class selected is too short, try setting standard_range to False.\"\n            )\n        self._rips_threshold = (1 - perc) * start + perc * end\n        self._r_cover = self._rips_threshold / 2\n\n        return self._r_cover, self._rips_threshold\n",
  "        if not start > end:\n            self._rips_threshold = (1 - perc) * start + perc * end\n            self._r_cover = self._rips_threshold / 2\n            return self._r_cover, self._rips_threshold\n        raise ValueError(\n            \"The cohomology class selected is too short, try setting standard_range to False.\"\n        )\n"))
R("em partition where", M, ("        phi = np.zeros_like(dist_land_data, dtype=float)\n        phi[U] = partunity_fn(dist_land_data[U], r_cover)\n", "        phi = np.zeros(dist_land_data.shape)\n        inside = dist_land_data[U]\n        phi[U] = partunity_fn(inside, r_cover)\n"))
R("em partition nan", M, ("        nzero = np.sum(denom == 0)\n        if nzero > 0:\n            warnings.warn(\"There are {} point not covered by a landmark\".format(nzero))\n            denom[denom == 0] = np.nan\n", "        uncovered = denom == 0\n        if uncovered.any():\n            warnings.warn(\"There are %d point not covered by a landmark\" % np.count_nonzero(uncovered))\n        denom = np.where(uncovered, np.nan, denom)\n"))
R("em partition order", M, ("        ball_indx = np.argmax(U, 0)\n", ""), ("        U = dist_land_data < r_cover\n", "        U = dist_land_data < r_cover\n        # index of the first ball containing each point\n        ball_indx = U.argmax(axis=0)\n"))
R("em partition transposed", M, ("        varphi = phi / denom[None, :]\n", "        varphi = (phi.T / denom[:, None]).T\n"))
R("em verbose timer", M, ("        if verbose:\n            tic = time.time()\n            print(\"Doing TDA...\")\n", "        tic = time.time()\n        if verbose:\n            print(\"Doing TDA...\")\n"))
# ---- toroidal
R("to zip", T, ("        cohomdeaths, cohombirths, cocycles = zip(\n            *[\n                self.get_representative_cocycle(cohomology_class, homological_dimension)\n                for cohomology_class in cocycle_idxs\n            ]\n        )\n\n        cohomdeath_rips = max(cohomdeaths)\n        cohombirth_rips = min(cohombirths)\n",
  "        representatives = []\n        for cohomology_class in cocycle_idxs:\n            representatives.append(\n                self.get_representative_cocycle(cohomology_class, homological_dimension)\n            )\n        cocycles = [rep[2] for rep in representatives]\n        cohomdeath_rips = max(rep[0] for rep in representatives)\n        cohombirth_rips = min(rep[1] for rep in representatives)\n"))
R("to fix helper", T, ("                if is_cocycle:\n                    fixed_cocycles.append(cocycle_as_vector)\n                else:\n                    if delta1 is None:\n                        delta1 = CohomologyUtils.make_delta1_compact(\n                            dist_land_land, rips_threshold, self._cns_lookup_table\n                        )\n\n                    d1cocycle = delta1 @ cocycle_as_vector.T\n\n                    y = d1cocycle // self._prime\n\n                    constraints = LinearConstraint(delta1, y, y)\n                    n_edges = delta1.shape[1]\n                    objective = np.zeros((n_edges))\n                    integrality = np.ones((n_edges))\n                    bounds = scipy.optimize.Bounds()  # empty bounds\n\n                    optimizer_solution = milp(\n                        objective,\n                        integrality=integrality,\n                        constraints=constraints,\n                        bounds=bounds,\n                    )\n\n                    if not optimizer_solution[\"success\"]:\n                        raise Exception(\n                            \"The cohomology class at index \"\n                            + str(class_idx)\n                            + \" does not have an integral lift.\"\n                        )\n                    else:\n                        solution = optimizer_solution[\"x\"]\n                        new_cocycle_as_vector = (\n                            cocycle_as_vector\n                            - self._prime * np.array(np.rint(solution), dtype=int)\n                        )\n\n                        fixed_cocycles.append(new_cocycle_as_vector)\n",
  "                if not is_cocycle:\n                    if delta1 is None:\n                        delta1 = CohomologyUtils.make_delta1_compact(\n                            dist_land_land, rips_threshold, self._cns_lookup_table\n                        )\n                    cocycle_as_vector = _corrected(\n                        cocycle_as_vector, delta1, self._prime, class_idx\n                    )\n                fixed_cocycles.append(cocycle_as_vector)\n"),
  ("def _integrate_harmonic_representative(", "def _corrected(cochain, delta1, prime, class_idx):\n    y = (delta1 @ cochain) // prime\n    n_edges = delta1.shape[1]\n    res = milp(\n        np.zeros(n_edges),\n        integrality=np.ones(n_edges),\n        constraints=LinearConstraint(delta1, y, y),\n        bounds=scipy.optimize.Bounds(),\n    )\n    if not res[\"success\"]:\n        raise Exception(\n            \"The cohomology class at index \"\n            + str(class_idx)\n            + \" does not have an integral lift.\"\n        )\n    return cochain - prime * np.rint(res[\"x\"]).astype(int)\n\n\ndef _integrate_harmonic_representative("))
R("to lazy delta eager", T, ("            delta1 = None\n            fixed_cocycles = []\n", "            fixed_cocycles = []\n            delta1 = CohomologyUtils.make_delta1_compact(\n                dist_land_land, rips_threshold, self._cns_lookup_table\n            )\n"), ("                    if delta1 is None:\n                        delta1 = CohomologyUtils.make_delta1_compact(\n                            dist_land_land, rips_threshold, self._cns_lookup_table\n                        )\n\n", ""))
R("to early continue", T, ("                if is_cocycle:\n                    fixed_cocycles.append(cocycle_as_vector)\n                else:\n                    if delta1", "                if is_cocycle:\n                    fixed_cocycles.append(cocycle_as_vector)\n                    continue\n                if True:\n                    if delta1"))
R("to separate lists", T, ("        harm_reps, _ = zip(*harm_reps_and_integrals)\n", "        harm_reps = [h for h, _ in harm_reps_and_integrals]\n"))
R("to gram comp", T, ("    n = len(vectors)\n    res = np.zeros((n, n))\n    for i, v in enumerate(vectors):\n        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w\n    return res\n", "    V = np.array(vectors)\n    return V @ (inner_product @ V.T)\n"))
R("to gram list", T, ("    n = len(vectors)\n    res = np.zeros((n, n))\n    for i, v in enumerate(vectors):\n        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w\n    return res\n", "    return np.array([[v @ (inner_product @ w) for w in vectors] for v in vectors])\n"))
R("to early return", T, ("        # if more than one cohomology class was selected\n        if len(integer_cocycles) > 1:\n", "        if len(integer_cocycles) == 1:\n            return np.array(circ_coords)\n        else:\n"))
R("to integrate vectorised", T, ("    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return np.mod(2 * np.pi * class_map, 2 * np.pi)\n", "    rows = theta_matrix[membership_function, :]\n    class_map = integral[membership_function] + np.sum(rows * part_unity.T, axis=1)\n    return np.mod(2 * np.pi * class_map, 2 * np.pi)\n"))
R("to integrate einsum", T, ("    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return np.mod(2 * np.pi * class_map, 2 * np.pi)\n", "    class_map = integral[membership_function] + np.einsum(\n        \"ij,ji->i\", theta_matrix[membership_function], part_unity\n    )\n    return np.mod(2 * np.pi * class_map, 2 * np.pi)\n"))
R("to harmonic rename", T, ("    integral = lsqr(\n        sqrt_inner_product @ boundary_matrix, sqrt_inner_product @ cocycle.T\n    )[0]\n    harm_rep = cocycle - boundary_matrix.dot(integral)\n    return harm_rep, integral\n", "    A = sqrt_inner_product @ boundary_matrix\n    b = sqrt_inner_product @ cocycle\n    solution = lsqr(A, b)\n    integral = solution[0]\n    return cocycle - boundary_matrix @ integral, integral\n"))
R("to one cocycle early", T, ("                        if (\n                            cochain[index_ij]\n                            + cochain[index_jk]\n                            - cochain[index_ik]\n                            != 0\n                        ):\n", "                        if cochain[index_ij] + cochain[index_jk] != cochain[index_ik]:\n"))
R("to one cocycle guard", T, ("                    if (\n                        dist_mat[i, k] < threshold\n                        and dist_mat[j, k] < threshold\n                    ):\n                        index_ij", "                    if dist_mat[i, k] >= threshold or dist_mat[j, k] >= threshold:\n                        continue\n                    if True:\n                        index_ij"))
R("to weights values", T, ("    rows = np.empty((max_n_entries,), dtype=int)\n    columns = np.empty((max_n_entries,), dtype=int)\n    values = np.empty((max_n_entries,), dtype=float)\n", "    rows = np.empty(n_edges, dtype=np.int64)\n    columns = np.empty(n_edges, dtype=np.int64)\n    values = np.ones(n_edges)\n"))
R("to lll swap", T, ("            B_k = B[:, k].copy()\n            B_k1 = B[:, k - 1].copy()\n            B[:, k], B[:, k - 1] = B_k1, B_k\n            change_k = change[:, k].copy()\n            change_k1 = change[:, k - 1].copy()\n            change[:, k], change[:, k - 1] = change_k1, change_k\n", "            B[:, [k - 1, k]] = B[:, [k, k - 1]]\n            change[:, [k - 1, k]] = change[:, [k, k - 1]]\n"))
R("to lll helper", T, ("                mu_kj = mu(k, j)\n                B[:, k] = B[:, k] - round(mu_kj) * B[:, j]\n                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]\n                Q = _gram_schmidt(B)\n", "                c = round(mu(k, j))\n                for A in (B, change):\n                    A[:, k] -= c * A[:, j]\n                Q = _gram_schmidt(B)\n"))
R("to lll downto", T, ("        for j in reversed(range(k)):", "        for j in range(k - 1, -1, -1):"))
R("to gs vectorised", T, ("        Ai = B[:, i]\n        for j in range(0, i):\n            Aj = A[:, j]\n            # t = np.dot(B[i],B[j])\n            Ai = Ai - proj(Aj, Ai)\n        A[:, i] = Ai\n", "        A[:, i] = B[:, i]\n        for j in range(i):\n            A[:, i] -= proj(A[:, j], A[:, i])\n"))
R("to lll lovasz", T, ("        if np.dot(Q[:, k], Q[:, k]) > (delta - mu(k, k - 1) ** 2) * (\n            np.dot(Q[:, k - 1], Q[:, k - 1])\n        ):\n            k = k + 1\n        else:\n", "        lhs = np.sum(Q[:, k] ** 2) + mu(k, k - 1) ** 2 * np.sum(Q[:, k - 1] ** 2)\n        if lhs > delta * np.sum(Q[:, k - 1] ** 2):\n            k += 1\n        else:\n"))
R("to defaults none", T, ("        cocycle_idxs=[0],\n", "        cocycle_idxs=(0,),\n"))
# ---- circular
R("ci super", CC, ("        return ToroidalCoords.get_coordinates(\n            self,\n", "        return super().get_coordinates(\n"))
# ---- lens / projective
R("le power", L, ("        root_of_unity = np.exp(2 * np.pi * 1j / self._prime)\n", "        angle = 2 * np.pi / self._prime\n"), ("root_of_unity ** cocycle[:, 2]\n        cocycle_matrix[cocycle[:, 1]", "np.exp(1j * angle * cocycle[:, 2])\n        cocycle_matrix[cocycle[:, 1]"), ("(1 / root_of_unity) ** cocycle[:, 2]", "np.exp(-1j * angle * cocycle[:, 2])"))
R("le unpack", L, ("        cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]\n        cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]\n", "        v0, v1, value = cocycle[:, 0], cocycle[:, 1], cocycle[:, 2]\n        transition = root_of_unity**value\n        cocycle_matrix[v0, v1] = transition\n        cocycle_matrix[v1, v0] = np.conjugate(transition)\n"))
R("le loop", L, ("        cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]\n        cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]\n", "        for a, b, value in cocycle:\n            cocycle_matrix[a, b] = root_of_unity**value\n            cocycle_matrix[b, a] = root_of_unity ** (-value)\n"))
R("pj simple", PJ, ("(1 / root_of_unity) ** cocycle[:,2]", "root_of_unity ** cocycle[:, 2]"), ("cocycle_matrix[ball_indx[:], :]", "cocycle_matrix[ball_indx]"))
R("pj where", PJ, ("        cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]\n        cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:,2]\n", "        signs = np.where(cocycle[:, 2] % 2 == 0, 1.0, -1.0)\n        cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = signs\n        cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = signs\n"), ("        root_of_unity = -1\n\n", ""))
R("pj weights first", PJ, ("        class_map = np.sqrt(varphi.T) * cocycle_matrix[ball_indx[:], :]\n", "        weights = np.sqrt(varphi).T\n        transitions = cocycle_matrix[ball_indx, :]\n        class_map = transitions * weights\n"))
# ---- complex projective
R("cp cocycle early return", C, ("    is_cocycle = True\n    n_points = dist_mat.shape[0]\n", "    n_points = dist_mat.shape[0]\n"), ("                                    is_cocycle = False\n    return is_cocycle\n", "                                    return False\n    return True\n"))
R("cp assemble acc", C, ("                class_map[b, i] += nu[i, ball_indx[b]]\n                for t in range(n_landmarks):\n                    class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]\n", "                j = ball_indx[b]\n                acc = nu[i, j]\n                for t in range(n_landmarks):\n                    acc += varphi[t, b] * eta[i, j, t]\n                class_map[b, i] = acc\n"))
R("cp tensor order", C, ("                            # 012\n                            res[i, j, k] = val\n                            # 021\n                            res[i, k, j] = -val\n                            # 102\n                            res[j, i, k] = -val\n                            # 210\n                            res[k, j, i] = -val\n                            # 201\n                            res[k, i, j] = val\n                            # 120\n                            res[j, k, i] = val\n", "                            res[i, j, k] = res[j, k, i] = res[k, i, j] = val\n                            res[i, k, j] = res[j, i, k] = res[k, j, i] = -val\n"))
R("cp no keep", C, ("LinearConstraint(delta2, y, y, keep_feasible=True)", "LinearConstraint(delta2, lb=y, ub=y)"))
R("cp inline", C, ("                    solution = optimizer_solution[\"x\"]\n                    new_cocycle_as_vector = (\n                        integer_cocycle_as_vector\n                        - self._prime * np.array(np.rint(solution), dtype=int)\n                    )\n                    integer_cocycle_as_vector = new_cocycle_as_vector\n", "                    correction = np.rint(optimizer_solution[\"x\"]).astype(int)\n                    integer_cocycle_as_vector = (\n                        integer_cocycle_as_vector - self._prime * correction\n                    )\n"))
R("cp harmonic before", C, ("        integral = lsqr(delta1, integer_cocycle_as_vector)[0]\n        harmonic_representative = integer_cocycle_as_vector - delta1 @ integral\n", "        integral, *_ = lsqr(delta1, integer_cocycle_as_vector)\n        coboundary = delta1 @ integral\n        harmonic_representative = integer_cocycle_as_vector - coboundary\n"))
# ---- utils geometry
R("ut csm maximum", U, ("        C[C < 0] = 0\n        return np.sqrt(C)\n", "        return np.sqrt(np.maximum(C, 0))\n"))
R("ut csm broadcast", U, ("        C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)\n        C[C < 0] = 0\n        return np.sqrt(C)\n", "        return np.sqrt(np.sum((X[:, None, :] - Y[None, :, :]) ** 2, axis=-1))\n"))
R("ut csm einsum", U, ("        C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)\n", "        x2 = np.einsum(\"ij,ij->i\", X, X)\n        y2 = np.einsum(\"ij,ij->i\", Y, Y)\n        C = x2[:, None] + y2 - 2 * (X @ Y.T)\n"))
R("ut csm cdist", U, ("        C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)\n        C[C < 0] = 0\n        return np.sqrt(C)\n", "        return cdist(X, Y)\n"), ("from scipy.spatial import KDTree\n", "from scipy.spatial import KDTree\nfrom scipy.spatial.distance import cdist\n"))
R("ut arc clip", U, ("        D = np.abs(X.dot(Y.T))\n        D[D < -1] = -1\n        D[D > 1] = 1\n        D = np.arccos(np.abs(D))\n        return D\n", "        return np.arccos(np.clip(np.abs(X @ Y.T), 0, 1))\n"))
R("ut arc minimum", U, ("        D[D < -1] = -1\n        D[D > 1] = 1\n        D = np.arccos(np.abs(D))\n        return D\n", "        return np.arccos(np.minimum(D, 1))\n"))
R("ut perm lists", U, ("        perm = np.zeros(M, dtype=np.int64)\n        lambdas = np.zeros(M)\n        ds = D[0, :]\n        for i in range(1, M):\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx, :])\n        DLandmarks = D[perm, :]\n        return {\"perm\": perm, \"lambdas\": lambdas, \"DLandmarks\": DLandmarks}\n", "        perm, lambdas = [0], [0.0]\n        ds = D[0].copy()\n        while len(perm) < M:\n            idx = int(np.argmax(ds))\n            lambdas.append(ds[idx])\n            perm.append(idx)\n            np.minimum(ds, D[idx], out=ds)\n        perm = np.array(perm, dtype=np.int64)\n        return {\"perm\": perm, \"lambdas\": np.array(lambdas), \"DLandmarks\": D[perm]}\n"))
R("ut perm helper", U, ("            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            thisds = csm_fn(X[idx, :][None, :], X).flatten()\n            D[i, :] = thisds\n            ds = np.minimum(ds, thisds)\n", "            perm[i] = np.argmax(ds)\n            lambdas[i] = ds[perm[i]]\n            D[i, :] = csm_fn(X[perm[i] : perm[i] + 1], X).ravel()\n            ds = np.minimum(ds, D[i, :])\n"))
R("ut geodesic rest", U, ("        perm_rest_points = np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )\n", "        perm_rest_points = np.setdiff1d(np.arange(n_points), perm)\n"))
R("ut geodesic isin", U, ("        perm_rest_points = np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )\n", "        everything = np.arange(n_points)\n        perm_rest_points = everything[~np.isin(everything, perm)]\n"))
# ---- utils cohomology
R("ut lift where", U, ("        cocycle = cocycle.copy()\n        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime\n        return cocycle\n", "        lifted = cocycle.copy()\n        values = lifted[:, -1]\n        lifted[:, -1] = np.where(values > (prime - 1) / 2, values - prime, values)\n        return lifted\n"))
R("ut lift twice", U, ("cocycle[:, -1] > (prime - 1) / 2", "2 * cocycle[:, -1] > prime - 1"))
R("ut parity inversions", U, ("        permutation_length = len(permutation)\n        elements_seen = [False for _ in range(permutation_length)]\n        cycles = 0\n        for index, already_seen in enumerate(elements_seen):\n            if already_seen:\n                continue\n            cycles += 1\n            current = index\n            while not elements_seen[current]:\n                elements_seen[current] = True\n                current = permutation[current]\n        return 1 if (permutation_length - cycles) % 2 == 0 else -1\n", "        n = len(permutation)\n        inversions = 0\n        for i in range(n):\n            for j in range(i + 1, n):\n                if permutation[i] > permutation[j]:\n                    inversions += 1\n        return -1 if inversions % 2 else 1\n"))
R("ut vector rename", U, ("        for entry in sparse_cocycle:\n            value = entry[-1]\n            unordered_simplex = np.array(entry[:-1], dtype=int)\n            ordered_simplex, sign = CohomologyUtils.order_simplex(unordered_simplex)\n            simplex_index = combinatorial_number_system_forward(\n                ordered_simplex, lookup_table\n            )\n            cocycle_as_vector[simplex_index] = value * sign\n", "        for *vertices, value in sparse_cocycle:\n            simplex, sign = CohomologyUtils.order_simplex(np.array(vertices, dtype=int))\n            index = combinatorial_number_system_forward(simplex, lookup_table)\n            cocycle_as_vector[index] = sign * value\n"))
R("ut delta0 coo", U, ("                        rows[n_entries] = row_index\n                        columns[n_entries] = i\n                        values[n_entries] = 1\n                        n_entries += 1\n\n                        rows[n_entries] = row_index\n                        columns[n_entries] = j\n                        values[n_entries] = -1\n                        n_entries += 1\n", "                        rows[n_entries] = row_index\n                        rows[n_entries + 1] = row_index\n                        columns[n_entries] = i\n                        columns[n_entries + 1] = j\n                        values[n_entries] = 1\n                        values[n_entries + 1] = -1\n                        n_entries += 2\n"))
R("ut delta0 coo_array", U, ("        return sparse.csr_array(\n            (values[:n_entries], (rows[:n_entries], columns[:n_entries])),\n            shape=(n_edges, n_points),\n        )\n", "        return sparse.coo_array(\n            (values[:n_entries], (rows[:n_entries], columns[:n_entries])),\n            shape=(n_edges, n_points),\n        ).tocsr()\n"))
R("ut delta1 entries swap", U, ("""                                rows[n_entries] = row_index
                                columns[n_entries] = column_index_ij
                                values[n_entries] = 1
                                n_entries += 1

                                rows[n_entries] = row_index
                                columns[n_entries] = column_index_jk
                                values[n_entries] = 1
                                n_entries += 1

                                rows[n_entries] = row_index
                                columns[n_entries] = column_index_ik
                                values[n_entries] = -1
                                n_entries += 1

                                n_actual_faces += 1
""", """                                for column_index, sign in (
                                    (column_index_ij, 1),
                                    (column_index_jk, 1),
                                    (column_index_ik, -1),
                                ):
                                    rows[n_entries] = row_index
                                    columns[n_entries] = column_index
                                    values[n_entries] = sign
                                    n_entries += 1

                                n_actual_faces += 1
"""))
R("ut reindex", U, ("        idx_map = -1 * np.ones(N, dtype=int)\n        idx_map[idx_land] = np.arange(idx_land.size)\n        for ck in cocycles:\n            for c in ck:\n                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", "        idx_map = np.full(N, -1, dtype=int)\n        for position, landmark in enumerate(idx_land):\n            idx_map[landmark] = position\n        for cocycles_of_dimension in cocycles:\n            for cocycle in cocycles_of_dimension:\n                cocycle[:, :-1] = idx_map[cocycle[:, :-1]]\n"))
# ---- partition of unity
R("ut quadratic", U, ("        return (r_cover - ds) ** 2\n", "        gap = r_cover - ds\n        return gap * gap\n"))
R("ut exp", U, ("        return np.exp(r_cover**2 / (ds**2 - r_cover**2))\n", "        r2 = r_cover * r_cover\n        return np.exp(-r2 / (r2 - ds**2))\n"))
# ---- ppca
R("ut ppca helper", U, ("                finite = np.isfinite(X).all(axis=0)\n                try:\n                    _, U = np.linalg.eigh(\n                        X[:, finite].dot(np.conjugate(X[:, finite]).T)\n                    )\n                    U = np.fliplr(U)\n                    # U, _, _ = np.linalg.svd(X)\n                except:\n                    U = np.eye(X.shape[0])\n", "                U, finite = _basis(X)\n"),
  ("        def _one_step_linear_reduction(X, dims_to_keep):\n            finite = np.isfinite(X).all(axis=0)\n            try:\n                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)\n            except:\n                U = np.eye(X.shape[0])\n", "        def _basis(X):\n            finite = np.isfinite(X).all(axis=0)\n            try:\n                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)\n            except:\n                U = np.eye(X.shape[0])\n            return U, finite\n\n        def _one_step_linear_reduction(X, dims_to_keep):\n            U, _ = _basis(X)\n"))
R("ut ppca norm", U, ("            Y = Y[:dims_to_keep, :]\n            X = Y / np.linalg.norm(Y, axis=0)[None, :]\n            return X\n", "            Y = Y[:dims_to_keep]\n            return Y / np.sqrt(np.sum(np.abs(Y) ** 2, axis=0))\n"))
R("ut ppca exponential for", U, ("            to_keep_this_iter = (n_dim - total_dims_to_keep) // 2\n            while to_keep_this_iter > 0:\n                X = _one_step_linear_reduction(\n                    X, total_dims_to_keep + to_keep_this_iter\n                )\n                to_keep_this_iter = to_keep_this_iter // 2\n", "            extra = (n_dim - total_dims_to_keep) // 2\n            while extra >= 1:\n                X = _one_step_linear_reduction(X, total_dims_to_keep + extra)\n                extra //= 2\n"))
R("ut ppca project first", U, ("            Y = (np.conjugate(U).T).dot(X)\n            Y = Y[:dims_to_keep, :]\n", "            Y = np.conjugate(U[:, :dims_to_keep]).T @ X\n"))
R("ut ppca flip", U, ("                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)\n            except", "                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = U[:, ::-1]\n            except"))
R("ut ppca early return", U, ("        if mode == \"direct\":\n            XRet = _one_step_linear_reduction(X, total_dims_to_keep)\n        elif mode", "        if mode == \"direct\":\n            return {\n                \"variance\": variance,\n                \"X\": _one_step_linear_reduction(X, total_dims_to_keep).T,\n            }\n        elif mode"))
# ---- examples
R("ut circle uniform", U, ("        X = np.random.random((n_samples, 2)) - 0.5\n        return (\n            X / np.linalg.norm(X, axis=1).reshape((n_samples, 1))\n            + (np.random.random((n_samples, 2)) - 0.5) * noise_size\n        )\n", "        X = np.random.random((n_samples, 2)) - 0.5\n        noise = np.random.random((n_samples, 2)) - 0.5\n        on_circle = X / np.linalg.norm(X, axis=1, keepdims=True)\n        return on_circle + noise_size * noise\n"))
R("ut moore order", U, ("        return np.minimum(dist_mat, dist_mat.T), X\n", "        symmetric = np.minimum(dist_mat, dist_mat.T)\n        return symmetric, X\n"))
R("ut moore q", U, ("        q = prime\n\n", ""), ("        R = _rot_mat((2 * np.pi) / q)\n", "        R = _rot_mat(2 * np.pi / prime)\n"))
R("ut moore hoist", U, ("            for i, x in enumerate(X):\n                for j, y in enumerate(X):\n                    proj_x_to_boundary = x / np.linalg.norm(x)\n\n", "            for i, x in enumerate(X):\n                proj_x_to_boundary = x / np.linalg.norm(x)\n                for j, y in enumerate(X):\n"))
# ---- circle maps
R("ut sinebow", U, ("        h = np.mod(circle_map / (2 * np.pi) + 0.5, 1)\n        f = lambda x: np.sin(np.pi * x) ** 2\n        return np.stack([f(3 / 6 - h), f(5 / 6 - h), f(7 / 6 - h)], -1)\n", "        h = (circle_map / (2 * np.pi) + 0.5) % 1\n\n        def channel(shift):\n            return np.sin(np.pi * (shift - h)) ** 2\n\n        return np.stack([channel(k / 6) for k in (3, 5, 7)], axis=-1)\n"))
R("ut center", U, ("        bins = 50\n        vals, ticks = np.histogram(circle_map, bins=bins)\n        centered = ((circle_map - ticks[np.argmax(vals)]) + np.pi) % (2 * np.pi)\n        return centered\n", "        vals, ticks = np.histogram(circle_map, bins=50)\n        mode = ticks[vals.argmax()]\n        return np.mod(circle_map - mode + np.pi, 2 * np.pi)\n"))
R("ut offset", U, ("        return (circle_map + offset * (2 * np.pi)) % (2 * np.pi)\n", "        turn = 2 * np.pi\n        return np.mod(circle_map + turn * offset, turn)\n"))
R("ut lincomb", U, ("        if len(linear_combination_matrix.shape) == 2:\n            assert circle_maps.shape[0] == linear_combination_matrix.shape[1]\n            return (linear_combination_matrix @ circle_maps) % (2 * np.pi)\n        else:\n            assert circle_maps.shape[0] == linear_combination_matrix.shape[0]\n            return (\n                (np.array([linear_combination_matrix]) @ circle_maps) % (2 * np.pi)\n            )[0]\n", "        assert circle_maps.shape[0] == linear_combination_matrix.shape[-1]\n        return np.mod(linear_combination_matrix @ circle_maps, 2 * np.pi)\n"))
R("ut levelset vector", U, ("            return np.array([np.floor(c * n_levelsets) % 2 for c in colors])\n", "            return np.floor(colors * n_levelsets) % 2\n"))
R("ut levelset smooth vector", U, ("        return np.array([sigmoid(triangle((c * n_levelsets) % 2)) for c in colors])\n", "        y = (np.asarray(colors) * n_levelsets) % 2\n        return sigmoid(np.where(y < 1, y, 2 - y))\n"))
# ---- projective maps
R("ut stereo sign", U, ("        ind = XX[-1, :] < 0\n        XX[:, ind] *= -1\n", "        XX = np.where(XX[-1, :] < 0, -XX, XX)\n"))
R("ut stereo rows", U, ("        S = XX[0:-1, :] / (1 + XX[-1, :])[None, :]\n        return S.T\n", "        return (XX[:-1] / (1 + XX[-1])).T\n"))
R("ut pole clip", U, ("        u = np.zeros(3)\n        u[0:2] = x\n        u[2] = np.sqrt(1 - magSqr)\n        return x, u\n", "        height = np.sqrt(1 - magSqr)\n        return x, np.array([x[0], x[1], height])\n"))
R("ut hopf direct", U, ("        Y = np.zeros((2 * X.shape[1], X.shape[0]))\n        Y[::2, :] = np.real(X).T\n        Y[1::2, :] = np.imag(X).T\n        return np.array(\n            [\n                2 * (np.prod(Y[[0, 2], :], axis=0) + np.prod(Y[[1, 3], :], axis=0)),\n                2 * (np.prod(Y[[1, 2], :], axis=0) - np.prod(Y[[0, 3], :], axis=0)),\n                np.sum(Y[[0, 1], :] ** 2, axis=0) - np.sum(Y[[2, 3], :] ** 2, axis=0),\n            ]\n        ).T\n", "        z, w = X[:, 0], X[:, 1]\n        p = 2 * z * np.conjugate(w)\n        return np.stack([p.real, p.imag, np.abs(z) ** 2 - np.abs(w) ** 2], axis=1)\n"))
R("ut hemis mask", U, ("        res[X_[:, -1] < 0, :] = _stereo(X_[X_[:, -1] < 0, :])\n        Y = X_[X_[:, -1] >= 0, :]\n        Y[:, -1] *= -1\n        res[X_[:, -1] >= 0, :] = _stereo(Y) + 2.5 * e1\n        return res\n", "        south = X_[:, -1] < 0\n        north = ~south\n        res[south] = _stereo(X_[south])\n        Y = X_[north]\n        Y[:, -1] = -Y[:, -1]\n        res[north] = _stereo(Y)\n        res[north, 0] += 2.5\n        return res\n"))
R("ut hemis where", U, ("        res = np.zeros((X_.shape[0], n - 1))\n        res[X_[:, -1] < 0, :] = _stereo(X_[X_[:, -1] < 0, :])\n        Y = X_[X_[:, -1] >= 0, :]\n        Y[:, -1] *= -1\n        res[X_[:, -1] >= 0, :] = _stereo(Y) + 2.5 * e1\n        return res\n", "        height = X_[:, -1]\n        res = X_[:, :-1] / (1 + np.abs(height))[:, None]\n        res[height >= 0] += 2.5 * e1\n        return res\n"))
R("ut rotmat outer", U, ("            - (1 - lam) * (c[:, None].dot(c[None, :]))\n            - (1 - lam) * (b[:, None].dot(b[None, :]))\n            + beta * (b[:, None].dot(c[None, :]) - c[:, None].dot(b[None, :]))\n", "            - (1 - lam) * (np.outer(c, c) + np.outer(b, b))\n            + beta * (np.outer(b, c) - np.outer(c, b))\n"))
R("ut rotmat norm", U, ("        a = a / np.sqrt(np.sum(a**2))\n        d = a.size\n", "        d = a.shape[0]\n        a = a / np.linalg.norm(a)\n"), ("        b = b / np.sqrt(np.sum(b**2))\n\n", "        b = b / np.linalg.norm(b)\n\n"))
R("ut lens point", U, ("            return [x, y, z]\n\n        return np.array([_point_lens_to_sphere(p, q) for p in X])\n", "            return x, y, z\n\n        res = np.empty((X.shape[0], 3))\n        for i, p in enumerate(X):\n            res[i] = _point_lens_to_sphere(p, q)\n        return res\n"))
# ---- combinatorial
R("cb loop", CB)
# ---- plotting
R("pl none", PL, ("        ax = ax or plt.gca()\n        min_color = np.min(P)\n        max_color = np.max(P)\n", "        if ax is None:\n            ax = plt.gca()\n        min_color, max_color = P.min(), P.max()\n"))
R("pl zip", PL, ("        for i in range(P.shape[0]):\n            patch = np.reshape(P[i, :], (dim, dim))\n            x, y = X[i, :]\n", "        for position, row in zip(X, P):\n            patch = row.reshape(dim, dim)\n            x, y = position\n"))
R("pl patches unravel", PL, ("        ex = np.arange(dgrid)\n        x, y = np.meshgrid(ex, ex)\n        X = np.zeros((N, 2))\n        X[:, 0] = x.flatten()[0:N]\n        X[:, 1] = y.flatten()[0:N]\n", "        k = np.arange(N)\n        X = np.column_stack((k % dgrid, k // dgrid)).astype(float)\n"))
R("pl boundary helper", PL, ("        t = np.linspace(0, 2 * np.pi, 200)\n        ax.plot(np.cos(t), np.sin(t), \"c\")\n        ax.plot(np.cos(t) + second_circle_offset, np.sin(t), \"c\")\n", "        t = np.linspace(0, 2 * np.pi, 200)\n        x, y = np.cos(t), np.sin(t)\n        for offset in (0, second_circle_offset):\n            ax.plot(x + offset, y, \"c\")\n"))
R("pl equal array", PL, ("        x_range = abs(x_limits[1] - x_limits[0])\n        x_middle = np.mean(x_limits)\n        y_range = abs(y_limits[1] - y_limits[0])\n        y_middle = np.mean(y_limits)\n        z_range = abs(z_limits[1] - z_limits[0])\n        z_middle = np.mean(z_limits)\n", "        x_range, y_range, z_range = [\n            abs(hi - lo) for lo, hi in (x_limits, y_limits, z_limits)\n        ]\n        x_middle = 0.5 * (x_limits[0] + x_limits[1])\n        y_middle = 0.5 * (y_limits[0] + y_limits[1])\n        z_middle = 0.5 * (z_limits[0] + z_limits[1])\n"))
R("pl stereo colours", PL, ("            C = f - np.min(f)\n            C = C / np.max(C)\n            C = c(np.array(np.round(C * 255), dtype=np.int32))\n            C = C[:, 0:3]\n", "            C = (f - f.min()) / (f.max() - f.min())\n            C = c(np.round(255 * C).astype(int))[:, :3]\n"))
R("pl rp2 branches", PL, ("        if f.size > S.shape[0]:\n            plt.scatter(S[:, 0], S[:, 1], 20, c=f, cmap=\"afmhot\")\n        else:\n            plt.scatter(S[:, 0], S[:, 1], 20, f, cmap=\"afmhot\")\n", "        plt.scatter(S[:, 0], S[:, 1], s=20, c=f, cmap=\"afmhot\")\n"))
REF = [r for r in REF if r[2]]

# =============================== second batch ===============================
# ---- emcoords
R("em2 class loop", M, ("            self._cocycles[i] = [self._cocycles[i][idx] for idx in idxs]\n", "            sorted_cocycles = []\n            for idx in idxs:\n                sorted_cocycles.append(self._cocycles[i][idx])\n            self._cocycles[i] = sorted_cocycles\n"))
R("em2 no lifetime", M, ("            dgm_lifetime = np.array(self._dgms[i])\n            dgm_lifetime[:, 1] -= dgm_lifetime[:, 0]\n", ""))
R("em2 locals", M, ("        self._prime = prime\n        self._dgms = res[\"dgms\"]\n", "        dgms, cocycles, idx_land = res[\"dgms\"], res[\"cocycles\"], res[\"idx_perm\"]\n        self._prime = prime\n        self._dgms = dgms\n"), ("self._idx_land = res[\"idx_perm\"]\n        self._n_landmarks = len(self._idx_land)", "self._idx_land = idx_land\n        self._n_landmarks = idx_land.shape[0]"), ("        self._cocycles = res[\"cocycles\"]\n", "        self._cocycles = cocycles\n"))
R("em2 sort comprehension", M, ("            idxs = np.argsort(self._dgms[i][:, 0] - self._dgms[i][:, 1])\n            self._dgms[i] = self._dgms[i][idxs, :]\n", "            births = self._dgms[i][:, 0]\n            deaths = self._dgms[i][:, 1]\n            idxs = np.argsort(births - deaths)\n            self._dgms[i] = np.take(self._dgms[i], idxs, axis=0)\n"))
R("em2 reps unpack", M, ("        return (\n            dgm[cohomology_class, 0],\n            dgm[cohomology_class, 1],\n            cocycles[cohomology_class],\n        )\n", "        death, birth = dgm[cohomology_class]\n        return death, birth, cocycles[cohomology_class]\n"))
R("em2 radius helper", M, ("        start = 2*cohomdeath_rips if standard_range else cohomdeath_rips\n        end = cohombirth_rips\n", "        start, end = self._radius_range(cohomdeath_rips, cohombirth_rips, standard_range)\n"), ("    def get_cover_radius(", "    def _radius_range(self, death, birth, standard_range):\n        if standard_range:\n            return 2 * death, birth\n        return death, birth\n\n    def get_cover_radius("))
R("em2 radius interpolation", M, ("(1 - perc) * start + perc * end\n", "start + perc * (end - start)\n"))
R("em2 radius factor", M, ("start = 2*cohomdeath_rips if standard_range else cohomdeath_rips", "start = cohomdeath_rips * (2 if standard_range else 1)"))
R("em2 partition local", M, ("        U = dist_land_data < r_cover\n        phi = np.zeros_like(dist_land_data, dtype=float)\n        phi[U] = partunity_fn(dist_land_data[U], r_cover)\n", "        covered = dist_land_data < r_cover\n        U = covered\n        inside = dist_land_data[covered]\n        bumps = partunity_fn(inside, r_cover)\n        phi = np.zeros(shape=dist_land_data.shape, dtype=float)\n        phi[covered] = bumps\n"))
R("em2 partition helper", M, ("        denom = np.sum(phi, 0)\n        nzero = np.sum(denom == 0)\n        if nzero > 0:\n            warnings.warn(\"There are {} point not covered by a landmark\".format(nzero))\n            denom[denom == 0] = np.nan\n        varphi = phi / denom[None, :]\n", "        varphi = _normalise_columns(phi)\n"), ("class EMCoords(object):", "def _normalise_columns(phi):\n    total = phi.sum(axis=0)\n    empty = total == 0\n    n_empty = np.count_nonzero(empty)\n    if n_empty:\n        warnings.warn(f\"There are {n_empty} point not covered by a landmark\")\n        total[empty] = np.nan\n    return phi / total\n\n\nclass EMCoords(object):"))
R("em2 partition where nan", M, ("            denom[denom == 0] = np.nan\n", "            denom = np.where(denom == 0, np.nan, denom)\n"))
R("em2 uncovered any", M, ("        nzero = np.sum(denom == 0)\n        if nzero > 0:\n", "        uncovered = denom == 0\n        nzero = uncovered.sum()\n        if uncovered.any():\n"))
R("em2 square flag", M, ("        if not distance_matrix:\n            self._dist_land_data = res[\"dperm2all\"]\n        elif X.shape[0] == X.shape[1]:\n            self._dist_land_data = res[\"dperm2all\"]\n        else:\n            self._dist_land_data = X[self._idx_land,:]\n", "        use_ripser_distances = not distance_matrix or X.shape[0] == X.shape[1]\n        self._dist_land_data = res[\"dperm2all\"] if use_ripser_distances else X[self._idx_land, :]\n"))
R("em2 ix", M, ("        self._dist_land_land = self._dist_land_data[:, self._idx_land]\n", "        self._dist_land_land = np.take(self._dist_land_data, self._idx_land, axis=1)\n"))
# ---- toroidal
R("to2 correction method", T, ("                    d1cocycle = delta1 @ cocycle_as_vector.T\n\n                    y = d1cocycle // self._prime\n\n                    constraints = LinearConstraint(delta1, y, y)\n                    n_edges = delta1.shape[1]\n                    objective = np.zeros((n_edges))\n                    integrality = np.ones((n_edges))\n                    bounds = scipy.optimize.Bounds()  # empty bounds\n\n                    optimizer_solution = milp(\n                        objective,\n                        integrality=integrality,\n                        constraints=constraints,\n                        bounds=bounds,\n                    )\n", "                    optimizer_solution = _solve_lift(delta1, cocycle_as_vector, self._prime)\n"),
  ("def _integrate_harmonic_representative(", "def _solve_lift(delta1, cochain, prime):\n    rhs = (delta1 @ cochain.T) // prime\n    n_variables = delta1.shape[1]\n    return milp(\n        np.zeros(n_variables),\n        integrality=np.ones(n_variables),\n        constraints=LinearConstraint(delta1, rhs, rhs),\n        bounds=scipy.optimize.Bounds(),\n    )\n\n\ndef _integrate_harmonic_representative("))
R("to2 raise first", T, ("                        raise Exception(\n                            \"The cohomology class at index \"\n                            + str(class_idx)\n                            + \" does not have an integral lift.\"\n                        )\n                    else:\n                        solution = optimizer_solution[\"x\"]\n                        new_cocycle_as_vector = (\n                            cocycle_as_vector\n                            - self._prime * np.array(np.rint(solution), dtype=int)\n                        )\n\n                        fixed_cocycles.append(new_cocycle_as_vector)\n", "                        raise Exception(\n                            f\"The cohomology class at index {class_idx} does not have an integral lift.\"\n                        )\n                    correction = np.rint(optimizer_solution.x).astype(int)\n                    fixed_cocycles.append(cocycle_as_vector - self._prime * correction)\n"))
R("to2 gram array", T, ("    n = len(vectors)\n    res = np.zeros((n, n))\n    for i, v in enumerate(vectors):\n        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w\n    return res\n", "    A = np.array(vectors)\n    return A @ (inner_product @ A.T)\n"))
R("to2 gram symmetric", T, ("    for i, v in enumerate(vectors):\n        for j, w in enumerate(vectors):\n            res[i, j] = v.T @ inner_product @ w\n", "    for i in range(n):\n        for j in range(i, n):\n            res[i, j] = vectors[i].T @ inner_product @ vectors[j]\n            res[j, i] = res[i, j]\n"))
R("to2 integrate helper", T, ("    class_map = integral[membership_function].copy()\n    for i in range(class_map.shape[0]):\n        class_map[i] += theta_matrix[membership_function[i], :].dot(part_unity[:, i])\n    return np.mod(2 * np.pi * class_map, 2 * np.pi)\n", "    def value(i):\n        ball = membership_function[i]\n        return integral[ball] + theta_matrix[ball, :] @ part_unity[:, i]\n\n    class_map = np.array([value(i) for i in range(part_unity.shape[1])])\n    return (2 * np.pi * class_map) % (2 * np.pi)\n"))
R("to2 theta python", T, ("    @jit(fastmath=True, nopython=True)\n    def _cocycle_to_matrix(", "    def _cocycle_to_matrix("))
R("to2 theta args", T, ("        n_points: int,\n        theta_matrix: np.ndarray,\n    ):\n", "        n_points: int,\n        theta_matrix: np.ndarray,\n        harm_rep: np.ndarray,\n    ):\n"), ("    _cocycle_to_matrix(dist_mat, threshold, lookup_table, n_points, theta_matrix)\n", "    _cocycle_to_matrix(\n        dist_mat, threshold, lookup_table, n_points, theta_matrix, harm_rep\n    )\n"))
R("to2 weights eye", T, ("    WSqrt = W.copy()\n\n    return W, WSqrt\n", "    return W, W\n"))
R("to2 chol", T, ("    lattice_red_input = np.linalg.cholesky(gram_matrix)\n    decorrelated_vectors, change_basis = _lll(lattice_red_input.T)\n    change_basis = change_basis.T\n", "    L = np.linalg.cholesky(gram_matrix)\n    decorrelated_vectors, change = _lll(np.transpose(L))\n    change_basis = np.transpose(change)\n"))
R("to2 lll while j", T, ("        for j in reversed(range(k)):\n            if abs(mu(k, j)) > 0.5:\n                mu_kj = mu(k, j)\n                B[:, k] = B[:, k] - round(mu_kj) * B[:, j]\n                change[:, k] = change[:, k] - round(mu_kj) * change[:, j]\n                Q = _gram_schmidt(B)\n", "        j = k - 1\n        while j >= 0:\n            q = round(mu(k, j))\n            if abs(mu(k, j)) > 0.5:\n                B[:, k] -= q * B[:, j]\n                change[:, k] -= q * change[:, j]\n                Q = _gram_schmidt(B)\n            j -= 1\n"))
R("to2 lll fancy swap", T, ("            B_k = B[:, k].copy()\n            B_k1 = B[:, k - 1].copy()\n            B[:, k], B[:, k - 1] = B_k1, B_k\n            change_k = change[:, k].copy()\n            change_k1 = change[:, k - 1].copy()\n            change[:, k], change[:, k - 1] = change_k1, change_k\n", "            B[:, [k - 1, k]] = B[:, [k, k - 1]]\n            change[:, [k - 1, k]] = change[:, [k, k - 1]]\n"))
R("to2 lll norms", T, ("        if np.dot(Q[:, k], Q[:, k]) > (delta - mu(k, k - 1) ** 2) * (\n            np.dot(Q[:, k - 1], Q[:, k - 1])\n        ):\n", "        lovasz_lhs = np.sum(Q[:, k] ** 2)\n        lovasz_rhs = (delta - mu(k, k - 1) ** 2) * np.sum(Q[:, k - 1] ** 2)\n        if lovasz_lhs > lovasz_rhs:\n"))
R("to2 gs inline", T, ("            Ai = Ai - proj(Aj, Ai)\n", "            Ai = Ai - (np.dot(Ai, Aj) / np.dot(Aj, Aj)) * Aj\n"))
R("to2 gs classic", T, ("    n = len(B)\n    A = np.zeros((n, n))\n    A[:, 0] = B[:, 0]\n    for i in range(1, n):\n", "    n = len(B)\n    A = np.zeros((n, n))\n    for i in range(n):\n"))
R("to2 names", T, ("def _integrate_harmonic_representative(", "def _harmonic_and_integral("), ("            _integrate_harmonic_representative(\n", "            _harmonic_and_integral(\n"))
R("to2 names onecocycle", T, ("is_cocycle, _ = _is_one_cocycle(", "is_cocycle, _ = _check_one_cocycle("), ("def _is_one_cocycle(", "def _check_one_cocycle("))
R("to2 names sparse", T, ("            _sparse_integrate(\n", "            _circle_values(\n"), ("def _sparse_integrate(", "def _circle_values("))
R("to2 names reduce", T, ("            ) = _reduce_circular_coordinates(circ_coords, gram_mat)\n", "            ) = _lattice_reduction(circ_coords, gram_mat)\n"), ("def _reduce_circular_coordinates(", "def _lattice_reduction("))
R("to2 vector loop", T, ("        integer_cocycles_as_vectors = [\n            CohomologyUtils.sparse_cocycle_to_vector(\n                sparse_cocycle, self._cns_lookup_table, self._n_landmarks, int\n            )\n            for sparse_cocycle in integer_cocycles\n        ]\n", "        integer_cocycles_as_vectors = []\n        for sparse_cocycle in integer_cocycles:\n            integer_cocycles_as_vectors.append(\n                CohomologyUtils.sparse_cocycle_to_vector(\n                    sparse_cocycle=sparse_cocycle,\n                    lookup_table=self._cns_lookup_table,\n                    n_vertices=self._n_landmarks,\n                    dtype=int,\n                )\n            )\n"))
R("to2 lift map", T, ("        integer_cocycles = [\n            CohomologyUtils.lift_to_integer_cocycle(cocycle, prime=self._prime)\n            for cocycle in cocycles\n        ]\n", "        prime = self._prime\n        lift = CohomologyUtils.lift_to_integer_cocycle\n        integer_cocycles = [lift(cocycle, prime) for cocycle in cocycles]\n"))
R("to2 coords loop", T, ("        circ_coords = [\n            _sparse_integrate(\n                harm_rep,\n                integral,\n                varphi,\n                ball_indx,\n                dist_land_land,\n                rips_threshold,\n                self._cns_lookup_table,\n            )\n            for harm_rep, integral in harm_reps_and_integrals\n        ]\n", "        circ_coords = []\n        for harm_rep, integral in harm_reps_and_integrals:\n            circ_coords += [\n                _sparse_integrate(\n                    harm_rep, integral, varphi, ball_indx, dist_land_land, rips_threshold, self._cns_lookup_table\n                )\n            ]\n"))
R("to2 partition late", T, ("        # compute partition of unity and choose a cover element for each data point\n        varphi, ball_indx = EMCoords.get_covering_partition(self, r_cover, partunity_fn)\n\n", ""), ("        # compute circular coordinates on data points\n", "        # compute partition of unity and choose a cover element for each data point\n        varphi, ball_indx = self.get_covering_partition(r_cover, partunity_fn)\n\n        # compute circular coordinates on data points\n"))
R("to2 onecocycle sum", T, ("                        if (\n                            cochain[index_ij]\n                            + cochain[index_jk]\n                            - cochain[index_ik]\n                            != 0\n                        ):\n", "                        if cochain[index_ik] != cochain[index_ij] + cochain[index_jk]:\n"))
R("to2 onecocycle flat", T, ("            if dist_mat[i, j] < threshold:\n                for k in range(j + 1, n_points):\n                    if (\n                        dist_mat[i, k] < threshold\n                        and dist_mat[j, k] < threshold\n                    ):\n", "            if dist_mat[i, j] >= threshold:\n                continue\n            if True:\n                for k in range(j + 1, n_points):\n                    if max(dist_mat[i, k], dist_mat[j, k]) < threshold:\n"))
# ---- utils
R("ut2 csm norms", U, ("        C = np.sum(X**2, 1)[:, None] + np.sum(Y**2, 1)[None, :] - 2 * X.dot(Y.T)\n        C[C < 0] = 0\n        return np.sqrt(C)\n", "        x_norms = (X * X).sum(axis=1)\n        y_norms = (Y * Y).sum(axis=1)\n        squared = np.add.outer(x_norms, y_norms) - 2 * (X @ Y.T)\n        return np.sqrt(np.where(squared < 0, 0, squared))\n"))
R("ut2 perm dm helper", U, ("        perm = np.zeros(M, dtype=np.int64)\n        lambdas = np.zeros(M)\n        ds = D[0, :]\n        for i in range(1, M):\n            idx = np.argmax(ds)\n            perm[i] = idx\n            lambdas[i] = ds[idx]\n            ds = np.minimum(ds, D[idx, :])\n        DLandmarks = D[perm, :]\n", "        perm = np.zeros(M, dtype=np.int64)\n        lambdas = np.zeros(M)\n        nearest = D[0, :].copy()\n        for i in range(1, M):\n            perm[i] = nearest.argmax()\n            lambdas[i] = nearest.max()\n            nearest = np.minimum(nearest, D[perm[i]])\n        DLandmarks = D[perm, :]\n"))
R("ut2 perm pc mult", U, ("            thisds = csm_fn(X[idx, :][None, :], X).flatten()\n            D[i, :] = thisds\n            ds = np.minimum(ds, thisds)\n        Y = X[perm, :]\n", "            D[i, :] = csm_fn(X[idx, :][None, :], X).flatten()\n            ds = D[: i + 1, :].min(axis=0)\n        Y = X[perm, :]\n"))
R("ut2 geodesic mask", U, ("        perm_rest_points = np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )\n", "        is_rest = np.ones(n_points, dtype=bool)\n        is_rest[perm] = False\n        perm_rest_points = np.flatnonzero(is_rest)\n"))
R("ut2 geodesic list", U, ("        perm_rest_points = np.setdiff1d(\n            np.arange(0, n_points, dtype=int), perm, assume_unique=True\n        )\n", "        chosen = set(perm)\n        perm_rest_points = np.array([p for p in range(n_points) if p not in chosen], dtype=int)\n"))
R("ut2 geodesic hstack", U, ("        perm_all_points = np.concatenate((perm, perm_rest_points))\n", "        perm_all_points = np.hstack([perm, perm_rest_points])\n"))
R("ut2 geodesic graph", U, ("        kneighbors_graph = csr_matrix(\n            (distances_nn.ravel(), indices_nn.ravel(), indptr),\n            shape=(n_queries, n_queries),\n        )\n", "        kneighbors_graph = csr_matrix(\n            (distances_nn.flatten(), indices_nn.flatten(), indptr),\n            (n_queries, n_queries),\n        )\n"))
R("ut2 lift mask", U, ("        cocycle = cocycle.copy()\n        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime\n        return cocycle\n", "        lifted = np.array(cocycle)\n        too_large = lifted[:, -1] > (prime - 1) / 2\n        lifted[too_large, -1] = lifted[too_large, -1] - prime\n        return lifted\n"))
R("ut2 lift arithmetic", U, ("        cocycle = cocycle.copy()\n        cocycle[cocycle[:, -1] > (prime - 1) / 2, -1] -= prime\n        return cocycle\n", "        lifted = cocycle.copy()\n        lifted[:, -1] -= prime * (lifted[:, -1] > (prime - 1) / 2)\n        return lifted\n"))
R("ut2 reindex full", U, ("        idx_map = -1 * np.ones(N, dtype=int)\n        idx_map[idx_land] = np.arange(idx_land.size)\n", "        idx_map = np.full(N, -1, dtype=int)\n        idx_map[idx_land] = np.arange(len(idx_land))\n"))
R("ut2 reindex columns", U, ("                c[:, 0:-1] = idx_map[c[:, 0:-1]]\n", "                for column in range(c.shape[1] - 1):\n                    c[:, column] = idx_map[c[:, column]]\n"))
R("ut2 parity visited", U, ("        elements_seen = [False for _ in range(permutation_length)]\n", "        elements_seen = [False] * permutation_length\n"), ("        return 1 if (permutation_length - cycles) % 2 == 0 else -1\n", "        return (-1) ** (permutation_length - cycles)\n"))
R("ut2 order sorted", U, ("        ordering_permutation = np.argsort(unordered_simplex)\n        sign = CohomologyUtils.parity(ordering_permutation)\n        simplex = tuple(unordered_simplex[ordering_permutation])\n        return simplex, sign\n", "        order = np.argsort(unordered_simplex)\n        return tuple(unordered_simplex[order]), CohomologyUtils.parity(order)\n"))
R("ut2 order split", U, ("        simplex = tuple(unordered_simplex[ordering_permutation])\n", "        simplex = tuple(np.sort(unordered_simplex))\n"))
R("ut2 delta0 helper", U, ("        return sparse.csr_array(\n            (values[:n_entries], (rows[:n_entries], columns[:n_entries])),\n            shape=(n_edges, n_points),\n        )\n", "        return CohomologyUtils._assemble(rows, columns, values, n_entries, (n_edges, n_points))\n"), ("    @staticmethod\n    def make_delta0(", "    @staticmethod\n    def _assemble(rows, columns, values, n_entries, shape):\n        used = slice(0, n_entries)\n        return sparse.csr_array((values[used], (rows[used], columns[used])), shape=shape)\n\n    @staticmethod\n    def make_delta0("))
R("ut2 delta0 flip loops", U, ("            n_entries = 0\n            for i in range(n_points):\n                for j in range(i + 1, n_points):\n                    if dist_mat[i, j] < threshold:\n                        row_index = combinatorial_number_system_d1_forward(\n                            i, j, lookup_table\n                        )\n                        rows[n_entries] = row_index\n                        columns[n_entries] = i\n", "            n_entries = 0\n            for j in range(1, n_points):\n                for i in range(j):\n                    if dist_mat[i, j] < threshold:\n                        row_index = combinatorial_number_system_d1_forward(\n                            i, j, lookup_table\n                        )\n                        rows[n_entries] = row_index\n                        columns[n_entries] = i\n"))
R("ut2 delta1 loop entries", U, ("""                                rows[n_entries] = row_index
                                columns[n_entries] = column_index_ij
                                values[n_entries] = 1
                                n_entries += 1

                                rows[n_entries] = row_index
                                columns[n_entries] = column_index_jk
                                values[n_entries] = 1
                                n_entries += 1

                                rows[n_entries] = row_index
                                columns[n_entries] = column_index_ik
                                values[n_entries] = -1
                                n_entries += 1

            return n_entries
""", """                                for column, sign in (
                                    (column_index_ij, 1),
                                    (column_index_jk, 1),
                                    (column_index_ik, -1),
                                ):
                                    rows[n_entries] = row_index
                                    columns[n_entries] = column
                                    values[n_entries] = sign
                                    n_entries += 1

            return n_entries
"""))
R("ut2 quadratic square", U, ("        return (r_cover - ds) ** 2\n", "        depth = r_cover - ds\n        return depth * depth\n"))
R("ut2 exp form", U, ("        return np.exp(r_cover**2 / (ds**2 - r_cover**2))\n", "        r2 = r_cover**2\n        return np.exp(-r2 / (r2 - ds**2))\n"))
R("ut2 ppca helper eig", U, ("        def _one_step_linear_reduction(X, dims_to_keep):\n            finite = np.isfinite(X).all(axis=0)\n            try:\n                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                U = np.fliplr(U)\n            except:\n                U = np.eye(X.shape[0])\n            Y = (np.conjugate(U).T).dot(X)\n", "        def _basis(X, finite):\n            try:\n                _, U = np.linalg.eigh(X[:, finite].dot(np.conjugate(X[:, finite]).T))\n                return np.fliplr(U)\n            except:\n                return np.eye(X.shape[0])\n\n        def _one_step_linear_reduction(X, dims_to_keep):\n            finite = np.isfinite(X).all(axis=0)\n            U = _basis(X, finite)\n            Y = (np.conjugate(U).T).dot(X)\n"))
R("ut2 ppca module helper", U, ("                Y = (np.conjugate(U).T).dot(X)\n                # y = np.array(Y[-1, :])\n                Y = Y[0:-1, :]\n                # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]\n                X = Y / np.linalg.norm(Y, axis=0)[None, :]\n", "                X = _project_columns(U[:, :-1], X)\n"), ("class EquivariantPCA:", "def _project_columns(basis, X):\n    Y = np.conjugate(basis).T @ X\n    return Y / np.linalg.norm(Y, axis=0)[None, :]\n\n\nclass EquivariantPCA:"))
R("ut2 ppca finite columns", U, ("                finite = np.isfinite(X).all(axis=0)\n                try:\n                    _, U = np.linalg.eigh(\n                        X[:, finite].dot(np.conjugate(X[:, finite]).T)\n                    )\n", "                finite = np.isfinite(X).all(axis=0)\n                X_finite = X[:, finite]\n                try:\n                    _, U = np.linalg.eigh(X_finite @ X_finite.conj().T)\n"))
R("ut2 ppca variance", U, ("                variance[-i - 1] = np.mean(\n                    (np.pi / 2 - np.real(np.arccos(np.minimum(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, finite])), 1))))\n                    ** 2\n                )\n", "                last = U[:, -1]\n                cosines = np.minimum(np.abs(np.conjugate(last) @ X[:, finite]), 1)\n                angles = np.arccos(cosines)\n                variance[-i - 1] = np.mean((np.pi / 2 - angles) ** 2)\n"))
R("ut2 ppca countdown", U, ("            for i in range(n_dim - 1):\n", "            for i, _ in enumerate(range(1, n_dim)):\n"))
R("ut2 ppca modes dict", U, ("        assert projective_dim_red_mode in [\"direct\", \"exponential\", \"one-by-one\"]\n", "        modes = (\"direct\", \"exponential\", \"one-by-one\")\n        assert projective_dim_red_mode in modes\n"))

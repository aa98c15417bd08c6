"""Reference formulas.  Never executed: parsed, interpreted into value graphs and compared with the repository's value graphs."""
import numpy as np

# ---- circle maps (C01)
def offset(circle_map, offset):
    return np.mod(circle_map + 2 * np.pi * offset, 2 * np.pi)

def linear_combination(circle_maps, linear_combination_matrix):
    return np.mod(linear_combination_matrix @ circle_maps, 2 * np.pi)

def sinebow(circle_map):
    h = np.mod(circle_map / (2 * np.pi) + 0.5, 1)
    return np.stack([np.sin(np.pi * (1 / 2 - h)) ** 2, np.sin(np.pi * (5 / 6 - h)) ** 2, np.sin(np.pi * (7 / 6 - h)) ** 2], -1)

# ---- cocycle tests (C06)
def is_one_cocycle(cochain, dist_mat, threshold, lookup_table):
    ok = True
    for i in range(dist_mat.shape[0]):
        for j in range(i + 1, dist_mat.shape[0]):
            for k in range(j + 1, dist_mat.shape[0]):
                if dist_mat[i, j] < threshold and dist_mat[i, k] < threshold and dist_mat[j, k] < threshold:
                    if cochain[lookup_table[i, 1] + lookup_table[j, 2]] + cochain[lookup_table[j, 1] + lookup_table[k, 2]] - cochain[lookup_table[i, 1] + lookup_table[k, 2]] != 0:
                        ok = False
    return ok

def is_two_cocycle(cochain, dist_mat, threshold, lookup_table):
    ok = True
    for i in range(dist_mat.shape[0]):
        for j in range(i + 1, dist_mat.shape[0]):
            for k in range(j + 1, dist_mat.shape[0]):
                for l in range(k + 1, dist_mat.shape[0]):
                    if dist_mat[i, j] < threshold and dist_mat[i, k] < threshold and dist_mat[j, k] < threshold and dist_mat[i, l] < threshold and dist_mat[j, l] < threshold and dist_mat[k, l] < threshold:
                        if cochain[lookup_table[i, 1] + lookup_table[j, 2] + lookup_table[k, 3]] - cochain[lookup_table[i, 1] + lookup_table[j, 2] + lookup_table[l, 3]] + cochain[lookup_table[i, 1] + lookup_table[k, 2] + lookup_table[l, 3]] - cochain[lookup_table[j, 1] + lookup_table[k, 2] + lookup_table[l, 3]] != 0:
                            ok = False
    return ok

# ---- filtration value (C10)
def cover_radius(perc, birth, death, standard_range):
    start = 2 * birth if standard_range else birth
    t = (1 - perc) * start + perc * death
    return t / 2, t, start > death, start == death

def one_class(dgms, h, k, perc, standard_range):
    birth = dgms[h][k, 0]
    death = dgms[h][k, 1]
    start = 2 * birth if standard_range else birth
    t = (1 - perc) * start + perc * death
    return t / 2, t, start > death, start == death

def many_classes(dgms, h, cocycle_idxs, perc, standard_range):
    birth = max([dgms[h][k, 0] for k in cocycle_idxs])
    death = min([dgms[h][k, 1] for k in cocycle_idxs])
    start = 2 * birth if standard_range else birth
    t = (1 - perc) * start + perc * death
    return t / 2, t, birth >= death or start > death, start == death and birth < death

# ---- one reduction step (C04, C02)
def moment(X, ok):
    return (X * ok[None, :]) @ np.conj(X * ok[None, :]).T

def step(X, V, K):
    Y = (np.conj(V[:, ::-1]).T @ X)[:K, :]
    return Y / np.sqrt(np.sum(np.abs(Y) ** 2, 0))[None, :]

# ---- distances (C19, C20)
def euclid(X, Y):
    return np.sqrt(np.sum((X[:, None, :] - Y[None, :, :]) ** 2, -1))

def projective_arc(X, Y):
    return np.arccos(np.minimum(np.abs(X @ Y.T), 1))

"""Vocabulary of third-party functions: canonical names, parameter names, aliasing.

Only names, parameter order and aliasing/mutation facts live here; numeric meaning lives in the domains."""

ALIAS = {
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min", "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs",
    "builtins.abs": "numpy.abs", "numpy.conj": "numpy.conjugate", "numpy.remainder": "numpy.mod", "numpy.product": "numpy.prod",
    "numpy.round_": "numpy.round", "numpy.around": "numpy.round", "numpy.concat": "numpy.concatenate",
    "numpy.permute_dims": "numpy.transpose", "numpy.acos": "numpy.arccos", "numpy.asin": "numpy.arcsin",
    "math.sqrt": "numpy.sqrt", "math.sin": "numpy.sin", "math.cos": "numpy.cos", "math.exp": "numpy.exp", "math.floor": "numpy.floor",
    "math.ceil": "numpy.ceil", "math.acos": "numpy.arccos", "math.fabs": "numpy.abs", "math.log": "numpy.log", "math.fmod": "numpy.fmod",
    "cmath.exp": "numpy.exp", "cmath.sqrt": "numpy.sqrt", "math.comb": "scipy.special.comb", "math.hypot": "numpy.hypot",
    "builtins.round": "numpy.round", "numpy.vdot": "numpy.vdot", "builtins.pow": "numpy.power", "numpy.pow": "numpy.power",
    "numpy.linalg.matmul": "numpy.matmul", "numpy.linalg.matrix_transpose": "numpy.matrix_transpose",
    "numpy.random.random_sample": "numpy.random.random", "numpy.random.sample": "numpy.random.random", "numpy.random.ranf": "numpy.random.random",
    "scipy.sparse.linalg.lsqr": "scipy.sparse.linalg.lsqr", "numpy.asfarray": "numpy.asarray",
    "numpy.ma.array": "numpy.ma.array", "ripser.ripser.ripser": "ripser.ripser",
    "scipy.linalg.eigh": "numpy.linalg.eigh", "scipy.linalg.norm": "numpy.linalg.norm", "scipy.linalg.cholesky": "scipy.linalg.cholesky",
}

# binary/unary functions that are the same as operators
BINFN = {
    "numpy.add": "add", "numpy.subtract": "sub", "numpy.multiply": "mul", "numpy.divide": "div", "numpy.true_divide": "div",
    "numpy.floor_divide": "floordiv", "numpy.mod": "mod", "numpy.power": "pow", "numpy.float_power": "pow",
    "numpy.matmul": "matmul", "numpy.dot": "matmul", "numpy.less": "lt", "numpy.less_equal": "le", "numpy.greater": "gt",
    "numpy.greater_equal": "ge", "numpy.equal": "eq", "numpy.not_equal": "ne", "numpy.logical_and": "and", "numpy.logical_or": "or",
    "numpy.bitwise_and": "and", "numpy.bitwise_or": "or",
    "operator.add": "add", "operator.sub": "sub", "operator.mul": "mul", "operator.mod": "mod", "operator.matmul": "matmul",
}
UNFN = {"numpy.negative": "neg", "numpy.logical_not": "not", "numpy.invert": "not", "numpy.bitwise_not": "not"}

_red = ["a", "axis", "dtype", "out", "keepdims"]
_red2 = ["a", "axis", "out", "keepdims"]
SIG = {
    "numpy.sum": _red, "numpy.prod": _red, "numpy.mean": _red, "numpy.max": _red2, "numpy.min": _red2, "numpy.any": _red2, "numpy.all": _red2,
    "numpy.nansum": _red, "numpy.nanmax": _red2, "numpy.nanmin": _red2, "numpy.nanmean": _red, "numpy.std": _red, "numpy.var": _red,
    "numpy.argmax": ["a", "axis", "out", "keepdims"], "numpy.argmin": ["a", "axis", "out", "keepdims"], "numpy.count_nonzero": ["a", "axis", "keepdims"],
    "numpy.argsort": ["a", "axis", "kind", "order", "stable"], "numpy.sort": ["a", "axis", "kind", "order", "stable"],
    "numpy.cumsum": ["a", "axis", "dtype", "out"], "numpy.flip": ["m", "axis"], "numpy.fliplr": ["m"], "numpy.flipud": ["m"],
    "numpy.zeros": ["shape", "dtype", "order"], "numpy.ones": ["shape", "dtype", "order"], "numpy.empty": ["shape", "dtype", "order"],
    "numpy.full": ["shape", "fill_value", "dtype", "order"],
    "numpy.zeros_like": ["a", "dtype", "order", "subok", "shape"], "numpy.ones_like": ["a", "dtype", "order", "subok", "shape"],
    "numpy.empty_like": ["a", "dtype", "order", "subok", "shape"], "numpy.full_like": ["a", "fill_value", "dtype", "order", "subok", "shape"],
    "numpy.eye": ["N", "M", "k", "dtype", "order"], "numpy.identity": ["N", "dtype"], "numpy.diag": ["v", "k"],
    "numpy.array": ["object", "dtype", "copy", "order", "subok", "ndmin"], "numpy.asarray": ["a", "dtype", "order"],
    "numpy.ascontiguousarray": ["a", "dtype"], "numpy.asanyarray": ["a", "dtype", "order"], "numpy.copy": ["a", "order", "subok"], "numpy.astype": ["a", "dtype", "order", "casting", "subok", "copy"],
    "numpy.linspace": ["start", "stop", "num", "endpoint", "retstep", "dtype", "axis"],
    "numpy.reshape": ["a", "shape", "order"], "numpy.transpose": ["a", "axes"], "numpy.ravel": ["a", "order"], "numpy.flatten": ["a", "order"], "numpy.squeeze": ["a", "axis"],
    "numpy.expand_dims": ["a", "axis"], "numpy.swapaxes": ["a", "axis1", "axis2"], "numpy.moveaxis": ["a", "source", "destination"],
    "numpy.take": ["a", "indices", "axis", "out", "mode"], "numpy.compress": ["condition", "a", "axis", "out"], "numpy.nonzero": ["a"], "numpy.flatnonzero": ["a"], "numpy.where": ["condition", "x", "y"],
    "numpy.stack": ["arrays", "axis"], "numpy.concatenate": ["arrays", "axis"], "numpy.vstack": ["tup"], "numpy.hstack": ["tup"], "numpy.column_stack": ["tup"],
    "numpy.clip": ["a", "a_min", "a_max", "out"], "numpy.round": ["a", "decimals", "out"], "numpy.nan_to_num": ["x", "copy", "nan", "posinf", "neginf"],
    "numpy.isnan": ["x"], "numpy.isfinite": ["x"], "numpy.isinf": ["x"],
    "numpy.linalg.norm": ["x", "ord", "axis", "keepdims"], "numpy.linalg.eigh": ["a", "UPLO"], "numpy.linalg.svd": ["a", "full_matrices", "compute_uv", "hermitian"],
    "numpy.linalg.qr": ["a", "mode"], "numpy.linalg.cholesky": ["a", "upper"], "numpy.linalg.matrix_power": ["a", "n"],
    "scipy.linalg.cholesky": ["a", "lower", "overwrite_a", "check_finite"],
    "numpy.sqrt": ["x", "out", "where"], "numpy.exp": ["x", "out", "where"], "numpy.sin": ["x"], "numpy.cos": ["x"], "numpy.tan": ["x"], "numpy.arccos": ["x", "out", "where"], "numpy.arcsin": ["x", "out", "where"],
    "numpy.arctan2": ["x1", "x2"], "numpy.log": ["x", "out", "where"], "numpy.abs": ["x", "out", "where"], "numpy.square": ["x", "out", "where"], "numpy.conjugate": ["x", "out", "where"],
    "numpy.real": ["val"], "numpy.imag": ["val"], "numpy.angle": ["z", "deg"], "numpy.floor": ["x", "out"], "numpy.ceil": ["x", "out"], "numpy.rint": ["x", "out"], "numpy.trunc": ["x", "out"], "numpy.sign": ["x", "out"],
    "numpy.fmod": ["x1", "x2"], "numpy.hypot": ["x1", "x2"], "numpy.minimum": ["x1", "x2", "out"], "numpy.maximum": ["x1", "x2", "out"], "numpy.fmin": ["x1", "x2"], "numpy.fmax": ["x1", "x2"],
    "numpy.outer": ["a", "b"], "numpy.inner": ["a", "b"], "numpy.vdot": ["a", "b"], "numpy.einsum": ["subscripts", "0", "1", "2"], "numpy.tensordot": ["a", "b", "axes"],
    "scipy.spatial.distance.cdist": ["XA", "XB", "metric"], "numpy.isin": ["element", "test_elements", "assume_unique", "invert"], "numpy.in1d": ["element", "test_elements", "assume_unique", "invert"],
    "numpy.setdiff1d": ["ar1", "ar2", "assume_unique"], "numpy.unique": ["ar", "return_index", "return_inverse", "return_counts"], "numpy.histogram": ["a", "bins", "range", "weights", "density"],
    "numpy.arange": ["start", "stop", "step", "dtype"], "numpy.add.reduce": _red, "numpy.tile": ["A", "reps"], "numpy.repeat": ["a", "repeats", "axis"], "numpy.delete": ["arr", "obj", "axis"], "numpy.append": ["arr", "values", "axis"],
    "numpy.random.seed": ["seed"], "numpy.ix_": ["0", "1", "2"], "numpy.meshgrid": ["0", "1", "2"], "numpy.fill_diagonal": ["a", "val", "wrap"], "numpy.copyto": ["dst", "src", "casting", "where"], "numpy.put": ["a", "ind", "v"], "numpy.putmask": ["a", "mask", "values"], "numpy.place": ["arr", "mask", "vals"],
    "scipy.special.comb": ["N", "k", "exact", "repetition", "legacy"],
    "scipy.sparse.csr_array": ["arg1", "shape", "dtype", "copy"], "scipy.sparse.csr_matrix": ["arg1", "shape", "dtype", "copy"], "scipy.sparse.coo_array": ["arg1", "shape", "dtype", "copy"], "scipy.sparse.coo_matrix": ["arg1", "shape", "dtype", "copy"],
    "scipy.sparse.csc_array": ["arg1", "shape", "dtype", "copy"], "scipy.sparse.csc_matrix": ["arg1", "shape", "dtype", "copy"],
    "scipy.sparse.linalg.lsqr": ["A", "b", "damp", "atol", "btol", "conlim", "iter_lim"], "numpy.linalg.lstsq": ["A", "b", "rcond"],
    "scipy.optimize.milp": ["c", "integrality", "bounds", "constraints", "options"],
    "scipy.optimize.LinearConstraint": ["A", "lb", "ub", "keep_feasible"], "scipy.optimize.Bounds": ["lb", "ub", "keep_feasible"],
    "scipy.sparse.csgraph.shortest_path": ["csgraph", "method", "directed", "return_predecessors", "unweighted", "overwrite", "indices"],
    "scipy.sparse.csgraph.dijkstra": ["csgraph", "directed", "indices", "return_predecessors", "unweighted", "limit", "min_only"],
    "ripser.ripser": ["X", "maxdim", "thresh", "coeff", "distance_matrix", "do_cocycles", "metric", "n_perm"],
    "warnings.warn": ["message", "category", "stacklevel"],
    "numpy.issubdtype": ["arg1", "arg2"], "numpy.allclose": ["a", "b", "rtol", "atol"], "numpy.isclose": ["a", "b", "rtol", "atol"], "numpy.ptp": ["a", "axis"],
    "builtins.sum": ["a", "start"], "builtins.len": ["a"], "numpy.shape": ["a"], "numpy.size": ["a", "axis"], "numpy.ndim": ["a"], "builtins.isinstance": ["obj", "cls"],
    "numpy.atleast_2d": ["a"], "numpy.atleast_1d": ["a"], "numpy.broadcast_to": ["a", "shape"], "numpy.triu": ["m", "k"], "numpy.tril": ["m", "k"],
    "numpy.matrix_transpose": ["a"], "numpy.lexsort": ["keys", "axis"], "numpy.add.at": ["a", "indices", "b"],
}
DEFAULTS = {  # parameter values equal to the default are dropped
    ("numpy.argsort", "axis"): (-1,), ("numpy.sort", "axis"): (-1,), ("numpy.stack", "axis"): (0,), ("numpy.concatenate", "axis"): (0,),
    ("numpy.round", "decimals"): (0,), ("numpy.linspace", "endpoint"): (True,), ("numpy.eye", "k"): (0,), ("numpy.array", "copy"): (True,),
    ("numpy.linspace", "num"): (50,), ("numpy.linalg.eigh", "UPLO"): ("L",), ("numpy.linalg.norm", "ord"): (2,), ("builtins.sum", "start"): (0,),
    ("scipy.sparse.csgraph.shortest_path", "method"): ("auto",), ("numpy.astype", "copy"): (True,), ("numpy.histogram", "bins"): (10,),
}

# methods on arrays -> functions (receiver becomes the first parameter)
METHODS = {
    "sum": "numpy.sum", "prod": "numpy.prod", "mean": "numpy.mean", "max": "numpy.max", "min": "numpy.min", "any": "numpy.any", "all": "numpy.all", "std": "numpy.std", "var": "numpy.var",
    "argmax": "numpy.argmax", "argmin": "numpy.argmin", "argsort": "numpy.argsort", "cumsum": "numpy.cumsum", "dot": "numpy.dot", "transpose": "numpy.transpose",
    "flatten": "numpy.flatten", "ravel": "numpy.ravel", "reshape": "numpy.reshape", "copy": "numpy.copy", "astype": "numpy.astype", "squeeze": "numpy.squeeze", "swapaxes": "numpy.swapaxes",
    "conj": "numpy.conjugate", "conjugate": "numpy.conjugate", "clip": "numpy.clip", "round": "numpy.round", "nonzero": "numpy.nonzero", "take": "numpy.take", "repeat": "numpy.repeat", "compress": "numpy.compress",
    "tolist": "ndarray.tolist", "item": "ndarray.item", "toarray": "sparse.toarray", "todense": "sparse.toarray", "tocsr": "sparse.tocsr", "tocsc": "sparse.tocsc", "tocoo": "sparse.tocoo", "getH": "sparse.getH",
    "diagonal": "numpy.diagonal", "trace": "numpy.trace", "view": "ndarray.view", "tobytes": "ndarray.tobytes",
}
# these attributes are array-valued views / pure properties
ATTRS = {"T": "numpy.transpose", "real": "numpy.real", "imag": "numpy.imag", "mT": "numpy.matrix_transpose"}

# functions whose result may share memory with (some of) their arguments
VIEWS = {
    "numpy.transpose", "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.swapaxes", "numpy.moveaxis", "numpy.expand_dims",
    "numpy.real", "numpy.imag", "numpy.diagonal", "numpy.fliplr", "numpy.flipud", "numpy.flip", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.broadcast_to", "ndarray.view", "numpy.require",
    "numpy.matrix_transpose", "numpy.rot90", "numpy.split", "numpy.array_split", "builtins.iter", "builtins.list_view",
}
# functions that modify an argument in place: name -> parameter index/name
MUTATORS = {
    "numpy.fill_diagonal": "a", "numpy.copyto": "dst", "numpy.put": "a", "numpy.putmask": "a", "numpy.place": "arr", "numpy.random.shuffle": "0", "numpy.add.at": "a", "numpy.subtract.at": "0", "numpy.multiply.at": "0",
    "numpy.maximum.at": "0", "numpy.minimum.at": "0", "builtins.setattr": "0", "random.shuffle": "0", "numpy.put_along_axis": "0",
}
MUT_METHODS = {"sort", "fill", "resize", "put", "partition", "itemset", "setflags", "byteswap", "setfield", "append", "extend", "insert", "pop", "remove", "clear", "reverse", "update", "setdefault", "popitem", "add", "discard", "setdiag", "sum_duplicates", "eliminate_zeros", "sort_indices"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "update", "setdefault", "popitem", "add", "discard"}

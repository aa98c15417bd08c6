"""The public surface of the package: classes, their public methods, and the types their documentation gives the parameters."""
from .common import *

# documented parameter types; names not listed are scalars or callables
T = {
    "GeometryUtils.get_csm": {"X": "M d:f", "Y": "N d:f"}, "GeometryUtils.get_csm_projarc": {"X": "M d:f", "Y": "N d:f"}, "GeometryUtils.get_ssm": {"X": "N d:f"},
    "GeometryUtils.get_greedy_perm_pc": {"X": "N d:f", "M": ":i"}, "GeometryUtils.get_greedy_perm_dm": {"D": "N N:f", "M": ":i"},
    "GeometryUtils.landmark_geodesic_distance": {"X": "N d:f", "n_landmarks": ":i", "n_neighbors": ":i"},
    "CohomologyUtils.lift_to_integer_cocycle": {"cocycle": "S W:i", "prime": ":i"},
    "CohomologyUtils.order_simplex": {"unordered_simplex": "W:i"},
    "CohomologyUtils.sparse_cocycle_to_vector": {"sparse_cocycle": "S W:i", "lookup_table": "V W:i", "n_vertices": ":i"},
    "CohomologyUtils.make_delta0": {"dist_mat": "L L:f", "threshold": ":f", "lookup_table": "V W:i"},
    "CohomologyUtils.make_delta1": {"dist_mat": "L L:f", "threshold": ":f", "lookup_table": "V W:i"},
    "CohomologyUtils.make_delta1_compact": {"dist_mat": "L L:f", "threshold": ":f", "lookup_table": "V W:i"},
    "CohomologyUtils.make_delta2_compact": {"dist_mat": "L L:f", "threshold": ":f", "lookup_table": "V W:i"},
    "PartUnity.linear": {"ds": "n:f", "r_cover": ":f"}, "PartUnity.quadratic": {"ds": "n:f", "r_cover": ":f"}, "PartUnity.exp": {"ds": "n:f", "r_cover": ":f"},
    "EquivariantPCA.ppca": {"class_map": "N d:c", "proj_dim": ":i", "verbose": ":b"},
    "GeometryExamples.line_patches": {"dim": ":i", "n_angles": ":i", "n_offsets": ":i", "sigma": ":f"},
    "GeometryExamples.moving_dot": {"sqrt_num_images": ":i", "sigma": ":f", "dim": ":i"},
    "GeometryExamples.rp2_metric": {"n_samples": ":i"}, "GeometryExamples.torus_3d": {"n_samples": ":i", "R": ":f", "r": ":f"}, "GeometryExamples.klein_bottle_4d": {"n_samples": ":i", "R": ":f", "r": ":f"},
    "GeometryExamples.trefoil": {"n_samples": ":i", "horizontal_width": ":f", "noisy": ":b"}, "GeometryExamples.sphere": {"n_samples": ":i"},
    "GeometryExamples.noisy_circle": {"n_samples": ":i", "noise_size": ":f"}, "GeometryExamples.moore_space_distance_matrix": {"rough_n_points": ":i", "prime": ":i"},
    "CircleMapUtils.to_sinebow": {"circle_map": "N:f"}, "CircleMapUtils.center": {"circle_map": "N:f"}, "CircleMapUtils.offset": {"circle_map": "N:f", "offset": ":f"},
    "CircleMapUtils.linear_combination": {"circle_maps": "k N:f", "linear_combination_matrix": "l k:i"},
    "CircleMapUtils.levelset_coloring": {"circle_map": "N:f", "n_levelsets": ":i", "smoothing": ":f"},
    "ProjectiveMapUtils.get_stereo_proj_codim1": {"pX": "N d:f", "u": "d:f"}, "ProjectiveMapUtils.circle_to_3dnorthpole": {"x": "2:f"}, "ProjectiveMapUtils.hopf_map": {"X": "N 2:c"},
    "ProjectiveMapUtils.stereographic_projection_hemispheres": {"X": "N d:f", "center_vector": "d:f"}, "ProjectiveMapUtils.rotmat": {"a": "d:f", "b": "d:f"},
    "LensMapUtils.lens_3D_to_disk_3D": {"X": "N 2:c", "q": ":i"},
    "PlotUtils.imscatter": {"X": "N 2:f", "P": "N d2:f", "dim": ":i", "zoom": ":f"}, "PlotUtils.plot_patches": {"P": "N d2:f", "zoom": ":f"},
    "PlotUtils.plot_rp2_stereo": {"S": "N 2:f", "f": "N:f"}, "PlotUtils.plot_rp3_stereo": {"S": "N 3:f", "f": "N:f"},
    "PlotUtils.plot_3sphere_mesh": {"n_parallels": ":i", "n_meridians": ":i", "alpha": ":f"},
    "combinatorial_number_system_table": {"max_n": ":i", "max_d": ":i"}, "number_of_simplices_of_dimension": {"lookup_table": "V W:i"},
    "combinatorial_number_system_forward": {"lookup_table": "V W:i"}, "combinatorial_number_system_d1_forward": {"v0": ":i", "v1": ":i", "lookup_table": "V W:i"},
    "combinatorial_number_system_d2_forward": {"v0": ":i", "v1": ":i", "v2": ":i", "lookup_table": "V W:i"},
    "__init__": {"X": "N D:f", "n_landmarks": ":i", "prime": ":i", "maxdim": ":i"},
    "get_coordinates": {"perc": ":f", "cocycle_idx": ":i", "proj_dim": ":i", "complex_dim": ":i"},
    "get_cover_radius": {"perc": ":f", "cohomdeath_rips": ":f", "cohombirth_rips": ":f", "standard_range": ":b"},
    "get_representative_cocycle": {"cohomology_class": ":i", "homological_dimension": ":i"},
    "get_covering_partition": {"r_cover": ":f"},
}
# arguments through which a caller hands over a container
CONTAINERS = {"cocycles", "cocycle_idxs", "circle_maps", "linear_combination_matrix", "ordered_simplex", "unordered_simplex", "permutation", "simplex", "cocycle_idx", "idx_land"}
AXES = {"ax"}

def ptypes(meth):
    t = T.get(meth) or T.get(meth.split(".")[-1]) or {}
    return types(t)

def public(ck):
    """[(qualified name of the class's own name space, Class or None, function name, FuncV, ClassV or None)] incl. inherited public methods"""
    out = []
    for mn, m in sorted(ck.prog.modules.items()):
        if mn.split(".")[-1].startswith("zz_") or not mn.startswith("dreimac"): continue
        short = mn.split(".")[-1] if "." in mn else None
        if short is None or short.startswith("_"): continue
        fr = ck.prog.base.frames[m.fid]
        for nm, v in sorted(fr.items()):
            if nm.startswith("_"): continue
            if isinstance(v, vg.FuncV) and v.mod is m: out.append((short + ":" + nm, None, nm, v, None))
            if isinstance(v, vg.ClassV) and v.mod is m:
                names = []; st = [v]
                while st:
                    k = st.pop()
                    for a in k.attrs:
                        if a not in names: names.append(a)
                    st += [b for b in k.bases if isinstance(b, vg.ClassV)]
                for a in sorted(names):
                    if a.startswith("_") and a != "__init__": continue
                    f = v.lookup(a)
                    if isinstance(f, vg.FuncV): out.append((short + ":" + nm + "." + a, nm, a, f, v))
    return out

def runs(ck, skip=()):
    """(name, class, method, FuncV, ClassV, Result) for every public function"""
    if "surface" in ck.cache: return ck.cache["surface"]
    out = []
    for q, cn, nm, f, cls in public(ck):
        meth = (cn + "." + nm) if cn else nm
        t = ptypes(meth)
        try: r = ck.run(q, f=f, selfobj=vg.ObjV(cls, "self") if cls is not None and not f.static else None, types=oracle(t))
        except (vg.AnalysisError, RecursionError) as e: ck.unk(q, "not analysed: %s" % e); continue
        except Exception as e:
            if os.environ.get("SA_DEBUG"): raise
            ck.unk(q, "not analysed: %s %s" % (type(e).__name__, str(e)[:120])); continue
        out.append((q, cn, nm, f, cls, r, t))
    ck.cache["surface"] = out
    return out

def arbitrary(r):
    """predicate: is the node computed from a least-squares solution (whose entries may be any reals)?"""
    memo = {}
    def go(n):
        if n not in memo: memo[n] = any(x.op == "call" and x.args[0] in dre.SOLVERS for x in deps(r, n))
        return memo[n]
    return go

def deps(r, n, stop=()):
    """every node the value n is computed from, through loops"""
    stop = set(stop)
    seen = set(); st = [n]; mus = {}
    for L in r.loops.values():
        for m, (a, b) in L.mu.items(): mus[m] = (a, b, L)
    def push(x):
        if isinstance(x, vg.Node):
            if x not in seen: st.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x: push(y)
    while st:
        x = st.pop()
        if x in seen or x in stop: continue
        seen.add(x)
        push(x.args)
        if x in mus:
            a, b, L = mus[x]; push(a); push(b); push(L.dom); push(L.cond); push(list(L.breaks or ()))
        if x.op in ("final", "last", "mu") and x.args and x.args[0] in r.loops:
            L = r.loops[x.args[0]]; push(L.dom); push(L.cond); push(list(L.breaks or ()))
    return seen

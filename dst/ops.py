"""Catalogue of public operations of the shipped packages.

Each entry: name -> (module, function, gen) with gen(rng) -> (args, kwargs) as
JSON specs (see inputs.build).  Calls go through the public module attributes,
so a refactoring that keeps the behaviour keeps the catalogue working.
"""
import importlib
from . import inputs as I

MODS = ('math1', 'numericalc', 'utils', 'symmetry', 'intsct', 'occupation_domain',
        'two_occupation_domains')
SHORT = {'math1': 'math1', 'numericalc': 'num', 'utils': 'utils', 'symmetry': 'sym',
         'intsct': 'intsct', 'od': 'occupation_domain', 'ods': 'two_occupation_domains'}

CAT = {}      # name -> dict(pkg, mod, fn, gen, cost)
COST = {'cheap': 0, 'mid': 1, 'heavy': 2}


def reg(pkg, mod, fn, gen, cost='cheap', tags=(), name=None):
    CAT['%s.%s.%s' % (pkg, mod, name or fn)] = dict(pkg=pkg, mod=mod, fn=fn, gen=gen,
                                                    cost=cost, tags=frozenset(tags))


def _mk(pkg):
    NV = I.NVERT[pkg]
    ico = pkg == 'ico2'
    simplex = 'tetrahedron' if ico else 'triangle'
    V = lambda r: I.dom(r, pkg, 1, form='vec', rot=r.randrange(NV), nv=NV)
    S = lambda r: I.dom(r, pkg, 1, form='one')
    T = lambda r: I.dom(r, pkg, 1, form='one', nv=3, rot=r.randrange(NV))
    E = lambda r: I.dom(r, pkg, 1, form='one', nv=2, rot=r.randrange(NV))
    O = lambda r, n=6: I.dom(r, pkg, None, n)
    N = lambda r, n=4: I.neighbours(r, pkg, r.randint(2, n))
    TT = lambda r, n=5: I.dom(r, pkg, None, n, nv=3, rot=r.randrange(NV))
    EE = lambda r, n=6: I.dom(r, pkg, None, n, nv=2, rot=r.randrange(NV))
    TN = lambda r, n=5: dict(N(r, n), nv=3, rot=r.randrange(NV))
    P = lambda r, n=3: I.dom(r, pkg, None, n, form='flat')
    C = lambda r: r.choice([I.zero6(), I.intvec6(r)])
    A = lambda *a: (list(a), {})
    R2 = lambda r, x, y: rel2(r, pkg, x, y)
    # ---- math1
    for fn in ('add', 'sub', 'mul'):
        reg(pkg, 'math1', fn, lambda r: A(I.lit_q(r), I.lit_q(r)))
    reg(pkg, 'math1', 'div', lambda r: A(I.lit_q(r), I.lit_q(r, True)))
    for fn in ('add_vectors', 'sub_vectors'):
        reg(pkg, 'math1', fn, lambda r: A(I.lit_vec(r, 6), I.lit_vec(r, 6)))
    reg(pkg, 'math1', 'mul_vector', lambda r: A(I.lit_vec(r, 6), I.lit_q(r)))
    reg(pkg, 'math1', 'mul_vectors', lambda r: A(I.lit_mat(r, 3, 6), I.lit_q(r)))
    reg(pkg, 'math1', 'outer_product', lambda r: A(I.lit_vec(r, 3), I.lit_vec(r, 3)))
    reg(pkg, 'math1', 'inner_product', lambda r: A(I.lit_vec(r, 3), I.lit_vec(r, 3)))
    reg(pkg, 'math1', 'dot_product', lambda r: A(I.lit_mat(r, 2, 3), I.lit_mat(r, 3, 2)))
    for fn in ('projection', 'projection3', 'projection_perp'):
        reg(pkg, 'math1', fn, lambda r: A(r.choice([V(r), I.lit_vec(r, 6)])))
    reg(pkg, 'math1', 'centroid', lambda r: A(S(r)))
    reg(pkg, 'math1', 'centroid_obj', lambda r: A(O(r)))
    reg(pkg, 'math1', 'coplanar_check', lambda r: A(P(r)), tags=['draw'])
    reg(pkg, 'math1', 'matrixpow', lambda r: A(
        {'$': 'i', 'v': [[r.randint(-1, 1) for _ in range(3)] for _ in range(3)]}, r.randint(0, 4)))
    # ---- numericalc
    reg(pkg, 'numericalc', 'coplanar_check_numeric_tau', lambda r: A(P(r)), tags=['draw'])
    reg(pkg, 'numericalc', 'coplanar_check_numeric', lambda r: A(flt(r)), tags=['draw'])
    reg(pkg, 'numericalc', 'point_on_segment', lambda r: A(*R2(r, 1, 2)))
    reg(pkg, 'numericalc', 'numeric_value', lambda r: A(I.lit_q(r)))
    reg(pkg, 'numericalc', 'numerical_vector', lambda r: A(V(r)))
    reg(pkg, 'numericalc', 'numerical_vectors', lambda r: A(S(r)))
    reg(pkg, 'numericalc', 'length_numerical', lambda r: A(I.lit_vec(r, 3)))
    if ico:
        reg(pkg, 'numericalc', 'on_out_surface', lambda r: A(*R2(r, 1, 3)))
        reg(pkg, 'numericalc', 'inside_outside_tetrahedron_tau', lambda r: A(*R2(r, 1, NV)))
        reg(pkg, 'numericalc', 'obj_volume_6d_numerical', lambda r: A(O(r)))
    else:
        reg(pkg, 'numericalc', 'inside_outside_triangle_tau', lambda r: A(*R2(r, 1, NV)))
    if ico:
        reg(pkg, 'numericalc', 'check_intersection_segment_surface_numerical_6d_tau', lambda r: A(*R2(r, 2, 3)))
    if not ico:
        reg(pkg, 'numericalc', 'check_intersection_two_segment_numerical_6d_tau', lambda r: A(*R2(r, 2, 2)))
    reg(pkg, 'numericalc', 'triangle_area', lambda r: A(T(r)))
    reg(pkg, 'numericalc', 'get_internal_component_numerical', lambda r: A(V(r)))
    reg(pkg, 'numericalc', 'get_internal_component_sets_numerical', lambda r: A(S(r)))
    # ---- utils
    reg(pkg, 'utils', 'shift_object', lambda r: A(O(r), I.intvec6(r)))
    if ico:
        reg(pkg, 'utils', 'obj_volume_6d', lambda r: A(O(r)))
        reg(pkg, 'utils', 'tetrahedron_volume_6d', lambda r: A(S(r)))
        reg(pkg, 'utils', 'generator_surface_1', lambda r: A(N(r)), 'mid')
        reg(pkg, 'utils', 'generator_unique_triangles', lambda r: A(N(r)), 'mid')
        reg(pkg, 'utils', 'get_tetrahedron_surface', lambda r: A(S(r)))
        reg(pkg, 'utils', 'get_tetrahedron_edge', lambda r: A(S(r)))
        reg(pkg, 'utils', 'equivalent_tetrahedra', lambda r: A(*R2(r, NV, NV)))
        reg(pkg, 'utils', 'tetrahedralization_points', lambda r: A(P(r, 2)), 'mid')
        reg(pkg, 'utils', 'check_connectivity_tetrahedra', lambda r: A(*R2(r, NV, NV)))
        reg(pkg, 'utils', 'get_common_triangle_in_two_tetrahedra', lambda r: A(*R2(r, NV, NV)))
        reg(pkg, 'utils', 'merge_two_tetrahedra', lambda r: A(*R2(r, NV, NV)), 'mid')
    else:
        reg(pkg, 'utils', 'obj_area_6d', lambda r: A(O(r)))
        reg(pkg, 'utils', 'triangle_area_6d', lambda r: A(S(r)))
        reg(pkg, 'utils', 'triangulation_points', lambda r: A(P(r, 2)), 'mid')
        reg(pkg, 'utils', 'check_connectivity_triangles', lambda r: A(*R2(r, NV, NV)))
        reg(pkg, 'utils', 'merge_two_triangles', lambda r: A(*R2(r, NV, NV)), 'mid')
    reg(pkg, 'utils', 'remove_doubling', lambda r: A(P(r)))
    reg(pkg, 'utils', 'remove_doubling_in_perp_space', lambda r: A(r.choice([P, O])(r)))
    reg(pkg, 'utils', 'generator_all_edges', lambda r: A(r.choice([TT, O])(r)), 'mid')
    reg(pkg, 'utils', 'generator_unique_edges', lambda r: A(r.choice([TT, O])(r, 4)), 'mid')
    reg(pkg, 'utils', 'get_triangle_edge', lambda r: A(T(r)))
    reg(pkg, 'utils', 'generate_convex_hull', lambda r: A(N(r)), 'mid')
    reg(pkg, 'utils', 'surface_cleaner', lambda r: A(TN(r)), 'mid', ['draw'])
    reg(pkg, 'utils', 'get_sets_of_coplanar_triangles', lambda r: A(TN(r)), 'mid', ['draw'])
    reg(pkg, 'utils', 'gen_border_edges_of_coplanar_triangles', lambda r: A(TT(r, 3)), 'mid')
    reg(pkg, 'utils', 'coplanar_check_two_triangles', lambda r: A(*R2(r, 3, 3)), tags=['draw'])
    reg(pkg, 'utils', 'equivalent_triangles', lambda r: A(*R2(r, 3, 3)))
    reg(pkg, 'utils', 'equivalent_edges', lambda r: A(*R2(r, 2, 2)))
    reg(pkg, 'utils', 'equivalent_vertices', lambda r: A(*R2(r, 1, 1)))
    reg(pkg, 'utils', 'sort_vctors', lambda r: A(P(r)))
    reg(pkg, 'utils', 'remove_vectors', lambda r: A(P(r), P(r)))
    reg(pkg, 'utils', 'remove_vector', lambda r: A(P(r), V(r)))
    reg(pkg, 'utils', 'two_segment_into_one', lambda r: A(*R2(r, 2, 2)))
    # ---- symmetry
    reg(pkg, 'symmetry', 'icosasymop' if ico else 'dodesymop', lambda r: A(), 'mid')
    reg(pkg, 'symmetry', 'generator_obj_symmetric_%s_0' % simplex,
        lambda r: A(O(r, 3), C(r), r.randrange(24)), 'mid')
    reg(pkg, 'symmetry', 'generator_obj_symmetric_vec', lambda r: A(I.dom(r, pkg, 1, form='flat'), C(r)), 'mid')
    reg(pkg, 'symmetry', 'symop_obj', lambda r: A(
        {'$': 'i', 'v': [[int(i == (j + 1) % 6) for j in range(6)] for i in range(6)]}, O(r, 3), C(r)))
    if not ico:
        reg(pkg, 'symmetry', 'similarity_obj', lambda r: A(O(r), r.choice([-2, -1, 0, 1, 2])))
        reg(pkg, 'symmetry', 'site_symmetry', lambda r: A(site(r), 4), 'mid')
        reg(pkg, 'symmetry', 'coset', lambda r: A(site(r), 4), 'heavy')
        reg(pkg, 'symmetry', 'translation', lambda r: A(4), 'mid')
        reg(pkg, 'symmetry', 'remove_overlaps', lambda r: A([r.randrange(5) for _ in range(6)]))
    # ---- intsct
    reg(pkg, 'intsct', 'ball_radius_obj', lambda r: A(O(r), I.zero6()))
    reg(pkg, 'intsct', 'distance_in_perp_space', lambda r: A(*R2(r, 1, 1)))
    reg(pkg, 'intsct', 'rough_check_intersection_%s_obj' % simplex, lambda r: A(S(r), I.zero6(), 0.5))
    if not ico:
        reg(pkg, 'intsct', 'intersection_two_segment', lambda r: A(*R2(r, 2, 2)))
    if ico:
        reg(pkg, 'intsct', 'intersection_segment_surface', lambda r: A(*R2(r, 2, 3)))
    if ico:
        reg(pkg, 'intsct', 'check_intersection_two_tetrahedron_4', lambda r: A(*pair1(r, pkg)), 'mid')
        reg(pkg, 'intsct', 'intersection_two_tetrahedron_4', lambda r: A(*pair1(r, pkg)), 'mid', ['draw', 'geo'])
        reg(pkg, 'intsct', 'intersection_two_obj_1', lambda r: A(*pairn(r, pkg, 2, 3)), 'mid', ['draw', 'geo'])
    else:
        reg(pkg, 'intsct', 'check_intersection_two_triangles', lambda r: A(*pair1(r, pkg)), 'mid')
        reg(pkg, 'intsct', 'intersection_two_triangles', lambda r: A(*pair1(r, pkg)), 'mid', ['geo'])
        reg(pkg, 'intsct', 'intersection_two_obj_1', lambda r: A(*pairn(r, pkg, 3, 4)), 'mid', ['geo'])
    # ---- two_occupation_domains
    kinds = [None, 'standard', 'simple']
    reg(pkg, 'two_occupation_domains', 'intersection',
        lambda r: (list(pairn(r, pkg, 2, 4)), {('kind' if ico else 'select'): r.choice(kinds)}),
        'mid', ['draw', 'geo', 'verbose'])
    if ico:
        reg(pkg, 'two_occupation_domains', 'intersection_convex', lambda r: A(*(conv(r) if r.random() < .4 else pair1o(r, pkg))),
            'mid', ['draw', 'geo', 'verbose'])
    # ---- the remaining functions of the modules
    PN = lambda d: dict(d, num='perp:' + pkg)
    N6 = lambda d: dict(d, num='6d:' + pkg)
    REL = lambda r, x, y: tuple(PN(d) for d in R2(r, x, y))
    IM = lambda r: {'$': 'i', 'v': [[int(i == (j + 1) % 6) * r.choice([-1, 1]) for j in range(6)] for i in range(6)]}
    reg(pkg, 'math1', 'dot_product_1', lambda r: A(IM(r), V(r)))
    reg(pkg, 'math1', 'mtrixcal', lambda r: A(*([I.lit_q(r) for _ in range(6)] + [V(r)])))
    reg(pkg, 'numericalc', 'check_intersection_segment_surface_numerical', lambda r: A(*REL(r, 2, 3)))
    if not ico:
        reg(pkg, 'numericalc', 'check_intersection_two_segment_numerical', lambda r: A(*REL(r, 2, 2)))
    if ico:
        reg(pkg, 'numericalc', 'inside_outside_tetrahedron', lambda r: A(*REL(r, 1, NV)))
        reg(pkg, 'numericalc', 'obj_volume_numerical', lambda r: A(PN(O(r))))
        reg(pkg, 'numericalc', 'tetrahedron_volume_6d_numerical', lambda r: A(S(r)))
        reg(pkg, 'numericalc', 'tetrahedron_volume_numerical', lambda r: A(PN(S(r))))
        reg(pkg, 'utils', 'tetrahedron_volume', lambda r: A(I.lit_mat(r, 4, 3)))
        reg(pkg, 'utils', 'merge_two_tetrahedra_in_obj', lambda r: A(N(r, 3)), 'mid', ['draw'])
        reg(pkg, 'symmetry', 'generator_obj_symmetric_tetrahedron', lambda r: A(O(r, 2), C(r)), 'heavy' if ico else 'mid')
        reg(pkg, 'symmetry', 'generator_obj_symmetric_surface', lambda r: A(TT(r, 2), C(r)), 'heavy' if ico else 'mid')
        reg(pkg, 'intsct', 'intersection_two_obj_convex', lambda r: A(*pair1o(r, pkg)), 'mid', ['draw', 'geo'])
    else:
        reg(pkg, 'numericalc', 'check_intersection_segment_surface_numerical_6d_tau', lambda r: A(*R2(r, 2, 3)))
        reg(pkg, 'numericalc', 'inside_outside_triangle', lambda r: A(*REL(r, 1, NV)))
        reg(pkg, 'numericalc', 'on_out_surface', lambda r: A(*R2(r, 1, 3)))
        reg(pkg, 'numericalc', 'obj_volume_6d_numerical', lambda r: A(O(r)))
        reg(pkg, 'numericalc', 'triangle_volume_6d_numerical', lambda r: A(S(r)))
        reg(pkg, 'utils', 'merge_two_triangles_in_obj', lambda r: A(N(r, 3)), 'mid', ['draw'])
        reg(pkg, 'utils', 'triangle_area', lambda r: A(I.lit_mat(r, 3, 3)))
        reg(pkg, 'symmetry', 'generator_obj_symmetric_triangle', lambda r: A(O(r, 2), C(r)), 'mid')
        reg(pkg, 'symmetry', 'generator_symmetric_vec_0', lambda r: A(V(r), C(r), r.randrange(24)))
        reg(pkg, 'symmetry', 'find_overlaps', lambda r: A([r.randrange(9) for _ in range(4)], [r.randrange(9) for _ in range(3)]))
        reg(pkg, 'symmetry', 'similarity', lambda r: A(r.choice([-3, -2, -1, 0, 1, 2, 3])))
        reg(pkg, 'symmetry', 'similarity_triangle', lambda r: A(S(r), r.choice([-2, -1, 0, 1, 2])))
        reg(pkg, 'symmetry', 'similarity_vec', lambda r: A(V(r), r.choice([-2, -1, 0, 1, 2])))
        reg(pkg, 'symmetry', 'site_symmetry_and_coset', lambda r: A(site(r), 4, 0), 'heavy')
        reg(pkg, 'intsct', 'intersection_segment_surface', lambda r: A(*R2(r, 2, 3)))
    reg(pkg, 'numericalc', 'inner_product_numerical', lambda r: A(PN(V(r)), PN(V(r))))
    if ico:
        reg(pkg, 'numericalc', 'inside_outside_obj', lambda r: A(PN(V(r)), PN(O(r))))
    reg(pkg, 'numericalc', 'matrix_dot', lambda r: A(PN(T(r)), PN(T(r))))
    for fn in ('projection3_numerical', 'projection_numerical'):
        reg(pkg, 'numericalc', fn, lambda r: A(N6(V(r))))
    for fn in ('projection3_sets_numerical', 'projection_sets_numerical'):
        reg(pkg, 'numericalc', fn, lambda r: A(N6(S(r))))
    reg(pkg, 'numericalc', 'triangle_area_numerical', lambda r: A(PN(T(r))))
    reg(pkg, 'utils', 'decomposition', lambda r: A(PN(P(r, 2))))
    reg(pkg, 'utils', 'equivalent', lambda r: A(*R2(r, r.choice([2, 3]), r.choice([2, 3]))))
    reg(pkg, 'utils', 'get_common_edges', lambda r: A(TN(r)), 'mid')
    reg(pkg, 'symmetry', 'generator_equivalent_vec', lambda r: A(I.dom(r, pkg, 1, form='flat'), C(r)), 'heavy' if ico else 'mid')
    reg(pkg, 'symmetry', 'generator_obj_symmetric_obj', lambda r: A(r.choice([O(r, 2), P(r, 1)]), C(r)), 'heavy' if ico else 'mid')
    reg(pkg, 'symmetry', 'symop_vec', lambda r: A(IM(r), V(r), C(r)))
    reg(pkg, 'symmetry', 'symop_vecs', lambda r: A(IM(r), S(r), C(r)))
    reg(pkg, 'intsct', 'ball_radius', lambda r: A(S(r), V(r)))
    if ico:
        reg(pkg, 'intsct', 'subtraction_two_obj', lambda r: A(*pairn(r, pkg, 1, 2)), 'heavy', ['draw', 'verbose'])
    if ico:
        reg(pkg, 'two_occupation_domains', 'subtraction', lambda r: A(*pairn(r, pkg, 2, 1)), 'heavy', ['draw', 'verbose'])
    # ---- the branches for other shapes, signs and argument values
    U = lambda d, k='up': dict(d, tr=list(d.get('tr', ())) + [[k, 0]])
    W = lambda r, d: r.choice([d, d, U(d), U(U(d)), U(d, 'down')])
    Q = lambda r: {'$': 'i', 'v': r.choice([[0, 0, 1], [r.randint(-4, 4), 0, 1], [0, r.randint(-4, 4), r.choice([1, 2, -1])],
                                            [r.randint(-6, 6), r.randint(-6, 6), r.choice([-3, -2, -1, 1, 2, 4])]])}
    M = lambda r, *s: {'$': 'i', 'v': [[r.randint(-2, 2) for _ in range(s[1])] for _ in range(s[0])]}
    for fn in ('add', 'sub', 'mul', 'div'):
        reg(pkg, 'math1', fn, lambda r: A(Q(r), Q(r)), name=fn + '~signs')
    reg(pkg, 'math1', 'sub_vectors', lambda r: A(I.lit_vec(r, 6), I.lit_vec(r, r.choice([6, 5]))), name='sub_vectors~shape')
    reg(pkg, 'math1', 'mul_vector', lambda r: A(W(r, I.lit_vec(r, r.choice([3, 6]))), Q(r)), name='mul_vector~shape')
    reg(pkg, 'math1', 'mul_vectors', lambda r: A(W(r, r.choice([O(r), I.lit_mat(r, 3, 3)])), Q(r)), name='mul_vectors~shape')
    reg(pkg, 'math1', 'inner_product', lambda r: A(I.lit_vec(r, r.choice([3, 6])), I.lit_vec(r, r.choice([3, 6]))), name='inner_product~shape')
    reg(pkg, 'math1', 'dot_product', lambda r: A(I.lit_mat(r, r.choice([2, 3]), 3), I.lit_vec(r, r.choice([3, 3, 3, 2]))), name='dot_product~vec')
    reg(pkg, 'math1', 'dot_product', lambda r: A(*r.choice([(I.lit_vec(r, 3), I.lit_vec(r, 3)), (I.lit_mat(r, 2, 3), I.lit_mat(r, 2, 3)),
                                                            (I.lit_mat(r, 3, 3), I.lit_mat(r, 3, 3)), (I.lit_vec(r, 3), I.lit_mat(r, 3, 3))])),
        name='dot_product~shape')
    reg(pkg, 'math1', 'dot_product_1', lambda r: A(M(r, 3, 3), r.choice([I.lit_mat(r, 3, 3), I.lit_mat(r, 3, 3), I.lit_mat(r, 2, 2), I.lit_vec(r, 4), I.lit_q(r)])),
        name='dot_product_1~shape')
    reg(pkg, 'math1', 'matrixpow', lambda r: A(r.choice([M(r, 3, 3), M(r, 2, 2), M(r, 2, 3),
                                                         {'$': 'i', 'v': [[1, 1, 0], [0, 1, 1], [0, 0, r.choice([1, -1, 2])]]}]), r.randint(-4, -1)),
        name='matrixpow~neg')
    reg(pkg, 'math1', 'det_matrix', lambda r: A(I.lit_mat(r, 3, 3)))
    reg(pkg, 'numericalc', 'inside_outside_obj_tau', lambda r: A(V(r), O(r)))
    reg(pkg, 'utils', 'shift_object', lambda r: A(W(r, O(r)), I.intvec6(r)), name='shift_object~shape')
    vol, vol1 = ('obj_volume_6d', 'tetrahedron_volume_6d') if ico else ('obj_area_6d', 'triangle_area_6d')
    reg(pkg, 'utils', vol, lambda r: A(W(r, O(r))), name=vol + '~shape')
    reg(pkg, 'utils', vol1, lambda r: A(W(r, S(r))), name=vol1 + '~shape')
    reg(pkg, 'occupation_domain', 'volume', lambda r: A(W(r, O(r))), name='volume~shape')
    reg(pkg, 'utils', 'remove_doubling', lambda r: A(W(r, P(r))), name='remove_doubling~shape')
    reg(pkg, 'utils', 'equivalent', lambda r: A(*(lambda ab, k: [U(x) for x in ab] if k == 0 else [U(x, 'down') for x in ab] if k == 1 else
                                                  [O(r, 3), O(r, 3)] if k == 2 else [ab[0], U(ab[1])])(R2(r, 3, 3), r.randrange(4))), name='equivalent~shape')
    reg(pkg, 'utils', 'sort_obj', lambda r: A(O(r)))
    reg(pkg, 'utils', 'middle_position', lambda r: A(*R2(r, 1, 1)))
    reg(pkg, 'utils', 'two_segment_into_one', lambda r: A(*halves(r, pkg)), name='two_segment_into_one~line')
    reg(pkg, 'numericalc', 'point_on_segment', lambda r: (lambda ab: A(U(ab[1], 'down'), ab[0]))(halves(r, pkg)), name='point_on_segment~line')
    reg(pkg, 'symmetry', 'symop_obj', lambda r: A(IM(r), W(r, r.choice([S(r), O(r, 2), V(r)])), C(r)), name='symop_obj~shape')
    reg(pkg, 'symmetry', 'generator_obj_symmetric_obj', lambda r: A(r.choice([V(r), U(O(r, 1))]), C(r)), name='generator_obj_symmetric_obj~shape')
    reg(pkg, 'symmetry', 'generator_obj_symmetric_%s_specific_symop' % simplex, lambda r: A(r.choice([O(r, 2), V(r)]), C(r), [r.randrange(24) for _ in range(3)]))
    reg(pkg, 'symmetry', 'generator_equivalent_vectors', lambda r: A(S(r), C(r)))
    reg(pkg, 'occupation_domain', 'symmetric', lambda r: A(U(r.choice([V(r), U(O(r, 1))])), C(r)), name='symmetric~shape')
    reg(pkg, 'occupation_domain', 'symmetric_0', lambda r: A(r.choice([V(r), S(r), U(O(r, 1))]), C(r), r.randrange(24)), name='symmetric_0~shape')
    reg(pkg, 'occupation_domain', 'simplification', lambda r: A({'$': 'none'}), name='simplification~none')
    reg(pkg, 'occupation_domain', 'simple_hand_step2',
        lambda r: A(P(r, 3), [r.sample(range(1, NV + 1), NV) for _ in range(r.choice([1, 2, 2]))]), name='simple_hand_step2~lists')
    for fn in ('intersection', 'intersection_convex', 'subtraction'):
        reg(pkg, 'two_occupation_domains', fn, lambda r: A(*(lambda a, b: r.choice([(U(a), b), (a, U(b)), (U(a, 'down'), b)]))(O(r, 2), O(r, 2))), name=fn + '~shape')
    for fn in ('intersection',) + (('intersection_convex',) if ico else ()):
        reg(pkg, 'two_occupation_domains', fn, lambda r: A(O(r, 1), dict(O(r, 1), shift=[r.choice([5, 7])] + [0] * 5)), name=fn + '~apart')
    for mod, fn in (('intsct', 'intersection_two_obj_1'), ('two_occupation_domains', 'intersection')):
        reg(pkg, mod, fn, lambda r: (list(whole(r, pkg)), {('kind' if ico else 'select'): 'simple'}), 'mid', ['draw'] if ico else [], name=fn + '~simple')
    if ico:
        reg(pkg, 'numericalc', 'check_intersection_two_segment_numerical', lambda r: A(*REL(r, 2, 3)))
        reg(pkg, 'numericalc', 'check_intersection_two_segment_numerical_6d_tau', lambda r: A(*R2(r, 2, 3)))
        reg(pkg, 'intsct', 'intersection_two_segment', lambda r: A(*R2(r, 2, 3)))
        reg(pkg, 'intsct', 'decomposition', lambda r: A(r.choice([PN(P(r, 2)), I.lit_vec(r, 3)])))
        reg(pkg, 'utils', 'breps', lambda r: A(S(r)))
        reg(pkg, 'numericalc', 'inside_outside_obj', lambda r: A(PN(V(r)), PN(dict(O(r, 2), shift=[3, 0, 0, 0, 0, 0]))), name='inside_outside_obj~apart')
    else:
        reg(pkg, 'numericalc', 'inside_outside_obj', lambda r: A(PN(V(r)), PN(O(r))))
        reg(pkg, 'symmetry', 'translation', lambda r: A(5), 'mid', name='translation~5')
        reg(pkg, 'utils', 'get_common_edge_in_two_triangles', lambda r: A(*R2(r, NV, NV)))
        reg(pkg, 'intsct', 'intersection_two_obj_convex', lambda r: A(*pair1o(r, pkg)), 'mid')
        reg(pkg, 'intsct', 'subtraction_two_obj', lambda r: A(*pair1o(r, pkg)), 'mid')
        reg(pkg, 'two_occupation_domains', 'intersection_convex', lambda r: A(*pair1o(r, pkg)), 'mid')
        reg(pkg, 'two_occupation_domains', 'subtraction', lambda r: A(*pair1o(r, pkg)), 'mid')
        reg(pkg, 'occupation_domain', 'generate_border_edges', lambda r: A(N(r, 3)), 'mid')
    reg(pkg, 'utils', 'surface_cleaner', lambda r: A(split(r, pkg)), 'mid', ['draw'], name='surface_cleaner~split')
    reg(pkg, 'utils', 'get_sets_of_coplanar_triangles', lambda r: A(split(r, pkg)), 'mid', ['draw'], name='get_sets_of_coplanar_triangles~split')
    reg(pkg, 'utils', 'generator_all_edges', lambda r: A(W(r, U(V(r)))), name='generator_all_edges~shape')
    reg(pkg, 'utils', 'generator_unique_edges', lambda r: A(r.choice([EE(r, 1), T(r), O(r, 1)])), 'mid', name='generator_unique_edges~few')
    reg(pkg, 'utils', 'remove_vectors', lambda r: (lambda p: A(p, p))(P(r, 1)), name='remove_vectors~all')
    reg(pkg, 'utils', 'remove_vector', lambda r: A(U(V(r)), V(r)), name='remove_vector~one')
    reg(pkg, 'occupation_domain', 'simplification', lambda r: A(convex(r, pkg, 5)), 'mid', ['draw', 'verbose'], name='simplification~convex')
    simp = 'tetrahedralization_points' if ico else 'triangulation_points'
    reg(pkg, 'utils', simp, lambda r: A(dict(T(r), nv=NV - 1)), name=simp + '~flat')
    # ---- occupation_domain
    reg(pkg, 'occupation_domain', 'volume', lambda r: A(O(r, 12)))
    reg(pkg, 'occupation_domain', 'shift', lambda r: A(O(r), I.intvec6(r)))
    reg(pkg, 'occupation_domain', 'symmetric', lambda r: A(O(r, 2), C(r)), 'mid')
    reg(pkg, 'occupation_domain', 'symmetric_0', lambda r: A(O(r, 3), C(r), r.randrange(24)), 'mid')
    reg(pkg, 'occupation_domain', 'simplification', lambda r: A(N(r, 2 if ico else 3)), 'heavy',
        ['draw', 'geo', 'verbose'])
    if ico:
        reg(pkg, 'occupation_domain', 'generate_border_edges', lambda r: A(N(r, 3)), 'heavy', ['draw'])
        reg(pkg, 'occupation_domain', 'asymmetric', lambda r: A(*asym(r)), 'mid',
            ['draw', 'geo'])
    else:
        reg(pkg, 'occupation_domain', 'outline', lambda r: A(N(r, 4)), 'heavy', ['draw'])
        reg(pkg, 'occupation_domain', 'similarity', lambda r: A(O(r), r.choice([-1, 0, 1])))
    if ico:
        reg(pkg, 'occupation_domain', 'simple_hand_step2', lambda r: A(P(r, 2), [[1 + j for j in range(NV)]]))


def flt(r):
    """float point sets rich in collinear triples"""
    n = r.randint(3, 7)
    k = r.choice([0, 1, 2])
    base = [[float(r.randint(-3, 3)) for _ in range(3)] for _ in range(3)]
    pts = []
    for i in range(n):
        if k == 0:                       # all on one line
            t = float(r.randint(-4, 4))
            pts.append([base[0][j] + t * base[1][j] for j in range(3)])
        elif k == 1:                     # line plus one or two points off it
            if i < n - r.choice([1, 2]):
                t = float(i)
                pts.append([base[0][j] + t * (base[1][j] or 1.0) for j in range(3)])
            else:
                pts.append([float(r.randint(-3, 3)) for _ in range(3)])
        else:                            # plane
            a, b = r.randint(-3, 3), r.randint(-3, 3)
            pts.append([base[0][j] + a * base[1][j] + b * base[2][j] for j in range(3)])
    return {'$': 'f', 'v': pts}


def site(r):
    return {'$': 'i', 'v': r.choice([[[0, 0, 1]] * 6, [[1, 0, 2]] + [[0, 0, 1]] * 5,
                                     [[1, 0, 2], [0, 0, 1], [1, 0, 2], [0, 0, 1], [0, 0, 1], [0, 0, 1]],
                                     [[1, 0, 3], [0, 0, 1], [0, 0, 1], [1, 0, 3], [0, 0, 1], [0, 0, 1]]])}


def asym(r):
    """a cluster of the RT orbit (or an overlapping STRT one) and the cone of one of its tetrahedra"""
    i = r.randrange(120)
    cone = {'$': 'i', 'v': I.data()['ico2.rt'][i][1:].tolist()}
    if r.random() < .6:
        d = {'$': 'dom', 'name': 'ico2.rt', 'idx': cluster(r, 'ico2.rt', i, r.randint(1, 3))}
    else:
        js = [p[3] for p in I.pairs()['ico2'] if p[0] == 'ico2.rt' and p[1] == i and p[2] == 'ico2.strt' and not any(p[4])]
        d = {'$': 'dom', 'name': 'ico2.strt', 'idx': [r.choice(js)] if js else [r.randrange(360)]}
    r.shuffle(d['idx'])
    return d, I.zero6(), cone


def asym_far(r):
    """cells anywhere in (or across the boundary of) the cone of a cell, also around another position"""
    import numpy as np
    i = r.randrange(120)
    cone = I.data()['ico2.rt'][i].copy()
    cone[1:, :, :2] *= r.choice([3, 4, 5])      # the part of the cone that the cells are moved to
    f = r.choice(I.FAMS['ico2'])
    d = {'$': 'dom', 'name': f, 'idx': cluster(r, f, r.randrange(len(I.data()[f])), r.choice([1, 1, 2]))}
    sh = overlap_shift(r, 'ico2', {'$': 'i', 'v': [cone.tolist()]}, d)
    pos = I.shift6(r, 'ico2')
    d['shift'] = [a + b for a, b in zip(sh, pos)]
    return [d, {'$': 'i', 'v': [[p, 0, 1] for p in pos]}, {'$': 'i', 'v': I.data()['ico2.rt'][i][1:].tolist()}]


_NB = {}


def cluster(r, fam, i, n, face=True):
    """simplex i of the family plus up to n-1 simplices connected to it"""
    if fam not in _NB:
        D = I.data()[fam]
        nv = D.shape[1]
        keys = [frozenset(v.tobytes() for v in t) for t in D]
        _NB[fam] = [[k for k in range(len(D)) if k != j and len(keys[k] & keys[j]) == nv - 1]
                    for j in range(len(D))]
    idx = [i]
    while len(idx) < n:
        c = sorted({k for j in idx for k in _NB[fam][j]} - set(idx))
        if not c:
            break
        idx.append(c[r.randrange(len(c))])
    return idx


def pairn(r, pkg, n1, n2):
    """two domains, mostly overlapping; each domain is a set of disjoint simplices of one orbit"""
    if r.random() < .1:
        return (I.dom(r, pkg, r.randint(1, n1), shift=[0] * 6), I.dom(r, pkg, r.randint(1, n2)))
    f1, i, f2, j, sh = r.choice(I.pairs()[pkg])
    a = {'$': 'dom', 'name': f1, 'idx': cluster(r, f1, i, r.randint(1, n1))}
    b = {'$': 'dom', 'name': f2, 'idx': cluster(r, f2, j, r.randint(1, n2)), 'shift': sh}
    if r.random() < .35:                  # any lattice translation with some overlap
        b['shift'] = overlap_shift(r, pkg, a, b)
    r.shuffle(a['idx'])
    r.shuffle(b['idx'])
    m = r.randrange(8)
    if m == 0:                            # identical domains
        b = dict(a)
    elif m == 1:                          # one inside the other
        b = dict(a, idx=a['idx'][:1])
    if r.random() < .3:                   # common translation
        t = [r.choice([-1, 0, 1]) for _ in range(6 if pkg == 'ico2' else 4)] + ([] if pkg == 'ico2' else [0, 0])
        a = dict(a, shift=[x + y for x, y in zip(a.get('shift', [0] * 6), t)])
        b = dict(b, shift=[x + y for x, y in zip(b.get('shift', [0] * 6), t)])
    return (a, b) if r.random() < .5 else (b, a)


def mix(T, w):
    """exact weighted means of the vertices of a cell"""
    from math import gcd
    out = []
    for ws in w:
        n = sum(ws)
        v = []
        for k in range(6):
            c = 1
            for t in T:
                c = c * int(t[k][2]) // gcd(c, int(t[k][2]))
            a = sum(q * int(t[k][0]) * (c // int(t[k][2])) for q, t in zip(ws, T))
            b = sum(q * int(t[k][1]) * (c // int(t[k][2])) for q, t in zip(ws, T))
            g = gcd(gcd(abs(a), abs(b)), c * n)
            v.append([a // g, b // g, c * n // g])
        out.append(v)
    return out


def nested(r, pkg):
    """a cell of an orbit and a smaller cell inside it"""
    from . import model
    import numpy as np
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    i = r.randrange(len(I.data()[name]))
    T = I.data()[name][i]
    while True:
        if r.random() < .4:
            k = r.randint(2, 4)
            w = [[k if a == b else 1 for a in range(nv)] for b in range(nv)]
        else:
            w = [[r.randint(0, 3) for _ in range(nv)] for _ in range(nv)]
        if all(sum(x) for x in w):
            S = mix(T, w)
            if model.measure(pkg, np.array([S])) > 1e-4:
                break
    a = {'$': 'dom', 'name': name, 'idx': [i]}
    b = {'$': 'i', 'v': [S]}
    return (a, b) if r.random() < .5 else (b, a)


def part(r, pkg, least=1e-4):
    """a smaller cell inside a cell of an orbit"""
    from . import model
    import numpy as np
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    T = I.data()[name][r.randrange(len(I.data()[name]))]
    while True:
        if r.random() < .4:
            k = r.randint(2, 5)
            w = [[k if a == b else 1 for a in range(nv)] for b in range(nv)]
        else:
            w = [[r.randint(0, 3) for _ in range(nv)] for _ in range(nv)]
        if all(sum(x) for x in w):
            S = mix(T, w)
            if model.measure(pkg, np.array([S])) > least:
                return {'$': 'i', 'v': [S]}


def crossing(r, pkg):
    """a small cell that crosses the boundary of a cell of an orbit"""
    a = part(r, pkg)
    f = r.choice(I.FAMS[pkg])
    b = {'$': 'dom', 'name': f, 'idx': [r.randrange(len(I.data()[f]))]}
    b['shift'] = overlap_shift(r, pkg, a, b, *r.choice([(12, 1), (3, 6), (1, 3)]))
    return [a, b] if r.random() < .5 else [b, a]


def grazing(r, pkg, fine=(6, 12)):
    """a cell of an orbit and a cell with vertices close to its corners, edges and faces, on either side"""
    from . import model
    import numpy as np
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    i = r.randrange(len(I.data()[name]))
    T = I.data()[name][i]
    while True:
        n = r.choice(fine)
        w = []
        for _ in range(nv):
            x = [0] * nv
            for _ in range(r.choice([1, 2, 3])):
                x[r.randrange(nv)] += r.choice([1, 1, 2, 3])
            x = [n * y for y in x]
            if r.random() < .8:
                k, e = r.randrange(nv), r.choice([-2, -1, 1, 2])
                x[k] += e
                x[(k + 1 + r.randrange(nv - 1)) % nv] -= e
            w.append(x)
        if all(sum(x) > 0 for x in w):
            S = mix(T, w)
            if model.measure(pkg, np.array([S])) > 2e-4:
                break
    a = {'$': 'dom', 'name': name, 'idx': [i]}
    b = {'$': 'i', 'v': [S]}
    return [a, b] if r.random() < .5 else [b, a]


def tips(r, pkg):
    """a cell of an orbit and its mirror image in a point close to one of its corners"""
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    i = r.randrange(len(I.data()[name]))
    v, n = r.randrange(nv), r.choice([6, 12, 60, 100])
    w = [1 if k != v else n - (nv - 1) for k in range(nv)]
    S = mix(I.data()[name][i], [[2 * w[k] - (n if k == j else 0) for k in range(nv)] for j in range(nv)])
    r.shuffle(S)
    a = {'$': 'dom', 'name': name, 'idx': [i]}
    b = {'$': 'i', 'v': [S]}
    return [a, b] if r.random() < .5 else [b, a]


def almost(r, pkg):
    """a union of cells that is convex, or nearly convex: a thin part is missing"""
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    T = I.data()[name][r.randrange(len(I.data()[name]))].tolist()
    w = [r.choice([3, 12, 40, 40, 40]) for _ in range(nv)]
    k = r.randrange(nv)
    w[k] = 1
    p = mix(T, [w])[0]
    parts = [[p if b == a else T[b] for b in range(nv)] for a in range(nv) if a != k or r.random() < .3]
    r.shuffle(parts)
    return [{'$': 'i', 'v': parts}]


def chipped(r, pkg):
    """a cell of an orbit and a subdivision of it from which up to one part is missing"""
    from . import model
    import numpy as np
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    i = r.randrange(len(I.data()[name]))
    T = I.data()[name][i].tolist()
    while True:
        w = [r.choice([0, 1, 1, 2, 3]) for _ in range(nv)]
        if sum(1 for x in w if x) < 2:
            continue
        p = mix(T, [w])[0]
        parts = [[p if b == a else T[b] for b in range(nv)] for a in range(nv) if w[a]]
        r.shuffle(parts)
        for t in parts:
            r.shuffle(t)
        if r.random() < .75:
            parts = parts[1:]
        if min(model.measure(pkg, np.array([t])) for t in parts) > 1e-4:
            break
    a = {'$': 'dom', 'name': name, 'idx': [i]}
    b = {'$': 'i', 'v': parts}
    return (a, b) if r.random() < .7 else (b, a)


def rel2(r, pkg, nv1, nv2):
    """two related sub-simplices (equal, sharing vertices, neighbouring, overlapping or random)"""
    m = r.randrange(5)
    NV = I.NVERT[pkg]
    if m == 0:
        a = I.dom(r, pkg, 1)
        b = dict(a)
    elif m in (1, 2):
        a = I.dom(r, pkg, 1)
        c = cluster(r, a['name'], a['idx'][0], 2)
        b = dict(a, idx=[c[-1]])
    elif m == 3:
        a, b = pairn(r, pkg, 1, 1)
    else:
        a, b = I.dom(r, pkg, 1), I.dom(r, pkg, 1)
    f = lambda d, nv: dict(d, form='vec' if nv == 1 else 'one', nv=NV if nv == 1 else nv, rot=r.randrange(NV))
    return f(a, nv1), f(b, nv2)


def halves(r, pkg):
    """the two halves of an edge of a cell, in any direction (or halves of two different edges)"""
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    T = I.data()[name][r.randrange(len(I.data()[name]))].tolist()
    i, j = r.sample(range(nv), 2)
    w = [0] * nv
    w[i], w[j] = r.choice([1, 1, 2]), r.choice([1, 1, 3])
    m = mix(T, [w])[0]
    k = j if r.random() < .75 else next(x for x in range(nv) if x not in (i, j))
    a, b = [m, T[i]], [m, T[k]]
    for x in (a, b):
        if r.random() < .5:
            x.reverse()
    return {'$': 'i', 'v': a}, {'$': 'i', 'v': b}


def split(r, pkg):
    """triangles: a triangle of a cell cut in two, and maybe some triangles of neighbouring cells"""
    nv = I.NVERT[pkg]
    name = r.choice(I.FAMS[pkg])
    i = r.randrange(len(I.data()[name]))
    idx = cluster(r, name, i, r.choice([1, 1, 2, 3]))
    rest = [[c.tolist()[(q + k) % nv] for k in range(3)] for c in I.data()[name][idx[1:]] for q in [r.randrange(nv)]]
    T = r.sample(I.data()[name][i].tolist(), 3)
    m = mix(T, [[r.choice([1, 1, 2]), r.choice([1, 1, 3]), 0]])[0]
    out = [[T[0], m, T[2]], [m, T[1], T[2]]]
    if r.random() < .3:
        out = [out[0]] + [[m, mix(T[1:], [[1, 1]])[0], T[2]], [m, T[1], mix(T[1:], [[1, 1]])[0]]]
    for t in out:
        r.shuffle(t)
    out += rest
    r.shuffle(out)
    return {'$': 'i', 'v': out}


def whole(r, pkg):
    """a domain and a subdivision of one of its cells (the common part is a whole cell again)"""
    a, b = chipped(r, pkg)
    if a['$'] != 'dom':
        a, b = b, a
    if r.random() < .6:
        a = dict(a, idx=cluster(r, a['name'], a['idx'][0], 2))
    return a, b


def pair1(r, pkg):
    a, b = pairn(r, pkg, 1, 1)
    return dict(a, form='one'), dict(b, form='one')


def pair1o(r, pkg):
    return pairn(r, pkg, 1, 1)


_mk('ico2')
_mk('dode2')


def module(pkg, mod):
    return importlib.import_module('pyqcstrc.%s.%s' % (pkg, mod))


def import_all():
    for p in ('ico2', 'dode2'):
        for m in MODS:
            module(p, m)


def gen_call(r, names, layouts=False):
    n = names[r.randrange(len(names))]
    args, kw = CAT[n]['gen'](r)
    if layouts:
        args = [I.layout(r, a) for a in args]
    return {'op': n, 'args': args, 'kw': kw}


_CONVEX = None


def convex(r, pkg, nmax=12, nmin=2):
    """a convex union of cells of one orbit (dst/data/convex.json)"""
    global _CONVEX
    if _CONVEX is None:
        import json, os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'convex.json')) as f:
            _CONVEX = json.load(f)
    name = r.choice(I.FAMS[pkg])
    idx = list(r.choice([c for c in _CONVEX[name] if nmin <= len(c) <= nmax]))
    r.shuffle(idx)
    return {'$': 'dom', 'name': name, 'idx': idx}


_TABLE = {}


def overlap_shift(r, pkg, a, b, near=12, edge=1):
    """a lattice translation of b after which an inner point of b lies close to an inner point of a
    (edge > 1: points near the boundary, so that the overlap is small)"""
    import itertools
    import numpy as np
    from . import model
    if pkg not in _TABLE:
        k = 6 if pkg == 'ico2' else 4
        t = np.array([v + (0,) * (6 - k) for v in itertools.product(range(-2, 3), repeat=k)], dtype=np.int64)
        full = np.zeros(t.shape + (3,), dtype=np.int64)
        full[..., 0], full[..., 2] = t, 1
        _TABLE[pkg] = t, model.perp(pkg, full)
    t, x = _TABLE[pkg]
    A, B = model.perp(pkg, I.build(a)), model.perp(pkg, I.build(b))

    def inner(P):
        w = np.array([(r.random() + .05) ** edge for _ in range(P.shape[1])])
        return w @ P[r.randrange(len(P))] / w.sum()
    d = inner(A) - inner(B)
    o = np.argsort(((x - d) ** 2).sum(axis=1), kind='stable')[:near]
    return [int(v) for v in t[int(o[r.randrange(near)])]]


def gen_large(r, k):
    """calls on inputs that are larger than those of the catalogue"""
    big = lambda f, n: {'$': 'dom', 'name': f, 'idx': cluster(r, f, r.randrange(len(I.data()[f])), n)}
    ico = ['ico2.rt', 'ico2.strt']
    rows = lambda pkg, n: {'$': 'dom', 'name': r.choice(I.FAMS[pkg]), 'idx': [r.randrange(24) for _ in range(n)]}
    todo = [
        lambda: ('ico2.utils.surface_cleaner', [dict(big('ico2.rt', r.randint(25, 32)), nv=3, rot=1)]),
        lambda: ('ico2.utils.get_sets_of_coplanar_triangles', [dict(big(r.choice(ico), r.randint(25, 40)), nv=3, rot=r.randrange(4))]),
        lambda: ('ico2.two_occupation_domains.intersection_convex', conv(r)),
        lambda: ('ico2.occupation_domain.generate_border_edges', [big(r.choice(ico), r.randint(6, 12))]),
        lambda: ('ico2.occupation_domain.simplification', [convex(r, 'ico2', 12, 5)]),
        lambda: ('dode2.occupation_domain.outline', [{'$': 'dom', 'name': 'dode2.tri', 'idx': r.sample(range(24), r.choice([12, 18, 24]))}]),
        lambda: ('dode2.two_occupation_domains.intersection', [{'$': 'dom', 'name': 'dode2.tri', 'idx': r.sample(range(24), 24)},
                 {'$': 'dom', 'name': 'dode2.tri', 'idx': r.sample(range(24), 24), 'shift': r.choice([[1, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0]])}]),
        lambda: ('ico2.intsct.intersection_two_obj_1', list(pairn(r, 'ico2', 5, 6))),
        lambda: ('ico2.utils.generator_surface_1', [big('ico2.rt', 40)]),
        lambda: ('ico2.utils.generate_convex_hull', [big(r.choice(ico), r.randint(7, 10))]),
        lambda: ('ico2.utils.remove_doubling_in_perp_space', [dict(rows('ico2', r.choice([70, 260])), form='flat')]),
        lambda: ('ico2.occupation_domain.volume', [rows('ico2', r.choice([40, 130, 300]))]),
        lambda: ('dode2.occupation_domain.volume', [rows('dode2', r.choice([40, 130, 300]))]),
        lambda: ('ico2.occupation_domain.symmetric', [big('ico2.rt', 1), I.zero6()]),
        lambda: ('dode2.occupation_domain.symmetric', [{'$': 'dom', 'name': 'dode2.tri', 'idx': r.sample(range(24), 12)}, I.zero6()]),
        lambda: ('ico2.utils.tetrahedralization_points', [dict(big(r.choice(ico), r.randint(12, 30)), form='flat')]),
        lambda: ('ico2.utils.generator_unique_edges', [big('ico2.rt', 20)]),
        lambda: ('ico2.utils.shift_object', [rows('ico2', 200), I.intvec6(r)]),
    ]
    op, args = todo[k % len(todo)]()
    return {'op': op, 'args': args, 'kw': {}}


def aligned(r, pkg, n1=1, n2=1):
    """cells or convex unions of cells under a lattice translation with a small or large overlap"""
    def one(n):
        if n == 'convex':
            return convex(r, pkg)
        f = r.choice(I.FAMS[pkg])
        d = {'$': 'dom', 'name': f, 'idx': cluster(r, f, r.randrange(len(I.data()[f])), n)}
        r.shuffle(d['idx'])
        return d
    a, b = one(n1), one(n2)
    b['shift'] = overlap_shift(r, pkg, a, b, *r.choice([(12, 1), (12, 1), (3, 6), (1, 3)]))
    return [a, b] if r.random() < .5 else [b, a]


def conv(r, pkg='ico2'):
    a, b = convex(r, pkg), convex(r, pkg)
    return [a, dict(b, shift=overlap_shift(r, pkg, a, b))]


_HAVE = {}


def have(n):
    """the operation exists in the tree under test (internal helpers may come and go)"""
    if n not in _HAVE:
        e = CAT[n]
        _HAVE[n] = callable(getattr(module(e['pkg'], e['mod']), e['fn'], None))
    return _HAVE[n]


def verbose_at(n):
    """position of the parameter `verbose` of an operation, or None"""
    import inspect
    try:
        ps = list(inspect.signature(resolve({'op': n})).parameters)
    except (TypeError, ValueError):
        return None
    return ps.index('verbose') if 'verbose' in ps else None


def set_verbose(n, args, kw, v):
    k = verbose_at(n)
    if k is not None and k < len(args):
        args[k] = v
    elif k is not None:
        kw['verbose'] = v


def names(pkg=None, maxcost='heavy', tag=None):
    return [n for n in sorted(CAT) if (pkg is None or CAT[n]['pkg'] == pkg) and COST[CAT[n]['cost']] <= COST[maxcost] and have(n)
            and (tag is None or (verbose_at(n) is not None if tag == 'verbose' else tag in CAT[n]['tags']))]


def resolve(call):
    e = CAT[call['op']]
    return getattr(module(e['pkg'], e['mod']), e['fn'])


def build_args(call):
    return [I.build(a) for a in call['args']], {k: I.build(v) for k, v in call.get('kw', {}).items()}

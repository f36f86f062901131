#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
I = "include/integratorxx/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[(I+f if not f.startswith(("src/","README")) else f) for f in files],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

prop("C01", "Gauss-Chebyshev rules equal their closed forms for every size",
 "For every number of points n, each of the four Gauss-Chebyshev rules (first, second, second-modified and third kind) returns exactly n nodes and n weights, and every node and every weight equals the published closed form (rescaled to unit weight function) for that index. "
 "Consequently, up to floating-point rounding, the nodes are strictly ascending inside the documented domain, symmetric rules are exactly mirrored with equal weights, the middle node of an odd symmetric rule is zero, and all weights are positive.",
 ["inputs"], "all n >= 1, all node indices 0 <= i < n",
 "The tests integrate a couple of smooth functions at a handful of fixed sizes and compare the total with a loose tolerance; a wrong index, a wrong middle point or a size-dependent branch at an unsampled n cannot be seen.",
 ["quadratures/primitive/gausschebyshev1.hpp","quadratures/primitive/gausschebyshev2.hpp","quadratures/primitive/gausschebyshev2modified.hpp","quadratures/primitive/gausschebyshev3.hpp","quadrature.hpp"],
 [("generate: half computed, half reflected, odd middle special-cased","quadratures/primitive/gausschebyshev*.hpp")],
 ["points()/weights() of the constructed quadrature"])

prop("C02", "Legendre and Lobatto rules: converged mirrored nodes, correct weights",
 "The Legendre evaluator returns P_n(x), P_n'(x) and P_(n-1)(x) of the three-term recurrence for every degree n and every x with x*x different from 1. "
 "For every n, Gauss-Legendre (and, for n >= 2, Gauss-Lobatto) either reports non-convergence by an exception or returns n nodes in exactly mirrored pairs with equal weights, in which every computed interior node is the Newton update, within machine epsilon of the iterate it was computed from, of the defining polynomial (P_n, respectively (x^2-1)P'_(n-1)) and carries the classical weight formula; Lobatto end points are exactly -1 and 1 with weight 2/(n(n-1)) and its middle node is 0 when n is odd. "
 "The nodes are all distinct, ascending, inside [-1,1], and the weights are positive and sum to 2.",
 ["inputs"], "all n (Lobatto n >= 2), all node indices, all real x for the evaluator",
 "Tests sample a few n and two integrands; the index arithmetic of the mirrored stores, the weight formula and the convergence test hold for every n and every index only by an argument over the loop.",
 ["quadratures/primitive/gausslegendre.hpp","quadratures/primitive/gausslobatto.hpp","util/legendre.hpp"],
 [("three-term recurrence","util/legendre.hpp"),("Newton iteration with convergence check and mirrored store","quadratures/primitive/gausslegendre.hpp, gausslobatto.hpp")],
 ["points()/weights()", "evaluator return tuple"])

prop("C03", "Trapezoid rule: equispaced nodes, halved end weights, exact sum",
 "For every n >= 2 and every interval, the uniform trapezoid rule returns n nodes equal to lo + i*(up-lo)/(n-1), interior weights (up-lo)/(n-1) and exactly half of that at both ends. "
 "Hence the first node is lo, the last is up, the weights sum to up-lo and every linear function is integrated exactly; the one-argument form is the rule on [0,1].",
 ["inputs"], "all n >= 2, all real lo, up, all indices",
 "Tests use one interval and a few sizes.",
 ["quadratures/primitive/uniform.hpp"],
 [("fill and halve end weights","quadratures/primitive/uniform.hpp")], ["points()/weights()"])

prop("C04", "Radial maps and their Jacobians: formula, derivative, sign, scaling",
 "For each radial scheme (Becke, Murray-Handy-Laming, Mura-Knowles, Treutler-Ahlrichs with any exponent) the map from the base interval to the half line is the published one and the reported Jacobian is its exact derivative at every interior point. "
 "For positive scale the map is positive on the interior, and both map and Jacobian are proportional to the scale; for the Becke, Murray-Handy-Laming and Mura-Knowles schemes (and Treutler-Ahlrichs with non-negative exponent) the Jacobian is positive, so the map is increasing.",
 ["inputs"], "all x in the open base interval, all scale factors R > 0, all exponents alpha",
 "Tests only compare totals for default or few parameter values; they cannot establish the derivative relation for all x, R and alpha.",
 ["quadratures/radial/becke.hpp","quadratures/radial/mhl.hpp","quadratures/radial/muraknowles.hpp","quadratures/radial/treutlerahlrichs.hpp"],
 [("map and Jacobian members of the radial traits","quadratures/radial/*.hpp")], ["radial map / Jacobian return values"])

prop("C05", "Radial quadrature is the base rule pushed through the radial map",
 "For every radial scheme and every requested size n >= 1, the radial quadrature has exactly n nodes and weights; node i is the radial map of base node i and weight i is the base weight times the Jacobian there, where a base rule that includes its end points is generated with n+2 points and both end points are dropped. "
 "No infinite or undefined value is produced because a mapped base node is never an end point of the base interval, and radii are strictly increasing and positive for positive scale.",
 ["inputs"], "all four schemes, all n >= 1, all parameters, all indices",
 "Tests compare integrals for a few sizes with tolerance; an off-by-one in which base node is used at some size or a lost parameter is an error for inputs they do not reach.",
 ["quadratures/radial/radial_transform.hpp","quadratures/radial/becke.hpp","quadratures/radial/mhl.hpp","quadratures/radial/muraknowles.hpp","quadratures/radial/treutlerahlrichs.hpp"],
 [("end-point-dropping transform loop","quadratures/radial/radial_transform.hpp")], ["points()/weights()"])

prop("C06", "Spherical grid is the exact product of radial and angular rules",
 "For any radial and angular quadrature of any sizes nr and na (possibly zero), the spherical quadrature has nr*na points, laid out with the radial index fastest; point (i,j) is r_i times direction a_j plus the centre and its weight is w_i * w_j * r_i^2. "
 "Inputs are left unchanged.",
 ["inputs"], "all nr, na, all nodes, weights and centres, all pairs (i,j)",
 "Tests build a few grids from actual rules; a layout or Jacobian slip that depends on sizes, on a particular index or on a nonzero centre is outside the sample.",
 ["composite_quadratures/spherical_quadrature.hpp","composite_quadratures/product_quadrature.hpp"],
 [("nested product loop ij = i + j*npts1, r^2 factor, shift","composite_quadratures/*.hpp")], ["points()/weights()"])

prop("C07", "Recentring a spherical grid is a rigid translation; clones are independent",
 "After recentring to any new centre every point has moved by exactly (new centre - old centre), every weight is unchanged and the reported centre is the new one; hence after any sequence of recentrings the grid only depends on the last centre. "
 "Cloning or copying a spherical grid (product or pruned) yields equal points, weights and centre, and later changes to one do not affect the other.",
 ["inputs","histories"], "all grids, all sequences of centres, all points",
 "Tests recentre one grid to one centre; partial changes of a centre (only one coordinate differs), repeated recentring and aliasing after cloning are not sampled.",
 ["composite_quadratures/spherical_quadrature.hpp","composite_quadratures/pruned_spherical_quadrature.hpp"],
 [("shift by centre difference, then store the centre","composite_quadratures/spherical_quadrature.hpp")],
 ["center(), points(), weights(), clone()"], [("centre","current origin of the grid","composite_quadratures/spherical_quadrature.hpp")])

prop("C08", "Pruned grid is the ordered concatenation of its region products",
 "For any radial rule and any partition of its shells into consecutive non-empty regions, each with its own angular rule, the pruned grid is the concatenation in region order of the products of that slice of the radial rule with that region's angular rule, including the r^2 factor and the centre shift. "
 "Every radial shell is used exactly once, with the angular rule of the region containing it, and a partition with a single region covering everything gives the same grid as the unpruned product.",
 ["inputs"], "all numbers of regions, all region boundaries, all angular rules per region, all indices",
 "Tests compare a few hand-made partitions; boundaries, single-shell regions and the accumulated offsets of later regions need an argument over all partitions.",
 ["composite_quadratures/pruned_spherical_quadrature.hpp","composite_quadratures/sub_quadrature.hpp","composite_quadratures/product_quadrature.hpp"],
 [("partition iteration, slice, product, append","composite_quadratures/pruned_spherical_quadrature.hpp"),("index-range slice","composite_quadratures/sub_quadrature.hpp")],
 ["points()/weights()"], [("partition boundaries","first shell index of every region plus the end","composite_quadratures/pruned_spherical_quadrature.hpp")])

prop("C09", "Pruning schemes tile the radial shells and pick supported angular sizes",
 "For every radial size >= 1, every angular family and every supported angular size, the generated pruning specification lists non-empty regions that are consecutive, start at 0 and end at the radial size, so that a grid can be built from it. "
 "The outermost region uses the requested angular size; the robust scheme switches at n/4+1 and n/2+1 using the smallest supported rule of order at least 7 and of order at least (base order - 6, or the base order itself when that is not positive), the Treutler scheme switches at n/3+1 and n/2+1 using orders at least 7 and 11 (a switch point beyond the last shell moves to it and regions left empty are omitted); the unpruned scheme is the single full region, the radial and angular kinds and radial parameters are carried over unchanged, and an unsupported base size is rejected by the robust scheme.",
 ["inputs"], "all radial sizes, all four angular families, all supported angular sizes, all three schemes",
 "Tests check one radial size per scheme against hand-written regions; small sizes produce empty or out-of-range regions and other families/sizes select other rules.",
 ["generators/impl/robust_pruning.hpp","generators/impl/treutler_pruning.hpp","generators/impl/pruned_grid.hpp","generators/spherical_factory.hpp"],
 [("region boundary arithmetic","generators/impl/robust_pruning.hpp, treutler_pruning.hpp"),("size selection by order lookup","generators/impl/*.hpp")],
 ["regions of the returned specification"])

prop("C10", "Angular lookup tables: mutually inverse, monotone, next order is least",
 "In each of the four angular families size-by-order and order-by-size are mutually inverse on the supported set and return -1 on every other 64-bit value; larger supported orders have larger sizes. "
 "Next-order returns, for every 64-bit order, the least supported order that is at least the argument, or the largest supported order when there is none.",
 ["inputs"], "all 2^64 values of order and of size, all four families",
 "Tests check selected entries; the claim is about every integer argument and about agreement between three independently written tables.",
 ["quadratures/s2/lebedev_laikov.hpp","quadratures/s2/delley.hpp","quadratures/s2/ahrens_beylkin.hpp","quadratures/s2/womersley.hpp"],
 [("switch and if-chains","quadratures/s2/*.hpp")], ["lookup return values"])

prop("C11", "An angular rule is built for exactly the supported sizes, from its table",
 "Constructing an angular quadrature with n points succeeds exactly for the sizes its family supports and then has n points and n weights, taken entry by entry from the tabulated rule of that size (with the factor 4*pi applied exactly once for families tabulated without it); any other size fails with an exception instead of returning a grid. "
 "The order lookup for that size returns a non-negative order exactly when construction succeeds.",
 ["inputs"], "all n, all four families, all entries",
 "Tests construct the supported sizes only, and compare sums; a table dispatched under the wrong size, a missed scaling or a silently accepted unsupported size is not covered.",
 ["quadratures/s2/lebedev_laikov.hpp","quadratures/s2/delley.hpp","quadratures/s2/ahrens_beylkin.hpp","quadratures/s2/womersley.hpp","util/copy_grid.hpp"],
 [("size dispatch and table copy","quadratures/s2/*.hpp, util/copy_grid.hpp"),("4*pi scaling loop","quadratures/s2/lebedev_laikov.hpp, delley.hpp")],
 ["points()/weights()"])

prop("C12", "Every angular rule is exact to its advertised order on the unit sphere",
 "Every supported angular rule has all nodes on the unit sphere, weights summing to 4*pi, and integrates every spherical harmonic up to and including its advertised algebraic order exactly up to rounding.",
 ["inputs"], "every family, every supported size, every harmonic degree l up to the advertised order and every m",
 "Tests check low-degree harmonics only (far below the advertised order for large rules), so a corrupted digit in one of about 10^6 table entries or an over-advertised order goes unnoticed.",
 ["quadratures/s2/lebedev_laikov.hpp","quadratures/s2/delley.hpp","quadratures/s2/ahrens_beylkin.hpp","quadratures/s2/womersley.hpp"],
 [("tabulated data","quadratures/s2/*/*.hpp")], ["points()/weights()"])

prop("C13", "Runtime factories and names build exactly the directly constructed grids",
 "For every radial kind, angular kind, size and parameter set, the runtime factories (radial, angular, unpruned and pruned spherical, from arguments or from a specification) return a grid with the same points, weights and order as constructing the named types directly with the same parameters. "
 "Names are recognised irrespective of case with their documented aliases and denote the right kind, any other name throws; a specification without radial parameters, an empty region list, mixed angular kinds, an invalid kind or parameters of a different scheme throw instead of returning a grid.",
 ["inputs","configurations"], "all kinds x kinds x parameters, all strings, all region lists",
 "Tests compare a few combinations; crossed cases in one of the dispatch tables, dropped parameters and malformed inputs in the other combinations are not sampled.",
 ["generators/impl/radial_factory.hpp","generators/impl/s2_factory.hpp","generators/impl/unpruned_grid.hpp","generators/impl/pruned_grid.hpp","generators/spherical_factory.hpp","generators/radial_factory.hpp","generators/s2_factory.hpp","src/radial_factory.cxx","src/s2_factory.cxx","src/spherical_factory.cxx"],
 [("switch dispatch over kinds","generators/impl/*.hpp"),("upper-casing and comparison chain","generators/impl/*_factory.hpp")],
 ["returned grid, exception"])

prop("C14", "Grid specifications behave as values: deep copies and true equality",
 "Copying a grid specification or cloning radial parameters gives an object equal to the original and sharing no mutable state with it; radial parameters report the size they were built with. "
 "Radial parameters compare equal exactly when they are of the same scheme and agree in every parameter, and two pruned specifications compare equal exactly when the radial kind, radial parameters (both absent counts as equal) and all regions agree.",
 ["inputs","histories"], "all specifications, all parameter values, all pairs of schemes",
 "Tests compare a few equal objects; a comparison that ignores one field or a shallow copy only shows on pairs that differ in just that field or after later modification.",
 ["generators/spherical_factory.hpp","quadratures/radial/radial_transform.hpp","quadratures/radial/becke.hpp","quadratures/radial/mhl.hpp","quadratures/radial/muraknowles.hpp","quadratures/radial/treutlerahlrichs.hpp"],
 [("clone/compare members, copy constructors and equality","generators/spherical_factory.hpp, quadratures/radial/*.hpp")],
 ["operator==, compare, copies"])

prop("C15", "Micro-batches partition the grid into bounded, tight, non-empty batches",
 "For every non-empty spherical grid on which batching terminates and every maximum batch size >= 1, the batches together contain every (point, weight) pair of the grid exactly once, are non-empty and hold at most the maximum number of points. "
 "Each batch's box is the tight bounding box of its points, and access by index or by iteration give the same batches; an out-of-range index throws.",
 ["inputs"], "all grids, all maximum batch sizes, all batches and points",
 "Tests batch one grid and check totals; loss, duplication or weight/point mismatch in particular geometries and batch sizes needs an invariant over the refinement loop.",
 ["batch/spherical_micro_batcher.hpp"],
 [("box partition and refinement loop","batch/spherical_micro_batcher.hpp")],
 ["iteration, at(i), nbatches()"], [("partition boundaries","start index of every batch plus the end","batch/spherical_micro_batcher.hpp")])

prop("C16", "Interval change of variables: right image and right Jacobian in all cases",
 "For every node x in (-1,1) and every interval (finite, half-infinite on either side, or infinite), the interval transformation maps x into the interval, monotonically increasing in x, and multiplies the weight by the derivative of that map, which is positive; hence positive weights stay positive and the integral over the target interval is preserved. "
 "For a finite interval the map is the affine one.",
 ["inputs"], "all x in (-1,1), all weights, all lo < up including infinities",
 "No test exercises this function.",
 ["util/bound_transform.hpp"], [("four-way case split","util/bound_transform.hpp")], ["returned node and weight"])

prop("C17", "Quadrature container: generated data unchanged, sizes agree, bounds checked",
 "Every quadrature object exposes as many weights as points, equal to what its rule generated; indexed access returns the i-th entry for i below the size and throws for any other index. "
 "Copies and moves of a quadrature carry the same points and weights, a copy shares no storage with its source, and taking a non-empty index range [b,e) of a rule yields exactly entries b..e-1 of its points and weights.",
 ["inputs","histories"], "all rules, all indices including out-of-range ones, all sub-ranges",
 "Tests read back some entries of some rules; out-of-range indices and independence of copies are not exercised.",
 ["quadrature.hpp","composite_quadratures/sub_quadrature.hpp"],
 [("storage and accessors","quadrature.hpp"),("range slice","composite_quadratures/sub_quadrature.hpp")], ["points(i), weights(i), npts(), copies"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=list(state)))


S, L, D, B, A, SP, SH, U, DT, I, PL = (f"lattpy/{x}.py" for x in (
    "structure lattice data basis atom spatial shape utils disptools __init__ plotting").split())

prop("C01", "Neighbor shells of the infinite crystal are exact",
     "For every unit cell and every configured number of neighbor distances per pair of atoms, the neighbors reported "
     "for an atom at a distance level are exactly the sites of the infinite crystal that the configuration connects at "
     "that distance: none missing, none extra, none twice. Their indices, positions and difference vectors agree, the "
     "distances of each atom are in increasing order and the neighbor counts match. The relation is symmetric and "
     "invariant under lattice translations.",
     ["inputs", "configurations"], "all bases (skewed, left-handed, any scale), all atom positions (also outside the "
     "cell), all symmetric connection matrices, all cells, atoms and distance levels",
     "The tests look at a handful of textbook crystals with one or two shells; whether a search radius is large enough "
     "for every skewed cell, far atom or deep shell is a statement about all unit cells.",
     [S, SP], [("neighbor search of the unit cell", S + ":analyze/_compute_base_neighbors"),
               ("neighbor queries", S + ":get_neighbors/get_neighbor_positions/get_neighbor_vectors/fourier_weights")],
     ["LatticeStructure.get_neighbors", "get_neighbor_positions", "get_neighbor_vectors", "num_neighbors", "distances"],
     "explicit-state model checking: exhaustive enumeration of unit cells x connection matrices, real code vs "
     "brute-force crystal model",
     "Exhaustive within the stated alphabet of crystals and connection matrices; trusts the brute-force crystal model "
     "and that shells are separated by more than 1e-3.")

prop("C02", "Building selects exactly the sites inside the requested region",
     "For every lattice and region (size with optional offset, in cartesian or primitive units, circle, donut, convex "
     "hull, custom basis, optional callback filter) building yields exactly those lattice sites whose position lies in "
     "the region, each once. Every site carries the correct unit cell index, atom and position, and the lattice reports "
     "the resulting extent and origin. A primitive size of full cells of a rectangular basis yields exactly that block "
     "of unit cells.",
     ["inputs", "configurations"], "all crystals x all region kinds, sizes, offsets, callbacks and index data-types",
     "The tests build a few lattices at the origin; whether the enumerated index range covers the region is a question "
     "about every basis, offset and size.",
     [S, L, SH, SP], [("index enumeration", S + ":build_translation_vectors/build_indices"),
                      ("region test", SH + ":contains; " + S + ":check_points"), ("build", L + ":build")],
     ["Lattice.indices", "Lattice.positions", "Lattice.shape", "Lattice.pos"],
     "explicit-state model checking: exhaustive enumeration of crystal x region, real build vs brute-force point set",
     "Exhaustive over the stated crystal and region alphabet; regions with sites within the documented tolerance "
     "of the surface are left out as ambiguous.")

prop("C03", "Neighbors of a finite lattice are the crystal's neighbors that were built",
     "After building any lattice, the neighbors of each site are exactly those neighbors the infinite crystal "
     "configuration gives it that are themselves part of the lattice, each listed once with the right distance level. "
     "The relation is symmetric. This holds for every number of sites, region shape and number of parallel jobs.",
     ["inputs", "configurations", "schedules"], "all crystals x regions x sizes (in particular across the limits of "
     "the index data-types) x numbers of jobs",
     "Tests compare neighbor lists of a few small square and hexagonal lattices; missing neighbors show up only for "
     "particular combinations of connections, surfaces and sizes.",
     [L, S, D, SP], [("neighbor search", S + ":compute_neighbors/_filter_neighbors"), ("storage", D + ":set"),
                     ("tree query", SP + ":KDTree.query")],
     ["Lattice.neighbors", "Lattice.iter_neighbors", "LatticeStructure.compute_neighbors"],
     "explicit-state model checking: exhaustive enumeration of crystal x region x jobs, real neighbor graph vs model "
     "graph",
     "Exhaustive over the stated alphabet incl. site counts across 8/16 bit boundaries; trusts the crystal model.")

prop("C04", "Periodic boundary conditions make the lattice a torus",
     "For a lattice that is commensurate with its periodic translations, setting periodic axes gives every site exactly "
     "the neighbors it has in the crystal modulo these translations, with correct distances and image vectors, and "
     "flags exactly the wrapped ones as periodic. Removing the periodic boundaries restores the open lattice exactly. "
     "Any order and any sequence of set and reset calls has the same result as the last call alone.",
     ["inputs", "configurations", "histories"], "all crystals x commensurate sizes x origins x sets of axes x ways and "
     "sequences of setting them",
     "Tests check some neighbor lists of square and honeycomb lattices; corners, oblique cells, several distance "
     "levels, small sizes and repeated setting are combinatorial.",
     [L, D], [("translation vectors", L + ":periodic_translation_vectors"), ("wrapped neighbors", L +
              ":_compute_pneighbors/set_periodic"), ("storage", D + ":set_periodic/remove_periodic")],
     ["Lattice.neighbors", "Lattice.periodic_axes", "LatticeData.get_neighbors(periodic=...)"],
     "explicit-state model checking: exhaustive enumeration of crystal x size x axis sets x set/reset sequences vs "
     "quotient-graph model",
     "Exhaustive over the stated alphabet; only cases where each pair of sites is linked by at most one image.")

prop("C05", "Configuration and build history do not matter",
     "The neighbors and the built lattice depend only on the final configuration (the atoms, and the connections set "
     "after the last atom was added, as of the last analysis) and the last build: the order of adding connections, "
     "overwriting them, earlier analyses, queries in between, rebuilding with other sizes or periodic axes, and working on other lattices or copies in between lead to the same "
     "lattice as a fresh object configured and built once. A copy behaves identically and shares no state.",
     ["histories", "programs"], "all interleavings of configuration, analysis, query, build, periodic and edit calls up "
     "to the depth, on one and on several objects",
     "Tests run one fixed sequence of calls per lattice; stale caches and aliasing need a particular order of calls.",
     [S, L, D], [("analysis state", S + ":add_atom/add_connection/analyze"), ("finite data", L + ":build"),
                 ("cached map", D + ":map")],
     ["Lattice.neighbors", "Lattice.indices", "LatticeStructure.get_neighbors", "Lattice.dmap"],
     "explicit-state model checking: all operation sequences up to a depth on the real object, compared with a fresh "
     "object in every reached state",
     "Exhaustive over operation sequences within the depth bound.")

prop("C06", "Removing sites yields the induced sub-lattice",
     "Removing any set of sites (or filtering sites with too few neighbors while building) leaves exactly the remaining "
     "sites in their order, with indices and positions unchanged and exactly those former neighbor relations whose two "
     "ends remain, including periodic ones. Removing sites one after the other or all at once gives the same lattice.",
     ["inputs", "histories"], "all lattices x all subsets of sites (also negative, repeated and unordered site numbers) x "
     "all sequences of removals",
     "Tests remove one site from small lattices; renumbering errors depend on which and how many sites are removed.",
     [D, L], [("removal and renumbering", D + ":remove"), ("dangling filter", L + ":_filter_dangling")],
     ["Lattice.neighbors", "LatticeData.remove", "Lattice.build(min_neighbors=...)"],
     "explicit-state model checking: every subset / removal sequence of small lattices executed on the real code vs "
     "induced-subgraph model",
     "Exhaustive over all subsets of lattices of up to the stated number of sites.")

prop("C07", "Sorting only relabels the lattice",
     "Sorting the sites along an axis, in reverse, or by any permutation yields the same lattice with the sites "
     "renumbered in that order: positions, neighbor relations, distances and periodic image data stay attached to the "
     "same sites. Sorting the neighbors of the sites changes the order of the lists only.",
     ["inputs", "histories"], "all permutations of small lattices, all axes, with and without periodic neighbors, in "
     "sequences of sorts",
     "Tests sort one lattice along one axis.",
     [D], [("sorting", D + ":sort/sort_neighbors")], ["LatticeData.sort", "LatticeData.sort_neighbors", "Lattice.neighbors"],
     "explicit-state model checking: all permutations and sort sequences on real lattices vs relabelled model",
     "Exhaustive over all permutations of lattices of up to the stated size.")

prop("C08", "Appending, extending and repeating build the combined lattice",
     "Appending another lattice, extending by a size or repeating a lattice along any axis and side yields the union of "
     "the old sites and the shifted new sites without overlap or gap, with exactly the neighbor relations the crystal "
     "configuration gives this union. Periodic neighbors of the parts are dropped and the other lattice is not modified.",
     ["inputs", "histories"], "all crystals x sizes x axes x sides x sequences of append/extend/repeat",
     "Tests append once to square lattices on the right side.",
     [L, D], [("append", L + ":_append/append/extend/repeat"), ("merging of data", D + ":append/add_neighbors")],
     ["Lattice.indices", "Lattice.positions", "Lattice.neighbors"],
     "explicit-state model checking: all append/extend/repeat sequences up to a depth on real lattices vs crystal model "
     "of the union",
     "Exhaustive within the alphabet of block-shaped lattices and the depth bound.")

prop("C09", "All views of the neighbor data agree",
     "Neighbor lists, neighbor iteration, nearest neighbors, pair lists, the adjacency matrix, pair checks and the "
     "sparse-matrix data map describe the same relation at all times, and unique variants list every pair exactly once. "
     "The data map lists each site once as on-site entry of its atom and every directed neighbor once with its distance "
     "level, and its matrices have these entries at the right positions. This stays true after every modification.",
     ["inputs", "histories"], "all crystals and sizes x all modification sequences (periodic, remove, sort, append, "
     "rebuild) up to the depth",
     "Tests look at each view separately on one unmodified lattice; stale or diverging views need a modification "
     "history.",
     [L, D], [("views", L + ":neighbors/iter_neighbors/neighbor_pairs/adjacency_matrix/check_neighbors"),
              ("data map", D + ":map/DataMap")],
     ["Lattice.neighbors", "Lattice.neighbor_pairs", "Lattice.adjacency_matrix", "Lattice.dmap"],
     "explicit-state model checking: every state reached by all modification sequences up to a depth, all views of the "
     "real object compared",
     "Exhaustive over the stated operation sequences.")

prop("C10", "Coordinate transformations are exact inverses",
     "Transforming between cartesian and lattice coordinates, translating by lattice vectors and splitting a point into "
     "cell and remainder are mutually inverse for every basis and for single points as well as arrays; the remainder "
     "always lies in the unit cell. Cell indices and super indices of a given shape map one-to-one in both directions. "
     "Positions computed from indices agree with the translated atom positions.",
     ["inputs"], "all bases x cells x points (single and batched) x shapes", "Tests transform a few points in a square "
     "and hexagonal basis.",
     [B, S], [("transformations", B + ":transform/itransform/translate/itranslate"), ("super indices", B +
              ":get_cell_superindex/get_cell_index"), ("positions", S + ":get_position/get_positions/estimate_index")],
     ["LatticeBasis.transform", "itransform", "translate", "itranslate", "get_cell_superindex", "get_cell_index"],
     "explicit-state model checking: exhaustive enumeration of bases x cells x points vs exact linear-algebra model",
     "Exhaustive over the stated grids of cells and points.")

prop("C11", "Reciprocal lattice, Wigner-Seitz cell and Brillouin zone are correct",
     "The reciprocal vectors fulfil a_i.b_j = 2 pi delta_ij for every basis and applying the construction twice returns "
     "the lattice. The Wigner-Seitz cell (and the Brillouin zone of the reciprocal lattice) contains exactly the points "
     "at least as close to the origin as to any other lattice point, and its vertices, edges, volume and limits are those "
     "of that cell. Neighbor cells are exactly the lattice vectors of the requested distance.",
     ["inputs", "configurations"], "all bases in one to three dimensions x test points x distance levels",
     "Tests check a few symmetric bases; wrong faces or vertices depend on the shape of the cell.",
     [B, SP], [("reciprocal vectors", B + ":reciprocal_vectors/reciprocal_lattice"), ("cells", B +
               ":get_neighbor_cells/wigner_seitz_cell/brillouin_zone"), ("geometry", SP + ":VoronoiTree/WignerSeitzCell")],
     ["LatticeBasis.reciprocal_vectors", "wigner_seitz_cell", "brillouin_zone", "get_neighbor_cells"],
     "explicit-state model checking: exhaustive enumeration of bases x points, real cells vs brute-force nearest-lattice-"
     "point model",
     "Exhaustive over the stated bases and point grids.")

prop("C12", "Shapes contain exactly their points and lie within their limits",
     "For every box (any position, size and basis), circle, donut and convex hull the containment test answers exactly "
     "the geometric definition with the given tolerance, for any number of points. Every contained point lies within the "
     "reported limits and the limits are tight.",
     ["inputs"], "all shapes, dimensions, positions, sizes, bases and tolerances x points of a grid", "Tests check a few "
     "points of shapes at the origin.",
     [SH], [("shapes", SH + ":contains/limits")], ["AbstractShape.contains", "AbstractShape.limits"],
     "explicit-state model checking: exhaustive grid of shapes x points x tolerances vs geometric predicate",
     "Exhaustive over the stated grids.")

prop("C13", "Minimum distances respect periodic boundaries",
     "The minimum distances of a site are, for every other site, the shortest distance between the two, taking into "
     "account all periodic images of the periodic axes, and the plain distances for an open lattice. They are zero for "
     "the site itself, symmetric, and agree with the distances of its (periodic) neighbors.",
     ["inputs", "configurations", "histories"], "all crystals x commensurate sizes x sets of periodic axes x sites",
     "Tests check some distances in square lattices.",
     [L], [("minimum image", L + ":minimum_distances/periodic_translation_vectors")], ["Lattice.minimum_distances"],
     "explicit-state model checking: exhaustive enumeration of crystals x sizes x axes x sites vs minimum-image model",
     "Exhaustive over the stated alphabet of commensurate lattices.")

prop("C14", "Site queries answer for the lattice as built",
     "Looking up sites by index or position returns the unique matching site or nothing; atom, position, limits, center, "
     "center of gravity, volume, number of cells, positions per atom, index limits and site masks by limits (also "
     "inverted or open ended) are exactly what the site list implies. This holds after every modification of the "
     "lattice.",
     ["inputs", "histories"], "all crystals, sizes, sites, query points and limits, after all modification sequences",
     "Tests query one or two sites of square lattices.",
     [L, D], [("queries", L + ":superindex_from_pos/superindex_from_index/limits/center/volume/num_cells"),
              ("masks", D + ":site_mask/find_sites/find_outer_sites/get_limits")],
     ["Lattice.superindex_from_pos", "Lattice.superindex_from_index", "LatticeData.find_sites"],
     "explicit-state model checking: all sites and query points of all enumerated lattices and modification sequences vs "
     "site-list model",
     "Exhaustive over the stated alphabet.")

prop("C15", "Copies, files and dictionaries preserve the lattice",
     "Copying a lattice, writing it to a file and reading it back, or rebuilding its structure from its dictionary gives "
     "an equal lattice with identical neighbors, sites, periodic axes and further behaviour, in every state of its life "
     "cycle. Changing the copy never changes the original. Equal lattices have equal hashes and lattices that differ in "
     "basis, atoms, connections or size are not equal.",
     ["histories", "configurations"], "all states reachable by the life cycle operations x copy/dump/load/dict x further "
     "operations on copy and original",
     "Tests dump one built lattice and compare hashes.",
     [S, L, D, A], [("copy and persistence", L + ":copy/dump/load/todict; " + S + ":fromdict"), ("identity", L +
                    ":__hash__/__eq__"), ("data copy", D + ":copy")],
     ["Lattice.copy", "Lattice.dump", "Lattice.load", "LatticeStructure.fromdict", "=="],
     "explicit-state model checking: clone in every reachable life cycle state, then lock-step exploration of clone and "
     "original",
     "Exhaustive over the stated operation sequences.")

prop("C16", "Invalid requests fail cleanly without changing the lattice",
     "Requests that cannot be served (no atoms, no connections, not analysed, not built, occupied position, wrong "
     "dimension, impossible filter, empty region, invalid axis) raise the documented error with a readable message. "
     "After a failed request every query gives the same answer as before it, and the lattice remains fully usable.",
     ["fault_sequences", "histories"], "every failing request injected at every point of all life cycle sequences up to "
     "the depth",
     "Tests check that some errors are raised, not the state afterwards nor every position in a history.",
     [S, L, U], [("checks", S + ":_assert_*; add_atom; check_points"), ("build order", L + ":build/set_periodic"),
                 ("errors", U + ":ConfigurationError")],
     ["raised exceptions", "all queries after the failure"],
     "explicit-state model checking: fault injection of every failing request at every state of all operation sequences, "
     "before/after comparison",
     "Exhaustive over the stated faults and sequences.")

prop("C17", "Atoms behave as named parameter mappings",
     "An atom behaves like a dictionary of its parameters under every sequence of item and attribute access, assignment, "
     "deletion and copying, independent of its copies; comparison and hash depend on the name only. Looking up atoms of a "
     "lattice by object, name or index returns the matching atoms, and connecting atoms by object or name configures the "
     "same connections as by index.",
     ["histories", "inputs"], "all operation sequences on atoms up to the depth; all name patterns of up to four atoms",
     "Tests do one access of each kind.",
     [A, S], [("mapping", A + ":Atom"), ("lookup", S + ":get_alpha/get_atom/add_connection/get_base_atom_dict")],
     ["Atom", "LatticeStructure.get_alpha", "get_atom", "add_connection"],
     "explicit-state model checking: all operation sequences up to a depth vs dictionary model; all name patterns",
     "Exhaustive within the depth bound.")

prop("C18", "Numeric helpers are exact over their whole range",
     "Index grids contain exactly the integer vectors of the given limits, each once and ordered along the chosen axis, "
     "and value ranges, interleaving, lookup tables, distance functions, pair chains and unit formatting return exactly "
     "the defined values. Chosen integer types always hold the given values. Cell vectors, volumes and sizes have the given "
     "lengths and angles, rotations are proper rotations about the named axis, and tree queries return exactly the points "
     "within the limits.",
     ["inputs"], "all limits, sizes, signs and data types incl. every integer boundary; all angles and points of the grid",
     "Tests sample a few values far away from the boundaries of the data types.",
     [SP, U], [("grids", SP + ":vindices/vrange/interweave"), ("types and tables", U + ":min_dtype/create_lookup_table/chain"),
               ("geometry", SP + ":cell_size/cell_volume/compute_vectors/rx/ry/rz/rotate2d/rotate3d/KDTree")],
     ["lattpy.vindices", "lattpy.vrange", "lattpy.min_dtype", "lattpy.spatial.KDTree"],
     "explicit-state model checking: exhaustive enumeration of arguments around all boundaries vs definition",
     "Exhaustive over the stated argument grids.")

prop("C19", "Dispersion paths follow their points",
     "A path keeps the added points and labels in order, a closed path returns to its first point, and the built path "
     "consists of straight sections of the requested number of samples between consecutive points, with ticks, section "
     "lengths and scales that match. Predefined paths visit the documented symmetry points for every lattice constant.",
     ["histories", "inputs"], "all sequences of path operations up to the depth x numbers of samples",
     "There is no test of it at all.",
     [DT, U], [("path", DT + ":DispersionPath")], ["DispersionPath.points", "labels", "build", "get_ticks", "scales"],
     "explicit-state model checking: all operation sequences up to a depth vs list model",
     "Exhaustive within the depth bound.")

prop("C20", "Predefined lattices have the documented geometry",
     "Every predefined basis and lattice has, for any lattice constants, the documented vectors, atoms, neighbor numbers "
     "and distances, and its finite form has the requested size and boundaries. Arguments such as atoms, number of "
     "neighbors, shape and periodic axes have the same effect as the corresponding calls.",
     ["inputs", "configurations"], "all predefined lattices x lattice constants x atom arguments x neighbor levels x "
     "finite sizes",
     "Tests build them with default arguments only.",
     [I, B, S, L], [("presets", I), ("basis constructors", B + ":chain/square/.../hypercubic"), ("keyword configuration",
                     S + ":__init__; " + L + ":__init__")],
     ["lattpy.simple_chain ... finite_hypercubic", "LatticeBasis constructors"],
     "explicit-state model checking: exhaustive enumeration of presets x arguments vs independent definition",
     "Exhaustive over the stated argument grid.")

prop("C21", "Plots show exactly the lattice",
     "Plotting a built lattice in one to three dimensions draws every site once in the color and at the position of its "
     "atom, every open bond once between its two sites and every periodic bond as a stub in its direction, labels the "
     "sites with their numbers if requested, works with all documented options, and leaves the lattice unchanged, in every "
     "state of the lattice. The unit cell plot shows all atoms and all their neighbors, basis plots show the vectors and "
     "outlines of the cell, and boxes and hulls (2D, 3D), circles and donuts (2D) and Wigner-Seitz cells are drawn with "
     "exactly their edges and faces.",
     ["inputs", "configurations"], "all crystals in 1D-3D x open/periodic x plot options; all shapes and cells",
     "There is no test of the drawn content.",
     [PL, L, S, B], [("drawing", PL + ":draw_sites/draw_vectors/draw_lines/draw_indices"), ("lattice plot", L + ":plot"),
                     ("cell plot", S + ":plot_cell; " + B + ":plot_basis")],
     ["artists of the returned axes"],
     "explicit-state model checking: exhaustive enumeration of crystals x options, drawn artists vs model",
     "Exhaustive over the stated alphabet; trusts matplotlib's artist containers.")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "mc")) if f.startswith("c") and f[1:3].isdigit()}
    props, checks, na = [], [], []
    for p in P:
        props.append(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                                  observe_at=p["observe"], hook_needed=None)))
        if p["id"] in have:
            checks.append(dict(property=p["id"], quick_cmd=f"{PY} run.py {p['id']}",
                               thorough_cmd=f"{PY} run.py {p['id']} --tier thorough", technique=p["technique"],
                               level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="the check for this property is not finished yet"))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd=f"{PY} run.py --self-test", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check drives the public interface of the working tree directly. "
               "Known findings and repaired defects: KNOWN_FINDINGS.txt. Replay: run.py --replay FILE.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claimed = a harness exists)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/GooseFEM/"
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])))

p("C01", "Shape-function gradients and integration volumes are those of the mapping",
  "For every non-inverted element geometry, the gradients returned for an integration point are the isoparametric shape-function gradients at that point, and the volumes are quadrature weight times Jacobian determinant (times thickness, or times 2*pi*r, where the element has one). The built-in Gauss and nodal rules are the standard rules of the reference element.",
  ["inputs"], "every nodal configuration (symbolic real coordinates) with positive Jacobian at the integration points, every thickness, every user-supplied rule",
  "The tests evaluate undistorted unit-square or unit-cube meshes, where most Jacobian entries vanish and transpositions cancel.",
  ["ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h", "Element.h", "detail.h"],
  [("compute_dN_impl", "every Quadrature class"), ("inv", "detail.h"), ("Gauss/Nodal xi, w", "Element*.h")])
p("C02", "Gradient, strain and interpolation operators are exact for linear fields",
  "The gradient, transposed gradient, symmetric gradient and interpolation of a nodal vector equal the textbook contraction of that vector with the shape functions and their gradients. Any linear displacement field is reproduced exactly: constant gradient, interpolated value equal to the field, zero strain for a rigid rotation.",
  ["inputs"], "all nodal vectors, all linear fields, all regular geometries (symbolic reals)",
  "The tests apply one random deformation gradient to one regular mesh; transposition and index slips on distorted elements are invisible.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("gradN_vector/gradN_vector_T/symGradN_vector/interpQuad_vector", "QuadratureBaseCartesian and specialisations")])
p("C03", "Internal force is work-conjugate to the gradient, and self-equilibrated",
  "For every stress field, the element force contracted with any nodal velocity equals the volume integral of stress against the velocity gradient. The resulting element forces sum to zero, and their moment vanishes for symmetric stress.",
  ["inputs"], "all stress tensors, all nodal velocities, all regular geometries",
  "The tests check a uniform stress on a regular mesh only.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("int_gradN_dot_tensor2_dV_impl", "every Quadrature class")])
p("C04", "Element stiffness is the derivative of the internal force",
  "For every fourth-order tangent the element stiffness applied to a nodal displacement equals the internal force of the stress obtained from that tangent and the displacement gradient. Rigid translations are in its null space, and it is symmetric for tangents with major symmetry.",
  ["inputs"], "all fourth-order tangents, all displacements, all regular geometries",
  "The tests use isotropic tangents on regular meshes.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("int_gradN_dot_tensor4_dot_gradNT_dV_impl", "every Quadrature class")])
p("C05", "Element mass matrix and load vector conserve mass and act per component",
  "The element mass matrix equals the quadrature sum of density, shape-function products and volume, block-diagonal over components, symmetric, with total mass equal to the integral of density; the nodal rule gives a diagonal matrix. The element load vector of a vector field with any number of components is likewise the quadrature sum of shape function, field and volume, per component.",
  ["inputs"], "all density fields, all regular geometries, all quadrature rules",
  "The tests only see uniform density on a unit mesh.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("int_N_scalar_NT_dV_impl", "every Quadrature class"), ("int_N_vector_dV", "Element.h")])
p("C06", "Updating nodal positions leaves no stale geometry",
  "After any sequence of geometry updates, every result of an element object equals that of a fresh object built on the last geometry, and copies stay independent of the original.",
  ["histories", "inputs"], "every update sequence up to the bound, all geometries",
  "No test updates a quadrature object and compares all of its operators.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Planar.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h"],
  [("update_x / update_x_impl / compute_dN", "every Quadrature class")])
p("C07", "Allocation, shapes and broadcasting to tensors match the quadrature layout",
  "Shapes reported and arrays allocated for scalars and tensors of any rank have the layout (elements, integration points, components...), filled with the requested value; broadcasting a scalar to a tensor, or padding vectors to three dimensions, keeps every value at its element, point and component.",
  ["inputs", "configurations"], "all sizes within bounds, all ranks, all field values",
  "The tests broadcast one or two ranks on one size.",
  ["Allocate.h", "Element.h"],
  [("AsTensor/asTensor/as3d", "Allocate.h"), ("shape_*, allocate, AsTensor", "QuadratureBase in Element.h")])
p("C10", "Vector conversions address the right entries and assembly sums all contributions",
  "For every connectivity and DOF numbering, extracting node or element vectors from DOF values, and overwriting DOFs or nodes from compatible vectors, moves each value to the entry the numbering designates and round-trips; assembly returns, for each DOF or node, the sum of all contributions to it and conserves the total. Nothing of the target's previous content survives.",
  ["inputs", "configurations"], "every connectivity and DOF table within the size bounds (symbolic indices, shared/periodic DOFs included), all values",
  "The tests use a handful of fixed structured meshes.",
  ["Vector.h"], [("asDofs/asNode/asElement/assembleDofs/assembleNode", "Vector.h")])
p("C11", "Partitioned vectors split DOFs into unknown and prescribed without loss",
  "For every set of prescribed DOFs the unknown ones are exactly the complement, extracting both parts and recombining reproduces the original DOF, node and element values, and copying one part never touches the other.",
  ["inputs", "configurations"], "every DOF table and every subset (any order) of prescribed DOFs within bounds, all values",
  "The tests prescribe a few boundary sets of a fixed mesh.",
  ["VectorPartitioned.h", "Mesh.h"], [("m_part, m_iiu, m_iip, dofs_is_u/p, copy_u/p, asDofs_u/p, *FromParitioned", "VectorPartitioned.h"), ("Mesh::Reorder", "Mesh.h")])
p("C12", "Vectors with nodal tyings condense dependent DOFs with the tying matrices",
  "With tyings, independent DOF values obtained from a nodal vector equal the independent entries plus the transposed tying matrix applied to the dependent entries (or only the former if tyings are not applied), and copying prescribed DOFs touches only those.",
  ["inputs", "configurations"], "all tying coefficients, all nodal vectors, all partitions within bounds",
  "Existing tests use periodic unit tyings only.",
  ["VectorPartitionedTyings.h"], [("asDofs_i, copy_p, Eigen_asDofs_d", "VectorPartitionedTyings.h")])
p("C13", "Sparse matrix represents exactly the sum of assembled contributions",
  "For every connectivity and DOF numbering the matrix after assembly equals the sum of the element matrices scattered to their DOFs, a new assembly replaces the old one, `set` overwrites the whole matrix with the given entries, `add` adds to just the addressed entries, products equal the dense product for DOF and nodal vectors, and solving returns the solution of the system.",
  ["inputs", "configurations", "histories"], "all connectivities/numberings within bounds, all matrix entries, all vectors",
  "The tests use one mesh and check one residual.",
  ["Matrix.h"], [("assemble/set/add/Todense/dot/solve", "Matrix.h")])
p("C14", "Partitioned matrix solves the constrained system and yields its reactions",
  "For every partition, the blocks hold exactly the scattered element contributions; the solution satisfies the unknown equations with the prescribed values kept, and the reaction is the matrix product on the prescribed DOFs, in DOF, node and per-part form.",
  ["inputs", "configurations"], "every DOF table and prescribed subset within bounds, all element matrices, all right-hand sides",
  "The tests use a single random system and a fixed mesh.",
  ["MatrixPartitioned.h", "Matrix.h"], [("assemble_impl, dot, reaction, solve", "MatrixPartitioned.h")])
p("C15", "Tied matrix solves the condensed system in every calling form",
  "With nodal tyings, the solve satisfies the condensed equations including the contribution of forces on dependent DOFs, keeps prescribed values and sets dependent values from the tying; node-vector, DOF-vector and per-part forms agree.",
  ["inputs", "configurations"], "all tying coefficients, element matrices, loads and prescribed values within bounds",
  "Only the node-vector form is exercised, with periodic unit tyings.",
  ["MatrixPartitionedTyings.h"], [("assemble_impl, solve_nodevec_impl, solve_dofval_impl, solve_u", "MatrixPartitionedTyings.h")])
p("C16", "Diagonal matrix equals the diagonal of the assembled system",
  "The diagonal matrix after assembly holds for each DOF the sum of its diagonal contributions, products and solves are exact inverses entry by entry, also after resetting the diagonal or mixing operations in any order.",
  ["inputs", "histories"], "all numberings within bounds, all entries, all operation sequences up to the bound",
  "The tests do one assembly followed by one solve.",
  ["MatrixDiagonal.h", "Matrix.h"], [("m_factor, assemble, set, dot, solve", "MatrixDiagonal.h")])
p("C17", "Partitioned diagonal matrix respects prescribed DOFs and reactions",
  "For every partition, solving updates unknown DOFs only, per-part products and solves agree with the full ones, and reactions equal the matrix product on prescribed DOFs while unknown entries stay untouched.",
  ["inputs", "configurations", "histories"], "every prescribed subset within bounds, all entries",
  "The tests use one partition and do not call the reaction in all forms.",
  ["MatrixDiagonalPartitioned.h"], [("dot_u, dot_p, solve, reaction_*", "MatrixDiagonalPartitioned.h")])
p("C18", "Solving always uses the current matrix",
  "In every history of assembling, setting, adding and solving, with solvers and matrices combined freely and copied, a solve returns the solution for the matrix as it is at that moment, never for an earlier or a different one.",
  ["histories"], "all operation sequences up to the bound over two matrices and two solvers",
  "Tests use each solver once with one matrix.",
  ["Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h"], [("m_changed / m_factor / factorize", "all matrix and solver classes")])
p("C19", "Periodic tyings reproduce the periodic constraint with an admissible numbering",
  "For every set of tied node pairs, the renumbered DOFs list unknown, prescribed and dependent ones consecutively without gaps or overlap, and the tying matrices make tied nodes differ by the same displacement gradient times their position difference; control nodes add DOFs without touching existing ones.",
  ["inputs", "configurations"], "all node-pair tables, DOF subsets and positions within bounds",
  "The tests use one periodic mesh.",
  ["TyingsPeriodic.h"], [("Periodic, Control", "TyingsPeriodic.h")])
p("C20", "DOF renumbering is gap-free, order-preserving and consistent",
  "Numbering DOFs yields each number once; renumbering maps equal DOFs to equal and distinct to distinct numbers without gaps; reordering places the requested sets in the requested order and applies to every item consistently.",
  ["inputs"], "all DOF tables and set sequences within bounds",
  "The tests renumber one mesh.",
  ["Mesh.h"], [("dofs, renumber, Renumber, Reorder", "Mesh.h")])
p("C21", "Topology tables list exactly the connected entities",
  "For every connectivity, node-to-element, node-to-node and DOF-to-element maps and coordination numbers contain precisely the entities sharing an element or DOF, and nothing else; periodic variants merge tied nodes.",
  ["inputs"], "all connectivities and DOF tables within bounds",
  "The tests use a few structured meshes.",
  ["Mesh.h"], [("coordination, elem2node, node2dof, nodaltyings", "Mesh.h")])
p("C22", "Geometric mesh measures equal their definition",
  "Edge sizes, element centres, centres of gravity, nodal mass and element-to-node maps equal their textbook definition on any mesh.",
  ["inputs"], "all coordinates and connectivities within bounds",
  "The tests check regular meshes with unit edges.",
  ["Mesh.h"], [("edgesize, centers, center_of_gravity, nodal_mass, elemmap2nodemap", "Mesh.h")])
p("C23", "Stitching merges exactly the overlapping nodes and keeps all elements",
  "Stitched meshes contain every element of every sub-mesh with node positions preserved, overlapping nodes merged and no others; element, node and set maps stay consistent, also when hidden nodes or several meshes are involved.",
  ["inputs", "configurations", "histories"], "all node positions and connectivities within bounds, all sequences of up to three meshes",
  "The tests stitch aligned regular grids.",
  ["Mesh.h"], [("overlapping, ManualStitch, Stitch, Vstack", "Mesh.h")])
p("C24", "Regular quad mesh is a valid grid with exact boundary sets",
  "For every size the regular mesh tiles its rectangle with right-handed elements of edge h, its named node sets are exactly the nodes on those edges and corners, and periodic DOFs pair opposite boundaries.",
  ["configurations", "inputs"], "all element counts within bounds, all positive h",
  "The tests compare one hard-coded mesh.",
  ["MeshQuad4.h", "Mesh.h"], [("Regular", "MeshQuad4.h"), ("RegularBase2d", "Mesh.h")])
p("C25", "Fine-layer quad mesh is conforming and its sets are exact",
  "For every admissible size the fine-layer mesh is a conforming right-handed tiling of its domain with the weak layer in the middle, and counts, node sets, periodic pairs and element layers agree with the geometry.",
  ["configurations", "inputs"], "all (nx, ny, nfine) within bounds, all positive h",
  "The tests compare two hard-coded meshes.",
  ["MeshQuad4.h", "Mesh.h"], [("FineLayer", "MeshQuad4.h")])
p("C26", "Element selections on the fine-layer mesh match their geometric meaning",
  "Selecting grid blocks, neighbourhoods and rolled mappings on the fine-layer mesh returns exactly the elements the selection describes, for every anchor element and extent, and never leaves the mesh.",
  ["inputs", "configurations"], "all anchors and extents within bounds",
  "The tests check two or three anchors on one mesh.",
  ["MeshQuad4.h"], [("elementgrid_ravel, elementgrid_around_ravel, elementgrid_leftright, roll", "FineLayer in MeshQuad4.h")])
p("C27", "Mesh mappings conserve fields and geometry",
  "Refinement and coarsening maps, and the mapping of fine-layer onto regular meshes, cover every element exactly once, preserve positions, and conserve or exactly copy mapped fields.",
  ["inputs", "configurations"], "all sizes and refinement factors within bounds, all fields",
  "The tests map one small field.",
  ["MeshQuad4.h"], [("RefineRegular, FineLayer2Regular", "Map in MeshQuad4.h")])
p("C28", "Triangular mesh is valid and orientation can be enforced",
  "The regular triangular mesh tiles its rectangle, its sets are exact; the reported orientation is -1 for counter-clockwise and +1 for clockwise elements, and re-orienting makes all elements have the requested orientation while keeping their nodes.",
  ["configurations", "inputs"], "all sizes within bounds, all coordinates",
  "The tests check one mesh.",
  ["MeshTri3.h"], [("Regular, getOrientation, setOrientation", "MeshTri3.h")])
p("C29", "Regular hexahedral mesh is a valid grid with exact boundary sets",
  "For every size the regular hexahedral mesh tiles its box with right-handed elements, its faces, edges and corners sets are exactly the nodes there, and periodic pairs match opposite boundaries by position.",
  ["configurations", "inputs"], "all element counts within bounds, all positive h",
  "The tests compare one hard-coded mesh.",
  ["MeshHex8.h", "Mesh.h"], [("Regular", "MeshHex8.h"), ("RegularBase3d", "Mesh.h")])
p("C30", "Fine-layer hexahedral mesh is conforming and its sets are exact",
  "For every admissible size the fine-layer hexahedral mesh is a conforming right-handed tiling, and its counts, boundary node sets and layer sets agree with the geometry.",
  ["configurations", "inputs"], "all sizes within bounds",
  "The tests compare one hard-coded mesh.",
  ["MeshHex8.h", "Mesh.h"], [("FineLayer", "MeshHex8.h")])
p("C31", "Stop criterion looks at exactly the last residuals",
  "In every history of residuals and resets, the stop test is true only when the window is full of residuals that all satisfy the criterion (decreasing and below tolerance, or all below), and resetting forgets everything.",
  ["histories", "inputs"], "all residual sequences (NaN and infinity included) up to the bound, all window lengths and tolerances within bounds",
  "The tests feed two fixed sequences.",
  ["Iterate.h"], [("StopList", "Iterate.h")])
p("C32", "Results do not depend on the number of threads or their schedule",
  "With OpenMP enabled, every parallel operation accesses memory without conflicts between threads and returns the result of serial execution for any team size and schedule.",
  ["schedules"], "every division of the iterations of every parallel loop over the threads, all inputs within bounds",
  "The tests run serially, and data races rarely show on small meshes.",
  ["Element.h", "ElementQuad4.h", "ElementQuad4Axisymmetric.h", "ElementHex8.h", "Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixPartitionedTyings.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h"], [("#pragma omp parallel for", "all loops over elements, nodes and DOFs")])
p("C33", "Element-wise conversions and DOF predicates agree with their definition",
  "Gathering nodal values per element and assembling them back follows the connectivity; the sequential-DOF, diagonal-matrix and uniqueness predicates are true exactly when the property they name holds.",
  ["inputs"], "all connectivities, values and index arrays within bounds",
  "The tests only see positive cases.",
  ["Element.h", "Mesh.h", "detail.h", "assertions.h"], [("asElementVector, assembleNodeVector, isSequential, isDiagonal", "Element.h"), ("is_unique", "assertions.h")])
p("C34", "Ill-shaped input is rejected, not read or written out of bounds",
  "With assertions enabled, any combination of array shapes that does not match what an operation documents is rejected by an exception; no operation reads or writes outside its arrays for any accepted input.",
  ["inputs"], "all array shapes within bounds, all index values",
  "Tests hardly exercise the rejection paths.",
  ["Vector.h", "VectorPartitioned.h", "VectorPartitionedTyings.h", "Matrix.h", "MatrixPartitioned.h", "MatrixDiagonal.h", "MatrixDiagonalPartitioned.h", "MatrixPartitionedTyings.h", "TyingsPeriodic.h", "Element.h", "ElementQuad4.h", "ElementHex8.h", "Mesh.h", "MeshQuad4.h", "config.h"], [("GOOSEFEM_ASSERT / GOOSEFEM_CHECK / GOOSEFEM_REQUIRE", "config.h and all classes")])

NA = {}
TECH = "symbolic execution of the compiled LLVM IR of the real headers (own executor), obligations decided by z3 (QF_NRA/QF_BV) for all values within bounds; counterexamples replayed natively"
NOTE = "Holds for all inputs within the stated bounds (see harness header and evidence). Doubles are modelled as exact reals (comparison tolerance 1e-9); trusts clang's lowering, the executor's memory model and z3. Counterexamples count only if the native build confirms them."
def main():
    have = [q for q in P if os.path.exists(f"{ROOT}/harness/{q['id']}.cpp")]
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for q in P: f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             checks=[dict(property=q["id"], quick_cmd=f"python3 check.py {q['id']} quick", thorough_cmd=f"python3 check.py {q['id']} thorough",
                          technique=TECH, level="other", level_note=NOTE) for q in have],
             not_applicable=[dict(property=q["id"], reason=NA.get(q["id"], "No check built yet.")) for q in P if q not in have])
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    print(len(have), "claimed of", len(P))
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
main()

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

E="src/element/"; M="src/matrix/"
p("C01","A linear study returns the equilibrium of the model, whatever the hash order",
  "For every well-posed model (mesh, material, plane-stress / plane-strain / axisymmetric condition, supports including inclined ones, concentrated and line loads) a linear study returns displacements that satisfy every support and balance the applied loads against the assembled stiffness, and the nodal stresses it reports (components of plane models, equivalent stresses of axisymmetric ones) are those of that displacement field averaged over the elements meeting at the node. The same answer, up to rounding, comes out for every order in which the process's randomised hash containers happen to iterate, every element and node listing order or element orientation, and every direct solver.",
  ["inputs","schedules","configurations"],
  "all well-posed models x all hash keys (iteration orders) of the process x {dense Gauss, envelope Cholesky}",
  "The tests run three fixed models, print the result or draw it, assert nothing about the displacements, and see one arbitrary hash order per run.",
  [E+"mod.rs",E+"element.rs",E+"constraint.rs",E+"strain.rs",E+"stress.rs",M+"sparse.rs",M+"solve/direct.rs",M+"graph.rs"],
  [("global assembly into a hash-keyed matrix",E+"mod.rs calc_k"),("support transform (rotate, strike, un-rotate)",E+"constraint.rs DofTransform"),("element stiffness",E+"element.rs calc_k"),("direct solvers",M+"solve/direct.rs, "+M+"buffer.rs")],
  observe=["ElementAssemblage::calc_displacements","Deformation::displaced_nodes / displacement_norms / stresses"])
p("C02","Every applied load acts exactly once, independent of order of application",
  "The displacement a linear study returns is the superposition of the displacements caused by each applied concentrated and line load alone: no load is lost, overwritten or counted twice when loads meet at a node or a line load lies on an edge shared by two elements. The answer does not depend on the order in which loads were added, in which supports were added, or in which the process's hash containers iterate.",
  ["histories","schedules","inputs"],
  "all sequences of load and support additions on a well-posed model x all hash iteration orders",
  "The one test with a line load applies a single load and checks no number; the loss only shows for loads that meet at a node, and then only for some hash orders.",
  [E+"mod.rs",E+"element.rs"],
  [("load vector assembly",E+"mod.rs calc_load"),("edge load integration",E+"element.rs int_f_l"),("support merging",E+"mod.rs add_constraint")],
  state=[("concentrated_forces / line_forces","pending loads keyed by node or edge in randomised maps",E+"mod.rs ElementAssemblage")],
  observe=["ElementAssemblage::calc_displacements"])
p("C03","Solvers are interchangeable and never pass off a non-solution as a solution",
  "For every sequence of coefficient and right-hand-side contributions forming a nonsingular symmetric system, the dense elimination solver returns its solution, and when the system is also positive definite so does the envelope Cholesky solver, in the caller's original unknown numbering. The iterative solver either returns a vector that meets its convergence tolerance or reports failure, and it converges on strongly diagonally dominant systems. No solver returns success with non-finite numbers or with a vector that does not satisfy the system.",
  ["inputs","histories","schedules"],
  "all contribution histories (order, repeated and cancelling contributions, decoupled unknowns, zero right-hand sides, indefinite and singular systems) x hash iteration orders x three solvers",
  "One fixed 4x4 positive definite system is tested, already fully coupled and given in one piece.",
  [M+"solve/mod.rs",M+"solve/direct.rs",M+"solve/iterative.rs",M+"graph.rs",M+"sparse.rs",M+"buffer.rs",M+"mod.rs"],
  [("accumulating system builder",M+"solve/mod.rs System"),("pivoted elimination",M+"buffer.rs/"+M+"mod.rs solve_gausselim"),("Cholesky on a reordered envelope",M+"solve/direct.rs"),("convergence test",M+"solve/iterative.rs gauss_seidel")],
  observe=["System::add_*_coefficient / add_rhs_val / from_kr","Solver::solve"])
p("C04","A modal study returns exactly the lowest natural modes, in order",
  "For every well-supported model with distinct natural frequencies, a modal study for n modes returns the n lowest natural frequencies of the consistent-mass model in ascending order, each paired with a mode shape that satisfies the supports and the free-vibration balance for that frequency. No mode is skipped, repeated or reordered, whatever order the process's hash containers iterate in.",
  ["inputs","schedules","configurations"],
  "all well-supported models with separated frequencies x all n up to the number of free unknowns x hash iteration orders",
  "No test runs a modal study on a model (the only one is commented out as hanging); the eigen test is one 4x4 matrix with unit mass.",
  [E+"mod.rs",E+"element.rs",M+"solve/eigen.rs",M+"solve/direct.rs",M+"graph.rs"],
  [("consistent mass assembly",E+"element.rs calc_m, "+E+"mod.rs calc_m"),("Sturm-count bracketing and inverse iteration",M+"solve/eigen.rs"),("support transform of K and M",E+"constraint.rs")],
  observe=["ElementAssemblage::calc_modes","Deformation::frequency / displaced_nodes"])
p("C05","An eigenvalue search can be advanced in any steps without changing its answer",
  "For every symmetric positive definite pencil with separated eigenvalues, the count of eigenvalues below any value is exact, and every interleaving of single search steps, requests for the n lowest pairs, counts and reads of the pairs found so far yields the same ascending prefix of the spectrum. Each pair satisfies the eigen equation in the caller's numbering, pairs are mass-orthonormal, earlier pairs never change as the search advances, and a request always terminates.",
  ["histories","inputs","schedules"],
  "all interleavings of search operations on one searcher x all pencils (dense, banded, decoupled, diagonal) x hash iteration orders",
  "One matrix, one call order (two counts, then one request for everything).",
  [M+"solve/eigen.rs",M+"solve/direct.rs",M+"graph.rs",M+"sparse.rs"],
  [("search state carried between calls",M+"solve/eigen.rs DeterminantSearcher"),("interval splitting",M+"solve/eigen.rs ManyEigenRange::split"),("inverse permutation on output",M+"solve/eigen.rs eigenpairs")],
  state=[("eigenpairs, last_mus","pairs found so far and last bracket",M+"solve/eigen.rs DeterminantSearcher")],
  observe=["DeterminantSearcher::{find_eigens,secant_iterate_one,eigenvalues_under,eigenpairs}"])
p("C06","Sparse matrices behave as the matrix they store through any history",
  "After every sequence of writes, accumulations, row and column edits, transposition, permutation, masking, multiplication and conversion between storage schemes, a sparse matrix reads as the mathematical matrix that sequence defines, at every position, including explicitly stored zeros and empty rows. Iteration, equality-relevant content, envelopes and row bounds describe that same matrix independently of the order in which the hash storage iterates, and substitution with a stored factor does not depend on what the output buffer held before.",
  ["histories","schedules","inputs"],
  "all operation sequences over the dictionary, compressed-row, lower-envelope and two-sided-envelope schemes x hash iteration orders",
  "Each scheme is tested on one or two fixed matrices built in one step; accumulated, cancelled, permuted or emptied rows are not reached.",
  [M+"sparse.rs",M+"mod.rs",M+"graph.rs"],
  [("entry lookup per scheme",M+"sparse.rs pos"),("conversions",M+"sparse.rs From<Dictionary>"),("sparse product, mask, permute",M+"sparse.rs Dictionary"),("triangular substitution",M+"sparse.rs LowerRowEnvelope")],
  observe=["MatrixLike::get / nzs / row / col","Dictionary::{mul_dict,mask,permute,transposed,envelope,row_bounds,edges}","LowerRowEnvelope::{solve,solve_transposed}"])
p("C07","Renumbering of unknowns is complete, reversible and independent of edge order",
  "For every symmetric coupling pattern, connected or not, with or without unknowns coupled to nothing, the bandwidth-reducing renumbering is a bijection on all unknowns, the same for every order in which the couplings are enumerated, in which each coupled group is numbered contiguously by growing outwards from one unknown, so that every other unknown of the group follows (in reverse numbering) one it is coupled to. Applying it to a system and undoing it on a vector restores the caller's numbering exactly.",
  ["inputs","schedules"],
  "all coupling graphs x all enumeration orders of their edges (hash iteration orders)",
  "Two small connected graphs with edges in one fixed order are tested.",
  [M+"graph.rs",M+"solve/mod.rs"],
  [("graph construction from unordered edges",M+"graph.rs from_edges"),("breadth-first numbering from a peripheral node",M+"graph.rs reverse_cuthill_mckee"),("permutation pair",M+"graph.rs Permutation")],
  observe=["Graph::{from_edges,adjacent,degree,reverse_cuthill_mckee}","Permutation::{permute,unpermute,permute_slice,invert}"])
p("C08","Studies do not influence each other, across threads, repetitions or clock jumps",
  "Studies running concurrently on different threads, or one after another in one process, in any interleaving and with the clock stalling or jumping backwards, each return what the same study returns when run alone in a fresh process. None of them blocks another, panics because of another, or changes a model, matrix or image another is using, and repeating a study on the same model returns the same answer.",
  ["schedules","histories","fault_sequences"],
  "all interleavings at the granularity of basic blocks and atomic operations of 1-4 threads running mixed studies (linear, modal, sparse algebra, drawing) x hash keys x clock jumps",
  "The test harness runs unrelated tests on real threads whose interleaving nobody controls, and compares nothing between them.",
  ["src/element/mod.rs","src/matrix/solve/direct.rs","src/matrix/solve/eigen.rs","src/visual/mod.rs"],
  [("no shared mutable state in matrix, element, visual","whole crate"),("per-call seeded generator",M+"solve/eigen.rs inverse_iterate"),("timing only for reporting",M+"solve/direct.rs")],
  observe=["results of calc_displacements / calc_modes / Visualizer::draw per thread"])
p("C09","A drawn image is complete and correct on disk, or the draw fails loudly",
  "When drawing an image returns normally, the named file holds a complete, decodable picture (PNG, or the format the file's ending names) of the requested size whose pixels are exactly those drawn for the same scene on a fault-free disk by a process that has drawn nothing else, and which shows every node, edge and coloured element where the scene puts it. This holds even if the operating system interrupted calls or wrote in short pieces, whatever file was there before, when the same scene object was drawn or changed before, and while another thread draws. If the image could not be stored completely (no space, I/O error, cannot open, unknown ending), the draw does not return normally.",
  ["fault_sequences","inputs"],
  "all placements of interrupted, short, failing and out-of-space writes and open failures during a draw x scenes, their earlier draws and changes x file formats x prior file contents x interleavings with another drawing thread",
  "The drawing tests run on a healthy disk and never look at the file.",
  ["src/visual/mod.rs","src/visual/bresenham.rs","src/visual/fill.rs"],
  [("draw and save",  "src/visual/mod.rs Visualizer::draw")],
  observe=["Visualizer::draw","the written file"])
p("C10","A saved mesh file is complete and reloads as the same model, or saving fails",
  "When saving a model returns normally, reading the file back yields the same model up to the file format's printed precision: the same nodes, elements, material, condition, supports, concentrated and line loads, in whatever order the process's hash containers listed them, and despite interrupted or short writes and reads, whatever the file held before, and while another thread saves or loads another file. If the file could not be stored completely, saving does not return normally.",
  ["fault_sequences","schedules","inputs"],
  "all models x hash iteration orders x interrupted, short, failing and out-of-space file operations on save and load x interleavings with another thread's save or load",
  "One load test reads a fixed file (in an outdated syntax) on a healthy disk; nothing saves and reloads.",
  ["src/file/mod.rs","src/file/bmsh.rs"],
  [("serialiser","src/file/bmsh.rs elas_to_bmsh"),("parser","src/file/bmsh.rs bmsh_to_elas"),("write and error handling","src/file/mod.rs save_elas")],
  observe=["file::save_elas","file::read_to_elas"])
p("C11","A torn or corrupted input file is refused, never loaded as another model",
  "A mesh file cut off at any byte (as a crash while saving leaves it), with a section, line or stretch of bytes lost, or with a count, entry number, node index, keyword, material, support or number replaced by something that cannot be right there (a wrong count or entry number, an index that does not exist, an unknown word, a non-number, an infinite one, a wrong number of components) is refused with an error, and so is a boundary file cut off inside a polygon or with an unknown keyword, material, support or label, a label given to two corners, a condition between corners no side joins, or a non-number or infinite one. Such a file never yields a model or region other than the one written. No content whatsoever of a mesh or boundary file makes reading it panic or hang; a read error or unreadable file is reported as an error; interrupted or short reads change nothing; and an undamaged file, in any spelling of its numbers, with remarks and blank lines, loads as exactly what it says.",
  ["crash_points","fault_sequences","inputs"],
  "all truncation points, torn saves and field corruptions of valid mesh and boundary files, arbitrary byte changes, and failing, interrupted or short reads",
  "No test reads a damaged file; the one load test reads one fixed file.",
  ["src/file/bmsh.rs","src/file/bbnd.rs","src/file/mod.rs"],
  [("section and count validation","src/file/bmsh.rs monotonic_list / free_list / section_parse"),("label resolution","src/file/bbnd.rs")],
  observe=["file::read_to_elas","file::read_to_bound"])
p("C12","Chew meshing yields a valid mesh for every processing order",
  "For every polygonal region, with or without holes, with corners of at least 61 degrees, whose sides admit the requested element size (each can be cut into pieces between once and sqrt(3) times the size) and lie at least that size apart unless they meet, Chew meshing terminates and the assembled mesh tiles exactly that region: triangles positively oriented, not overlapping, meeting edge to edge, covering the region's area, with the divided boundary preserved, no triangle with a circumradius above the size and no edge shorter than it. This holds for every order in which the process's hash containers pick the next edge or triangle, every starting value of the process-wide vertex counter, whatever the process meshed before and whatever other threads mesh at the same time.",
  ["schedules","histories","inputs"],
  "all admissible polygons and sizes x hash iteration orders (work-list schedules) x number of vertices created earlier in the process",
  "Two polygons are meshed in whatever order one run's hash keys give, and only drawn.",
  ["src/mesher/plane.rs","src/mesher/bounds.rs","src/mesher/mod.rs","src/spatial/predicates.rs"],
  [("gift wrapping work list","src/mesher/plane.rs gift_wrap"),("Bowyer-Watson insertion","src/mesher/plane.rs"),("boundary division","src/mesher/bounds.rs divide_segment"),("id-derived perturbation","src/mesher/mod.rs Vertex::perturbed")],
  state=[("GLOBAL_VERTEX_ID","process-wide vertex counter","src/mesher/mod.rs")],
  observe=["PlaneTriangulation::assemble"])
p("C13","Boundary conditions survive meshing completely, for every processing order",
  "After meshing (by either mesher), every mesh node on a boundary side carrying a distributed support has that support, a corner where two supported sides meet or that has a support of its own has all of them, and nodes elsewhere are free; every mesh edge on a side carrying a distributed force carries exactly that force and no other edge does (several supports or forces stated for one side, named in either direction, act together); and the model has the region's material and condition. The outcome is the same for every order in which the process's hash containers process the sides, every starting value of the process-wide vertex counter, whatever the process meshed before and whatever other threads mesh at the same time. (A corner where a support at an angle meets another support is outside this rule.)",
  ["schedules","inputs"],
  "all assignments of supports and forces to the sides of a polygon (including adjacent sides) x hash iteration orders x both meshers",
  "One test puts one support and one force on opposite sides of a square and looks for a single node.",
  ["src/mesher/bounds.rs","src/mesher/plane.rs"],
  [("attribute inheritance on division","src/mesher/bounds.rs divide_segment / split_segment"),("transfer to the model","src/mesher/plane.rs assemble")],
  observe=["PlaneTriangulation::assemble then ElementAssemblage::{constraints,dist_forces}"])
p("C14","Ruppert meshing yields a valid, bounded-quality mesh for every processing order",
  "For every polygonal region with corners of at least 61 degrees, with or without holes, Ruppert meshing terminates and the assembled mesh tiles exactly that region with positively oriented, non-overlapping triangles meeting edge to edge, none with a circumradius above the requested size or a circumradius-to-shortest-edge ratio above the square root of 2. This holds for every processing order and vertex-counter value, whatever the process meshed before and whatever other threads mesh at the same time.",
  ["schedules","histories","inputs"],
  "all admissible polygons and sizes x hash iteration orders x number of vertices created earlier in the process",
  "No test runs the Ruppert mesher.",
  ["src/mesher/plane.rs","src/mesher/bounds.rs"],
  [("segment splitting and refinement loop","src/mesher/plane.rs ruppert_mesh")],
  observe=["PlaneTriangulation::assemble"])
p("C15","The command line reports success only when its results are right and stored",
  "For every mesh, linear or modal command, exit with success implies that every output asked for is complete on disk (a picture of the requested size; a mesh file that tiles the region of the boundary file with elements no larger than asked and carries its supports and loads) and that the numbers and pictures produced are those of the model in the input file with the solver, mode count, node value, scale and colours asked for, whatever the hash order of the process. A command with sound arguments and input on a healthy disk succeeds (the iterative solver may give up). Wrong arguments, a damaged, missing, misnamed or unreadable input, or an output file or report that cannot be stored end in failure. Interrupted and short reads and writes change nothing. No file other than the outputs is touched, not even when the process is killed at any point, and repeating the command afterwards gives the same results.",
  ["fault_sequences","crash_points","histories","schedules","inputs"],
  "all histories of command lines over generated input files x hash keys per process x disk and standard output faults x crash points",
  "No test runs the program.",
  ["src/main.rs","src/cli.yml","src/file/mod.rs"],
  [("command pipelines","src/main.rs linear / mesh / modal"),("argument definitions","src/cli.yml")],
  observe=["process exit status, standard output and output files"])
p("N01","Equivalent stress and stress tensors follow their defining formulas",
  "The equivalent stress reported for a stress state is the von Mises stress of that state, and the tensor form of a stress state is symmetric and carries its components.",
  ["inputs"],"all stress states","No test computes either.",[E+"stress.rs"],[("formulas",E+"stress.rs von_mises / to_cauchy")])
p("N02","Dense inverse and determinant agree with linear algebra",
  "The inverse of a nonsingular dense matrix times the matrix is the identity up to rounding, and determinants multiply.",
  ["inputs"],"all dense matrices","Fixed matrices only.",[M+"inverse.rs",M+"buffer.rs"],[("closed forms and elimination",M+"inverse.rs")])
p("N03","Line and triangle quadrature is exact to its order",
  "Numerical integration over a segment or triangle is exact for polynomials up to the rule's degree.",
  ["inputs"],"all polynomials of the degree","One integrand is tested.",[E+"integrate.rs"],[("tabulated rules",E+"integrate.rs")])
p("N04","Geometric predicates classify points consistently",
  "Orientation, in-circle, intersection and circumcentre predicates agree with exact geometry away from degeneracy.",
  ["inputs"],"all point tuples","A few fixed tuples.",["src/spatial/predicates.rs","src/spatial/mod.rs"],[("closed forms","src/spatial/predicates.rs")])
p("N05","Rasterisation and colour maps paint what the scene describes",
  "Lines and triangles cover the pixels of their geometric extent and colour maps send equal values to equal colours over the value range.",
  ["inputs"],"all scenes","Images are drawn, not inspected.",["src/visual/bresenham.rs","src/visual/fill.rs","src/visual/color.rs"],[("scan conversion","src/visual/bresenham.rs, fill.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

"""TECH: deciding method per property (MANIFEST).  BOUND: scope, bounds and abstractions per property (DESIGN.md)."""
NF = 'abstract interpretation to normal forms (value numbering, joins, loop summaries, resolved calls)'
TECH = {
    'P01': NF + '; membership of the generated/given name in the registry and the effect of the call compared with the specification',
    'P02': 'effect analysis at every raise/failing look-up reached by an operation; feasibility of completion with an unknown name or direction',
    'P03': 'effect analysis (may-change set) and normal form of every slot written by a definition operation',
    'P04': 'effect analysis of every public operation paired with the normal form of the solution mark on every path',
    'P05': NF + '; membership of a generic entry after deletion; symbolic heaps for merging and renaming',
    'P06': 'whole-package may-alias effect analysis with function summaries (escape and mutation of containers)',
    'A01': NF + '; symbolic scatter of the assemblers compared with a reference assembly',
    'A02': NF + '; symbolic scatter of the load vectors compared with a reference, also on load lists of definite length',
    'A03': NF + '; the contribution of a generic load in every consumer, and load lists of definite length',
    'A04': NF + '; reaching definitions of every stored displacement, order of steps on the control flow',
    'A05': NF + '; generic node index; membership condition of the index lists',
    'A06': NF + '; sum over elements per family compared with a reference',
    'A07': NF + '; each printed column compared with a reference sum',
    'A08': NF + '; the guard under which each step processes a combination, for symbolic tags',
    'A09': NF + '; the condition of the raise at a generic row',
    'A10': NF + '; transition written for a generic element, fixpoint test, loop structure (typestate of the iteration)',
    'A11': NF + '; state after the preparation step; must-precede rule over the analysis entry points',
    'E01': NF + '; polynomial identity with exact shape-function integrals',
    'E02': NF + '; polynomial identity with the work-equivalent reactions',
    'E03': NF + '; algebraic identity with the documented triad in every orientation case',
    'E04': NF + '; matrix-product identities',
    'E05': NF + '; every release pattern, rational identity with sequential elimination',
    'E06': NF + '; term-by-term differentiation of normal forms',
    'E07': NF + '; the values left on a generic segment, and a member with definite loads',
    'E08': NF + '; polynomial identity with exact integrals and constitutive laws',
    'R01': 'cache induction on normal forms (typestate of the diagram cache) and effect analysis of the analysis loop',
    'R02': NF + '; member with three symbolic segments, order ranks for the position of the query',
    'R03': NF + '; member with three symbolic parts, order ranks for the position of the query',
    'R04': 'transitive may-alias effect analysis of every read operation',
    'R05': NF + '; guarded forms under the assumption that the member is inactive',
    'D01': NF + '; symbolic parts, every order of nodes and loads along the member',
    'G01': NF + ' over a materialised model of definite mesh divisions with symbolic origin and properties; obligations on the resulting heap (connectivity, registration)',
    'G02': NF + '; symbolic elements and combinations, set of values under the extreme',
    'V01': NF + ' of contour values and of the arguments of drawing calls on a small symbolic mesh; provenance lint of every combination-dependent read in the renderers',
    'V02': 'static parsing of the report template and ' + NF + '; every cell expression interpreted against the methods of the package',
}
BOUND = {
    'P01': "Every `add_*` operation, for a symbolic name and a registry with symbolic contents; unique_name's loop is summarised. Mesh-generated names belong to G01.",
    'P02': "For each argument that names an object: a symbolic name assumed absent from the collection; for each argument that chooses a direction: a symbolic string assumed different from every documented value. The state at each raise (also of a failing dictionary look-up) is inspected for changes to the model.",
    'P03': "Each operation with each documented direction or degree of freedom; all other arguments symbolic; both the given and the omitted form of optional arguments. The set of slots written must be exactly the expected one.",
    'P04': "All public methods of FEModel3D (found in the source, so a new one is included) with symbolic arguments. Renaming keeps the mark (documented). Generating a mesh by hand on a solved model and direct edits of attributes are outside.",
    'P05': "Deletions: symbolic collections of any size (membership of a generic entry). Merging and renaming: symbolic heaps of a few objects each carrying one attachment in turn (any values). delete_node does not touch mesh dictionaries (not claimed).",
    'P06': "Flow-insensitive, so it also covers code that no test reaches. Visualisation modules are covered with the same rule.",
    'A01': "Any number of elements (sums over symbolic collections); the dense and the sparse path, K, Kg and Km.",
    'A02': "Any number of loads and elements. In addition definite load lists (two cases in the combination, one outside), which stay decided when a loop cannot be summed.",
    'A03': "Members (point/distributed, each direction), plates, quads, nodes, diagrams. 'At most once' follows from comparing sums.",
    'A04': "analyze, analyze_linear, analyze_PDelta; sparse and dense; with and without free/known degrees of freedom. That the second-order iteration converges is N01; the approximations inside it (separate condensation of kg) are the tool's.",
    'A05': "A generic node and each degree of freedom; the condition for being known is compared as a boolean normal form.",
    'A06': "Any number of elements at the node; each of six directions; elements whose i-, j-, m- or n-end is the node.",
    'A07': "The sums are compared per element family; wording and layout of the printed table are free.",
    'A08': "Symbolic tags. The condition is compared as a normal form, so any equivalent formulation is accepted.",
    'A09': "A generic row 6n+k of a symbolic matrix; isclose(.,0) is identified with equality.",
    'A10': "One generic element of each kind; activity of support springs is stored per node instead of per combination (known finding).",
    'A11': "All three analyses. The convergence test is the only step that fills diagram caches (with R01).",
    'E01': "Polynomial identity in E, G, A, I, J, L, P (lengths non-zero).",
    'E02': "Polynomial identity in position, load and length; real arithmetic.",
    'E03': "Orientation cases: general, horizontal, vertical up/down, with rotation and auxiliary node; corner nodes distinct.",
    'E04': "Products of symbolic matrices; uses orthogonality from E03.",
    'E05': "All release patterns of a 12 x 12 matrix with symbolic entries are covered in groups (single, all pairs, full planes); the condensation is compared with sequential elimination.",
    'E06': "Derivatives of normal forms; extremes as the set of candidate points (roots of the shear polynomial and the ends). Second-order extremes are taken at first-order candidates (tool's approximation, not claimed).",
    'E07': "Generic segment between two discontinuities; plus a member of definite length with given load positions so that every ordering of discontinuities in that instance is decided.",
    'E08': "The bending matrix of the plate against the exact integral of the 12-term polynomial; the quad (DKMQ) against an independent transcription of the formulation; accuracy of DKMQ is N02. `local=False` results are not claimed (Plate3D ignores the argument).",
    'R01': "Induction over queries: a query leaves a state of its own combination; a query asked in any such state answers like a fresh member.",
    'R02': "Three symbolic segments, position inside each and at each boundary (at a boundary either neighbour's value is accepted). Deflection extremes are sampled by the tool (ends included, gap <= L/20 is required).",
    'R03': "One and three symbolic parts. The except-IndexError branch of _extract_vector_results is not modelled.",
    'R04': "Whole package, including Rendering, Visualization and Reporting; writes through aliases are followed.",
    'R05': "f()/F() of an inactive member are not part of the statement (documented TODO in the code).",
    'D01': "0, 1 and 2 interior nodes in any order with nodes aside, before and beyond; every order of a distributed load's ends among the nodes; zero-length loads ignored.",
    'G01': "Ten rectangles (in three planes, both element kinds, with control lines, aligned, off-grid and overlapping openings), annuli, frustra and cylinders of several divisions about the three axes, with transitions; each with a symbolic origin (or a definite one away from zero), thickness, modifiers and material, in an empty model and in one whose names are in use; three meshes in one model in two orders, regeneration, generation by an analysis, default values. Mesh divisions are bounded: sizes beyond these are not covered. Degenerate annuli (less than one element across or around) are not claimed.",
    'G02': "One, two and four elements of either kind, one and two combinations, symbolic values.",
    'V01': "Meshes of two and four elements sharing nodes, symbolic results; local components (global 'QX', 'MX' are not claimed). The provenance lint covers every call and subscript in both modules.",
    'V02': "Two objects of each kind and two combinations, symbolic values. Number formats need at least three significant digits; wording and layout are free. Template constructs outside loops, conditions, assignments and output are undecided.",
}
LEVEL = {}
